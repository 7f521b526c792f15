# writes /verif/properties.jsonl (kept as a script so that the file is always valid JSON)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p('C01','QIS population is honest about its size, sign and fit',
  'For every set of marginals that quasirandom integer sampling (qis) accepts, the returned table has one dimension per problem dimension in order, contains only non-negative integers, and its entries add up to exactly the population of the marginals. The convergence flag is true if and only if, for every supplied marginal, summing the returned table over the other dimensions reproduces that marginal exactly.',
  ['inputs'],'all index lists and integer marginals that the call accepts, all skip values, any number of dimensions and overlaps',
  'Tests check a handful of fixed problems (2 to 12 dimensions) with known answers; the flag and the totals must agree for every marginal set, including those where sampling runs a cell negative.',
  ['src/QIS.cpp','src/QIS.h','src/Microsynthesis.h','src/Index.cpp','src/NDArray.h'],
  [('sampling loop: every drawn cell is added to the population and taken off every marginal','src/QIS.cpp solve_m'),
   ('flag cleared when a marginal entry is driven negative','src/QIS.cpp solve_m'),
   ('index mappings from the table to each marginal','src/Index.cpp MappedIndex')],
  ['python humanleague.qis','R qis'])
p('C02','QIS always succeeds exactly when marginals do not overlap',
  'When no dimension appears in more than one marginal, qis never fails and always reports convergence: every marginal is reproduced exactly by the returned table. This includes marginals with zero entries, of any dimensionality, and every skip value.',
  ['inputs'],'all consistent sets of pairwise disjoint marginals with positive population and all skip values',
  'Tests cover few disjoint sets; that each draw lands in a marginal cell that still has population must hold at every step of every run.',
  ['src/QIS.cpp','src/NDArrayUtils.h','src/Index.cpp'],
  [('weighted pick never selects an empty entry','src/QIS.cpp pick'),
   ('conditional sampling of a marginal by successive reduction and slicing','src/QIS.cpp recursive_sample, sample'),
   ('slicing and reduction','src/NDArrayUtils.h slice, reduce')],
  ['python humanleague.qis','R qis'])
p('C03','QISI population is honest about its size, sign and fit',
  'For every seed and marginals that quasirandom sampling from an IPF solution (qisi) solves without raising an error, the returned table has the shape of the seed, contains only non-negative integers that add up to exactly the population. The convergence flag is true if and only if every supplied marginal is reproduced exactly by the returned table.',
  ['inputs'],'all seeds, index lists, integer marginals and skips for which the call returns',
  'Tests check a handful of fixed problems; sampling repeatedly recomputes the underlying solution and the accounting must be right on every such history.',
  ['src/QISI.cpp','src/QISI.h','src/Microsynthesis.h','src/IPF.h'],
  [('sampling loop','src/QISI.cpp solve'),('recomputation leaves the remaining marginals untouched','src/QISI.cpp recomputeIPF')],
  ['python humanleague.qisi','R qisi'])
p('C04','IPF convergence verdict and maximum error tell the truth',
  'ipf reports as its maximum error the largest absolute difference between any entry of any supplied marginal and the corresponding sum of the returned table, and reports convergence if and only if that error is below its 1e-8 tolerance. A table containing NaN or infinite sums is never reported as converged, and at most 1000 iterations are performed.',
  ['inputs'],'all seeds (including zeros, NaN and infinities) and all consistent marginals',
  'Tests only see problems that converge; the verdict must also be right where iteration cannot converge (structural zeros) or the arithmetic breaks down.',
  ['src/IPF.h','src/Microsynthesis.h','src/NDArrayUtils.h'],
  [('error computation over all marginals and entries','src/IPF.h computeErrors'),('difference between reduced table and marginals','src/Microsynthesis.h rDiff'),('iteration control','src/IPF.h solve')],
  ['python humanleague.ipf','R ipf'])
p('C05','IPF only rescales the seed, one factor per marginal entry',
  'The table returned by ipf is the seed multiplied, cell by cell, by factors that depend only on the cell\'s position within each supplied marginal, all cells sharing a marginal entry being scaled alike at every step and the last marginal supplied being fitted last. In particular a cell that is zero in the seed is zero in the result, a non-negative seed gives a non-negative result, and every interaction (odds ratio) of the seed not covered by the marginals is preserved.',
  ['inputs'],'all non-negative seeds and consistent marginals, any dimensionality and index order',
  'Tests compare a few known solutions; the exactly-once scaling of each cell depends on nested index mappings that must cover the table for every shape and index order.',
  ['src/Microsynthesis.h','src/Index.cpp','src/IPF.h'],
  [('scaling step over mapped indices','src/Microsynthesis.h rScale'),('complement of the marginal dimensions','src/Microsynthesis.h invert'),('mapped index increments','src/Index.cpp MappedIndex')],
  ['python humanleague.ipf','R ipf'])
p('C06','Ill-posed problems are rejected with an exception',
  'ipf, qis and qisi raise an exception, instead of returning a table, crashing or hanging, whenever the problem is ill-posed: fewer than two marginals or dimensions, an index list that does not match its marginal\'s number of dimensions or that repeats a dimension, dimensions numbered with gaps or given different sizes by different marginals, a negative marginal entry, marginals with different (rounded) totals, disagreeing partial sums in a shared dimension, or a seed whose shape differs from that implied by the marginals.',
  ['inputs'],'all index lists, marginals and seeds',
  'Tests sample one instance of some of the error classes; each class must be detected wherever in the lists the inconsistency sits.',
  ['src/Microsynthesis.h','src/IPF.h','src/QISI.cpp','src/module.cpp'],
  [('validation in the constructor','src/Microsynthesis.h Microsynthesis'),('marginal and partial sum checks','src/Microsynthesis.h createMappings'),('seed shape checks','src/IPF.h solve, src/QISI.cpp solve')],
  ['python humanleague.ipf, qis, qisi','R ipf, qis, qisi'])
p('C07','One-dimensional integerisation is exact in total and optimal',
  'Integerising a non-negative distribution with a given non-negative population returns non-negative integers that add up to exactly that population, each entry being the expected value rounded down or up, with the largest remainders rounded up, so that no other integer allocation has a smaller squared error. The reported rmse is the root mean square difference between the returned integers and the expected values, and invalid input (negative entries, no positive total, NaN) raises an exception.',
  ['inputs'],'all finite lists of weights and all populations',
  'Tests check a few lists; exact totals and optimality are universally quantified over weights and populations, including exact ties and remainders lost to rounding.',
  ['src/Integerise.cpp','src/module.cpp','src/rcpp_api.cpp'],
  [('floor then repeatedly increment the largest remainder','src/Integerise.cpp integeriseMarginalDistribution'),('normalisation','src/module.cpp integerise1d')],
  ['python humanleague.integerise','R prob2IntFreq'])
p('C08','Multidimensional integerisation keeps integral marginals',
  'Integerising a table of two or more dimensions raises an exception unless its total and all its one-dimensional sums are integers (to within 1e-4), and any table it returns otherwise has the same shape, non-negative integer entries and the same (rounded) total. When it reports convergence, every one-dimensional sum of the result equals the corresponding rounded sum of the input, and the reported rmse is the root mean square difference between the two tables.',
  ['inputs'],'all real tables of two or more dimensions',
  'Tests check three tables; the check on each sum and the preservation must hold in every dimension of every table.',
  ['src/Integerise.cpp','src/QISI.cpp'],
  [('checked rounding of every one-dimensional sum','src/Integerise.cpp Integeriser'),('sampling with the rounded sums as marginals','src/QISI.cpp solve')],
  ['python humanleague.integerise','R integerise'])
p('C09','Flattening a table lists every individual exactly once, in order',
  'Flattening an integer table of non-negative counts (every dimension having at least one category) returns one list per dimension, each with one entry per individual, such that individual number i belongs to the same cell in all lists and the individuals of each cell occupy exactly as many consecutive positions as the count in that cell, cells being taken in row-major order. A table containing a negative count is rejected with an exception.',
  ['inputs'],'all integer tables of any shape',
  'Tests check one or two small tables; the position bookkeeping must be exact for every shape and count, and stay inside the allocated lists.',
  ['src/NDArrayUtils.h','src/module.cpp','src/rcpp_api.cpp'],
  [('expansion of counts','src/NDArrayUtils.h listify'),('row-major iteration','src/Index.cpp Index::operator++')],
  ['python humanleague.flatten','R flatten'])
p('C10','Sobol sequences are well-formed, distinct and stratified in every dimension',
  'Every coordinate of a Sobol point lies in [0,1), and in each dimension the points number 1 to 2^k-1 of an unskipped sequence visit every non-zero multiple of 2^-k exactly once, for every k up to 32 and every dimension up to 1111. Each successive point is a function only of the dimension and its position in the sequence.',
  ['inputs','histories'],'all supported dimensions and all positions in the sequence',
  'Tests compare a few leading points in up to 4 dimensions; the guarantee concerns 1111 tabulated polynomials and 2^32 points.',
  ['src/SobolImpl.cpp','src/SobolData.h','src/Sobol.cpp','src/module.cpp'],
  [('gray-code update','src/SobolImpl.cpp sobol_gen'),('direction number recurrence','src/SobolImpl.cpp sobol_init'),('tables','src/SobolData.h')],
  ['python SobolSequence','R sobolSequence'])
p('C11','Sobol skipping is bounded, exact and terminates',
  'Constructing a Sobol generator with a positive skip value n discards exactly the largest power of two smaller than n points (one point when n is 1 or 2) and then continues the same sequence, for every n up to 2^32-1, and always terminates. Dimensions outside 1 to 1111 are rejected with an exception, and requests beyond the last point end the iteration instead of returning a value.',
  ['inputs','histories'],'all 32-bit skip values and all dimensions',
  'Tests use two small skips; termination and exactness must hold over the whole 32-bit range.',
  ['src/SobolImpl.cpp','src/Sobol.cpp','src/module.cpp'],
  [('skip loop','src/SobolImpl.cpp nlopt_sobol_skip'),('dimension check','src/Sobol.cpp Sobol'),('limit check','src/SobolImpl.cpp sobol_gen')],
  ['python SobolSequence','R sobolSequence'])
p('C12','Reported expectations are the independence table and the IPF table',
  'The expectation reported by qis is, in every cell, proportional to the product of the marginal entries the cell belongs to, with one constant of proportionality for the whole table chosen so that the table sums to the population. The expectation reported by qisi is the table ipf returns for the same seed and marginals.',
  ['inputs'],'all consistent marginals and seeds',
  'Tests check one expectation table; every cell of every problem has to be right, independently of the sampling that follows.',
  ['src/QIS.cpp','src/QISI.cpp','src/NDArray.h'],
  [('product of marginal entries','src/QIS.cpp computeStateValues'),('scaling','src/QIS.cpp QIS'),('copy of the IPF solution before sampling','src/QISI.cpp solve')],
  ['python humanleague.qis, qisi'])
p('C13','Fit statistics are computed over every state of the table',
  'The chi-squared statistic reported by qis and qisi is the sum over all cells of (count - expectation)^2 / expectation, a cell with zero count and zero expectation contributing nothing. The degeneracy reported by qis is S!/((n_1+1)!...(n_S+1)!) over the S cells of the same table with counts n_i, and neither statistic depends on the order of dimensions\' storage or alters the returned table.',
  ['inputs'],'all results of qis and qisi',
  'Tests check the statistics of one or two tables without empty cells; every cell must be counted exactly once for every shape.',
  ['src/StatFuncs.h','src/StatFuncs.cpp','src/QIS.cpp','src/QISI.cpp'],
  [('chi-squared','src/StatFuncs.h chiSq'),('degeneracy and degrees of freedom','src/StatFuncs.h, src/StatFuncs.cpp')],
  ['python humanleague.qis, qisi'])
p('C14','Results depend only on the logical value of the arguments',
  'Every Python function gives the same result for arrays that are equal element by element, whatever their memory layout (slices, transposes, Fortran order, negative strides), element type (integer or floating point holding the same numbers) or container (lists or arrays). No function modifies its arguments, and results remain valid independently of the arguments\' lifetime.',
  ['inputs'],'all array-like arguments of all Python functions',
  'Tests only pass freshly created contiguous arrays of the expected type.',
  ['src/module.cpp'],
  [('conversion of arrays','src/module.cpp toNDArray, asNDArray, toVector')],
  ['python humanleague.*'])
p('C15','Column-major R arrays and one-based indices are mapped consistently',
  'The R functions map element [i1,...,in] of every R array to element (i1-1,...,in-1) of the internal table and back, and dimension index d to d-1, for all shapes, so that R and Python give the same answers to the same problem. Flattening in R gives one-based categories.',
  ['inputs'],'all R arrays of any number of dimensions and all index lists',
  'R tests use a few shapes, several of them symmetric; the mapping is a bijection that must hold for every shape.',
  ['src/rcpp_api.cpp','src/Index.cpp','src/NDArray.h'],
  [('column-major copy in','src/rcpp_api.cpp convertArray'),('column-major copy out','src/rcpp_api.cpp'),('transposed iteration','src/Index.cpp TransposedIndex')],
  ['R ipf, qis, qisi, integerise, flatten'])
p('C16','Reported p-values are chi-squared tail probabilities',
  'The p-value reported by qis and qisi is the upper tail probability, at the reported chi-squared statistic, of the chi-squared distribution with the degrees of freedom of the table. It lies between 0 and 1 and does not increase with the statistic.',
  ['inputs'],'all statistics and degrees of freedom',
  'Tests check a small set of tabulated values.',
  ['src/StatFuncs.cpp'],
  [('incomplete gamma function','src/StatFuncs.cpp gamain, pValue')],
  ['python humanleague.qis, qisi'])
p('C17','Reductions and slices of a table are exact and stay inside it',
  'Reducing a table onto any subset of its dimensions, in any order, gives for each combination of the kept categories the sum over exactly the cells having those categories, each cell counted once; fixing some dimensions gives exactly the cells with those categories, in order. No such operation, for any shape, kept or fixed dimensions, reads or writes outside the table, and invalid dimensions or categories are rejected.',
  ['inputs'],'all shapes, all lists of distinct kept or fixed dimensions',
  'Unit tests check a few small shapes, mostly reducing a single dimension; every algorithm in the library rests on these operations for arbitrary shapes.',
  ['src/NDArrayUtils.h','src/NDArray.h','src/Index.cpp'],
  [('row-major offsets','src/NDArray.h computeOffsets, offset'),('full, mapped and fixed iteration','src/Index.cpp'),('reduce and slice','src/NDArrayUtils.h')],
  ['C++ reduce, slice','python ipf, qis, qisi (marginal sums)'])
p('C18','Calls are pure: no hidden state survives between them',
  'Calling any function twice with equal arguments gives equal results whatever calls were made in between, and independent Sobol generators never influence each other. A generator\'s output depends only on its construction arguments and how many points have been drawn from it.',
  ['histories'],'all sequences of API calls in one process',
  'Tests make each call in one fixed order and never interleave generators.',
  ['src/Sobol.cpp','src/SobolImpl.cpp','src/QIS.cpp','src/QISI.cpp','src/IPF.h','src/Integerise.cpp','src/Microsynthesis.h'],
  [('no mutable global or static state; every solver owns its generator and tables','all of src')],
  ['python humanleague.*'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
