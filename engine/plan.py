"""Which functions under contract decide which property (their callees under contract are added transitively)."""
import frames, sobolproof
IDX = ['Index::Index(std::vector<long> const&)', 'Index::operator++()', 'TransposedIndex::operator++()', 'MappedIndex::MappedIndex(Index const&, std::vector<long> const&)',
       'MappedIndex::operator++()', 'FixedIndex::FixedIndex(std::vector<long> const&, std::vector<std::pair<long, long>> const&)', 'FixedIndex::operator++()']


def nd(t, *ms):
    return [f'NDArray<{t}>::{m}'.replace('@', t) for m in ms]


ND = ['operator[](std::vector<long> const&)', 'operator[](std::vector<long> const&) const', 'operator[](std::vector<long*> const&)', 'operator[](std::vector<long*> const&) const',
      'computeOffsets()', 'resize(std::vector<long> const&)', 'NDArray(std::vector<long> const&)', 'NDArray(std::vector<long> const&, @*)', 'NDArray()', 'assign(@) const',
      'copy(NDArray<@> const&, NDArray<@>&)', 'NDArray(NDArray<@>&&)']
def two(*names):
    return [n.replace('@', t) for n in names for t in ('long', 'double')]


SOBOL = [f'Sobol::{m}' for m in ('Sobol(ulong, uint)', 'buf()', 'operator()()', 'skip(uint)')]
PLAN = dict(
    C17=IDX + nd('long', *ND) + nd('double', *ND) + two('std::vector<@> reduce<@>(NDArray<@> const&, ulong)', 'NDArray<@> reduce<@>(NDArray<@> const&, std::vector<long> const&)',
                                                         'NDArray<@> slice<@>(NDArray<@> const&, std::vector<std::pair<long, long>> const&)'),
    C18=['*frames'],
    C13=['double chiSq<long, double>(NDArray<long> const&, NDArray<double> const&)', 'degeneracy(NDArray<long> const&)'],
    C04=[f'Microsynthesis<double, {t}>::rDiff(std::vector<NDArray<double>>&)' for t in ('double', 'long')],
    C08=['std::vector<double> reduce<double>(NDArray<double> const&, ulong)', 'double sum<double>(NDArray<double> const&)'],
    C10=SOBOL + ['*sobol-lemmas', '*nlopt_sobol_create', '*nlopt_sobol_next'],
    C11=SOBOL + ['*nlopt_sobol_create', '*nlopt_sobol_next', '*nlopt_sobol_skip', '*sobol-lemmas'],
    C09=['std::vector<std::vector<int>> listify<long>(ulong, NDArray<long> const&, int)', 'long min<long>(NDArray<long> const&)'],
)
SPECIAL = {'*frames': frames.run, **sobolproof.TASKS}
