// Instantiates the templates of /repo whose definitions would otherwise only be generated inside the language bindings.
#include "IPF.h"
#include "NDArrayUtils.h"
#include "StatFuncs.h"
template class IPF<double>;
template class IPF<int64_t>;
template class NDArray<int64_t>;
template class NDArray<double>;
template std::vector<std::vector<int>> listify(const size_t, const NDArray<int64_t>&, int);
template int64_t min(const NDArray<int64_t>&);
template double min(const NDArray<double>&);
template int64_t sum(const NDArray<int64_t>&);
template double sum(const NDArray<double>&);
template std::vector<int64_t> reduce(const NDArray<int64_t>&, size_t);
template std::vector<double> reduce(const NDArray<double>&, size_t);
template NDArray<int64_t> reduce(const NDArray<int64_t>&, const std::vector<int64_t>&);
template NDArray<double> reduce(const NDArray<double>&, const std::vector<int64_t>&);
template NDArray<int64_t> slice(const NDArray<int64_t>&, const std::vector<std::pair<int64_t, int64_t>>&);
template NDArray<double> slice(const NDArray<double>&, const std::vector<std::pair<int64_t, int64_t>>&);
template NDArray<int64_t> slice(const NDArray<int64_t>&, std::pair<int64_t, int64_t>);
template NDArray<double> slice(const NDArray<double>&, std::pair<int64_t, int64_t>);
template void diff(const NDArray<double>&, const NDArray<double>&, NDArray<double>&);
template void diff(const NDArray<double>&, const NDArray<int64_t>&, NDArray<double>&);
template double chiSq(const NDArray<int64_t>&, const NDArray<double>&);
