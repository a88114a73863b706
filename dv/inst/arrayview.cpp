// instantiations only: the text verified is /repo/include/arrayview.hpp
#include <cassert>
#include <arrayview.hpp>
namespace blasted {
template class ArrayView<int>;
template class ArrayView<double>;
template ArrayView<const int> move_to_const(ArrayView<int>&& array);
template ArrayView<const double> move_to_const(ArrayView<double>&& array);
template ArrayView<const int>::ArrayView(ArrayView<const int>&&);
template ArrayView<const double>::ArrayView(ArrayView<const double>&&);
template ArrayView<const int>::~ArrayView();
template ArrayView<const double>::~ArrayView();
template void ArrayView<const int>::wrap(const int *const, const int);
template void ArrayView<const double>::wrap(const double *const, const int);
template void ArrayView<const int>::resize(const int);
}
