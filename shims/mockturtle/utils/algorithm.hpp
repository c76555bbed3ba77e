// Stand-in for mockturtle/utils/algorithm.hpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <vector>
namespace mockturtle
{
template <class Iterator, class T, class Op>
T tree_reduce(Iterator first, Iterator last, T const& init, Op&& op)
{
    const auto len = std::distance(first, last);
    switch (len)
    {
        case 0: return init;
        case 1: return *first;
        case 2: return op(*first, *(first + 1));
        default:
        {
            const auto m = len / 2;
            return op(tree_reduce(first, first + m, init, op), tree_reduce(first + m, last, init, op));
        }
    }
}
template <class T>
class range
{
  public:
    struct iterator
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type        = T;
        using difference_type   = std::ptrdiff_t;
        using pointer           = const T*;
        using reference         = T;
        T         v{};
        T         operator*() const { return v; }
        iterator& operator++()
        {
            ++v;
            return *this;
        }
        iterator operator++(int)
        {
            auto c = *this;
            ++v;
            return c;
        }
        bool operator==(const iterator& o) const { return v == o.v; }
        bool operator!=(const iterator& o) const { return v != o.v; }
        iterator operator+(T d) const { return iterator{static_cast<T>(v + d)}; }
    };
    range(T b, T e) : b_{b}, e_{e} {}
    explicit range(T e) : range(T{}, e) {}
    [[nodiscard]] iterator begin() const { return iterator{b_}; }
    [[nodiscard]] iterator end() const { return iterator{e_ < b_ ? b_ : e_}; }

  private:
    T b_, e_;
};
}  // namespace mockturtle
