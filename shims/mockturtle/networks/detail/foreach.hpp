// Stand-in for mockturtle/networks/detail/foreach.hpp.
#pragma once
#include <cassert>
#include <cstdint>
#include <iterator>
#include <type_traits>
#include <utility>
namespace mockturtle::detail
{
template <class Fn, class ElementType, class ReturnType>
inline constexpr bool is_callable_with_index_v = std::is_invocable_r_v<ReturnType, Fn&, ElementType, uint32_t>;
template <class Fn, class ElementType, class ReturnType>
inline constexpr bool is_callable_without_index_v = std::is_invocable_r_v<ReturnType, Fn&, ElementType>;

// true = go on
template <class ElementType, class Fn, class V>
inline bool call_fn(Fn& fn, V&& v, uint32_t index)
{
    if constexpr (std::is_invocable_v<Fn&, ElementType>)
    {
        if constexpr (std::is_same_v<std::invoke_result_t<Fn&, ElementType>, bool>)
        {
            return fn(std::forward<V>(v));
        }
        else
        {
            fn(std::forward<V>(v));
            return true;
        }
    }
    else
    {
        static_assert(std::is_invocable_v<Fn&, ElementType, uint32_t>, "functor is not callable");
        if constexpr (std::is_same_v<std::invoke_result_t<Fn&, ElementType, uint32_t>, bool>)
        {
            return fn(std::forward<V>(v), index);
        }
        else
        {
            fn(std::forward<V>(v), index);
            return true;
        }
    }
}
template <class Iterator, class ElementType = typename std::iterator_traits<Iterator>::value_type, class Fn>
inline Iterator foreach_element(Iterator begin, Iterator end, Fn&& fn, uint32_t counter_offset = 0)
{
    uint32_t index{counter_offset};
    for (; begin != end; ++begin)
    {
        if (!call_fn<ElementType>(fn, *begin, index++))
        {
            return begin;
        }
    }
    return end;
}
template <class Iterator, class ElementType = typename std::iterator_traits<Iterator>::value_type, class Pred, class Fn>
inline Iterator foreach_element_if(Iterator begin, Iterator end, Pred&& pred, Fn&& fn, uint32_t counter_offset = 0)
{
    uint32_t index{counter_offset};
    for (; begin != end; ++begin)
    {
        if (!pred(*begin))
        {
            continue;
        }
        if (!call_fn<ElementType>(fn, *begin, index++))
        {
            return begin;
        }
    }
    return end;
}
template <class Iterator, class ElementType, class Transform, class Fn>
inline Iterator foreach_element_transform(Iterator begin, Iterator end, Transform&& transform, Fn&& fn,
                                          uint32_t counter_offset = 0)
{
    uint32_t index{counter_offset};
    for (; begin != end; ++begin)
    {
        if (!call_fn<ElementType>(fn, transform(*begin), index++))
        {
            return begin;
        }
    }
    return end;
}
}  // namespace mockturtle::detail
