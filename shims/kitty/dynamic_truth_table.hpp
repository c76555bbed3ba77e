// Stand-in for kitty (not installed in this sandbox): dynamic truth tables with kitty's documented semantics.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cctype>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
namespace kitty
{
struct dynamic_truth_table
{
    explicit dynamic_truth_table(uint32_t num_vars) :
            _bits(num_vars <= 6 ? 1u : (std::size_t{1} << (num_vars - 6)), 0u),
            _num_vars(num_vars)
    {}
    dynamic_truth_table() : _bits(), _num_vars(0) {}

    [[nodiscard]] dynamic_truth_table construct() const { return dynamic_truth_table(_num_vars); }
    [[nodiscard]] uint32_t            num_vars() const noexcept { return _num_vars; }
    [[nodiscard]] std::size_t         num_blocks() const noexcept { return _bits.size(); }
    [[nodiscard]] std::size_t         num_bits() const noexcept { return std::size_t{1} << _num_vars; }
    auto                              begin() noexcept { return _bits.begin(); }
    auto                              end() noexcept { return _bits.end(); }
    [[nodiscard]] auto                begin() const noexcept { return _bits.begin(); }
    [[nodiscard]] auto                end() const noexcept { return _bits.end(); }
    [[nodiscard]] auto                cbegin() const noexcept { return _bits.cbegin(); }
    [[nodiscard]] auto                cend() const noexcept { return _bits.cend(); }
    void                              mask_bits() noexcept
    {
        if (_num_vars < 6 && !_bits.empty())
        {
            _bits[0] &= (uint64_t{1} << (uint64_t{1} << _num_vars)) - 1u;
        }
    }

    std::vector<uint64_t> _bits;
    uint32_t              _num_vars;
};
template <typename T>
struct is_truth_table : std::false_type
{};
template <>
struct is_truth_table<dynamic_truth_table> : std::true_type
{};
template <typename T>
inline constexpr bool is_truth_table_v = is_truth_table<T>::value;

template <typename TT, typename = std::enable_if_t<is_truth_table<TT>::value>>
inline bool operator==(const TT& a, const TT& b)
{
    return a._num_vars == b._num_vars && a._bits == b._bits;
}
template <typename TT, typename = std::enable_if_t<is_truth_table<TT>::value>>
inline bool operator!=(const TT& a, const TT& b)
{
    return !(a == b);
}
template <typename TT, typename = std::enable_if_t<is_truth_table<TT>::value>>
inline bool operator<(const TT& a, const TT& b)
{
    return std::lexicographical_compare(a._bits.rbegin(), a._bits.rend(), b._bits.rbegin(), b._bits.rend());
}
template <typename TT, typename = std::enable_if_t<is_truth_table<TT>::value>>
inline bool equal(const TT& a, const TT& b)
{
    return a == b;
}
namespace shim
{
template <typename Op>
inline dynamic_truth_table bin(const dynamic_truth_table& a, const dynamic_truth_table& b, Op&& op)
{
    assert(a._num_vars == b._num_vars);
    auto r = a.construct();
    for (std::size_t i = 0; i < a._bits.size(); ++i)
    {
        r._bits[i] = op(a._bits[i], b._bits[i]);
    }
    r.mask_bits();
    return r;
}
}  // namespace shim
inline dynamic_truth_table operator~(const dynamic_truth_table& a)
{
    auto r = a;
    for (auto& w : r._bits)
    {
        w = ~w;
    }
    r.mask_bits();
    return r;
}
inline dynamic_truth_table unary_not(const dynamic_truth_table& a) { return ~a; }
inline dynamic_truth_table unary_not_if(const dynamic_truth_table& a, bool c) { return c ? ~a : a; }
inline dynamic_truth_table operator&(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return shim::bin(a, b, std::bit_and<>{});
}
inline dynamic_truth_table operator|(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return shim::bin(a, b, std::bit_or<>{});
}
inline dynamic_truth_table operator^(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return shim::bin(a, b, std::bit_xor<>{});
}
inline dynamic_truth_table& operator&=(dynamic_truth_table& a, const dynamic_truth_table& b) { return a = a & b; }
inline dynamic_truth_table& operator|=(dynamic_truth_table& a, const dynamic_truth_table& b) { return a = a | b; }
inline dynamic_truth_table& operator^=(dynamic_truth_table& a, const dynamic_truth_table& b) { return a = a ^ b; }
inline dynamic_truth_table  ternary_majority(const dynamic_truth_table& a, const dynamic_truth_table& b,
                                             const dynamic_truth_table& c)
{
    return (a & b) | (a & c) | (b & c);
}
inline dynamic_truth_table ternary_ite(const dynamic_truth_table& a, const dynamic_truth_table& b,
                                       const dynamic_truth_table& c)
{
    return (a & b) | (~a & c);
}
inline uint64_t get_bit(const dynamic_truth_table& t, uint64_t i) { return (t._bits[i >> 6] >> (i & 63)) & 1u; }
inline void     set_bit(dynamic_truth_table& t, uint64_t i) { t._bits[i >> 6] |= uint64_t{1} << (i & 63); }
inline void     clear_bit(dynamic_truth_table& t, uint64_t i) { t._bits[i >> 6] &= ~(uint64_t{1} << (i & 63)); }
inline void     flip_bit(dynamic_truth_table& t, uint64_t i) { t._bits[i >> 6] ^= uint64_t{1} << (i & 63); }
inline void     clear(dynamic_truth_table& t) { std::fill(t._bits.begin(), t._bits.end(), 0u); }
inline uint64_t count_ones(const dynamic_truth_table& t)
{
    uint64_t c = 0;
    for (auto w : t._bits)
    {
        c += static_cast<uint64_t>(__builtin_popcountll(w));
    }
    return c;
}
inline bool is_const0(const dynamic_truth_table& t)
{
    return std::all_of(t._bits.begin(), t._bits.end(), [](auto w) { return w == 0u; });
}
inline void create_nth_var(dynamic_truth_table& t, uint8_t v, bool complement = false)
{
    for (uint64_t i = 0; i < t.num_bits(); ++i)
    {
        if ((((i >> v) & 1u) != 0u) != complement)
        {
            set_bit(t, i);
        }
        else
        {
            clear_bit(t, i);
        }
    }
}
template <typename It>
inline void create_from_words(dynamic_truth_table& t, It b, It e)
{
    std::size_t i = 0;
    clear(t);
    for (; b != e && i < t._bits.size(); ++b, ++i)
    {
        t._bits[i] = static_cast<uint64_t>(*b);
    }
    t.mask_bits();
}
inline void create_from_binary_string(dynamic_truth_table& t, const std::string& s)
{
    assert(s.size() == t.num_bits());
    clear(t);
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        if (s[s.size() - 1 - i] == '1')
        {
            set_bit(t, i);
        }
    }
}
namespace detail
{
// kitty maps every unknown character through a small table; only hex digits are valid input
inline uint64_t hex_to_int(char c)
{
    if (c >= '0' && c <= '9')
    {
        return static_cast<uint64_t>(c - '0');
    }
    if (c >= 'a' && c <= 'f')
    {
        return static_cast<uint64_t>(c - 'a' + 10);
    }
    if (c >= 'A' && c <= 'F')
    {
        return static_cast<uint64_t>(c - 'A' + 10);
    }
    return 0;
}
}  // namespace detail
inline void create_from_hex_string(dynamic_truth_table& t, const std::string& s)
{
    clear(t);
    if (t.num_vars() < 2)
    {
        if (s.size() == 1)
        {
            t._bits[0] = detail::hex_to_int(s[0]);
            t.mask_bits();
        }
        return;
    }
    assert(s.size() << 2u == t.num_bits());
    for (std::size_t i = 0; i < s.size() && i * 4 < t.num_bits(); ++i)
    {
        const auto d = detail::hex_to_int(s[s.size() - 1 - i]);
        t._bits[(i * 4) >> 6] |= d << ((i * 4) & 63);
    }
}
inline void print_hex(const dynamic_truth_table& t, std::ostream& os = std::cout)
{
    const std::size_t n = t.num_vars() <= 2 ? 1 : (t.num_bits() >> 2);
    for (std::size_t i = n; i-- > 0;)
    {
        os << "0123456789abcdef"[(t._bits[(i * 4) >> 6] >> ((i * 4) & 63)) & 0xf];
    }
}
inline void print_binary(const dynamic_truth_table& t, std::ostream& os = std::cout)
{
    for (std::size_t i = t.num_bits(); i-- > 0;)
    {
        os << (get_bit(t, i) != 0u ? '1' : '0');
    }
}
inline std::string to_hex(const dynamic_truth_table& t)
{
    std::stringstream s;
    print_hex(t, s);
    return s.str();
}
inline std::string to_binary(const dynamic_truth_table& t)
{
    std::stringstream s;
    print_binary(t, s);
    return s.str();
}
template <typename TT>
struct hash
{
    std::size_t operator()(const TT& t) const
    {
        std::size_t seed = t._num_vars;
        for (auto w : t._bits)
        {
            seed ^= std::hash<uint64_t>{}(w) + 0x9e3779b9 + (seed << 6) + (seed >> 2);
        }
        return seed;
    }
};
}  // namespace kitty
