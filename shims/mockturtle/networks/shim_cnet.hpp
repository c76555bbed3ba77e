// Stand-in for mockturtle's complemented-edge networks (AIG, XAG, MIG, XMG): structurally hashed gates over AND / XOR / MAJ.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <map>
#include <memory>
#include <utility>
#include <vector>
#include <kitty/constructors.hpp>
#include <kitty/dynamic_truth_table.hpp>
#include "../traits.hpp"
#include "../utils/algorithm.hpp"
#include "detail/foreach.hpp"
#include "events.hpp"
namespace mockturtle
{
namespace shim
{
enum class gate : uint8_t
{
    none,
    and2,
    xor2,
    maj3,
    xor3
};
struct csignal
{
    csignal() = default;
    csignal(uint64_t idx, uint64_t c) : complement(c), index(idx) {}
    explicit csignal(uint64_t d) : complement(d & 1), index(d >> 1) {}
    uint64_t complement : 1 = 0;
    uint64_t index : 63     = 0;
    [[nodiscard]] uint64_t data() const { return (static_cast<uint64_t>(index) << 1) | complement; }
    csignal  operator!() const { return {index, complement ^ 1u}; }
    csignal  operator~() const { return {index, complement ^ 1u}; }
    csignal  operator+() const { return {index, 0}; }
    csignal  operator-() const { return {index, 1}; }
    csignal  operator^(bool c) const { return {index, complement ^ (c ? 1u : 0u)}; }
    bool     operator==(csignal const& o) const { return data() == o.data(); }
    bool     operator!=(csignal const& o) const { return data() != o.data(); }
    bool     operator<(csignal const& o) const { return data() < o.data(); }
};
struct cnode
{
    std::vector<csignal> children{};
    gate                 g{gate::none};
    uint32_t             fanout{0}, value{0}, visited{0};
    bool                 pi{false};
};
struct cstorage
{
    std::vector<cnode>                                            nodes{cnode{}};
    std::vector<uint64_t>                                         inputs{};
    std::vector<csignal>                                          outputs{};
    std::map<std::pair<gate, std::vector<csignal>>, uint64_t>     hash{};
    uint32_t                                                      trav_id{0};
};
template <typename Derived, bool XOR, bool MAJ>
class cnet
{
  public:
    using base_type = Derived;
    using storage   = std::shared_ptr<cstorage>;
    using node      = uint64_t;
    using signal    = csignal;

    cnet() : _storage(std::make_shared<cstorage>()), _events(std::make_shared<network_events<shim_base>>()) {}
    explicit cnet(storage s) : _storage(std::move(s)), _events(std::make_shared<network_events<shim_base>>()) {}
    Derived clone() const { return Derived{std::make_shared<cstorage>(*_storage)}; }

    signal get_constant(bool v) const { return {0, v ? 1u : 0u}; }
    signal create_pi()
    {
        const auto i = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->nodes[i].pi = true;
        _storage->inputs.push_back(i);
        return {i, 0};
    }
    uint32_t create_po(signal const& f)
    {
        _storage->nodes[f.index].fanout++;
        _storage->outputs.push_back(f);
        return static_cast<uint32_t>(_storage->outputs.size() - 1);
    }
    bool   is_constant(node const& n) const { return n == 0; }
    bool   is_ci(node const& n) const { return _storage->nodes[n].pi; }
    bool   is_pi(node const& n) const { return _storage->nodes[n].pi; }
    bool   is_dead(node const&) const { return false; }
    bool   constant_value(node const&) const { return false; }
    signal create_buf(signal const& a) { return a; }
    signal create_not(signal const& a) { return !a; }
    signal create_and(signal a, signal b)
    {
        if (a.index > b.index)
        {
            std::swap(a, b);
        }
        if (a.index == b.index)
        {
            return a.complement == b.complement ? a : get_constant(false);
        }
        if (a.index == 0)
        {
            return a.complement ? b : get_constant(false);
        }
        if constexpr (!has_and2)
        {
            return create_maj_native(get_constant(false), a, b);
        }
        else
        {
            return mk(gate::and2, {a, b});
        }
    }
    signal create_nand(signal const& a, signal const& b) { return !create_and(a, b); }
    signal create_or(signal const& a, signal const& b) { return !create_and(!a, !b); }
    signal create_nor(signal const& a, signal const& b) { return create_and(!a, !b); }
    signal create_lt(signal const& a, signal const& b) { return create_and(!a, b); }
    signal create_le(signal const& a, signal const& b) { return !create_and(a, !b); }
    signal create_xor(signal a, signal b)
    {
        if constexpr (XOR && !MAJ)
        {
            const bool c = a.complement != b.complement;
            a            = +a;
            b            = +b;
            if (a.index > b.index)
            {
                std::swap(a, b);
            }
            if (a.index == b.index)
            {
                return get_constant(c);
            }
            if (a.index == 0)
            {
                return b ^ c;
            }
            return mk(gate::xor2, {a, b}) ^ c;
        }
        else if constexpr (XOR && MAJ)
        {
            return create_xor3(get_constant(false), a, b);
        }
        else
        {
            const bool fc = a.complement != b.complement;
            const auto c1 = create_and(+a, -b);
            const auto c2 = create_and(+b, -a);
            return create_and(!c1, !c2) ^ !fc;
        }
    }
    signal create_xnor(signal const& a, signal const& b) { return !create_xor(a, b); }
    signal create_maj(signal a, signal b, signal c)
    {
        if constexpr (MAJ)
        {
            return create_maj_native(a, b, c);
        }
        else
        {
            return create_or(create_and(a, b), create_and(c, !create_and(!a, !b)));
        }
    }
    signal create_ite(signal cond, signal t, signal e)
    {
        return create_or(create_and(cond, t), create_and(!cond, e));
    }
    signal create_xor3(signal a, signal b, signal c)
    {
        if constexpr (XOR && MAJ)
        {
            bool                  cc = (a.complement ^ b.complement ^ c.complement) != 0;
            std::array<signal, 3> f{+a, +b, +c};
            std::sort(f.begin(), f.end());
            if (f[0] == f[1])
            {
                return f[2] ^ cc;
            }
            if (f[1] == f[2])
            {
                return f[0] ^ cc;
            }
            return mk(gate::xor3, {f[0], f[1], f[2]}) ^ cc;
        }
        else
        {
            return create_xor(create_xor(a, b), c);
        }
    }
    signal create_nary_and(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(true),
                           [this](auto const& a, auto const& b) { return create_and(a, b); });
    }
    signal create_nary_or(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false),
                           [this](auto const& a, auto const& b) { return create_or(a, b); });
    }
    signal create_nary_xor(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false),
                           [this](auto const& a, auto const& b) { return create_xor(a, b); });
    }
    signal clone_node(cnet const& o, node const& n, std::vector<signal> const& ch)
    {
        switch (o._storage->nodes[n].g)
        {
            case gate::and2: return create_and(ch[0], ch[1]);
            case gate::xor2: return create_xor(ch[0], ch[1]);
            case gate::maj3: return create_maj(ch[0], ch[1], ch[2]);
            case gate::xor3: return create_xor3(ch[0], ch[1], ch[2]);
            default: return get_constant(false);
        }
    }
    auto size() const { return static_cast<uint32_t>(_storage->nodes.size()); }
    auto num_cis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto num_cos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto num_pis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto num_pos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto num_gates() const { return static_cast<uint32_t>(_storage->nodes.size() - _storage->inputs.size() - 1); }
    uint32_t fanin_size(node const& n) const { return static_cast<uint32_t>(_storage->nodes[n].children.size()); }
    uint32_t fanout_size(node const& n) const { return _storage->nodes[n].fanout; }
    uint32_t incr_fanout_size(node const& n) const { return _storage->nodes[n].fanout++; }
    uint32_t decr_fanout_size(node const& n) const { return --_storage->nodes[n].fanout; }
    bool     is_and(node const& n) const { return _storage->nodes[n].g == gate::and2; }
    bool     is_or(node const&) const { return false; }
    bool     is_xor(node const& n) const { return _storage->nodes[n].g == gate::xor2; }
    bool     is_maj(node const& n) const { return _storage->nodes[n].g == gate::maj3; }
    bool     is_ite(node const&) const { return false; }
    bool     is_xor3(node const& n) const { return _storage->nodes[n].g == gate::xor3; }
    bool     is_nary_and(node const&) const { return false; }
    bool     is_nary_or(node const&) const { return false; }
    bool     is_nary_xor(node const&) const { return false; }
    kitty::dynamic_truth_table node_function(node const& n) const
    {
        uint64_t w = 0;
        uint32_t v = 2;
        switch (_storage->nodes[n].g)
        {
            case gate::and2: w = 0x8; break;
            case gate::xor2: w = 0x6; break;
            case gate::maj3:
                w = 0xe8;
                v = 3;
                break;
            case gate::xor3:
                w = 0x96;
                v = 3;
                break;
            default: v = n == 0 ? 0 : 1; w = n == 0 ? 0 : 2; break;
        }
        kitty::dynamic_truth_table t(v);
        kitty::create_from_words(t, &w, &w + 1);
        return t;
    }
    node     get_node(signal const& f) const { return f.index; }
    signal   make_signal(node n) const { return {n, 0}; }
    bool     is_complemented(signal const& f) const { return f.complement != 0; }
    uint32_t node_to_index(node const& n) const { return static_cast<uint32_t>(n); }
    node     index_to_node(uint32_t i) const { return i; }
    node     pi_at(uint32_t i) const { return _storage->inputs.at(i); }
    node     ci_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   po_at(uint32_t i) const { return _storage->outputs.at(i); }
    signal   co_at(uint32_t i) const { return _storage->outputs.at(i); }
    uint32_t pi_index(node const& n) const
    {
        const auto it = std::find(_storage->inputs.begin(), _storage->inputs.end(), n);
        return it == _storage->inputs.end() ? ~0u : static_cast<uint32_t>(it - _storage->inputs.begin());
    }
    uint32_t ci_index(node const& n) const { return pi_index(n); }
    template <typename Fn>
    void foreach_node(Fn&& fn) const
    {
        auto r = range<uint64_t>(_storage->nodes.size());
        mockturtle::detail::foreach_element(r.begin(), r.end(), fn);
    }
    template <typename Fn>
    void foreach_pi(Fn&& fn) const
    {
        mockturtle::detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn);
    }
    template <typename Fn>
    void foreach_ci(Fn&& fn) const
    {
        foreach_pi(fn);
    }
    template <typename Fn>
    void foreach_po(Fn&& fn) const
    {
        mockturtle::detail::foreach_element(_storage->outputs.begin(), _storage->outputs.end(), fn);
    }
    template <typename Fn>
    void foreach_co(Fn&& fn) const
    {
        foreach_po(fn);
    }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const
    {
        auto r = range<uint64_t>(1u, _storage->nodes.size());
        mockturtle::detail::foreach_element_if(
            r.begin(), r.end(), [this](auto n) { return !is_ci(n); }, fn);
    }
    template <typename Fn>
    void foreach_fanin(node const& n, Fn&& fn) const
    {
        const auto& c = _storage->nodes[n].children;
        mockturtle::detail::foreach_element(c.begin(), c.end(), fn);
    }
    [[nodiscard]] bool is_combinational() const { return true; }
    template <typename Iterator>
    auto compute(node const& n, Iterator begin, Iterator end) const
    {
        using V = typename std::iterator_traits<Iterator>::value_type;
        std::vector<V> in(begin, end);
        for (std::size_t i = 0; i < in.size(); ++i)
        {
            if (_storage->nodes[n].children[i].complement)
            {
                if constexpr (std::is_same_v<V, bool>)
                {
                    in[i] = !in[i];
                }
                else
                {
                    in[i] = ~in[i];
                }
            }
        }
        const auto ev = [&](const V& a, const V& b, const V& c) -> V
        {
            switch (_storage->nodes[n].g)
            {
                case gate::and2: return static_cast<V>(a & b);
                case gate::xor2: return static_cast<V>(a ^ b);
                case gate::maj3: return static_cast<V>((a & b) | (a & c) | (b & c));
                default: return static_cast<V>(a ^ b ^ c);
            }
        };
        return ev(in.at(0), in.at(1), in.at(in.size() - 1));
    }
    void clear_values() const
    {
        for (auto& n : _storage->nodes)
        {
            n.value = 0;
        }
    }
    uint32_t value(node const& n) const { return _storage->nodes[n].value; }
    void     set_value(node const& n, uint32_t v) const { _storage->nodes[n].value = v; }
    uint32_t incr_value(node const& n) const { return _storage->nodes[n].value++; }
    uint32_t decr_value(node const& n) const { return --_storage->nodes[n].value; }
    void     clear_visited() const
    {
        for (auto& n : _storage->nodes)
        {
            n.visited = 0;
        }
    }
    uint32_t visited(node const& n) const { return _storage->nodes[n].visited; }
    void     set_visited(node const& n, uint32_t v) const { _storage->nodes[n].visited = v; }
    uint32_t trav_id() const { return _storage->trav_id; }
    void     incr_trav_id() const { ++_storage->trav_id; }
    auto&    events() const { return *_events; }

    struct shim_base
    {
        using node   = uint64_t;
        using signal = csignal;
    };
    std::shared_ptr<cstorage>                  _storage;
    std::shared_ptr<network_events<shim_base>> _events;

  private:
    static constexpr bool has_and2 = !MAJ;
    signal create_maj_native(signal a, signal b, signal c)
    {
        std::array<signal, 3> f{a, b, c};
        std::sort(f.begin(), f.end());
        if (f[0].index == f[1].index)
        {
            return f[0].complement == f[1].complement ? f[0] : f[2];
        }
        if (f[1].index == f[2].index)
        {
            return f[1].complement == f[2].complement ? f[1] : f[0];
        }
        bool cc = false;
        if (f[0].complement + f[1].complement + f[2].complement > 1)
        {
            cc = true;
            for (auto& s : f)
            {
                s = !s;
            }
        }
        return mk(gate::maj3, {f[0], f[1], f[2]}) ^ cc;
    }
    signal mk(gate g, std::vector<signal> ch)
    {
        const auto key = std::make_pair(g, ch);
        if (const auto it = _storage->hash.find(key); it != _storage->hash.end())
        {
            return {it->second, 0};
        }
        const auto i = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->nodes[i].g        = g;
        _storage->nodes[i].children = ch;
        for (const auto& c : ch)
        {
            _storage->nodes[c.index].fanout++;
        }
        _storage->hash[key] = i;
        for (auto const& fn : _events->on_add)
        {
            (*fn)(i);
        }
        return {i, 0};
    }
};
}  // namespace shim
#define SHIM_CNET(NAME, X, M, LO, HI)                                  \
    class NAME : public shim::cnet<NAME, X, M>                         \
    {                                                                  \
      public:                                                          \
        static constexpr auto min_fanin_size = LO;                     \
        static constexpr auto max_fanin_size = HI;                     \
        NAME() = default;                                              \
        explicit NAME(storage s) : shim::cnet<NAME, X, M>(std::move(s)) \
        {}                                                             \
    };
SHIM_CNET(aig_network, false, false, 2u, 2u)
SHIM_CNET(xag_network, true, false, 2u, 2u)
SHIM_CNET(mig_network, false, true, 3u, 3u)
SHIM_CNET(xmg_network, true, true, 3u, 3u)
#undef SHIM_CNET
}  // namespace mockturtle
namespace std
{
template <>
struct hash<mockturtle::shim::csignal>
{
    std::size_t operator()(const mockturtle::shim::csignal& s) const noexcept { return std::hash<uint64_t>{}(s.data()); }
};
}  // namespace std
