// Stand-in for mockturtle/networks/klut.hpp: k-LUT network with the same literals, indexing, and structural hashing.
#pragma once
#include <algorithm>
#include <cassert>
#include <map>
#include <memory>
#include <utility>
#include <vector>
#include <kitty/constructors.hpp>
#include <kitty/dynamic_truth_table.hpp>
#include "../traits.hpp"
#include "../utils/algorithm.hpp"
#include "../utils/truth_table_cache.hpp"
#include "detail/foreach.hpp"
#include "events.hpp"
#include "storage.hpp"
namespace mockturtle
{
struct klut_storage_data
{
    truth_table_cache<kitty::dynamic_truth_table>                       cache;
    std::map<std::pair<std::vector<uint64_t>, uint32_t>, uint64_t>      hash;
};
struct klut_storage_node : mixed_fanin_node<2>
{
    bool operator==(klut_storage_node const& o) const
    {
        return data[1].h1 == o.data[1].h1 && children == o.children;
    }
};
using klut_storage = storage<klut_storage_node, klut_storage_data>;

class klut_network
{
  public:
    static constexpr auto min_fanin_size = 1;
    static constexpr auto max_fanin_size = 32;
    using base_type = klut_network;
    using storage   = std::shared_ptr<klut_storage>;
    using node      = uint64_t;
    using signal    = uint64_t;

    klut_network() :
            _storage(std::make_shared<klut_storage>()),
            _events(std::make_shared<decltype(_events)::element_type>())
    {
        _init();
    }
    klut_network(std::shared_ptr<klut_storage> s) :
            _storage(std::move(s)),
            _events(std::make_shared<decltype(_events)::element_type>())
    {}
    klut_network clone() const { return {std::make_shared<klut_storage>(*_storage)}; }

  protected:
    void _init()
    {
        _storage->nodes.emplace_back();
        const auto add = [this](uint32_t nv, uint64_t w)
        {
            kitty::dynamic_truth_table tt(nv);
            if (nv > 0)
            {
                kitty::create_from_words(tt, &w, &w + 1);
            }
            _storage->data.cache.insert(tt);
        };
        add(0, 0);
        add(1, 0x1);
        add(2, 0x8);
        add(2, 0xe);
        add(2, 0x4);
        add(2, 0xd);
        add(2, 0x6);
        add(3, 0xe8);
        add(3, 0xd8);
        add(3, 0x96);
        _storage->nodes[0].data[1].h1 = 0;
        _storage->nodes[1].data[1].h1 = 1;
    }

  public:
    signal get_constant(bool value = false) const { return value ? 1 : 0; }
    signal create_pi()
    {
        const auto index = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->inputs.emplace_back(index);
        _storage->nodes[index].data[1].h1 = 2;
        return index;
    }
    uint32_t create_po(signal const& f)
    {
        _storage->nodes[f].data[0].h1++;
        const auto po_index = _storage->outputs.size();
        _storage->outputs.emplace_back(f);
        return static_cast<uint32_t>(po_index);
    }
    [[nodiscard]] bool is_combinational() const { return true; }
    bool is_constant(node const& n) const { return n <= 1; }
    bool is_ci(node const& n) const { return n > 1 && _storage->nodes[n].children.empty(); }
    bool is_pi(node const& n) const { return is_ci(n); }
    bool constant_value(node const& n) const { return n != 0; }

    signal create_buf(signal const& a) { return a; }
    signal create_not(signal const& a)
    {
        return is_constant(a) ? get_constant(!constant_value(a)) : _create_node({a}, 3);
    }
    signal create_and(signal a, signal b) { return _create_node({a, b}, 4); }
    signal create_nand(signal a, signal b) { return _create_node({a, b}, 5); }
    signal create_or(signal a, signal b) { return _create_node({a, b}, 6); }
    signal create_nor(signal a, signal b) { return _create_node({a, b}, 7); }
    signal create_lt(signal a, signal b) { return _create_node({a, b}, 8); }
    signal create_ge(signal a, signal b) { return _create_node({a, b}, 9); }
    signal create_gt(signal a, signal b) { return _create_node({a, b}, 10); }
    signal create_le(signal a, signal b) { return _create_node({a, b}, 11); }
    signal create_xor(signal a, signal b) { return _create_node({a, b}, 12); }
    signal create_xnor(signal a, signal b) { return _create_node({a, b}, 13); }
    signal create_maj(signal a, signal b, signal c) { return _create_node({a, b, c}, 14); }
    signal create_ite(signal a, signal b, signal c) { return _create_node({a, b, c}, 16); }
    signal create_xor3(signal a, signal b, signal c) { return _create_node({a, b, c}, 18); }
    signal create_nary_and(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(true),
                           [this](auto const& a, auto const& b) { return create_and(a, b); });
    }
    signal create_nary_or(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false),
                           [this](auto const& a, auto const& b) { return create_or(a, b); });
    }
    signal create_nary_xor(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false),
                           [this](auto const& a, auto const& b) { return create_xor(a, b); });
    }
    signal _create_node(std::vector<signal> const& children, uint32_t literal)
    {
        const auto key = std::make_pair(children, literal);
        if (const auto it = _storage->data.hash.find(key); it != _storage->data.hash.end())
        {
            return it->second;
        }
        klut_storage::node_type nd;
        std::copy(children.begin(), children.end(), std::back_inserter(nd.children));
        nd.data[1].h1    = literal;
        const auto index = _storage->nodes.size();
        _storage->nodes.push_back(nd);
        _storage->data.hash[key] = index;
        for (auto c : children)
        {
            _storage->nodes[c].data[0].h1++;
        }
        set_value(index, 0);
        for (auto const& fn : _events->on_add)
        {
            (*fn)(index);
        }
        return index;
    }
    signal create_node(std::vector<signal> const& children, kitty::dynamic_truth_table const& function)
    {
        if (children.empty())
        {
            assert(function.num_vars() == 0u);
            return get_constant(!kitty::is_const0(function));
        }
        return _create_node(children, _storage->data.cache.insert(function));
    }
    signal clone_node(klut_network const& other, node const& source, std::vector<signal> const& children)
    {
        assert(!children.empty());
        const auto tt = other._storage->data.cache[static_cast<uint32_t>(other._storage->nodes[source].data[1].h1)];
        return create_node(children, tt);
    }
    void substitute_node(node const& old_node, signal const& new_signal)
    {
        for (uint64_t i = 2; i < _storage->nodes.size(); ++i)
        {
            auto& n = _storage->nodes[i];
            for (auto& c : n.children)
            {
                if (c == old_node)
                {
                    std::vector<signal> old_children(n.children.size());
                    std::transform(n.children.begin(), n.children.end(), old_children.begin(), [](auto const& x) { return x.index; });
                    c = new_signal;
                    _storage->nodes[new_signal].data[0].h1++;
                    for (auto const& fn : _events->on_modified)
                    {
                        (*fn)(i, old_children);
                    }
                }
            }
        }
        for (auto& o : _storage->outputs)
        {
            if (o == old_node)
            {
                o = new_signal;
                _storage->nodes[new_signal].data[0].h1++;
            }
        }
        _storage->nodes[old_node].data[0].h1 = 0;
    }
    auto     size() const { return static_cast<uint32_t>(_storage->nodes.size()); }
    auto     num_cis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_cos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_pis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_pos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_gates() const
    {
        return static_cast<uint32_t>(_storage->nodes.size() - _storage->inputs.size() - 2);
    }
    uint32_t fanin_size(node const& n) const { return static_cast<uint32_t>(_storage->nodes[n].children.size()); }
    uint32_t fanout_size(node const& n) const
    {
        return static_cast<uint32_t>(_storage->nodes[n].data[0].h1 & UINT32_C(0x7fffffff));
    }
    uint32_t incr_fanout_size(node const& n) const
    {
        return static_cast<uint32_t>(_storage->nodes[n].data[0].h1++ & UINT32_C(0x7fffffff));
    }
    uint32_t decr_fanout_size(node const& n) const
    {
        return static_cast<uint32_t>(--_storage->nodes[n].data[0].h1 & UINT32_C(0x7fffffff));
    }
    bool is_function(node const& n) const { return n > 1 && !is_ci(n); }
    kitty::dynamic_truth_table node_function(const node& n) const
    {
        return _storage->data.cache[static_cast<uint32_t>(_storage->nodes[n].data[1].h1)];
    }
    node   get_node(signal const& f) const { return f; }
    signal make_signal(node const& n) const { return n; }
    bool   is_complemented(signal const&) const { return false; }
    uint32_t node_to_index(node const& n) const { return static_cast<uint32_t>(n); }
    node     index_to_node(uint32_t i) const { return i; }
    node     ci_at(uint32_t i) const { return _storage->inputs.at(i); }
    node     pi_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   co_at(uint32_t i) const { return _storage->outputs.at(i).index; }
    signal   po_at(uint32_t i) const { return _storage->outputs.at(i).index; }
    uint32_t ci_index(node const& n) const { return pi_index(n); }
    uint32_t pi_index(node const& n) const
    {
        const auto it = std::find(_storage->inputs.begin(), _storage->inputs.end(), n);
        return it == _storage->inputs.end() ? ~0u : static_cast<uint32_t>(it - _storage->inputs.begin());
    }
    uint32_t po_index(signal const& s) const
    {
        for (uint32_t i = 0; i < _storage->outputs.size(); ++i)
        {
            if (_storage->outputs[i].index == s)
            {
                return i;
            }
        }
        return ~0u;
    }
    template <typename Fn>
    void foreach_node(Fn&& fn) const
    {
        auto r = range<uint64_t>(_storage->nodes.size());
        detail::foreach_element(r.begin(), r.end(), fn);
    }
    template <typename Fn>
    void foreach_ci(Fn&& fn) const
    {
        detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn);
    }
    template <typename Fn>
    void foreach_pi(Fn&& fn) const
    {
        detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn);
    }
    template <typename Fn>
    void foreach_co(Fn&& fn) const
    {
        foreach_po(fn);
    }
    template <typename Fn>
    void foreach_po(Fn&& fn) const
    {
        using It = decltype(_storage->outputs.begin());
        detail::foreach_element_transform<It, uint64_t>(
            _storage->outputs.begin(), _storage->outputs.end(), [](auto const& o) { return o.index; }, fn);
    }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const
    {
        auto r = range<uint64_t>(2u, _storage->nodes.size());
        detail::foreach_element_if(
            r.begin(), r.end(), [this](auto n) { return !is_ci(n); }, fn);
    }
    template <typename Fn>
    void foreach_fanin(node const& n, Fn&& fn) const
    {
        if (n <= 1 || is_ci(n))
        {
            return;
        }
        using It = decltype(_storage->nodes[n].children.begin());
        detail::foreach_element_transform<It, uint64_t>(
            _storage->nodes[n].children.begin(), _storage->nodes[n].children.end(), [](auto const& f) { return f.index; },
            fn);
    }
    template <typename Iterator>
    auto compute(node const& n, Iterator begin, Iterator end) const
    {
        using V = typename std::iterator_traits<Iterator>::value_type;
        const auto tt = node_function(n);
        if constexpr (std::is_same_v<V, bool>)
        {
            uint64_t i = 0, k = 0;
            for (; begin != end; ++begin)
            {
                i |= (*begin ? uint64_t{1} : 0) << k++;
            }
            return kitty::get_bit(tt, i) != 0;
        }
        else
        {
            std::vector<V> tts(begin, end);
            auto           r = tts.at(0).construct();
            for (uint64_t i = 0; i < r.num_bits(); ++i)
            {
                uint64_t p = 0;
                for (std::size_t j = 0; j < tts.size(); ++j)
                {
                    p |= kitty::get_bit(tts[j], i) << j;
                }
                if (kitty::get_bit(tt, p) != 0)
                {
                    kitty::set_bit(r, i);
                }
            }
            return r;
        }
    }
    void clear_values() const
    {
        for (auto& n : _storage->nodes)
        {
            n.data[0].h2 = 0;
        }
    }
    uint32_t value(node const& n) const { return static_cast<uint32_t>(_storage->nodes[n].data[0].h2); }
    void     set_value(node const& n, uint32_t v) const { _storage->nodes[n].data[0].h2 = v; }
    uint32_t incr_value(node const& n) const { return static_cast<uint32_t>(_storage->nodes[n].data[0].h2++); }
    uint32_t decr_value(node const& n) const { return static_cast<uint32_t>(--_storage->nodes[n].data[0].h2); }
    void     clear_visited() const
    {
        for (auto& n : _storage->nodes)
        {
            n.data[1].h2 = 0;
        }
    }
    auto     visited(node const& n) const { return static_cast<uint32_t>(_storage->nodes[n].data[1].h2); }
    void     set_visited(node const& n, uint32_t v) const { _storage->nodes[n].data[1].h2 = v; }
    uint32_t trav_id() const { return _storage->trav_id; }
    void     incr_trav_id() const { ++_storage->trav_id; }
    auto&    events() const { return *_events; }

    std::shared_ptr<klut_storage>                  _storage;
    std::shared_ptr<network_events<base_type>>     _events;
};
}  // namespace mockturtle
