// Stand-in for mockturtle/networks/storage.hpp.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <unordered_map>
#include <vector>
namespace mockturtle
{
template <int PointerFieldSize = 0>
struct node_pointer
{
    node_pointer() = default;
    node_pointer(uint64_t index, uint64_t weight) : weight(weight), index(index) {}
    uint64_t weight : PointerFieldSize;
    uint64_t index : 64 - PointerFieldSize;
    bool     operator==(node_pointer const& o) const { return weight == o.weight && index == o.index; }
};
template <>
struct node_pointer<0>
{
    node_pointer() = default;
    node_pointer(uint64_t index) : index(index) {}
    uint64_t index{0};
    bool     operator==(node_pointer const& o) const { return index == o.index; }
};
union cauint64_t
{
    uint64_t n{0};
    struct
    {
        uint64_t h1 : 32;
        uint64_t h2 : 32;
    };
};
template <int Size = 0, int PointerFieldSize = 0>
struct mixed_fanin_node
{
    using pointer_type = node_pointer<PointerFieldSize>;
    std::vector<pointer_type>    children;
    std::array<cauint64_t, Size> data;
    bool operator==(mixed_fanin_node const& o) const { return children == o.children; }
};
struct empty_storage_data
{};
template <typename Node, typename StorageData = empty_storage_data>
struct storage
{
    storage() { nodes.emplace_back(); }
    using node_type = Node;
    std::vector<node_type>                            nodes;
    std::vector<uint64_t>                             inputs;
    std::vector<typename node_type::pointer_type>     outputs;
    uint32_t                                          trav_id = 0u;
    StorageData                                       data;
};
}  // namespace mockturtle
