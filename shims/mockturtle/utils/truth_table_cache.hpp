// Stand-in for mockturtle/utils/truth_table_cache.hpp.
#pragma once
#include <cassert>
#include <cstdint>
#include <unordered_map>
#include <vector>
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/hash.hpp>
namespace mockturtle
{
template <typename TT>
class truth_table_cache
{
  public:
    explicit truth_table_cache(uint32_t capacity = 1000u) { _data.reserve(capacity); }
    uint32_t insert(TT tt)
    {
        const bool normal = kitty::get_bit(tt, 0) == 0;
        if (!normal)
        {
            tt = ~tt;
        }
        const auto it = _indexes.find(tt);
        if (it != _indexes.end())
        {
            return static_cast<uint32_t>(2u * it->second + (normal ? 0u : 1u));
        }
        const auto index = static_cast<uint32_t>(_data.size());
        _indexes[tt]     = index;
        _data.push_back(tt);
        return 2u * index + (normal ? 0u : 1u);
    }
    TT operator[](uint32_t index) const
    {
        auto& e = _data.at(index >> 1);
        return (index & 1u) != 0u ? ~e : e;
    }
    [[nodiscard]] auto size() const { return _data.size(); }
    void               resize(std::size_t c) { _data.reserve(c); }

  private:
    std::unordered_map<TT, uint32_t, kitty::hash<TT>> _indexes;
    std::vector<TT>                                   _data;
};
}  // namespace mockturtle
