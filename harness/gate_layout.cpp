// Monitors gate-level layouts: every sequence of placing, moving, connecting and clearing is replayed on a plain model of
// tiles and nodes, and everything the layout reports is compared with what follows from the model.
#include "gate_model.hpp"

using namespace gm;
namespace
{
const auto none = [](const auto&, const auto&, const auto&) {};
}
VM_SUITE(cartesian, 60, 6000) { history<cart>(r, "cartesian", true, none); }
VM_SUITE(odd_row, 30, 3000) { history<hex<odd_row_hex>>(r, "odd row", true, none); }
VM_SUITE(even_column, 30, 3000) { history<hex<even_column_hex>>(r, "even column", true, none); }
VM_SUITE(shifted, 20, 2000) { history<shift>(r, "shifted", true, none); }
VM_MAIN
