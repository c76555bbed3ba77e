// Stand-in for mockturtle/traits.hpp (mockturtle is not installed in this sandbox); generated list of detection idioms.
#pragma once
#include <cstdint>
#include <functional>
#include <iterator>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/traits.hpp>
namespace mockturtle
{
template <typename Ntk>
using signal = typename Ntk::signal;
template <typename Ntk>
using node = typename Ntk::node;
template <typename Ntk>
using storage_t = typename Ntk::storage;

template <class N, class = void>
struct is_network_type : std::false_type
{};
template <class N>
struct is_network_type<
    N, std::enable_if_t<
           std::is_constructible_v<typename N::signal, decltype(std::declval<N&>().get_constant(false))>,
           std::void_t<typename N::base_type, typename N::signal, typename N::node, typename N::storage,
                       decltype(N::max_fanin_size), decltype(N::min_fanin_size), decltype(std::declval<N&>().size()),
                       decltype(std::declval<N&>().is_constant(std::declval<typename N::node>()))>>> : std::true_type
{};
template <class N>
inline constexpr bool is_network_type_v = is_network_type<N>::value;

template <class N, class = void>
struct is_topologically_sorted : std::false_type
{};
template <class N>
struct is_topologically_sorted<N, std::enable_if_t<N::is_topologically_sorted>> : std::true_type
{};
template <class N>
inline constexpr bool is_topologically_sorted_v = is_topologically_sorted<N>::value;

template <class N>
inline constexpr bool has_EXODC_interface_v = false;
template <class N>
inline constexpr bool has_EXCDC_interface_v = false;

template <class S, class N, class = void>
struct iterates_over : std::false_type
{};
template <class It, class T>
struct iterates_over<It, T, std::enable_if_t<std::is_same_v<typename std::iterator_traits<It>::value_type, T>>> : std::true_type
{};
template <class It, class T>
inline constexpr bool iterates_over_v = iterates_over<It, T>::value;
template <class It, class T>
using iterates_over_t = std::enable_if_t<iterates_over_v<It, T>, T>;
template <class It, class = void>
struct iterates_over_truth_table : std::false_type
{};
template <class It>
struct iterates_over_truth_table<It, std::enable_if_t<kitty::is_truth_table<typename std::iterator_traits<It>::value_type>::value>>
        : std::true_type
{};
template <class It>
inline constexpr bool iterates_over_truth_table_v = iterates_over_truth_table<It>::value;
template <class It>
using iterates_over_truth_table_t =
    std::enable_if_t<iterates_over_truth_table_v<It>, typename std::iterator_traits<It>::value_type>;

template <class N, class TT, class = void>
struct has_compute : std::false_type
{};
template <class N, class T>
struct has_compute<N, T,
                   std::void_t<decltype(std::declval<N&>().compute(std::declval<typename N::node>(), std::declval<T*>(),
                                                                    std::declval<T*>()))>> : std::true_type
{};
template <class N, class T>
inline constexpr bool has_compute_v = has_compute<N, T>::value;

template <class N, class = void>
struct has_get_constant : std::false_type
{};
template <class N>
struct has_get_constant<N, std::void_t<decltype(std::declval<N&>().get_constant(bool()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_get_constant_v = has_get_constant<N>::value;
template <class N, class = void>
struct has_create_pi : std::false_type
{};
template <class N>
struct has_create_pi<N, std::void_t<decltype(std::declval<N&>().create_pi())>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_pi_v = has_create_pi<N>::value;
template <class N, class = void>
struct has_create_po : std::false_type
{};
template <class N>
struct has_create_po<N, std::void_t<decltype(std::declval<N&>().create_po(std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_po_v = has_create_po<N>::value;
template <class N, class = void>
struct has_create_ro : std::false_type
{};
template <class N>
struct has_create_ro<N, std::void_t<decltype(std::declval<N&>().create_ro())>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_ro_v = has_create_ro<N>::value;
template <class N, class = void>
struct has_create_ri : std::false_type
{};
template <class N>
struct has_create_ri<N, std::void_t<decltype(std::declval<N&>().create_ri(std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_ri_v = has_create_ri<N>::value;
template <class N, class = void>
struct has_create_buf : std::false_type
{};
template <class N>
struct has_create_buf<N, std::void_t<decltype(std::declval<N&>().create_buf(std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_buf_v = has_create_buf<N>::value;
template <class N, class = void>
struct has_create_not : std::false_type
{};
template <class N>
struct has_create_not<N, std::void_t<decltype(std::declval<N&>().create_not(std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_not_v = has_create_not<N>::value;
template <class N, class = void>
struct has_create_and : std::false_type
{};
template <class N>
struct has_create_and<N, std::void_t<decltype(std::declval<N&>().create_and(std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_and_v = has_create_and<N>::value;
template <class N, class = void>
struct has_create_nand : std::false_type
{};
template <class N>
struct has_create_nand<N, std::void_t<decltype(std::declval<N&>().create_nand(std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_nand_v = has_create_nand<N>::value;
template <class N, class = void>
struct has_create_or : std::false_type
{};
template <class N>
struct has_create_or<N, std::void_t<decltype(std::declval<N&>().create_or(std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_or_v = has_create_or<N>::value;
template <class N, class = void>
struct has_create_nor : std::false_type
{};
template <class N>
struct has_create_nor<N, std::void_t<decltype(std::declval<N&>().create_nor(std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_nor_v = has_create_nor<N>::value;
template <class N, class = void>
struct has_create_lt : std::false_type
{};
template <class N>
struct has_create_lt<N, std::void_t<decltype(std::declval<N&>().create_lt(std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_lt_v = has_create_lt<N>::value;
template <class N, class = void>
struct has_create_le : std::false_type
{};
template <class N>
struct has_create_le<N, std::void_t<decltype(std::declval<N&>().create_le(std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_le_v = has_create_le<N>::value;
template <class N, class = void>
struct has_create_gt : std::false_type
{};
template <class N>
struct has_create_gt<N, std::void_t<decltype(std::declval<N&>().create_gt(std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_gt_v = has_create_gt<N>::value;
template <class N, class = void>
struct has_create_ge : std::false_type
{};
template <class N>
struct has_create_ge<N, std::void_t<decltype(std::declval<N&>().create_ge(std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_ge_v = has_create_ge<N>::value;
template <class N, class = void>
struct has_create_xor : std::false_type
{};
template <class N>
struct has_create_xor<N, std::void_t<decltype(std::declval<N&>().create_xor(std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_xor_v = has_create_xor<N>::value;
template <class N, class = void>
struct has_create_xnor : std::false_type
{};
template <class N>
struct has_create_xnor<N, std::void_t<decltype(std::declval<N&>().create_xnor(std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_xnor_v = has_create_xnor<N>::value;
template <class N, class = void>
struct has_create_maj : std::false_type
{};
template <class N>
struct has_create_maj<N, std::void_t<decltype(std::declval<N&>().create_maj(std::declval<typename N::signal>(), std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_maj_v = has_create_maj<N>::value;
template <class N, class = void>
struct has_create_ite : std::false_type
{};
template <class N>
struct has_create_ite<N, std::void_t<decltype(std::declval<N&>().create_ite(std::declval<typename N::signal>(), std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_ite_v = has_create_ite<N>::value;
template <class N, class = void>
struct has_create_xor3 : std::false_type
{};
template <class N>
struct has_create_xor3<N, std::void_t<decltype(std::declval<N&>().create_xor3(std::declval<typename N::signal>(), std::declval<typename N::signal>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_xor3_v = has_create_xor3<N>::value;
template <class N, class = void>
struct has_create_nary_and : std::false_type
{};
template <class N>
struct has_create_nary_and<N, std::void_t<decltype(std::declval<N&>().create_nary_and(std::declval<std::vector<typename N::signal>>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_nary_and_v = has_create_nary_and<N>::value;
template <class N, class = void>
struct has_create_nary_or : std::false_type
{};
template <class N>
struct has_create_nary_or<N, std::void_t<decltype(std::declval<N&>().create_nary_or(std::declval<std::vector<typename N::signal>>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_nary_or_v = has_create_nary_or<N>::value;
template <class N, class = void>
struct has_create_nary_xor : std::false_type
{};
template <class N>
struct has_create_nary_xor<N, std::void_t<decltype(std::declval<N&>().create_nary_xor(std::declval<std::vector<typename N::signal>>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_nary_xor_v = has_create_nary_xor<N>::value;
template <class N, class = void>
struct has_create_node : std::false_type
{};
template <class N>
struct has_create_node<N, std::void_t<decltype(std::declval<N&>().create_node(std::declval<std::vector<typename N::signal>>(), std::declval<kitty::dynamic_truth_table>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_create_node_v = has_create_node<N>::value;
template <class N, class = void>
struct has_clone_node : std::false_type
{};
template <class N>
struct has_clone_node<N, std::void_t<decltype(std::declval<N&>().clone_node(std::declval<N>(), std::declval<typename N::node>(), std::declval<std::vector<typename N::signal>>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_clone_node_v = has_clone_node<N>::value;
template <class N, class = void>
struct has_clone : std::false_type
{};
template <class N>
struct has_clone<N, std::void_t<decltype(std::declval<N&>().clone())>> : std::true_type
{};
template <class N>
inline constexpr bool has_clone_v = has_clone<N>::value;
template <class N, class = void>
struct has_substitute_node : std::false_type
{};
template <class N>
struct has_substitute_node<N, std::void_t<decltype(std::declval<N&>().substitute_node(std::declval<typename N::node>(), std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_substitute_node_v = has_substitute_node<N>::value;
template <class N, class = void>
struct has_is_constant : std::false_type
{};
template <class N>
struct has_is_constant<N, std::void_t<decltype(std::declval<N&>().is_constant(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_constant_v = has_is_constant<N>::value;
template <class N, class = void>
struct has_is_ci : std::false_type
{};
template <class N>
struct has_is_ci<N, std::void_t<decltype(std::declval<N&>().is_ci(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_ci_v = has_is_ci<N>::value;
template <class N, class = void>
struct has_is_pi : std::false_type
{};
template <class N>
struct has_is_pi<N, std::void_t<decltype(std::declval<N&>().is_pi(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_pi_v = has_is_pi<N>::value;
template <class N, class = void>
struct has_is_po : std::false_type
{};
template <class N>
struct has_is_po<N, std::void_t<decltype(std::declval<N&>().is_po(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_po_v = has_is_po<N>::value;
template <class N, class = void>
struct has_constant_value : std::false_type
{};
template <class N>
struct has_constant_value<N, std::void_t<decltype(std::declval<N&>().constant_value(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_constant_value_v = has_constant_value<N>::value;
template <class N, class = void>
struct has_size : std::false_type
{};
template <class N>
struct has_size<N, std::void_t<decltype(std::declval<N&>().size())>> : std::true_type
{};
template <class N>
inline constexpr bool has_size_v = has_size<N>::value;
template <class N, class = void>
struct has_num_cis : std::false_type
{};
template <class N>
struct has_num_cis<N, std::void_t<decltype(std::declval<N&>().num_cis())>> : std::true_type
{};
template <class N>
inline constexpr bool has_num_cis_v = has_num_cis<N>::value;
template <class N, class = void>
struct has_num_cos : std::false_type
{};
template <class N>
struct has_num_cos<N, std::void_t<decltype(std::declval<N&>().num_cos())>> : std::true_type
{};
template <class N>
inline constexpr bool has_num_cos_v = has_num_cos<N>::value;
template <class N, class = void>
struct has_num_pis : std::false_type
{};
template <class N>
struct has_num_pis<N, std::void_t<decltype(std::declval<N&>().num_pis())>> : std::true_type
{};
template <class N>
inline constexpr bool has_num_pis_v = has_num_pis<N>::value;
template <class N, class = void>
struct has_num_pos : std::false_type
{};
template <class N>
struct has_num_pos<N, std::void_t<decltype(std::declval<N&>().num_pos())>> : std::true_type
{};
template <class N>
inline constexpr bool has_num_pos_v = has_num_pos<N>::value;
template <class N, class = void>
struct has_num_gates : std::false_type
{};
template <class N>
struct has_num_gates<N, std::void_t<decltype(std::declval<N&>().num_gates())>> : std::true_type
{};
template <class N>
inline constexpr bool has_num_gates_v = has_num_gates<N>::value;
template <class N, class = void>
struct has_num_registers : std::false_type
{};
template <class N>
struct has_num_registers<N, std::void_t<decltype(std::declval<N&>().num_registers())>> : std::true_type
{};
template <class N>
inline constexpr bool has_num_registers_v = has_num_registers<N>::value;
template <class N, class = void>
struct has_fanin_size : std::false_type
{};
template <class N>
struct has_fanin_size<N, std::void_t<decltype(std::declval<N&>().fanin_size(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_fanin_size_v = has_fanin_size<N>::value;
template <class N, class = void>
struct has_fanout_size : std::false_type
{};
template <class N>
struct has_fanout_size<N, std::void_t<decltype(std::declval<N&>().fanout_size(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_fanout_size_v = has_fanout_size<N>::value;
template <class N, class = void>
struct has_incr_fanout_size : std::false_type
{};
template <class N>
struct has_incr_fanout_size<N, std::void_t<decltype(std::declval<N&>().incr_fanout_size(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_incr_fanout_size_v = has_incr_fanout_size<N>::value;
template <class N, class = void>
struct has_decr_fanout_size : std::false_type
{};
template <class N>
struct has_decr_fanout_size<N, std::void_t<decltype(std::declval<N&>().decr_fanout_size(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_decr_fanout_size_v = has_decr_fanout_size<N>::value;
template <class N, class = void>
struct has_is_and : std::false_type
{};
template <class N>
struct has_is_and<N, std::void_t<decltype(std::declval<N&>().is_and(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_and_v = has_is_and<N>::value;
template <class N, class = void>
struct has_is_or : std::false_type
{};
template <class N>
struct has_is_or<N, std::void_t<decltype(std::declval<N&>().is_or(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_or_v = has_is_or<N>::value;
template <class N, class = void>
struct has_is_xor : std::false_type
{};
template <class N>
struct has_is_xor<N, std::void_t<decltype(std::declval<N&>().is_xor(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_xor_v = has_is_xor<N>::value;
template <class N, class = void>
struct has_is_maj : std::false_type
{};
template <class N>
struct has_is_maj<N, std::void_t<decltype(std::declval<N&>().is_maj(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_maj_v = has_is_maj<N>::value;
template <class N, class = void>
struct has_is_ite : std::false_type
{};
template <class N>
struct has_is_ite<N, std::void_t<decltype(std::declval<N&>().is_ite(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_ite_v = has_is_ite<N>::value;
template <class N, class = void>
struct has_is_xor3 : std::false_type
{};
template <class N>
struct has_is_xor3<N, std::void_t<decltype(std::declval<N&>().is_xor3(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_xor3_v = has_is_xor3<N>::value;
template <class N, class = void>
struct has_is_nary_and : std::false_type
{};
template <class N>
struct has_is_nary_and<N, std::void_t<decltype(std::declval<N&>().is_nary_and(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_nary_and_v = has_is_nary_and<N>::value;
template <class N, class = void>
struct has_is_nary_or : std::false_type
{};
template <class N>
struct has_is_nary_or<N, std::void_t<decltype(std::declval<N&>().is_nary_or(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_nary_or_v = has_is_nary_or<N>::value;
template <class N, class = void>
struct has_is_nary_xor : std::false_type
{};
template <class N>
struct has_is_nary_xor<N, std::void_t<decltype(std::declval<N&>().is_nary_xor(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_nary_xor_v = has_is_nary_xor<N>::value;
template <class N, class = void>
struct has_is_function : std::false_type
{};
template <class N>
struct has_is_function<N, std::void_t<decltype(std::declval<N&>().is_function(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_function_v = has_is_function<N>::value;
template <class N, class = void>
struct has_is_buf : std::false_type
{};
template <class N>
struct has_is_buf<N, std::void_t<decltype(std::declval<N&>().is_buf(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_buf_v = has_is_buf<N>::value;
template <class N, class = void>
struct has_is_not : std::false_type
{};
template <class N>
struct has_is_not<N, std::void_t<decltype(std::declval<N&>().is_not(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_not_v = has_is_not<N>::value;
template <class N, class = void>
struct has_is_nand : std::false_type
{};
template <class N>
struct has_is_nand<N, std::void_t<decltype(std::declval<N&>().is_nand(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_nand_v = has_is_nand<N>::value;
template <class N, class = void>
struct has_is_nor : std::false_type
{};
template <class N>
struct has_is_nor<N, std::void_t<decltype(std::declval<N&>().is_nor(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_nor_v = has_is_nor<N>::value;
template <class N, class = void>
struct has_is_lt : std::false_type
{};
template <class N>
struct has_is_lt<N, std::void_t<decltype(std::declval<N&>().is_lt(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_lt_v = has_is_lt<N>::value;
template <class N, class = void>
struct has_is_le : std::false_type
{};
template <class N>
struct has_is_le<N, std::void_t<decltype(std::declval<N&>().is_le(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_le_v = has_is_le<N>::value;
template <class N, class = void>
struct has_is_gt : std::false_type
{};
template <class N>
struct has_is_gt<N, std::void_t<decltype(std::declval<N&>().is_gt(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_gt_v = has_is_gt<N>::value;
template <class N, class = void>
struct has_is_ge : std::false_type
{};
template <class N>
struct has_is_ge<N, std::void_t<decltype(std::declval<N&>().is_ge(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_ge_v = has_is_ge<N>::value;
template <class N, class = void>
struct has_is_xnor : std::false_type
{};
template <class N>
struct has_is_xnor<N, std::void_t<decltype(std::declval<N&>().is_xnor(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_xnor_v = has_is_xnor<N>::value;
template <class N, class = void>
struct has_is_dead : std::false_type
{};
template <class N>
struct has_is_dead<N, std::void_t<decltype(std::declval<N&>().is_dead(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_dead_v = has_is_dead<N>::value;
template <class N, class = void>
struct has_is_inv : std::false_type
{};
template <class N>
struct has_is_inv<N, std::void_t<decltype(std::declval<N&>().is_inv(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_inv_v = has_is_inv<N>::value;
template <class N, class = void>
struct has_is_fanout : std::false_type
{};
template <class N>
struct has_is_fanout<N, std::void_t<decltype(std::declval<N&>().is_fanout(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_fanout_v = has_is_fanout<N>::value;
template <class N, class = void>
struct has_node_function : std::false_type
{};
template <class N>
struct has_node_function<N, std::void_t<decltype(std::declval<N&>().node_function(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_node_function_v = has_node_function<N>::value;
template <class N, class = void>
struct has_get_node : std::false_type
{};
template <class N>
struct has_get_node<N, std::void_t<decltype(std::declval<N&>().get_node(std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_get_node_v = has_get_node<N>::value;
template <class N, class = void>
struct has_make_signal : std::false_type
{};
template <class N>
struct has_make_signal<N, std::void_t<decltype(std::declval<N&>().make_signal(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_make_signal_v = has_make_signal<N>::value;
template <class N, class = void>
struct has_is_complemented : std::false_type
{};
template <class N>
struct has_is_complemented<N, std::void_t<decltype(std::declval<N&>().is_complemented(std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_complemented_v = has_is_complemented<N>::value;
template <class N, class = void>
struct has_node_to_index : std::false_type
{};
template <class N>
struct has_node_to_index<N, std::void_t<decltype(std::declval<N&>().node_to_index(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_node_to_index_v = has_node_to_index<N>::value;
template <class N, class = void>
struct has_index_to_node : std::false_type
{};
template <class N>
struct has_index_to_node<N, std::void_t<decltype(std::declval<N&>().index_to_node(uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_index_to_node_v = has_index_to_node<N>::value;
template <class N, class = void>
struct has_pi_index : std::false_type
{};
template <class N>
struct has_pi_index<N, std::void_t<decltype(std::declval<N&>().pi_index(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_pi_index_v = has_pi_index<N>::value;
template <class N, class = void>
struct has_ci_index : std::false_type
{};
template <class N>
struct has_ci_index<N, std::void_t<decltype(std::declval<N&>().ci_index(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_ci_index_v = has_ci_index<N>::value;
template <class N, class = void>
struct has_po_index : std::false_type
{};
template <class N>
struct has_po_index<N, std::void_t<decltype(std::declval<N&>().po_index(std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_po_index_v = has_po_index<N>::value;
template <class N, class = void>
struct has_pi_at : std::false_type
{};
template <class N>
struct has_pi_at<N, std::void_t<decltype(std::declval<N&>().pi_at(uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_pi_at_v = has_pi_at<N>::value;
template <class N, class = void>
struct has_po_at : std::false_type
{};
template <class N>
struct has_po_at<N, std::void_t<decltype(std::declval<N&>().po_at(uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_po_at_v = has_po_at<N>::value;
template <class N, class = void>
struct has_ci_at : std::false_type
{};
template <class N>
struct has_ci_at<N, std::void_t<decltype(std::declval<N&>().ci_at(uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_ci_at_v = has_ci_at<N>::value;
template <class N, class = void>
struct has_co_at : std::false_type
{};
template <class N>
struct has_co_at<N, std::void_t<decltype(std::declval<N&>().co_at(uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_co_at_v = has_co_at<N>::value;
template <class N, class = void>
struct has_visited : std::false_type
{};
template <class N>
struct has_visited<N, std::void_t<decltype(std::declval<N&>().visited(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_visited_v = has_visited<N>::value;
template <class N, class = void>
struct has_set_visited : std::false_type
{};
template <class N>
struct has_set_visited<N, std::void_t<decltype(std::declval<N&>().set_visited(std::declval<typename N::node>(), uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_set_visited_v = has_set_visited<N>::value;
template <class N, class = void>
struct has_clear_visited : std::false_type
{};
template <class N>
struct has_clear_visited<N, std::void_t<decltype(std::declval<N&>().clear_visited())>> : std::true_type
{};
template <class N>
inline constexpr bool has_clear_visited_v = has_clear_visited<N>::value;
template <class N, class = void>
struct has_trav_id : std::false_type
{};
template <class N>
struct has_trav_id<N, std::void_t<decltype(std::declval<N&>().trav_id())>> : std::true_type
{};
template <class N>
inline constexpr bool has_trav_id_v = has_trav_id<N>::value;
template <class N, class = void>
struct has_incr_trav_id : std::false_type
{};
template <class N>
struct has_incr_trav_id<N, std::void_t<decltype(std::declval<N&>().incr_trav_id())>> : std::true_type
{};
template <class N>
inline constexpr bool has_incr_trav_id_v = has_incr_trav_id<N>::value;
template <class N, class = void>
struct has_value : std::false_type
{};
template <class N>
struct has_value<N, std::void_t<decltype(std::declval<N&>().value(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_value_v = has_value<N>::value;
template <class N, class = void>
struct has_set_value : std::false_type
{};
template <class N>
struct has_set_value<N, std::void_t<decltype(std::declval<N&>().set_value(std::declval<typename N::node>(), uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_set_value_v = has_set_value<N>::value;
template <class N, class = void>
struct has_incr_value : std::false_type
{};
template <class N>
struct has_incr_value<N, std::void_t<decltype(std::declval<N&>().incr_value(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_incr_value_v = has_incr_value<N>::value;
template <class N, class = void>
struct has_decr_value : std::false_type
{};
template <class N>
struct has_decr_value<N, std::void_t<decltype(std::declval<N&>().decr_value(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_decr_value_v = has_decr_value<N>::value;
template <class N, class = void>
struct has_clear_values : std::false_type
{};
template <class N>
struct has_clear_values<N, std::void_t<decltype(std::declval<N&>().clear_values())>> : std::true_type
{};
template <class N>
inline constexpr bool has_clear_values_v = has_clear_values<N>::value;
template <class N, class = void>
struct has_depth : std::false_type
{};
template <class N>
struct has_depth<N, std::void_t<decltype(std::declval<N&>().depth())>> : std::true_type
{};
template <class N>
inline constexpr bool has_depth_v = has_depth<N>::value;
template <class N, class = void>
struct has_level : std::false_type
{};
template <class N>
struct has_level<N, std::void_t<decltype(std::declval<N&>().level(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_level_v = has_level<N>::value;
template <class N, class = void>
struct has_set_level : std::false_type
{};
template <class N>
struct has_set_level<N, std::void_t<decltype(std::declval<N&>().set_level(std::declval<typename N::node>(), uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_set_level_v = has_set_level<N>::value;
template <class N, class = void>
struct has_update_levels : std::false_type
{};
template <class N>
struct has_update_levels<N, std::void_t<decltype(std::declval<N&>().update_levels())>> : std::true_type
{};
template <class N>
inline constexpr bool has_update_levels_v = has_update_levels<N>::value;
template <class N, class = void>
struct has_is_on_critical_path : std::false_type
{};
template <class N>
struct has_is_on_critical_path<N, std::void_t<decltype(std::declval<N&>().is_on_critical_path(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_is_on_critical_path_v = has_is_on_critical_path<N>::value;
template <class N, class = void>
struct has_rank_position : std::false_type
{};
template <class N>
struct has_rank_position<N, std::void_t<decltype(std::declval<N&>().rank_position(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_rank_position_v = has_rank_position<N>::value;
template <class N, class = void>
struct has_at_rank_position : std::false_type
{};
template <class N>
struct has_at_rank_position<N, std::void_t<decltype(std::declval<N&>().at_rank_position(uint32_t(), uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_at_rank_position_v = has_at_rank_position<N>::value;
template <class N, class = void>
struct has_swap : std::false_type
{};
template <class N>
struct has_swap<N, std::void_t<decltype(std::declval<N&>().swap(std::declval<typename N::node>(), std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_swap_v = has_swap<N>::value;
template <class N, class = void>
struct has_width : std::false_type
{};
template <class N>
struct has_width<N, std::void_t<decltype(std::declval<N&>().width())>> : std::true_type
{};
template <class N>
inline constexpr bool has_width_v = has_width<N>::value;
template <class N, class = void>
struct has_sort_rank : std::false_type
{};
template <class N>
struct has_sort_rank<N, std::void_t<decltype(std::declval<N&>().sort_rank(uint32_t(), std::declval<bool(typename N::node, typename N::node)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_sort_rank_v = has_sort_rank<N>::value;
template <class N, class = void>
struct has_foreach_node_in_rank : std::false_type
{};
template <class N>
struct has_foreach_node_in_rank<N, std::void_t<decltype(std::declval<N&>().foreach_node_in_rank(uint32_t(), std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_node_in_rank_v = has_foreach_node_in_rank<N>::value;
template <class N, class = void>
struct has_foreach_gate_in_rank : std::false_type
{};
template <class N>
struct has_foreach_gate_in_rank<N, std::void_t<decltype(std::declval<N&>().foreach_gate_in_rank(uint32_t(), std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_gate_in_rank_v = has_foreach_gate_in_rank<N>::value;
template <class N, class = void>
struct has_has_name : std::false_type
{};
template <class N>
struct has_has_name<N, std::void_t<decltype(std::declval<N&>().has_name(std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_has_name_v = has_has_name<N>::value;
template <class N, class = void>
struct has_get_name : std::false_type
{};
template <class N>
struct has_get_name<N, std::void_t<decltype(std::declval<N&>().get_name(std::declval<typename N::signal>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_get_name_v = has_get_name<N>::value;
template <class N, class = void>
struct has_set_name : std::false_type
{};
template <class N>
struct has_set_name<N, std::void_t<decltype(std::declval<N&>().set_name(std::declval<typename N::signal>(), std::string()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_set_name_v = has_set_name<N>::value;
template <class N, class = void>
struct has_has_output_name : std::false_type
{};
template <class N>
struct has_has_output_name<N, std::void_t<decltype(std::declval<N&>().has_output_name(uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_has_output_name_v = has_has_output_name<N>::value;
template <class N, class = void>
struct has_get_output_name : std::false_type
{};
template <class N>
struct has_get_output_name<N, std::void_t<decltype(std::declval<N&>().get_output_name(uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_get_output_name_v = has_get_output_name<N>::value;
template <class N, class = void>
struct has_set_output_name : std::false_type
{};
template <class N>
struct has_set_output_name<N, std::void_t<decltype(std::declval<N&>().set_output_name(uint32_t(), std::string()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_set_output_name_v = has_set_output_name<N>::value;
template <class N, class = void>
struct has_set_network_name : std::false_type
{};
template <class N>
struct has_set_network_name<N, std::void_t<decltype(std::declval<N&>().set_network_name(std::string()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_set_network_name_v = has_set_network_name<N>::value;
template <class N, class = void>
struct has_get_network_name : std::false_type
{};
template <class N>
struct has_get_network_name<N, std::void_t<decltype(std::declval<N&>().get_network_name())>> : std::true_type
{};
template <class N>
inline constexpr bool has_get_network_name_v = has_get_network_name<N>::value;
template <class N, class = void>
struct has_new_color : std::false_type
{};
template <class N>
struct has_new_color<N, std::void_t<decltype(std::declval<N&>().new_color())>> : std::true_type
{};
template <class N>
inline constexpr bool has_new_color_v = has_new_color<N>::value;
template <class N, class = void>
struct has_current_color : std::false_type
{};
template <class N>
struct has_current_color<N, std::void_t<decltype(std::declval<N&>().current_color())>> : std::true_type
{};
template <class N>
inline constexpr bool has_current_color_v = has_current_color<N>::value;
template <class N, class = void>
struct has_clear_colors : std::false_type
{};
template <class N>
struct has_clear_colors<N, std::void_t<decltype(std::declval<N&>().clear_colors(uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_clear_colors_v = has_clear_colors<N>::value;
template <class N, class = void>
struct has_color : std::false_type
{};
template <class N>
struct has_color<N, std::void_t<decltype(std::declval<N&>().color(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_color_v = has_color<N>::value;
template <class N, class = void>
struct has_paint : std::false_type
{};
template <class N>
struct has_paint<N, std::void_t<decltype(std::declval<N&>().paint(std::declval<typename N::node>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_paint_v = has_paint<N>::value;
template <class N, class = void>
struct has_eval_color : std::false_type
{};
template <class N>
struct has_eval_color<N, std::void_t<decltype(std::declval<N&>().eval_color(std::declval<typename N::node>(), std::declval<bool(uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_eval_color_v = has_eval_color<N>::value;
template <class N, class = void>
struct has_eval_fanins_color : std::false_type
{};
template <class N>
struct has_eval_fanins_color<N, std::void_t<decltype(std::declval<N&>().eval_fanins_color(std::declval<typename N::node>(), std::declval<bool(uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_eval_fanins_color_v = has_eval_fanins_color<N>::value;
template <class N, class = void>
struct has_foreach_node : std::false_type
{};
template <class N>
struct has_foreach_node<N, std::void_t<decltype(std::declval<N&>().foreach_node(std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_node_v = has_foreach_node<N>::value;
template <class N, class = void>
struct has_foreach_ci : std::false_type
{};
template <class N>
struct has_foreach_ci<N, std::void_t<decltype(std::declval<N&>().foreach_ci(std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_ci_v = has_foreach_ci<N>::value;
template <class N, class = void>
struct has_foreach_co : std::false_type
{};
template <class N>
struct has_foreach_co<N, std::void_t<decltype(std::declval<N&>().foreach_co(std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_co_v = has_foreach_co<N>::value;
template <class N, class = void>
struct has_foreach_pi : std::false_type
{};
template <class N>
struct has_foreach_pi<N, std::void_t<decltype(std::declval<N&>().foreach_pi(std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_pi_v = has_foreach_pi<N>::value;
template <class N, class = void>
struct has_foreach_po : std::false_type
{};
template <class N>
struct has_foreach_po<N, std::void_t<decltype(std::declval<N&>().foreach_po(std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_po_v = has_foreach_po<N>::value;
template <class N, class = void>
struct has_foreach_ro : std::false_type
{};
template <class N>
struct has_foreach_ro<N, std::void_t<decltype(std::declval<N&>().foreach_ro(std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_ro_v = has_foreach_ro<N>::value;
template <class N, class = void>
struct has_foreach_ri : std::false_type
{};
template <class N>
struct has_foreach_ri<N, std::void_t<decltype(std::declval<N&>().foreach_ri(std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_ri_v = has_foreach_ri<N>::value;
template <class N, class = void>
struct has_foreach_gate : std::false_type
{};
template <class N>
struct has_foreach_gate<N, std::void_t<decltype(std::declval<N&>().foreach_gate(std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_gate_v = has_foreach_gate<N>::value;
template <class N, class = void>
struct has_foreach_fanin : std::false_type
{};
template <class N>
struct has_foreach_fanin<N, std::void_t<decltype(std::declval<N&>().foreach_fanin(std::declval<typename N::node>(), std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_fanin_v = has_foreach_fanin<N>::value;
template <class N, class = void>
struct has_foreach_fanout : std::false_type
{};
template <class N>
struct has_foreach_fanout<N, std::void_t<decltype(std::declval<N&>().foreach_fanout(std::declval<typename N::node>(), std::declval<void(typename N::node, uint32_t)>()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_foreach_fanout_v = has_foreach_fanout<N>::value;
template <class N, class = void>
struct has_events : std::false_type
{};
template <class N>
struct has_events<N, std::void_t<decltype(std::declval<N&>().events())>> : std::true_type
{};
template <class N>
inline constexpr bool has_events_v = has_events<N>::value;
template <class N, class = void>
struct has_ri_at : std::false_type
{};
template <class N>
struct has_ri_at<N, std::void_t<decltype(std::declval<N&>().ri_at(uint32_t()))>> : std::true_type
{};
template <class N>
inline constexpr bool has_ri_at_v = has_ri_at<N>::value;
}  // namespace mockturtle
