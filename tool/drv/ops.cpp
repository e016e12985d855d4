#include "flow/flow_manager.hpp"
#include "include/operations/algorithms/simulation.hpp"
#include "include/operations/algorithms/cleanup.hpp"
#include "include/operations/algorithms/miter.hpp"
#include "include/operations/algorithms/equivalence_checking.hpp"
#include "include/operations/algorithms/cnf.hpp"
#include "include/operations/algorithms/choice_miter.hpp"
#include "include/operations/algorithms/choice_computation.hpp"
#include "include/operations/algorithms/network_to_klut.hpp"
#include "include/operations/algorithms/klut_mapping.hpp"
#include "include/database/views/topo_view.hpp"
#include "include/database/views/depth_view.hpp"
#include "include/database/views/mapping_view.hpp"
#include "include/operations/optimization/and_balance.hpp"
#include "include/operations/optimization/balancing.hpp"
#include "include/operations/optimization/balancing/sop_balancing.hpp"
#include "include/utils/truth_table_cache.hpp"
using namespace iFPGA_NAMESPACE;
template class iFPGA_NAMESPACE::topo_view<aig_network>;
template class iFPGA_NAMESPACE::depth_view<aig_network>;
template class iFPGA_NAMESPACE::mapping_view<aig_network, true>;
namespace drv {
using aig = aig_network; using klut = klut_network;
void all( aig& a, klut& k, aig_with_choice& c, klut_mapping_params const& kp, aig_network const& ca, klut_network const& ck )
{
  (void)miter<aig, aig, aig>( a, a );
  (void)miter<klut, aig, klut>( a, k );
  (void)equivalence_checking( a );
  (void)equivalence_checking( k );
  (void)cleanup_dangling( a );
  (void)cleanup_luts( k );
  (void)cleanup_dangling<aig, klut>( a );
  (void)generate_cnf( ca, []( std::vector<uint32_t> const& ) {} );
  (void)generate_cnf( ck, []( std::vector<uint32_t> const& ) {} );
  (void)generate_cnf<aig, bill::lit_type>( ca, []( std::vector<bill::lit_type> const& ) {} );
  {
    auto f = []( std::vector<uint32_t> const& ) {};
    detail::on_and( 0u, 0u, 0u, f ); detail::on_or( 0u, 0u, 0u, f ); detail::on_xor( 0u, 0u, 0u, f );
    detail::on_maj( 0u, 0u, 0u, 0u, f ); detail::on_xor3( 0u, 0u, 0u, 0u, f ); detail::on_ite( 0u, 0u, 0u, 0u, f );
    detail::on_function( 0u, std::vector<uint32_t>{}, kitty::dynamic_truth_table{}, f );
    auto g = []( std::vector<bill::lit_type> const& ) {};
    bill::lit_type l( 0, bill::positive_polarity );
    detail::on_and( l, l, l, g ); detail::on_or( l, l, l, g ); detail::on_xor( l, l, l, g );
    detail::on_maj( l, l, l, l, g ); detail::on_xor3( l, l, l, l, g ); detail::on_ite( l, l, l, l, g );
    detail::on_function( l, std::vector<bill::lit_type>{}, kitty::dynamic_truth_table{}, g );
  }
  default_simulator<bool> sb( std::vector<bool>{} ); default_simulator<kitty::dynamic_truth_table> st( 3u );
  (void)simulate_nodes<bool>( ca, sb );
  (void)simulate<bool>( ca, sb );
  (void)simulate<bool>( ck, sb );
  (void)simulate<kitty::dynamic_truth_table>( ca, st );
  (void)simulate<kitty::dynamic_truth_table>( ck, st );
  input_word_simulator iw( 3u ); (void)iw;
  {
    unordered_node_map<kitty::partial_truth_table, aig> m( ca );
    partial_simulator ps( 1, 1 );
    simulate_nodes<aig>( ca, m, ps, true );
  }
  mapping_view<aig, true> mv( a );
  klut_mapping_params p = kp;
  (void)network_to_klut<klut>( mv );
  (void)convert_klut_to_aig( k );
  (void)convert_mapped_graph_to_aig( mv );
  (void)debug_by_miter<aig, aig>( a, a );
  mapping_view<aig_with_choice, true, false> mc( c );
  klut_mapping<decltype( mc ), true>( mc, p );
  (void)choice_to_klut<klut>( mc );
  rewrite_params rp; refactor_params fp;
  (void)rewrite( a, rp );
  (void)refactor( a, fp );
  (void)balance_and( a );
  (void)a.create_nary_and( {} ); (void)a.create_nary_or( {} ); (void)a.create_nary_xor( {} );
  (void)k.create_nary_and( {} ); (void)k.create_nary_or( {} ); (void)k.create_nary_xor( {} );
  {
    std::vector<bool> bv; std::vector<kitty::dynamic_truth_table> tv;
    (void)ca.compute( 0, bv.begin(), bv.end() ); (void)ca.compute( 0, tv.begin(), tv.end() );
    (void)ck.compute( 0, bv.begin(), bv.end() ); (void)ck.compute( 0, tv.begin(), tv.end() );
  }
  ca.foreach_pi( []( auto, auto ) {} ); ca.foreach_po( []( auto const&, auto ) {} ); ca.foreach_ci( []( auto, auto ) {} );
  ca.foreach_co( []( auto const&, auto ) {} ); ca.foreach_gate( []( auto, auto ) {} ); ca.foreach_node( []( auto, auto ) {} );
  ca.foreach_ro( []( auto, auto ) {} ); ca.foreach_ri( []( auto const&, auto ) {} );
  ca.foreach_fanin( 0, []( auto const&, auto ) {} );
  ck.foreach_pi( []( auto, auto ) {} ); ck.foreach_po( []( auto const&, auto ) {} ); ck.foreach_gate( []( auto, auto ) {} );
  ck.foreach_node( []( auto, auto ) {} ); ck.foreach_fanin( 0, []( auto const&, auto ) {} );
  ck.foreach_ci( []( auto, auto ) {} ); ck.foreach_co( []( auto const&, auto ) {} );
  {
    topo_view<aig> ta( a ), tb( a, a.get_constant( false ) );
    topo_view<klut> tk( k );
    ta.foreach_node( []( auto, auto ) {} ); ta.foreach_gate( []( auto, auto ) {} ); ta.foreach_po( []( auto const&, auto ) {} );
    tk.foreach_node( []( auto, auto ) {} ); tk.foreach_gate( []( auto, auto ) {} ); tk.foreach_po( []( auto const&, auto ) {} );
    (void)ta.size(); (void)ta.num_gates(); (void)ta.num_pos(); (void)ta.index_to_node( 0 ); (void)ta.node_to_index( 0 );
    (void)tk.size(); (void)tk.num_gates(); (void)tk.num_pos(); (void)tk.index_to_node( 0 ); (void)tk.node_to_index( 0 );
    depth_view<aig> dv( a );
    (void)dv.level( 0 ); (void)dv.depth(); dv.set_level( 0, 0u ); dv.set_depth( 0u ); dv.resize_levels();
  }
  ck.foreach_ro( []( auto, auto ) {} ); ck.foreach_ri( []( auto const&, auto ) {} );
}
}
