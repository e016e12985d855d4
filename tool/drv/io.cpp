#include "flow/flow_manager.hpp"
using namespace iFPGA_NAMESPACE;
namespace drv_io {
void all( aig_network& a, klut_network const& k, std::string const& path, write_verilog_params& ps, std::ostream& os, lorina::aiger_reader const& r )
{
  Reader<aig_network> reader( path, a, ps );
  Writer<aig_network, klut_network> writer( a, k );
  writer.write2AIG( path );
  writer.write2Dot( path );
  writer.write2Verilog( path, ps );
  writer.write2LUT( path, ps );
  write_aiger( a, path );
  write_dot( a, path );
  write_dot( k, path );
  write_verilog( a, path, ps );
  write_lut( k, path, ps );
  (void)r;
}
}
