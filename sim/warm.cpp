// Brings the parser libraries into their steady state before the simulation starts.
#include "sax.hpp"
#include <sstream>
using namespace simsax;
namespace sim { void use_sim_heap_in_c_libraries(); }

void simsax::warm_parsers() {
  sim::use_sim_heap_in_c_libraries();
  for(int b = 0; b != 3; ++b) {
    std::unique_ptr<Readers<std::string>::R> r(Readers<std::string>::make(b));
    Recorder<std::string> h; h.attach(*r);
    std::istringstream is("<!DOCTYPE a [<!ENTITY e 'x'><!ELEMENT a ANY>]><a b='1' xmlns:p='u'>t&e;<![CDATA[c]]><!--c--><?p i?></a>");
    Arabica::SAX::InputSource<std::string> src(is);
    r->parse(src);
    std::istringstream bad("<a><b></a>");
    Arabica::SAX::InputSource<std::string> src2(bad);
    try { r->parse(src2); } catch(...) { }
  }
  static std::unique_ptr<Readers<std::string>::R> keep(Readers<std::string>::make(XERCES));   // Xerces stays initialised
}

