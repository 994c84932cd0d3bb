// P21: results depend neither on what fresh memory contains nor on the addresses the allocator hands out.
// A run draws one of the other worlds' workloads and executes it twice, in two copies of the same process and from
// the same point of the tape, under two heaps: different fill of fresh blocks, different order of addresses, with and
// without reuse, and a differently dirtied stack. Everything the code under test produced must be the same.
#include "../sim/core.hpp"
#include "../sim/sax.hpp"
#include "../sim/cases.hpp"
using namespace sim;
namespace {
const char* const WORK[] = { "P08", "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P09", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18" };
const int NWORK = sizeof WORK / sizeof *WORK;
// wall-clock weight: the dear ones less often
const uint8_t WEIGHT[] = { 8, 6, 8, 5, 4, 5, 8, 8, 5, 5, 5, 4, 3, 8, 10, 10, 10 };
HeapPolicy draw() { static const uint8_t fills[] = { 0x00, 0xcd, 0xff, 0x01, 0x7f, 0xa5, 0x40, 0x20 }; HeapPolicy p; p.fill = fills[choose(8)]; p.order = (int)choose(8); p.reuse = coin(); return p; }
std::string show(const HeapPolicy& p, uint8_t st) { return "fill " + std::to_string(p.fill) + ", addresses " + (p.order == 0 ? "rising" : p.order == 1 ? "falling" : "scattered " + std::to_string(p.order - 2)) + (p.reuse ? ", freed blocks reused" : ", no reuse") + ", stack " + std::to_string(st); }
std::string first_difference(const std::string& a, const std::string& b) {
  size_t i = 0, line = 0, n = 1;
  while(i < a.size() && i < b.size() && a[i] == b[i]) { if(a[i] == '\n') { line = i + 1; ++n; } ++i; }
  auto cut = [&](const std::string& s) { if(line >= s.size()) return std::string("(nothing more)"); std::string l = s.substr(line, s.find('\n', line) - line); size_t at = i - line; return at > 150 ? "..." + l.substr(at - 100, 600) : l.substr(0, 600); };
  return "line " + std::to_string(n) + " of the two records:\n  A: " + cut(a) + "\n  B: " + cut(b);
}
void warm21() { for(const char* p : { "P01", "P08", "P16", "P18" }) warm_world(p); }
void p21() {
  uint32_t total = 0; for(int i = 0; i < NWORK; ++i) total += WEIGHT[i];
  uint32_t k = choose(total); int w = 0; while(k >= WEIGHT[w]) k -= WEIGHT[w++];
  HeapPolicy a = draw(), b = draw(); uint8_t sa = choose(2) ? 0xff : 0x00, sb = choose(2) ? 0xa5 : 0x5a;
  if(a.fill == b.fill) b.fill ^= 0x33;
  if(a.order == b.order) b.order = (b.order + 1) % 8;
  note("workload %s; A: %s; B: %s", WORK[w], show(a, sa).c_str(), show(b, sb).c_str());
  Copy cb = in_copy(WORK[w], b, sb, false);
  Copy ca = in_copy(WORK[w], a, sa, true);      // last: the parent takes over what it drew
  probe((std::string("workload ") + WORK[w]).c_str());
  fault("heap layout changed"); fault("fresh memory changed");
  if(a.reuse != b.reuse) fault("reuse changed");
  nontrivial(); shape(w * 1000 + a.order * 8 + b.order);
  sample(std::string("workload ") + WORK[w] + "; A: " + show(a, sa) + "; B: " + show(b, sb));
  log("%s %d %d %u", WORK[w], ca.status, cb.status, (unsigned)ca.hash);
  std::string in = std::string("workload ") + WORK[w] + ": ";
  if(ca.status != cb.status) { Copy& bad = ca.status == 1 ? cb : ca; fail("outcome", in + "with one heap it ends, with the other: " + bad.check + ": " + bad.msg.substr(0, 1500) + "\nA: " + show(a, sa) + "\nB: " + show(b, sb)); }
  if(ca.check != cb.check) fail("outcome", in + "fails differently: " + ca.check + " and " + cb.check);
  if(ca.text != cb.text) fail("results", in + first_difference(ca.text, cb.text) + "\nA: " + show(a, sa) + "\nB: " + show(b, sb));
  if(ca.hash != cb.hash) fail("results", in + "the records differ");
  if(ca.drawn != cb.drawn) fail("results", in + "the client was led to different choices");
}
Reg r21("P21", p21, warm21, 20000000000ull);
}
