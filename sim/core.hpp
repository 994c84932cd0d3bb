// Deterministic simulation core: one tape of choices decides one execution.
#ifndef VERIF_SIM_CORE_HPP
#define VERIF_SIM_CORE_HPP
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- choices -------------------------------------------------------------
// choose(n): a value in [0,n).  0 is always the "simplest" choice (shrinking drives values to 0).
uint32_t choose(uint32_t n);
inline bool coin() { return choose(2) != 0; }
// true with probability num/den; the tape value 0 means false
inline bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
inline int range(int lo, int hi) { return lo + (int)choose((uint32_t)(hi - lo + 1)); } // inclusive
// small numbers likely, large ones possible
int small(int hi);
template<class C> const typename C::value_type& pick(const C& c) { return c[choose((uint32_t)c.size())]; }

// ---- identity of this run --------------------------------------------------
extern const char* property;      // the property being decided
inline bool prop(const char* p) { return std::string(property) == p; }
extern bool tracing;              // a human-readable trace is wanted
extern bool thorough;

// ---- log: hashed, kept as trace; nothing here draws choices -----------------
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log_s(const std::string& line);
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // trace only, not hashed
uint64_t hash_bytes(uint64_t h, const void* p, size_t n);
inline uint64_t hash_str(const std::string& s) { return hash_bytes(1469598103934665603ull, s.data(), s.size()); }
std::string quote(const std::string& s, size_t max = 400);

// ---- measurements ------------------------------------------------------------
void fault(const char* kind);     // a fault of this kind actually fired
void probe(const char* name);     // a rare condition was reached
void nontrivial();                // this run exercised what the property is about
void shape(uint64_t h);           // contributes to the "distinct interleavings" measure
void sample(const std::string& s);// a readable description of the case

// What the code under test produced, where two executions of one workload are compared (P21); no effect otherwise.
extern bool comparing;
void result_line(const char* kind, const std::string& text);
inline void result(const char* kind, const std::string& text) { if(comparing) result_line(kind, text); }

// ---- verdicts --------------------------------------------------------------
[[noreturn]] void fail(const std::string& check, const std::string& msg);
[[noreturn]] void harness_error(const std::string& msg);
void expect_eq(const std::string& check, const std::string& want, const std::string& got, const std::string& ctx = "");

// ---- step budget -------------------------------------------------------------
uint64_t steps();
void step_limit(uint64_t n);      // absolute budget from now on; exceeding it is a termination violation
void no_step_limit();

// ---- simulated heap ------------------------------------------------------------
struct HeapPolicy { bool reuse; int order; uint8_t fill; };
void heap_policy(HeapPolicy p);
HeapPolicy heap_policy();
void heap_choose_policy();        // from the tape
void heap_reset();                // forget all blocks (only when nothing of the arena is live)
size_t live_blocks();
size_t live_bytes();
uint64_t alloc_count();           // allocations made by code under test so far
void fail_alloc(int64_t after, bool sticky = false); // the (after+1)-th allocation from now throws bad_alloc; -1 disarms
extern bool never_fail;            // set while a C library allocates: those allocations are neither counted for nor hit by fail_alloc
struct NoFail { bool b; NoFail() : b(never_fail) { never_fail = true; } ~NoFail() { never_fail = b; } };
uint64_t failable_count();         // allocations fail_alloc could have hit so far
void watch_sites(bool);             // remember who makes each allocation counted from now on
int64_t choose_site();             // from the tape: which of them
bool alloc_failed();              // has an armed failure fired?
std::string live_report();        // sizes of live blocks (diagnostics)

extern __thread int sut_depth;
extern void (*sut_hook)();
// scope in which allocations belong to the code under test
struct Sut { int d; Sut() : d(sut_depth) { sut_depth = 1; if(sut_hook) sut_hook(); } ~Sut() { sut_depth = d; } };
// scope inside callbacks: the harness's own allocations
struct Shield { int d; Shield() : d(sut_depth) { sut_depth = 0; } ~Shield() { sut_depth = d; } };

template<class F> auto sut(F f) -> decltype(f()) { Sut s; return f(); }

// ---- simulated clock (gettimeofday/time are interposed) ---------------------------
void clock_set(uint64_t us);
uint64_t clock_now();

// ---- the same workload in a forked copy of this process, from the same point of the tape ----
struct Copy { int status; std::string check, msg, text; uint64_t hash; uint32_t drawn; };  // status: 1 ended, 2 violation
Copy in_copy(const char* property, HeapPolicy forced, uint8_t stack_fill, bool adopt);

void warm_world(const char* property);  // the one-time preparation of another world
// thread scheduling hook (threads world)
extern void (*step_hook)();

// ---- worlds ---------------------------------------------------------------------------
struct World { const char* property; void (*body)(); void (*warm)(); uint64_t step_budget; };
void world(const char* property, void (*body)(), void (*warm)() = nullptr, uint64_t step_budget = 200000000ull);
struct Reg { Reg(const char* p, void (*b)(), void (*w)() = nullptr, uint64_t s = 200000000ull) { world(p, b, w, s); } };

} // namespace sim
#endif
