// Runtime of the simulator: search, gate, minimise, replay; simulated heap, step counter, interposed clocks.
#include "core.hpp"
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dlfcn.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <new>
#include <map>
#include <set>
#include <algorithm>
#include <exception>
#include <fstream>
#include <sstream>
#include <iostream>

namespace sim {

const char* property = "";
bool tracing = false;
bool thorough = false;
__thread int sut_depth = 0;
void (*step_hook)() = nullptr;
void (*sut_hook)() = nullptr;
bool comparing = false;

static const uint32_t TAPE_MAX = 1u << 18;
static const uint32_t TRACE_MAX = 1u << 20;
static const int NCTR = 96;
struct Ctr { char name[36]; uint64_t n; };

enum { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_ERROR = 3 };
struct Result {
  volatile int status;
  char check[96];
  char msg[4000];
  char sample[1500];
  uint64_t hash, steps, shape, allocs;
  int nontrivial;
  uint32_t ntape;
  Ctr faults[NCTR], probes[NCTR];
  uint32_t ntrace;
  uint32_t tape[TAPE_MAX];
  char trace[TRACE_MAX];
};

static Result* R = nullptr;            // this worker's result slot (shared with the child)
static uint8_t* cov = nullptr;         // coverage bytes, shared, per worker
static const uint32_t COV = 1u << 17;

// ---------------------------------------------------------------- choices
static bool replaying = false;
static const uint32_t* rtape = nullptr;
static uint32_t rlen = 0;
static uint64_t prng;

static uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint32_t choose(uint32_t n) {
  if(n <= 1) return 0;
  uint32_t v;
  if(replaying) v = R->ntape < rlen ? rtape[R->ntape] % n : 0;
  else v = (uint32_t)(splitmix(prng) % n);
  if(R->ntape >= TAPE_MAX) harness_error("tape exhausted");
  R->tape[R->ntape++] = v;
  return v;
}

int small(int hi) {
  if(hi <= 0) return 0;
  uint32_t k = choose(8);
  if(k < 4) return (int)choose((uint32_t)std::min(hi, 3) + 1);
  if(k < 7) return (int)choose((uint32_t)std::min(hi, 12) + 1);
  return (int)choose((uint32_t)hi + 1);
}

// ---------------------------------------------------------------- log
uint64_t hash_bytes(uint64_t h, const void* p, size_t n) {
  const uint8_t* b = (const uint8_t*)p;
  for(size_t i = 0; i != n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}

static void trace_line(const char* s, size_t n) {
  if(R->ntrace + n + 2 >= TRACE_MAX) return;
  memcpy(R->trace + R->ntrace, s, n);
  R->ntrace += n;
  R->trace[R->ntrace++] = '\n';
}

void log_s(const std::string& l) {
  R->hash = hash_bytes(R->hash, l.data(), l.size());
  R->hash = (R->hash ^ 10) * 1099511628211ull;
  if(tracing) trace_line(l.data(), l.size());
}

void log(const char* fmt, ...) {
  char buf[2048];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if(n > (int)sizeof buf - 1) n = sizeof buf - 1;
  R->hash = hash_bytes(R->hash, buf, n);
  R->hash = (R->hash ^ 10) * 1099511628211ull;
  if(tracing) trace_line(buf, n);
}

void note(const char* fmt, ...) {
  if(!tracing) return;
  char buf[2048];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if(n > (int)sizeof buf - 1) n = sizeof buf - 1;
  trace_line(buf, n);
}

std::string quote(const std::string& s, size_t max) {
  std::string r;
  for(size_t i = 0; i != s.size(); ++i) {
    if(r.size() > max) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
    unsigned char c = s[i];
    if(c == '\n') r += "\\n";
    else if(c == '\\') r += "\\\\";
    else if(c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

// ---------------------------------------------------------------- counters
static void count(Ctr* c, const char* name, uint64_t by = 1) {
  for(int i = 0; i != NCTR; ++i) {
    if(!c[i].name[0]) { strncpy(c[i].name, name, 35); c[i].n = by; return; }
    if(strncmp(c[i].name, name, 35) == 0) { c[i].n += by; return; }
  }
}
void fault(const char* k) { count(R->faults, k); }
void probe(const char* k) { count(R->probes, k); }
void nontrivial() { R->nontrivial = 1; }
void shape(uint64_t h) { R->shape = hash_bytes(R->shape ? R->shape : 1469598103934665603ull, &h, 8); }
void sample(const std::string& s) { strncpy(R->sample, s.c_str(), sizeof R->sample - 1); }

// ---------------------------------------------------------------- verdicts
static void put_verdict(int st, const std::string& check, const std::string& msg) {
  if(R->status == ST_NONE) {
    strncpy(R->check, check.c_str(), sizeof R->check - 1);
    strncpy(R->msg, msg.c_str(), sizeof R->msg - 1);
    R->status = st;
  }
}
static uint64_t g_steps = 0, g_limit = ~0ull;

void fail(const std::string& check, const std::string& msg) {
  sut_depth = 0;
  R->steps = g_steps;
  put_verdict(ST_VIOLATION, check, msg);
  _exit(0);
}
void harness_error(const std::string& msg) {
  sut_depth = 0;
  put_verdict(ST_ERROR, "harness", msg);
  _exit(0);
}
void expect_eq(const std::string& check, const std::string& want, const std::string& got, const std::string& ctx) {
  if(want == got) return;
  size_t i = 0;
  while(i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  size_t b = i > 60 ? i - 60 : 0;
  fail(check, ctx + "\n  expected ..." + quote(want.substr(b, 300)) + "\n  observed ..." + quote(got.substr(b, 300)) +
       "\n  first difference at " + std::to_string(i) + " of " + std::to_string(want.size()) + "/" + std::to_string(got.size()));
}

// ---------------------------------------------------------------- steps
uint64_t steps() { return g_steps; }
void step_limit(uint64_t n) { g_limit = g_steps + n; }
void no_step_limit() { g_limit = ~0ull; }
static void overflow() {
  g_limit = ~0ull;
  fail("termination", "no end after " + std::to_string(g_steps) + " steps");
}

// ---------------------------------------------------------------- heap
static char* const ARENA = (char*)0x200000000000ull;
static const size_t ARENA_SZ = 4ull << 30;
struct Hdr { uint64_t magic; size_t size; size_t cap; uint64_t id; };   // 32 bytes
static const uint64_t LIVE = 0x51f15e1f51f15e1full, DEAD = 0xdeaddeaddeaddeadull;
static bool heap_on = false;
static HeapPolicy pol = { false, 0, 0xcd };
static char *lo = ARENA + 64, *hi = ARENA + ARENA_SZ - 64;
static size_t n_live = 0, b_live = 0;
static const size_t LIVE_MAX = 384u << 20;
static uint64_t n_alloc = 0;
static int64_t fail_at = -1;
static bool fail_sticky = false, fail_fired = false;
static const int NCLS = 512;            // size classes of 16 bytes, up to 8 KB
static Hdr* freelist[NCLS];
static std::set<Hdr*>* live_set = nullptr; // only when tracing

static bool forced = false;
void heap_policy(HeapPolicy p) { if(!forced) pol = p; }
HeapPolicy heap_policy() { return pol; }
void heap_choose_policy() {
  static const uint8_t fills[] = { 0xcd, 0x00, 0xff, 0x01, 0x7f, 0xa5 };
  HeapPolicy p;
  p.reuse = coin();
  p.order = (int)choose(3);
  p.fill = fills[choose(6)];
  heap_policy(p);
}
void heap_reset() {
  if(n_live) harness_error("heap_reset with live blocks");
  memset(freelist, 0, sizeof freelist);
  __asan_unpoison_memory_region(ARENA, lo - ARENA);
  __asan_unpoison_memory_region(hi, ARENA + ARENA_SZ - hi);
  lo = ARENA + 64; hi = ARENA + ARENA_SZ - 64;
}
size_t live_blocks() { return n_live; }
size_t live_bytes() { return b_live; }
uint64_t alloc_count() { return n_alloc; }
bool never_fail = false;
static uint64_t n_failable;
uint64_t failable_count() { return n_failable; }
static bool sites_on; static std::vector<uint64_t> site_log[3];
void watch_sites(bool on) { sites_on = on; if(on) for(auto& v : site_log) v.clear(); }
static void __attribute__((noinline)) log_site() {       // who allocates: the innermost 4, 8 and 16 callers
  int d = sut_depth; sut_depth = 0;
  uintptr_t* fp = (uintptr_t*)__builtin_frame_address(0); uint64_t h = 1; int n = 0;
  for(int depth = 1; depth <= 16; ++depth) {
    uintptr_t* up = (uintptr_t*)fp[0]; h = (h ^ fp[1]) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    if(depth == 4 || depth == 8) site_log[n++].push_back(h);
    if(up <= fp || (char*)up > (char*)fp + (1 << 20)) break;
    fp = up;
  }
  while(n < 3) site_log[n++].push_back(h);
  sut_depth = d;
}
int64_t choose_site() {                                  // an index among the allocations watched: any caller equally likely
  auto& v = site_log[choose(3)]; if(v.empty()) return 0;
  std::map<uint64_t, uint32_t> id; std::vector<std::vector<uint32_t>> at;
  for(size_t i = 0; i < v.size(); ++i) { auto r = id.insert(std::make_pair(v[i], (uint32_t)at.size())); if(r.second) at.emplace_back(); at[r.first->second].push_back((uint32_t)i); }
  auto& w = at[choose((uint32_t)at.size())];
  switch(choose(3)) { case 0: return w.front(); case 1: return w[choose((uint32_t)w.size())]; default: return w.back(); }
}
void fail_alloc(int64_t after, bool sticky) { fail_at = after; fail_sticky = sticky; fail_fired = false; }
bool alloc_failed() { return fail_fired; }
std::string live_report() {
  std::ostringstream os;
  os << n_live << " blocks, " << b_live << " bytes";
  if(live_set) {
    os << ":";
    int k = 0;
    for(Hdr* h : *live_set) { if(++k > 20) break; os << " #" << h->id << "(" << h->size << ")"; }
  }
  return os.str();
}

static inline bool in_arena(void* p) { return (char*)p >= ARENA && (char*)p < ARENA + ARENA_SZ; }

static uint64_t trap_id = 0;
__attribute__((noinline)) static void trapped() { __asm__ volatile(""); }

static void* arena_alloc(size_t n) {
  size_t cap = (n + 15) & ~size_t(15);
  if(cap == 0) cap = 16;
  if(b_live + n > LIVE_MAX) { sut_depth = 0; fail("unbounded-memory", "384 MB of live memory"); }
  size_t cls = cap / 16;
  Hdr* h = nullptr;
  if(pol.reuse && cls < NCLS && freelist[cls]) {
    h = freelist[cls];
    __asan_unpoison_memory_region(h, sizeof(Hdr) + cap);
    freelist[cls] = *(Hdr**)(h + 1);
  } else {
    size_t tot = sizeof(Hdr) + cap + 16;
    if((size_t)(hi - lo) < tot + 4096) { sut_depth = 0; harness_error("simulated heap used up"); }
    bool up = pol.order == 0 || (pol.order >= 2 && ((n_alloc + (pol.order - 2) * 1000003ull) * 0x9e3779b97f4a7c15ull >> 63));
    if(up) { h = (Hdr*)lo; lo += tot; }
    else { hi -= tot; h = (Hdr*)hi; }
    __asan_unpoison_memory_region(h, tot);
  }
  h->magic = LIVE; h->size = n; h->cap = cap; h->id = ++n_alloc;
  char* u = (char*)(h + 1);
  memset(u, pol.fill, cap);
  __asan_poison_memory_region(h, sizeof(Hdr));
  __asan_poison_memory_region(u, cap + 16);
  __asan_unpoison_memory_region(u, n);
  ++n_live; b_live += n;
  if(live_set) { int d = sut_depth; sut_depth = 0; live_set->insert(h); sut_depth = d; }
  if(n_alloc == trap_id) trapped();
  return u;
}

__attribute__((no_sanitize("address"))) static bool hdr_live(Hdr* h) { return h->magic == LIVE; }

static void arena_free(void* p) {
  Hdr* h = (Hdr*)p - 1;
  if(((uintptr_t)p & 15) || !hdr_live(h)) {
    sut_depth = 0;
    fail("memory/double-free", "freeing memory that is not a live block");
  }
  __asan_unpoison_memory_region(h, sizeof(Hdr));
  h->magic = DEAD;
  --n_live; b_live -= h->size;
  size_t cap = h->cap;
  if(live_set) { int d = sut_depth; sut_depth = 0; live_set->erase(h); sut_depth = d; }
  __asan_unpoison_memory_region(p, cap);
  memset(p, 0xdd, cap);
  if(pol.reuse && cap / 16 < NCLS) {
    *(Hdr**)p = freelist[cap / 16];
    freelist[cap / 16] = h;
  }
  __asan_poison_memory_region(h, sizeof(Hdr) + cap);
}

void thread_block(void* p, size_t n) __attribute__((weak));    // threads world: this memory starts a new life
static void* sim_new(size_t n) {
  if(!heap_on || !sut_depth) {
    void* p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    if(thread_block) thread_block(p, n);
    return p;
  }
  if(n > (1ull << 30)) throw std::bad_alloc();
  if(!never_fail) { ++n_failable; if(sites_on) log_site(); }
  if(fail_at >= 0 && !never_fail) {
    if(fail_at == 0) {
      fail_fired = true;
      if(!fail_sticky) fail_at = -1;
      count(R->faults, "alloc-failure");
      throw std::bad_alloc();
    }
    --fail_at;
  }
  void* p = arena_alloc(n);
  if(thread_block) thread_block(p, n);
  return p;
}
static void sim_delete(void* p) {
  if(!p) return;
  if(in_arena(p)) arena_free(p);
  else free(p);
}

// ---------------------------------------------------------------- clock
static uint64_t g_clock = 1000000000000000ull;
void clock_set(uint64_t us) { g_clock = us; }
uint64_t clock_now() { return g_clock; }

// ---------------------------------------------------------------- worlds
static std::vector<World>& worlds() { static std::vector<World> w; return w; }
void world(const char* p, void (*b)(), void (*w)(), uint64_t s) { World x = { p, b, w, s }; worlds().push_back(x); }
static World* the_world(const std::string& p) {
  for(size_t i = 0; i != worlds().size(); ++i) if(p == worlds()[i].property) return &worlds()[i];
  return nullptr;
}

void warm_world(const char* p) { World* w = the_world(p); if(w && w->warm) w->warm(); }

// ---------------------------------------------------------------- running one tape in a child
static void on_terminate() {
  sut_depth = 0;
  std::string what = "std::terminate called";
  if(std::current_exception()) {
    try { throw; } catch(std::exception& e) { what += std::string(": uncaught ") + e.what(); } catch(...) { what += ": uncaught exception"; }
  }
  fail("terminate", what);
}

static void on_alarm(int) { static const char m[] = "watchdog"; put_verdict(ST_ERROR, m, "wall-clock watchdog expired"); _exit(0); }

static uint64_t mix(uint64_t seed, const std::string& prop, uint64_t run) {
  uint64_t s = hash_bytes(seed * 0x9e3779b97f4a7c15ull + 1469598103934665603ull, prop.data(), prop.size());
  s ^= run * 0xd1342543de82ef95ull;
  splitmix(s); return splitmix(s);
}

static bool verbose_asan = false;

static void child(World* w, uint64_t seed, uint64_t run, const uint32_t* tape, uint32_t n, bool trace) {
  replaying = tape != nullptr; rtape = tape; rlen = n;
  prng = mix(seed, w->property, run);
  tracing = trace;
  property = w->property;
  if(!verbose_asan) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2); close(fd);
  }
  signal(SIGALRM, on_alarm);
  alarm(thorough ? 120 : 60);
  std::set_terminate(on_terminate);
  if(trace) live_set = new std::set<Hdr*>();
  heap_on = true;
  g_steps = 0;
  g_limit = w->step_budget;
  w->body();
  R->steps = g_steps; R->allocs = n_alloc;
  R->status = ST_OK;
  _exit(0);
}

static void clear_result() {
  memset(R, 0, offsetof(Result, tape));
  R->hash = 1469598103934665603ull;
}

// runs and waits; the verdict is in *R
static const uint32_t no_choices[1] = { 0 };
static const uint32_t* tp(const std::vector<uint32_t>& t) { return t.empty() ? no_choices : t.data(); }
static void execute(World* w, uint64_t seed, uint64_t run, const uint32_t* tape, uint32_t n, bool trace) {
  clear_result();
  pid_t pid = fork();
  if(pid == 0) child(w, seed, run, tape, n, trace);
  if(pid < 0) { R->status = ST_ERROR; strcpy(R->check, "harness"); strcpy(R->msg, "fork failed"); usleep(100000); return; }
  int st = 0;
  while(waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  if(R->status == ST_NONE) {
    if(WIFSIGNALED(st)) {
      if(WTERMSIG(st) == SIGKILL) { R->status = ST_ERROR; strcpy(R->check, "harness"); strcpy(R->msg, "child killed"); return; }
      snprintf(R->check, sizeof R->check, "crash/signal-%d", WTERMSIG(st));
      snprintf(R->msg, sizeof R->msg, "process died with signal %d", WTERMSIG(st));
    } else {
      snprintf(R->check, sizeof R->check, "crash/exit-%d", WEXITSTATUS(st));
      snprintf(R->msg, sizeof R->msg, "process exited with status %d inside the run", WEXITSTATUS(st));
    }
    R->status = ST_VIOLATION;
  }
}

// ---------------------------------------------------------------- the same workload again, in a copy of this process
void result_line(const char* kind, const std::string& text) {
  R->hash = hash_bytes(hash_str(text), &R->hash, 8);
  if(tracing) { std::string l = std::string("  = ") + kind + ": " + quote(text, 6000); trace_line(l.data(), l.size()); }
}
static uint8_t g_stack_fill = 0;
__attribute__((noinline)) static void dirty_stack() {
  volatile uint8_t a[12 * 1024];
  for(size_t i = 0; i != sizeof a; ++i) a[i] = g_stack_fill;
}
Copy in_copy(const char* prop, HeapPolicy p, uint8_t stack_fill, bool adopt) {
  World* w = the_world(prop);
  if(!w) harness_error(std::string("no world for ") + prop);
  Result* mine = R;
  Result* its = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if(its == MAP_FAILED) harness_error("mmap failed");
  memcpy(its, mine, offsetof(Result, tape)); memcpy(its->tape, mine->tape, mine->ntape * sizeof(uint32_t));
  its->ntrace = 0; its->hash = 1469598103934665603ull;
  pid_t pid = fork();
  if(pid < 0) harness_error("fork failed");
  if(pid == 0) {
    R = its; property = w->property; tracing = true; comparing = true;
    pol = p; forced = true; g_stack_fill = stack_fill; sut_hook = dirty_stack;
    g_limit = g_steps + w->step_budget;
    alarm(thorough ? 120 : 60);
    w->body();
    R->steps = g_steps; R->allocs = n_alloc; R->status = ST_OK;
    _exit(0);
  }
  int st = 0;
  while(waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  Copy c;
  c.status = its->status; c.check = its->check; c.msg = its->msg; c.hash = its->hash; c.drawn = its->ntape;
  if(its->status == ST_NONE) {
    if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) harness_error("copy killed");
    c.status = ST_VIOLATION; c.check = "crash"; c.msg = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
  }
  if(c.status == ST_ERROR) harness_error("in a copy: " + c.check + ": " + c.msg);
  c.text.assign(its->trace, its->ntrace);
  if(adopt) {
    uint32_t keep = mine->ntrace;
    uint64_t h = mine->hash;
    memcpy(mine, its, offsetof(Result, tape)); memcpy(mine->tape, its->tape, its->ntape * sizeof(uint32_t));
    mine->ntrace = keep; mine->hash = h; mine->status = ST_NONE; mine->check[0] = 0; mine->msg[0] = 0;
    if(tracing) trace_line(c.text.data(), c.text.size());
    g_steps = its->steps > g_steps ? its->steps : g_steps;
  }
  munmap(its, sizeof(Result));
  return c;
}

// ---------------------------------------------------------------- search
struct Stats {
  volatile uint64_t runs, nontrivial, steps, allocs, maxsteps, known, rechecked;
  Ctr faults[NCTR], probes[NCTR];
  Ctr knowns[16];
  volatile uint64_t nshape;
  uint64_t shapes[1u << 20];
  volatile int nsamples;
  char samples[3][1500];
};
struct Found { volatile int set; volatile int kind; uint64_t run; char check[96]; char msg[4000]; uint64_t hash; uint32_t n; uint32_t tape[TAPE_MAX]; };
static volatile int* stop_flag;

template<class T> static T* shared(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if(p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T*)p;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Known { std::string check, contains, text; };
static std::vector<Known> knowns;
static int known_index() {
  for(size_t i = 0; i != knowns.size(); ++i)
    if(knowns[i].check == R->check && strstr(R->msg, knowns[i].contains.c_str())) return (int)i;
  return -1;
}

static void worker(World* w, uint64_t seed, int id, int jobs, double deadline, uint64_t minruns, uint64_t maxruns, uint64_t first, Stats* S, Found* F) {
  for(uint64_t run = first + id; run < first + maxruns; run += jobs) {
    if(*stop_flag) break;
    if(run - first >= minruns && now() > deadline) break;
    execute(w, seed, run, nullptr, 0, false);
    if(R->status == ST_OK && run % 97 == 13) {       // determinism, continuously
      uint64_t h = R->hash, s = R->steps;
      execute(w, seed, run, nullptr, 0, false);
      S->rechecked++;
      if(R->status != ST_OK || R->hash != h || R->steps != s) {
        R->status = ST_ERROR; strcpy(R->check, "nondeterminism");
        snprintf(R->msg, sizeof R->msg, "run %llu gave a different log the second time", (unsigned long long)run);
      }
    }
    if(R->status != ST_OK) {
      int k = R->status == ST_VIOLATION ? known_index() : -1;
      if(k >= 0) { S->known++; count(S->knowns, knowns[k].text.c_str()); }
      else {
        F->run = run; F->kind = R->status; F->hash = R->hash; F->n = R->ntape;
        memcpy(F->check, R->check, sizeof F->check); memcpy(F->msg, R->msg, sizeof F->msg);
        memcpy(F->tape, R->tape, R->ntape * 4);
        F->set = 1; *stop_flag = 1;
        break;
      }
    }
    S->runs++;
    S->steps += R->steps; S->allocs += R->allocs;
    if(R->steps > S->maxsteps) S->maxsteps = R->steps;
    for(int i = 0; i != NCTR && R->faults[i].name[0]; ++i) count(S->faults, R->faults[i].name, R->faults[i].n);
    for(int i = 0; i != NCTR && R->probes[i].name[0]; ++i) count(S->probes, R->probes[i].name, R->probes[i].n);
    if(R->nontrivial) {
      S->nontrivial++;
      uint64_t h = R->shape ? R->shape : R->hash;
      if(S->nshape < (1u << 20)) S->shapes[S->nshape++] = h;
      if(S->nsamples < 3 && R->sample[0]) { memcpy(S->samples[S->nsamples], R->sample, 1500); S->nsamples++; }
    }
  }
  _exit(0);
}

static std::string jesc(const std::string& s) {
  std::string r = "\"";
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if(c == '\n') r += "\\n";
    else if(c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

// ---------------------------------------------------------------- minimise
static World* mw; static uint64_t mseed, mrun; static std::string mcheck; static uint64_t mexec;
static bool still(const std::vector<uint32_t>& t, std::vector<uint32_t>* norm) {
  ++mexec;
  execute(mw, mseed, mrun, tp(t), (uint32_t)t.size(), false);
  if(R->status != ST_VIOLATION || mcheck != R->check || known_index() >= 0) return false;
  if(norm) norm->assign(R->tape, R->tape + std::min(R->ntape, (uint32_t)t.size()));
  return true;
}
static std::vector<uint32_t> minimise(std::vector<uint32_t> t, double until) {
  std::vector<uint32_t> n;
  if(still(t, &n)) t = n;
  bool changed = true;
  while(changed && now() < until) {
    changed = false;
    for(size_t len = t.size() / 2; len > 0 && now() < until; len /= 2)                // cut the tail
      if(len <= t.size()) { std::vector<uint32_t> c(t.begin(), t.end() - len); if(still(c, &n)) { t = n; changed = true; } }
    for(size_t blk = std::max<size_t>(1, t.size() / 4); blk > 0 && now() < until; blk /= 2) { // delete blocks
      for(size_t i = 0; i + blk <= t.size() && now() < until; ) {
        std::vector<uint32_t> c(t.begin(), t.begin() + i);
        c.insert(c.end(), t.begin() + i + blk, t.end());
        if(still(c, &n)) { t = n; changed = true; } else i += blk;
      }
    }
    for(size_t blk = 16; blk > 0 && now() < until; blk /= 2)                             // zero blocks
      for(size_t i = 0; i < t.size() && now() < until; i += blk) {
        std::vector<uint32_t> c = t; bool any = false;
        for(size_t j = i; j < std::min(t.size(), i + blk); ++j) if(c[j]) { c[j] = 0; any = true; }
        if(any && still(c, &n)) { t = n; changed = true; }
      }
    for(size_t i = 0; i < t.size() && now() < until; ++i) {                              // lower values
      uint32_t loV = 0, v = t[i];
      while(loV < v && now() < until && i < t.size()) {
        uint32_t mid = loV + (v - loV) / 2;
        std::vector<uint32_t> c = t; c[i] = mid;
        if(still(c, &n) && n.size() == t.size()) { t = c; v = mid; changed = changed || mid != v; } else loV = mid + 1;
      }
    }
  }
  while(!t.empty() && t.back() == 0) t.pop_back();
  return t;
}

static bool read_replay(const std::string& file, std::string& prop, std::string& check, std::vector<uint32_t>& tape, uint64_t& hash) {
  std::ifstream f(file);
  if(!f) return false;
  std::string l;
  while(std::getline(f, l)) {
    size_t k = l.find("\"property\": \"");
    if(k != std::string::npos) prop = l.substr(k + 13, l.find('"', k + 13) - k - 13);
    k = l.find("\"check\": \"");
    if(k != std::string::npos) check = l.substr(k + 10, l.find('"', k + 10) - k - 10);
    k = l.find("\"log_hash\": \"");
    if(k != std::string::npos) hash = strtoull(l.c_str() + k + 13, nullptr, 16);
    k = l.find("\"tape\": [");
    if(k != std::string::npos) {
      const char* p = l.c_str() + k + 9;
      while(*p && *p != ']') { char* e; unsigned long v = strtoul(p, &e, 10); if(e == p) break; tape.push_back((uint32_t)v); p = e; while(*p == ',' || *p == ' ') ++p; }
    }
  }
  return !prop.empty();
}

static int do_replay(const std::string& file, bool quiet) {
  std::string prop, check; std::vector<uint32_t> tape; uint64_t h = 0;
  if(!read_replay(file, prop, check, tape, h)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
  World* w = the_world(prop);
  if(!w) { fprintf(stderr, "no world for %s\n", prop.c_str()); return 2; }
  if(w->warm) w->warm();
  verbose_asan = !quiet;
  execute(w, 0, 0, tp(tape), (uint32_t)tape.size(), !quiet);
  if(!quiet) { fwrite(R->trace, 1, R->ntrace, stdout); }
  if(R->status == ST_VIOLATION) {
    if(!quiet) printf("check %s: %s\n", R->check, R->msg);
    bool same = check == R->check && h == R->hash;
    if(!quiet) printf("log hash %016llx (%s)\n", (unsigned long long)R->hash, same ? "identical to the recorded one" : "DIFFERENT from the recorded one");
    if(quiet && !same) return 4;
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), file.c_str());
    return 1;
  }
  if(R->status == ST_ERROR) { fprintf(stderr, "error: %s: %s\n", R->check, R->msg); return 2; }
  if(!quiet) printf("no violation\n");
  return 0;
}

static std::string arg(int argc, char** argv, const char* name, const char* dflt) {
  for(int i = 1; i + 1 < argc; ++i) if(std::string(argv[i]) == name) return argv[i + 1];
  return dflt;
}
static bool flag(int argc, char** argv, const char* name) {
  for(int i = 1; i < argc; ++i) if(std::string(argv[i]) == name) return true;
  return false;
}

int main_(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  void* a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if(a != ARENA) { perror("arena"); return 2; }
  R = shared<Result>();
  cov = shared<uint8_t>(COV);
  std::string prop = arg(argc, argv, "--prop", "");
  if(flag(argc, argv, "--thorough")) thorough = true;
  {
    std::ifstream k(arg(argc, argv, "--known", "/nonexistent"));   // lines: check \t contains \t text
    std::string l;
    while(std::getline(k, l)) {
      size_t a1 = l.find('\t'), b1 = l.find('\t', a1 + 1);
      if(a1 == std::string::npos || b1 == std::string::npos) continue;
      Known x; x.check = l.substr(0, a1); x.contains = l.substr(a1 + 1, b1 - a1 - 1); x.text = l.substr(b1 + 1);
      knowns.push_back(x);
    }
  }
  std::string rf = arg(argc, argv, "--replay", "");
  trap_id = strtoull(arg(argc, argv, "--trap", "0").c_str(), nullptr, 10);
  if(!rf.empty()) return do_replay(rf, flag(argc, argv, "--quiet"));
  World* w = the_world(prop);
  if(!w) { fprintf(stderr, "no world for property %s\n", prop.c_str()); return 2; }
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  if(w->warm) w->warm();

  std::string one = arg(argc, argv, "--run", "");
  if(!one.empty()) {
    verbose_asan = true;
    if(flag(argc, argv, "--nofork")) { clear_result(); child(w, seed, strtoull(one.c_str(), nullptr, 10), nullptr, 0, true); }
    execute(w, seed, strtoull(one.c_str(), nullptr, 10), nullptr, 0, true);
    fwrite(R->trace, 1, R->ntrace, stdout);
    printf("status %d check %s: %s\nhash %016llx steps %llu tape %u allocs %llu\n", R->status, R->check, R->msg, (unsigned long long)R->hash,
           (unsigned long long)R->steps, R->ntape, (unsigned long long)R->allocs);
    return R->status == ST_OK ? 0 : 1;
  }
  std::string hashes = arg(argc, argv, "--hashes", "");
  if(!hashes.empty()) {             // determinism proof: print the hash of runs 0..N-1
    uint64_t n = strtoull(hashes.c_str(), nullptr, 10);
    for(uint64_t i = 0; i != n; ++i) {
      execute(w, seed, i, nullptr, 0, false);
      printf("%llu %d %016llx %llu %u %s\n", (unsigned long long)i, R->status, (unsigned long long)R->hash, (unsigned long long)R->steps, R->ntape, R->check);
    }
    return 0;
  }

  int jobs = atoi(arg(argc, argv, "--jobs", "8").c_str());
  double secs = atof(arg(argc, argv, "--time", "30").c_str());
  uint64_t minruns = strtoull(arg(argc, argv, "--min-runs", "400").c_str(), nullptr, 10);
  uint64_t maxruns = strtoull(arg(argc, argv, "--max-runs", "100000000").c_str(), nullptr, 10);
  std::string outdir = arg(argc, argv, "--out", ".");
  std::string statf = arg(argc, argv, "--stats", "");

  double t0 = now();
  stop_flag = shared<int>();
  std::vector<Stats*> S; std::vector<Found*> F; std::vector<uint8_t*> C; std::vector<pid_t> pids;
  printf("seed %llu property %s jobs %d\n", (unsigned long long)seed, prop.c_str(), jobs);
  fflush(stdout);
  for(int i = 0; i != jobs; ++i) {
    S.push_back(shared<Stats>()); F.push_back(shared<Found>()); C.push_back(shared<uint8_t>(COV));
    Result* r = shared<Result>();
    pid_t p = fork();
    if(p == 0) { R = r; cov = C.back(); worker(w, seed, i, jobs, t0 + secs, minruns, maxruns, 0, S[i], F[i]); }
    pids.push_back(p);
  }
  bool worker_died = false;
  for(size_t i = 0; i != pids.size(); ++i) { int st; waitpid(pids[i], &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)) worker_died = true; }
  double wall = now() - t0;

  std::set<uint64_t> shapes; uint64_t runs = 0, nt = 0, st = 0, mx = 0, al = 0, kn = 0, rc = 0;
  std::map<std::string, uint64_t> faults, probes, kns; std::vector<std::string> samples;
  std::vector<uint8_t> cv(COV);
  for(int i = 0; i != jobs; ++i) {
    runs += S[i]->runs; nt += S[i]->nontrivial; st += S[i]->steps; al += S[i]->allocs; kn += S[i]->known; rc += S[i]->rechecked;
    mx = std::max<uint64_t>(mx, (uint64_t)S[i]->maxsteps);
    for(uint64_t k = 0; k != S[i]->nshape; ++k) shapes.insert(S[i]->shapes[k]);
    for(int k = 0; k != NCTR && S[i]->faults[k].name[0]; ++k) faults[S[i]->faults[k].name] += S[i]->faults[k].n;
    for(int k = 0; k != NCTR && S[i]->probes[k].name[0]; ++k) probes[S[i]->probes[k].name] += S[i]->probes[k].n;
    for(int k = 0; k != 16 && S[i]->knowns[k].name[0]; ++k) kns[S[i]->knowns[k].name] += S[i]->knowns[k].n;
    for(int k = 0; k != S[i]->nsamples; ++k) if(samples.size() < 4) samples.push_back(S[i]->samples[k]);
    for(uint32_t k = 0; k != COV; ++k) cv[k] |= C[i][k];
  }
  uint64_t edges = 0; for(uint8_t x : cv) edges += x != 0;

  if(!statf.empty()) {
    std::ofstream o(statf);
    o << "{\n  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << shapes.size() << ",\n  \"nontrivial_runs\": " << nt
      << ",\n  \"search_wall_s\": " << wall << ",\n  \"runs_per_hour\": " << (uint64_t)(runs / (wall > 0 ? wall : 1) * 3600)
      << ",\n  \"simulated_steps\": " << st << ",\n  \"max_steps_in_a_run\": " << mx << ",\n  \"allocations_served\": " << al
      << ",\n  \"basic_blocks_reached\": " << edges << ",\n  \"runs_executed_twice_and_compared\": " << rc << ",\n  \"known_finding_runs\": " << kn;
    o << ",\n  \"faults_fired\": {"; bool f1 = true;
    for(auto& x : faults) { o << (f1 ? "" : ", ") << jesc(x.first) << ": " << x.second; f1 = false; }
    o << "},\n  \"probes\": {"; f1 = true;
    for(auto& x : probes) { o << (f1 ? "" : ", ") << jesc(x.first) << ": " << x.second; f1 = false; }
    o << "},\n  \"samples\": ["; f1 = true;
    for(auto& x : samples) { o << (f1 ? "" : ", ") << jesc(x); f1 = false; }
    o << "]\n}\n";
  }
  printf("runs %llu nontrivial %llu distinct %zu steps %llu blocks %llu wall %.1fs\n", (unsigned long long)runs, (unsigned long long)nt, shapes.size(),
         (unsigned long long)st, (unsigned long long)edges, wall);
  for(auto& x : kns) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), x.first.c_str());

  Found* best = nullptr;
  for(int i = 0; i != jobs; ++i) if(F[i]->set && F[i]->kind == ST_VIOLATION && (!best || F[i]->run < best->run)) best = F[i];
  if(!best) {
    for(int i = 0; i != jobs; ++i) if(F[i]->set) { fprintf(stderr, "ERROR run %llu: %s: %s\n", (unsigned long long)F[i]->run, F[i]->check, F[i]->msg); return 2; }
    if(worker_died) { fprintf(stderr, "ERROR: a worker died\n"); return 2; }
    if(runs == 0) { fprintf(stderr, "ERROR: no runs\n"); return 2; }
    return 0;
  }
  // gate: twice more, fresh, same verdict and same log
  printf("candidate: run %llu check %s: %s\n", (unsigned long long)best->run, best->check, best->msg);
  std::vector<uint32_t> tape(best->tape, best->tape + best->n);
  for(int k = 0; k != 2; ++k) {
    execute(w, seed, best->run, tp(tape), (uint32_t)tape.size(), false);
    if(R->status != ST_VIOLATION || strcmp(R->check, best->check) || R->hash != best->hash) {
      fprintf(stderr, "ERROR: violation did not reproduce: run %llu %s -> %d %s %s\n", (unsigned long long)best->run, best->check, R->status, R->check, R->msg);
      return 2;
    }
  }
  mw = w; mseed = seed; mrun = best->run; mcheck = best->check; mexec = 0;
  std::vector<uint32_t> small_ = minimise(tape, now() + atof(arg(argc, argv, "--shrink", "20").c_str()));
  execute(w, seed, best->run, tp(small_), (uint32_t)small_.size(), true);
  if(R->status != ST_VIOLATION || mcheck != R->check) { small_ = tape; execute(w, seed, best->run, tp(small_), (uint32_t)small_.size(), true); }
  std::ostringstream fn; fn << outdir << "/" << prop << "-seed" << seed << "-run" << best->run << ".json";
  {
    std::ofstream o(fn.str());
    char hx[24]; snprintf(hx, 24, "%016llx", (unsigned long long)R->hash);
    o << "{\n\"property\": " << jesc(prop) << ",\n\"seed\": " << seed << ",\n\"run\": " << best->run << ",\n\"check\": " << jesc(R->check)
      << ",\n\"message\": " << jesc(R->msg) << ",\n\"log_hash\": \"" << hx << "\",\n\"original_tape_length\": " << best->n
      << ",\n\"minimising_executions\": " << mexec << ",\n\"tape\": [";
    for(size_t i = 0; i != small_.size(); ++i) o << (i ? "," : "") << small_[i];
    o << "],\n\"trace\": [\n";
    std::istringstream tr(std::string(R->trace, R->ntrace)); std::string l; bool f1 = true;
    while(std::getline(tr, l)) { o << (f1 ? "" : ",\n") << jesc(l); f1 = false; }
    o << "\n]\n}\n";
  }
  printf("minimised %u -> %zu choices in %llu executions\ncheck %s: %s\n", best->n, small_.size(), (unsigned long long)mexec, R->check, R->msg);
  fflush(stdout);
  // replay in a fresh process
  pid_t p = fork();
  if(p == 0) {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
    execl("/proc/self/exe", argv[0], "--replay", fn.str().c_str(), "--quiet", thorough ? "--thorough" : (char*)nullptr, (char*)nullptr);
    _exit(9);
  }
  int rs; waitpid(p, &rs, 0);
  if(!WIFEXITED(rs) || WEXITSTATUS(rs) != 1) { fprintf(stderr, "ERROR: replay file did not reproduce (status %d)\n", rs); return 2; }
  printf("VIOLATION property=%s replay=%s\n", prop.c_str(), fn.str().c_str());
  return 1;
}

} // namespace sim

// ---------------------------------------------------------------- interposed symbols
void* operator new(size_t n) { return sim::sim_new(n); }
void* operator new[](size_t n) { return sim::sim_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim::sim_new(n); } catch(...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim::sim_new(n); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { sim::sim_delete(p); }
void operator delete[](void* p) noexcept { sim::sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim::sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim::sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_delete(p); }

namespace sim { static int pc_trace = -1; static int pc_trace_open = (pc_trace = getenv("SIM_PC_TRACE") ? open(getenv("SIM_PC_TRACE"), O_CREAT | O_TRUNC | O_WRONLY, 0644) : -1); }
extern "C" {
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() {
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  if(sim::cov) sim::cov[(pc ^ (pc >> 17)) & (sim::COV - 1)] = 1;
  if(++sim::g_steps > sim::g_limit) sim::overflow();
  if(sim::pc_trace >= 0 && syscall(SYS_write, sim::pc_trace, &pc, sizeof pc)) { }   // SIM_PC_TRACE: finds what makes two executions differ
  if(sim::step_hook) sim::step_hook();
}

void __asan_on_error() {
  sim::sut_depth = 0;
  if(!sim::R || !sim::heap_on) return;
  const char* d = __asan_get_report_description();
  sim::put_verdict(sim::ST_VIOLATION, std::string("memory/") + (d && *d ? d : "invalid-access"), std::string("AddressSanitizer: ") + (d && *d ? d : "invalid access"));
}
const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:handle_abort=0:symbolize=1:poison_heap=1:malloc_context_size=12:quarantine_size_mb=16:allow_user_segv_handler=1";
}

int gettimeofday(struct timeval* tv, void*) noexcept {
  if(tv) { tv->tv_sec = sim::g_clock / 1000000; tv->tv_usec = sim::g_clock % 1000000; }
  return 0;
}
time_t time(time_t* t) noexcept { time_t v = (time_t)(sim::g_clock / 1000000); if(t) *t = v; return v; }
ssize_t getrandom(void* b, size_t n, unsigned) { memset(b, 0x5a, n); return (ssize_t)n; }
void arc4random_buf(void* b, size_t n) { memset(b, 0x5a, n); }
uint32_t arc4random(void) { return 0x5a5a5a5a; }
int getentropy(void* b, size_t n) { memset(b, 0x5a, n); return 0; }
}

int main(int argc, char** argv) {
  if(!getenv("VERIF_SIM_NOASLR")) {
    setenv("VERIF_SIM_NOASLR", "1", 1);
    int old = personality(0xffffffff);
    if(old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  return sim::main_(argc, argv);
}
namespace sim {
bool arena_owns(void* p) { return in_arena(p); }
__attribute__((no_sanitize("address"))) size_t arena_size(void* p) { return ((Hdr*)p - 1)->size; }
}
