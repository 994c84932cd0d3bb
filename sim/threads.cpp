// The thread scheduler and race detector. Compiled without instrumentation.
#include "threads.hpp"
#include <pthread.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <elf.h>
#include <cxxabi.h>
#include <errno.h>
#include <cstring>
#include <cstdlib>
#include <map>
#include <exception>

extern "C" char __data_start, _end;
namespace sim {
static const int MAXT = 5;                     // 0 is the process's first thread
struct VC { uint32_t c[MAXT]; };
struct Thr { pthread_t id; volatile int go; int state; VC vc; char *lo, *hi; const std::function<void()>* f; };   // state 0 none, 1 alive, 2 ended
static Thr T[MAXT];
static int nthr = 0;
static bool active = false;
static __thread int me __attribute__((tls_model("initial-exec"))) = -1;
static uint64_t gap = ~0ull, sgap = ~0ull, nswitch = 0, shash = 0, naccess = 0;
static const uint64_t MAXSWITCH = 3000;
uint64_t thread_switches() { return nswitch; }
uint64_t schedule_hash() { return shash; }

static void fwait(volatile int* p) { while(!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELAXED); }
static void fwake(volatile int* p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

// ---- symbols, for reports -------------------------------------------------------------------------
static std::string symbol(uintptr_t a) {
  static char* m = nullptr; static size_t len = 0;
  if(!m) { int fd = open("/proc/self/exe", O_RDONLY); struct stat st; if(fd < 0 || fstat(fd, &st)) return "?"; len = st.st_size; m = (char*)mmap(nullptr, len, PROT_READ, MAP_PRIVATE, fd, 0); close(fd); if(m == MAP_FAILED) { m = nullptr; return "?"; } }
  Elf64_Ehdr* e = (Elf64_Ehdr*)m; Elf64_Shdr* s = (Elf64_Shdr*)(m + e->e_shoff);
  for(int i = 0; i < e->e_shnum; ++i) if(s[i].sh_type == SHT_SYMTAB) {
    Elf64_Sym* y = (Elf64_Sym*)(m + s[i].sh_offset); const char* str = m + s[s[i].sh_link].sh_offset;
    for(size_t k = 0; k < s[i].sh_size / sizeof *y; ++k) if(y[k].st_size && a >= y[k].st_value && a < y[k].st_value + y[k].st_size) {
      int st = 0; char* d = abi::__cxa_demangle(str + y[k].st_name, nullptr, nullptr, &st); std::string r = d ? d : str + y[k].st_name; free(d);
      return r.substr(0, 260);
    }
  }
  return "";
}

// ---- shadow memory ------------------------------------------------------------------------------------
struct Cell { uintptr_t tag; uint32_t wclk, rclk[MAXT]; uint8_t wtid, wmask, rmask[MAXT]; uintptr_t wpc, rpc[MAXT]; };
static const size_t NCELL = 1u << 20;
static Cell* cells = nullptr;
static inline Cell& cell(uintptr_t g) { return cells[(g ^ (g >> 20)) & (NCELL - 1)]; }
static std::map<uintptr_t, VC>* syncs = nullptr;

static void race(uintptr_t a, const char* k1, uintptr_t pc1, const char* k2, uintptr_t pc2) {
  sut_depth = 0; active = false;
  std::string v = symbol(a);
  fail("data-race", std::string("unsynchronised accesses to ") + (v.empty() ? "an object both threads reach" : v) + "\n  " + k1 + " in " + symbol(pc1) + "\n  " + k2 + " in " + symbol(pc2));
}
static void touch(uintptr_t a, size_t n, bool write, uintptr_t pc) {
  VC& v = T[me].vc;
  for(uintptr_t g = a >> 3, last = (a + n - 1) >> 3; g <= last; ++g) {
    uint8_t mask = 0xff;
    if(g == a >> 3) mask &= 0xff << (a & 7);
    if(g == last) mask &= 0xff >> (7 - ((a + n - 1) & 7));
    Cell& c = cell(g);
    if(c.tag != g) { memset(&c, 0, sizeof c); c.tag = g; }
    if((c.wmask & mask) && c.wtid != me && c.wclk > v.c[c.wtid]) race(a, "write", c.wpc, write ? "write" : "read", pc);
    if(write) {
      for(int t = 0; t < nthr; ++t) if(t != me && (c.rmask[t] & mask) && c.rclk[t] > v.c[t]) race(a, "read", c.rpc[t], "write", pc);
      if(c.wtid == me && c.wclk == v.c[me]) c.wmask |= mask; else { c.wtid = me; c.wclk = v.c[me]; c.wmask = mask; }
      c.wpc = pc;
    } else {
      if(c.rclk[me] == v.c[me]) c.rmask[me] |= mask; else { c.rclk[me] = v.c[me]; c.rmask[me] = mask; }
      c.rpc[me] = pc;
    }
  }
}
static void fresh(void* p, size_t n) {          // memory handed out again: whoever used it before is not in conflict
  if(!active || me < 0) return;
  for(uintptr_t g = (uintptr_t)p >> 3, last = ((uintptr_t)p + n) >> 3; g <= last; ++g) { Cell& c = cell(g); if(c.tag == g) c.tag = 0; }
}
static void acquire(uintptr_t a) { if(!active || me < 0) return; Shield s; auto i = syncs->find(a); if(i == syncs->end()) return; for(int t = 0; t < nthr; ++t) if(i->second.c[t] > T[me].vc.c[t]) T[me].vc.c[t] = i->second.c[t]; }
static void release(uintptr_t a) { if(!active || me < 0) return; Shield s; VC& v = (*syncs)[a]; for(int t = 0; t < nthr; ++t) if(T[me].vc.c[t] > v.c[t]) v.c[t] = T[me].vc.c[t]; ++T[me].vc.c[me]; }

// ---- scheduling ------------------------------------------------------------------------------------------
static uint64_t draw_gap() { uint32_t g = nswitch < MAXSWITCH ? choose(48) : 0; return g ? 1 + choose(1u << (g % 19)) : ~0ull; }
static uint64_t draw_sgap() { uint32_t g = nswitch < MAXSWITCH ? choose(48) : 0; return g ? 1 + choose(1u << (g % 10)) : ~0ull; }
static int others(int* o) { int n = 0; for(int t = 1; t < nthr; ++t) if(t != me && T[t].state == 1) o[n++] = t; return n; }
static void hand_to(int t) {
  ++nswitch; shash = (shash ^ (t + naccess * 31)) * 1099511628211ull;
  int d = sut_depth; sut_depth = 0;
  gap = draw_gap(); sgap = draw_sgap();
  int was = me; fwake(&T[t].go); fwait(&T[was].go);
  sut_depth = d;
}
static void preempt(const char* why) {
  int o[MAXT], n = others(o);
  if(!n) { gap = sgap = ~0ull; return; }
  int d = sut_depth; sut_depth = 0;
  fault(why); int t = o[choose(n)];
  sut_depth = d;
  hand_to(t);
}
static void must_wait(const char* why) {
  int o[MAXT], n = others(o);
  if(!n) { sut_depth = 0; fail("deadlock", std::string("a thread waits for ever for ") + why); }
  static uint64_t spins = 0; if(++spins > 2000000) { sut_depth = 0; fail("deadlock", std::string("the threads wait for ever for ") + why); }
  int d = sut_depth; sut_depth = 0; probe(why); int t = o[nswitch < MAXSWITCH * 4 ? choose(n) : nswitch % n]; sut_depth = d;
  hand_to(t);
}
static inline void access(void* p, size_t n, bool write, uintptr_t pc) {
  if(!active || me < 0) return;
  char* a = (char*)p;
  if(a >= T[me].lo && a < T[me].hi) return;
  ++naccess;
  bool st = a >= &__data_start && a < &_end;
  if(st && --sgap == 0) preempt("preempted at static data");
  else if(--gap == 0) preempt("preempted");
  touch((uintptr_t)a, n, write, pc);
}
static void* trampoline(void* x) {
  me = (int)(intptr_t)x; fwait(&T[me].go);
  { Shield s; (*T[me].f)(); }
  sut_depth = 0;
  T[me].state = 2;
  for(int t = 0; t < nthr; ++t) if(T[me].vc.c[t] > T[0].vc.c[t]) T[0].vc.c[t] = T[me].vc.c[t];
  int o[MAXT], n = others(o);
  if(n) { int t = o[choose(n)]; gap = draw_gap(); sgap = draw_sgap(); me = -1; fwake(&T[t].go); }
  else { me = -1; fwake(&T[0].go); }
  return nullptr;
}
void run_threads(const std::vector<std::function<void()>>& b) {
  Shield s;
  if(b.size() + 1 > MAXT) harness_error("too many threads");
  if(!cells) cells = (Cell*)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if(!syncs) syncs = new std::map<uintptr_t, VC>();
  nthr = (int)b.size() + 1; nswitch = 0; naccess = 0; shash = 1469598103934665603ull;
  memset(T, 0, sizeof T);
  const size_t STK = 16u << 20;
  T[0].vc.c[0] = 1;
  for(int t = 1; t < nthr; ++t) {
    T[t].vc.c[0] = 1; T[t].vc.c[t] = 1; T[t].state = 1; T[t].f = &b[t - 1];
    char* st = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    T[t].lo = st; T[t].hi = st + STK;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, st, STK);
    if(pthread_create(&T[t].id, &a, trampoline, (void*)(intptr_t)t)) harness_error("pthread_create");
  }
  me = 0; active = true;
  int first = 1 + (int)choose(nthr - 1); gap = draw_gap(); sgap = draw_sgap();
  fwake(&T[first].go); fwait(&T[0].go);
  active = false; me = -1;
  for(int t = 1; t < nthr; ++t) pthread_join(T[t].id, nullptr);
}
void thread_block(void* p, size_t n) { fresh(p, n); }
} // namespace sim

using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
// ---- locks and one-time initialisation: a thread that has to wait lets the others run ------------------------
static int (*real_lock)(pthread_mutex_t*); static int (*real_trylock)(pthread_mutex_t*); static int (*real_unlock)(pthread_mutex_t*);
static void reals() { if(!real_lock) { real_trylock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); real_unlock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); real_lock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); } }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  reals();
  if(!active || me < 0) return real_lock(m);
  int r; while((r = real_trylock(m)) == EBUSY) must_wait("a mutex");
  acquire((uintptr_t)m); return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { reals(); int r = real_trylock(m); if(!r) acquire((uintptr_t)m); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { reals(); release((uintptr_t)m); return real_unlock(m); }

int __cxa_guard_acquire(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  for(;;) {
    if(b[0]) { acquire((uintptr_t)g); return 0; }
    if(!b[1]) { b[1] = 1; return 1; }
    if(!active || me < 0) { static const char m[] = "recursive initialisation"; if(write(2, m, sizeof m)) { } abort(); }
    must_wait("a static's initialisation");
  }
}
void __cxa_guard_release(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; release((uintptr_t)g); b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; release((uintptr_t)g); b[1] = 0; }

// memory that does not come from operator new starts a new life here
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if(p) fresh(p, n); return p; }
void* calloc(size_t k, size_t n) { void* p = __libc_calloc(k, n); if(p) fresh(p, k * n); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if(p) fresh(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if(p) fresh(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }

// ---- what the compiler calls -----------------------------------------------------------------------------------
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_read##n##_pc(void* p, void* q) { access(p, n, false, (uintptr_t)q); } void __tsan_write##n##_pc(void* p, void* q) { access(p, n, true, (uintptr_t)q); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if(n) access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if(n) access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };
static inline void before(void* p, int mo) { if(active && me >= 0 && --gap == 0) preempt("preempted at an atomic"); if(mo >= RELEASE) release((uintptr_t)p); }
static inline void after(void* p, int mo) { if(mo == CONSUME || mo == ACQUIRE || mo >= ACQ_REL) acquire((uintptr_t)p); }
#define AT(n, t) \
  t __tsan_atomic##n##_load(const volatile t* p, int mo) { before((void*)p, mo == RELEASE || mo == ACQ_REL ? mo : RELAXED); t r = *p; after((void*)p, mo); return r; } \
  void __tsan_atomic##n##_store(volatile t* p, t v, int mo) { before((void*)p, mo); *p = v; } \
  t __tsan_atomic##n##_exchange(volatile t* p, t v, int mo) { before((void*)p, mo); t r = *p; *p = v; after((void*)p, mo); return r; } \
  t __tsan_atomic##n##_fetch_add(volatile t* p, t v, int mo) { before((void*)p, mo); t r = *p; *p = (t)(r + v); after((void*)p, mo); return r; } \
  t __tsan_atomic##n##_fetch_sub(volatile t* p, t v, int mo) { before((void*)p, mo); t r = *p; *p = (t)(r - v); after((void*)p, mo); return r; } \
  t __tsan_atomic##n##_fetch_and(volatile t* p, t v, int mo) { before((void*)p, mo); t r = *p; *p = (t)(r & v); after((void*)p, mo); return r; } \
  t __tsan_atomic##n##_fetch_or(volatile t* p, t v, int mo) { before((void*)p, mo); t r = *p; *p = (t)(r | v); after((void*)p, mo); return r; } \
  t __tsan_atomic##n##_fetch_xor(volatile t* p, t v, int mo) { before((void*)p, mo); t r = *p; *p = (t)(r ^ v); after((void*)p, mo); return r; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile t* p, t* e, t v, int mo, int) { before((void*)p, mo); bool ok = *p == *e; if(ok) *p = v; else *e = *p; after((void*)p, mo); return ok; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile t* p, t* e, t v, int mo, int) { before((void*)p, mo); bool ok = *p == *e; if(ok) *p = v; else *e = *p; after((void*)p, mo); return ok; } \
  t __tsan_atomic##n##_compare_exchange_val(volatile t* p, t e, t v, int mo, int) { before((void*)p, mo); t r = *p; if(r == e) *p = v; after((void*)p, mo); return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
// string functions as instrumented code calls them (its objects' references are renamed)
void* sim_memcpy(void* d, const void* s, size_t n) { if(n) { access((void*)s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { if(n) { access((void*)s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { if(n) access(d, n, true, PC); return memset(d, c, n); }
// this world has no AddressSanitizer
void __asan_poison_memory_region(void const volatile*, size_t) { }
void __asan_unpoison_memory_region(void const volatile*, size_t) { }
const char* __asan_get_report_description() { return ""; }
}
