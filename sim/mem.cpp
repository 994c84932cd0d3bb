// Expat and libxml2 take their memory from the simulated heap too.
#include "core.hpp"
#include <expat.h>
#include <libxml/xmlmemory.h>
#include <libxml/parser.h>
#include <cstring>
#include <cstdlib>
#include <new>
namespace sim { bool arena_owns(void* p); size_t arena_size(void* p); }
static void* m_alloc(size_t n) { sim::NoFail nf; try { return ::operator new(n); } catch(...) { return nullptr; } }
static void m_free(void* p) { ::operator delete(p); }
#include <malloc.h>
static void* m_realloc(void* p, size_t n) {
  if(!p) return m_alloc(n);
  size_t old = sim::arena_owns(p) ? sim::arena_size(p) : malloc_usable_size(p);
  void* q = m_alloc(n);
  if(!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  m_free(p);
  return q;
}
static char* m_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)m_alloc(n); if(p) memcpy(p, s, n); return p; }
extern "C" {
static XML_Memory_Handling_Suite suite = { m_alloc, m_realloc, m_free };
XML_Parser __wrap_XML_ParserCreate(const XML_Char* enc) { return XML_ParserCreate_MM(enc, &suite, nullptr); }
}
namespace sim {
void use_sim_heap_in_c_libraries() { xmlMemSetup(m_free, m_alloc, m_realloc, m_strdup); xmlInitParser(); }
}
