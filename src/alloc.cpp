#include "alloc.h"
#include <unordered_map>
#include <execinfo.h>
namespace {
std::unordered_map<void*, size_t>*L, *M; string bad; bool on;
struct BT { void* f[12]; int n; }; std::unordered_map<void*, BT>* T;   // debugging aid: VP_BT=1 shows where outstanding blocks came from
void note(void* p) { static bool on = getenv("VP_BT"); if (!on) return; if (!T) T = new std::unordered_map<void*, BT>; BT b; b.n = backtrace(b.f, 12); (*T)[p] = b; }
void dump(std::unordered_map<void*, size_t>* L) { if (!T) return; int k = 0; for (auto& x : *L) { if (k++ > 5) break; auto& b = (*T)[x.first]; backtrace_symbols_fd(b.f, b.n, 2); fprintf(stderr, "--\n"); } }
void* lm(size_t n) { char* p = (char*)malloc(n ? n : 1); memset(p, 0xC7, n); (*L)[p] = n; note(p); return p; }
void lf(void* p) { if (!p) return; auto i = L->find(p); if (i == L->end()) { bad = "a block that is not outstanding was released through the allocator hook"; return; } memset(p, 0xD3, i->second); L->erase(i); free(p); }
void* lr(void* p, size_t n) { if (!p) return lm(n); auto i = L->find(p); if (i == L->end()) { bad = "a block that is not outstanding was resized through the allocator hook"; return lm(n); } void* q = lm(n); i = L->find(p); memcpy(q, p, std::min(n, i->second)); lf(p); return q; }
void* gm(size_t n) { void* p = malloc(n); (*M)[p] = n; note(p); return p; }
void gf(void* p, size_t n) { auto i = M->find(p); if (i != M->end()) M->erase(i); free(p); }
void* gr(void* p, size_t o, size_t n) { auto i = M->find(p); bool in = i != M->end(); if (in) M->erase(i); void* q = realloc(p, n); if (in) { (*M)[q] = n; note(q); } return q; }
void *(*om)(size_t), *(*orr)(void*, size_t); void (*of)(void*);
void *(*ogm)(size_t), *(*ogr)(void*, size_t, size_t); void (*ogf)(void*, size_t);
}
AllocTrack::AllocTrack() {
  if (!L) { L = new std::unordered_map<void*, size_t>; M = new std::unordered_map<void*, size_t>; }
  L->clear(); M->clear(); bad.clear();
  om = pbc_malloc; orr = pbc_realloc; of = pbc_free; pbc_set_memory_functions(lm, lr, lf);
  mp_get_memory_functions(&ogm, &ogr, &ogf); mp_set_memory_functions(gm, gr, gf);
}
AllocTrack::~AllocTrack() { pbc_set_memory_functions(om, orr, of); mp_set_memory_functions(ogm, ogr, ogf); }
size_t AllocTrack::live() const { return L->size(); }
size_t AllocTrack::gmp_live() const { return M->size(); }
void AllocTrack::check(const string& when) const { REQ(bad.empty(), when << ": " << bad); }
void AllocTrack::balanced(const string& when, size_t lib, size_t gmp) const {
  check(when);
  if (live() > lib) dump(L); else if (gmp_live() > gmp) dump(M);
  REQ(live() <= lib, when << ": " << live() - lib << " blocks of the library were not released");
  REQ(gmp_live() <= gmp, when << ": " << gmp_live() - gmp << " integers held by the library were not released");
}
