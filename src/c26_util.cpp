#include <algorithm>
#include <memory>
#include "alloc.h"
extern "C" {
#include <misc/darray.h>
#include <misc/symtab.h>
#include <pbc_curve.h>
// memory functions compiled with SAFE_CLEAN
extern void* (*sc_malloc)(size_t); extern void* (*sc_realloc)(void*, size_t); extern void (*sc_free)(void*);
void* sc_calloc(size_t, size_t); char* sc_strdup(const char*); void sc_init(void);
}
// C26: containers and low-level utilities.
static uintptr_t tmod, tres;
static int test1(void* p) { return (uintptr_t)p % tmod == tres; }
static int test2(void* p, void* s) { return p == s; }
static vector<void*> seen; static vector<void*> scope;
static void f1(void* p) { seen.push_back(p); }
static void f2(void* p, void* a) { seen.push_back(p); scope = {a}; }
static void f3(void* p, void* a, void* b) { seen.push_back(p); scope = {a, b}; }
static void f4(void* p, void* a, void* b, void* d) { seen.push_back(p); scope = {a, b, d}; }
struct DA { darray_t a; bool heap = false; darray_ptr p; DA(bool h) : heap(h) { if (h) p = darray_new(); else { darray_init(a); p = a; } } ~DA() { if (heap) darray_free(p); else darray_clear(p); } };
CHECK("C26", darray_history, 150000, 3000000, 500, "the array has grown beyond its first allocation or elements were removed") {
  // with the accounting allocator, or with the default one
  std::unique_ptr<AllocTrack> A(c.flip() ? new AllocTrack : nullptr); {
  vector<std::unique_ptr<DA>> a; vector<vector<void*>> m; int k = c.u(1, 3);
  for (int i = 0; i < k; i++) { a.emplace_back(new DA(c.flip())); m.emplace_back(); }
  if (c.chance(1, 60)) { int b = c.pick({63, 64, 65, 127, 128, 255, 256, 257, 1000, 3000}); c.d << "bulk " << b << " "; for (int j = 0; j < b; j++) { void* p = (void*)(uintptr_t)c.u(0, 12); darray_append(a[0]->p, p); m[0].push_back(p); } }
  int n = c.u(1, c.pick({10u, 40u, 120u})); bool removed = false, grown = false; unsigned grow = c.u(0, 2);
  for (int s = 0; s < n; s++) {
    int i = c.u(0, k - 1); darray_ptr d = a[i]->p; auto& v = m[i]; int op = c.u(0, 13 + 6 * grow); c.d << op << "@" << i << " ";
    auto val = [&] { return (void*)(uintptr_t)c.u(0, 12); };
    switch (op) {
      case 0: { void* p = val(); int w = -1; for (size_t j = 0; j < v.size(); j++) if (v[j] == p) { w = j; break; } REQ(darray_index_of(d, p) == w, "index_of"); if (w >= 0 && c.flip()) { darray_remove(d, p); v.erase(v.begin() + w); removed = true; } break; }
      case 1: if (v.size()) { REQ(darray_last(d) == v.back(), "last"); darray_remove_last(d); v.pop_back(); } break;
      case 2: if (v.size()) { int j = c.chance(1, 3) ? v.size() - 1 : c.u(0, v.size() - 1); darray_remove_index(d, j); v.erase(v.begin() + j); removed = true; } break;
      case 3: { tmod = c.u(1, 5); tres = c.u(0, tmod - 1); darray_remove_with_test(d, test1); vector<void*> w; for (auto p : v) if (!test1(p)) w.push_back(p); v = w; removed = true; break; }
      case 4: { int j = c.u(0, k - 1); if (j == i) break; darray_copy(d, a[j]->p); v = m[j]; break; }
      case 5: darray_remove_all(d); v.clear(); break;
      case 6: { void* p = val(); void* w = nullptr; for (auto q : v) if (q == p) { w = q; break; } REQ(darray_at_test(d, test2, p) == w, "at_test"); break; }
      case 7: seen.clear(); switch (c.u(0, 3)) { case 0: darray_forall(d, f1); break; case 1: darray_forall2(d, f2, &seen); break; case 2: darray_forall3(d, f3, &seen, d); break; default: darray_forall4(d, f4, &seen, d, &v); } REQ(seen == v, "forall visited other items"); if (scope.size() && v.size()) REQ(scope[0] == &seen, "forall passed another argument"); scope.clear(); break;
      default: { void* p = val(); darray_append(d, p); v.push_back(p); if (v.size() > 8) grown = true; }
    }
    for (int j = 0; j < k; j++) {
      REQ(darray_count(a[j]->p) == (int)m[j].size() && darray_is_empty(a[j]->p) == m[j].empty(), "array " << j << " has " << darray_count(a[j]->p) << " items, expected " << m[j].size());
      for (size_t x = 0; x < m[j].size(); x++) REQ(darray_at(a[j]->p, x) == m[j][x], "item " << x << " of array " << j);
    }
  }
  if (A) A->check("history"); if (grown || removed) c.nontrivial(); if (grown) c.label("grown");
  }
  if (A) A->balanced("after clearing the arrays");
}
CHECK("C26", symtab_history, 80000, 2000000, 500, "a key was put more than once or more than eight keys exist") {
  AllocTrack A; { symtab_t t; symtab_init(t); struct Cl { symtab_ptr t; ~Cl() { symtab_clear(t); } } cl{t};
  std::map<string, void*> m; int n = c.chance(1, 200) ? 600 : c.u(1, c.pick({8u, 60u})); bool rep = false;
  auto key = [&] { string k; switch (c.u(0, 4)) { case 0: k = string(c.u(0, 4), 'a'); break; case 1: k = "coeff" + std::to_string(c.u(0, n > 60 ? 800 : 30)); break; case 2: k = string(1, "qrhnQ"[c.u(0, 4)]); break; case 3: k = string(c.u(20, 300), "ab"[c.u(0, 1)]); break; default: k = "\xff" + string(1, (char)c.u(1, 255)); } return k; };
  for (int s = 0; s < n; s++) {
    string k = key(); char* b = strdup(k.c_str());
    if (c.u(0, 2)) { void* v = (void*)(uintptr_t)c.u(0, 1000); if (m.count(k)) rep = true; symtab_put(t, v, b); m[k] = v; memset(b, 'Z', k.size()); }
    else { REQ(!!symtab_has(t, b) == !!m.count(k), "has(" << k << ")"); REQ(symtab_at(t, b) == (m.count(k) ? m[k] : nullptr), "at(" << k << ")"); }
    free(b);
    if (c.chance(1, 6)) { seen.clear(); symtab_forall_data(t, f1); vector<void*> w; for (auto& p : m) w.push_back(p.second); std::sort(seen.begin(), seen.end()); std::sort(w.begin(), w.end()); REQ(seen == w, "iteration visited other values"); }
    for (auto& p : m) { REQ(symtab_has(t, p.first.c_str()), "lost key " << p.first); REQ(symtab_at(t, p.first.c_str()) == p.second, "value of " << p.first); }
  }
  c.d << n << " operations, " << m.size() << " keys"; if (rep || m.size() > 8) c.nontrivial(); }
  A.balanced("after clearing the table");
}
CHECK("C26", memory_functions, 80000, 2000000, 500, "a block was resized") {
  int cfg = c.u(0, 2); bool sc = cfg == 1; c.d << (cfg == 0 ? "default" : cfg == 1 ? "zeroing" : "zeroing GMP") << " functions:";
  struct G { void *(*m)(size_t), *(*r)(void*, size_t, size_t); void (*f)(void*, size_t); G() { mp_get_memory_functions(&m, &r, &f); } } old, cur = old;
  if (cfg == 2) { sc_init(); cur = G(); mp_set_memory_functions(old.m, old.r, old.f); }
  auto M = [&](size_t n) { return cfg == 2 ? cur.m(n) : sc ? sc_malloc(n) : pbc_malloc(n); };
  auto R = [&](void* p, size_t o, size_t n) { return cfg == 2 ? cur.r(p, o, n) : sc ? sc_realloc(p, n) : pbc_realloc(p, n); };
  auto F = [&](void* p, size_t o) { if (cfg == 2) cur.f(p, o); else if (sc) sc_free(p); else pbc_free(p); };
  vector<std::pair<unsigned char*, string>> b; int n = c.u(1, 20);
  for (int s = 0; s < n; s++) {
    auto size = [&] { return (size_t)(1 + c.u(0, c.pick({8u, 64u, 1000u}))); };
    switch (b.empty() ? c.u(0, 2) : c.u(0, 5)) {
      case 0: { size_t k = size(); auto p = (unsigned char*)M(k); string w = c.bytes(k); memcpy(p, w.data(), k); b.push_back({p, w}); c.d << " m" << k; break; }
      case 1: if (cfg != 2) { size_t k = c.u(1, 9), e = size(); auto p = (unsigned char*)(sc ? sc_calloc(k, e) : pbc_calloc(k, e)); string w(k * e, 0); REQ(!memcmp(p, w.data(), w.size()), "calloc memory is not zero"); b.push_back({p, w}); c.d << " c" << k << "*" << e; } break;
      case 2: if (cfg != 2) { string w = c.bytes(size()); for (auto& ch : w) if (!ch) ch = 1; char* src = strdup(w.c_str()); auto p = (unsigned char*)(sc ? sc_strdup(src) : pbc_strdup(src)); memset(src, 'x', w.size()); free(src); REQ(!memcmp(p, w.c_str(), w.size() + 1), "strdup made another string"); b.push_back({p, w + string(1, 0)}); c.d << " s" << w.size(); } break;
      case 3: { size_t i = c.u(0, b.size() - 1); F(b[i].first, b[i].second.size()); b.erase(b.begin() + i); c.d << " f"; break; }
      default: { size_t i = c.u(0, b.size() - 1), k = size(); b[i].first = (unsigned char*)R(b[i].first, b[i].second.size(), k); size_t o = std::min(k, b[i].second.size()); REQ(!memcmp(b[i].first, b[i].second.data(), o), "resizing changed the contents"); string w = c.bytes(k); memcpy(b[i].first, w.data(), k); b[i].second = w; c.nontrivial(); c.d << " r" << k; }
    }
    for (auto& p : b) REQ(!memcmp(p.first, p.second.data(), p.second.size()), "contents of a block changed");
  }
  if (cfg != 2 && c.flip()) { if (sc) sc_free(nullptr); else pbc_free(nullptr); auto p = sc ? sc_realloc(nullptr, 10) : pbc_realloc(nullptr, 10); memset(p, 1, 10); F(p, 10); }
  for (auto& p : b) F(p.first, p.second.size());
  c.label(cfg == 0 ? "default" : cfg == 1 ? "SAFE_CLEAN" : "SAFE_CLEAN GMP");
}
struct TD { vector<std::pair<Z, unsigned>> f; int stop; };
static int tdcb(mpz_t f, unsigned m, void* p) { TD* t = (TD*)p; Z z; mpz_set(mp(z), f); t->f.push_back({z, m}); return t->stop >= 0 && (int)t->f.size() > t->stop; }
extern "C" int pbc_mpz_trickle(int (*fun)(char), int base, mpz_t n) __attribute__((weak));
static string g_digits; static size_t g_stop; static int g_ret;
static int digit(char ch) { g_digits += ch; return g_digits.size() == g_stop ? g_ret : 0; }
CHECK("C26", number_helpers, 300000, 6000000, 500, "more than one prime factor, or a value that needs padding") {
  AllocTrack A; {
  switch (c.u(0, 4)) {
    case 0: {   // trial division
      std::map<Z, unsigned> want; Z n = 1; int k = c.u(0, 4);
      for (int i = 0; i < k; i++) { Z p = nextprime(Z(c.u(0, c.pick({1u, 20u, 300u, 300u, c.chance(1, 10) ? 70000u : 3000u})))); unsigned m = c.chance(1, 4) ? c.u(1, 6) : 1; want[p] += m; for (unsigned j = 0; j < m; j++) n *= p; }
      bool lim = c.chance(1, 3); Z L = c.u(1, c.pick({10u, 100u, 4000u}));
      if (c.chance(1, 4)) { Z p = nextprime(c.bits(c.u(13, 80)) + 70001); want[p]++; n *= p; }   // one large prime
      TD t; t.stop = c.chance(1, 4) ? c.u(0, 2) : -1; Z n0 = n; c.d << n << " limit " << (lim ? str(L) : "none") << " stop " << t.stop;
      int rc = pbc_trial_divide(tdcb, &t, mp(n), lim ? mp(L) : nullptr);
      REQ(n == n0, "the number was changed");
      auto it = want.begin(); size_t i = 0; Z rest = n;
      for (; i < t.f.size() && it != want.end(); i++, ++it) {
        if (lim && it->first > L && t.f[i].first != it->first) break;   // one unfactored remainder is allowed beyond the limit
        REQ(t.f[i].first == it->first && t.f[i].second == it->second, "factor " << i << " reported as " << t.f[i].first << "^" << t.f[i].second << ", should be " << it->first << "^" << it->second);
        for (unsigned j = 0; j < it->second; j++) rest /= it->first;
      }
      if (i < t.f.size()) { REQ(i + 1 == t.f.size() && rest > 1 && t.f[i].first == rest && t.f[i].second == 1, "remainder " << rest << " reported as " << t.f[i].first << "^" << t.f[i].second); it = want.end(); i++; }
      bool stopped = t.stop >= 0 && (int)t.f.size() == t.stop + 1;
      REQ(rc == stopped, "returned " << rc); if (!stopped) REQ(it == want.end(), "factor " << it->first << " not reported");
      if (want.size() > 1) c.nontrivial(); c.label("trial division"); break; }
    case 1: {   // fixed-width output
      int n = c.chance(1, 20) ? c.u(41, 400) : c.u(1, 40); Z z = c.bits(c.u(0, n * 8)); unsigned char* b = (unsigned char*)malloc(n); memset(b, 0xA5, n); c.d << z << " in " << n << " bytes";
      pbc_mpz_out_raw_n(b, n, mp(z)); Z w; mpz_import(mp(w), n, 1, 1, 1, 0, b); free(b); REQ(w == z, "wrote " << w); if (mpz_sizeinbase(mp(z), 256) < (size_t)n) c.nontrivial(); c.label("fixed-width output"); break; }
    case 2: {   // integers from hashes: determined by the data, in range, all short data distinct
      bool big = c.chance(1, 20); Z L = c.bits(c.u(1, big ? 3000 : 300)) + 1; size_t n = c.u(1, big ? 700 : 60); string s = c.bytes(n); unsigned char* b = (unsigned char*)malloc(n); memcpy(b, s.data(), n); Z z = 5, y = 7; c.d << hex(s) << " below " << L;
      pbc_mpz_from_hash(mp(z), mp(L), b, n); pbc_mpz_from_hash(mp(y), mp(L), b, n); free(b); REQ(z == y, "not deterministic"); REQ(z >= 0 && z <= L, "value " << z << " out of range"); c.nontrivial(); c.label("from hash"); break; }
    case 3: {   // digits, most significant first
      int b = c.u(1, 10); if (b == 1) b = 0; int base = b ? b : 10; Z z; switch (c.u(0, 2)) { case 0: z = c.bits(c.u(0, 200)); break; case 1: mpz_ui_pow_ui(mp(z), base, c.u(0, 70)); z -= c.u(0, 1); break; default: mpz_ui_pow_ui(mp(z), base, c.u(0, 20)); z *= c.u(0, base); z += c.u(0, base); }
      char* t = mpz_get_str(nullptr, base, mp(z)); string want = t; void (*fr)(void*, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(t, want.size() + 1);
      g_digits.clear(); g_stop = c.chance(1, 4) ? c.u(1, want.size()) : 0; g_ret = 1 + c.u(0, 9); c.d << z << " in base " << b << " stop at " << g_stop; Z z0 = z;
      if (!pbc_mpz_trickle) discard(); int rc = pbc_mpz_trickle(digit, b, mp(z));
      REQ(z == z0, "the number was changed"); if (g_stop) want.resize(g_stop); REQ(g_digits == want, "digits " << g_digits << ", should be " << want); REQ(rc == (g_stop ? g_ret : 0), "returned " << rc);
      if (want.size() > 1) c.nontrivial(); c.label("digits"); break; }
    default: {  // orders over extensions: a^k + b^k for the roots of T^2 - tT + q
      Z q = c.bits(c.u(1, 80)) + 2, t = c.bits(c.u(0, mpz_sizeinbase(mp(q), 2) / 2)); if (c.flip()) t = -t; int k = c.u(1, 14); c.d << "q=" << q << " t=" << t << " k=" << k;
      // trace of M^k for the companion matrix M = [[0,-q],[1,t]]
      Z m[4] = {1, 0, 0, 1}; for (int i = 0; i < k; i++) { Z a = m[1], b = m[1] * t - m[0] * q, d = m[3], e = m[3] * t - m[2] * q; m[0] = a; m[1] = b; m[2] = d; m[3] = e; }
      Z want = m[0] + m[3], got, ord, qk; pbc_mpz_trace_n(mp(got), mp(q), mp(t), k); REQ(got == want, "trace " << got << ", should be " << want);
      mpz_pow_ui(mp(qk), mp(q), k); pbc_mpz_curve_order_extn(mp(ord), mp(q), mp(t), k); REQ(ord == qk + 1 - want, "order " << ord); if (k > 1 && t != 0) c.nontrivial(); c.label("extension order"); } }
  }
  A.balanced("after the call");
}
