// Core of the property-testing harness: choice tape, case context, reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <gmpxx.h>
#include <pbc.h>
extern "C" {
#include <pbc_fp.h>
#include <pbc_poly.h>
#include <pbc_fieldquadratic.h>
#include <pbc_ternary_extension_field.h>
#include <pbc_z.h>
#include <pbc_multiz.h>
#include <pbc_singular.h>
#include <pbc_hilbert.h>
}
typedef mpz_class Z;
using std::string;
using std::vector;

struct Fail { string msg; };
struct Discard {};

// A case is a deterministic function of its tape of choices.  In generation
// mode the choices come from a PRNG and are recorded; in replay/shrink mode
// they come from a stored tape (0 after its end).
struct Case {
  vector<uint64_t> tape;   // recorded (already reduced) choices
  const vector<uint64_t>* replay = nullptr;
  uint64_t s[4];           // PRNG state (generation mode)
  std::ostringstream d;    // human-readable description
  std::set<string> labels;
  bool nontriv = false;
  uint64_t rngstate = 0;   // state of the random source given to the library
  long index = 0;
  bool thorough = false;

  explicit Case(uint64_t seed);
  uint64_t raw();
  uint64_t u(uint64_t lo, uint64_t hi);        // inclusive
  bool chance(unsigned num, unsigned den) { return u(0, den - 1) >= den - num; }
  bool flip() { return u(0, 1); }
  template <class T> T pick(std::initializer_list<T> l) { return l.begin()[u(0, l.size() - 1)]; }
  template <class T> const T& pick(const vector<T>& v) { return v[u(0, v.size() - 1)]; }
  Z bits(unsigned n);          // uniform in [0,2^n)
  Z below(const Z& n);         // uniform-ish in [0,n)
  Z edge(const Z& n);          // edge-biased in [0,n), n>=1
  Z exponent(const Z& order);  // edge-biased non-negative exponent, may exceed order
  string bytes(size_t n);      // bytes, biased to 0x00/0xff runs at times
  // structured text made of the given alphabet/fragments
  void label(const string& l) { labels.insert(l); }
  void nontrivial() { nontriv = true; }
  void seed_lib();             // give the library a reproducible random source
};

[[noreturn]] void fail(const string& m);
[[noreturn]] inline void discard() { throw Discard(); }
#define REQ(cond, expr) do { if (!(cond)) { std::ostringstream o_; o_ << expr; fail(o_.str() + "  [" #cond "]"); } } while (0)

struct Sub {
  const char* prop; const char* name; void (*fn)(Case&);
  long quick, thorough; int batch;
  const char* rule;   // what makes a case non-trivial
};
vector<Sub>& subs();
struct Reg { Reg(const Sub& s) { subs().push_back(s); } };
#define CHECK(prop, name, quick, thorough, batch, rule) \
  static void name(Case& c); \
  static Reg reg_##name({prop, #name, name, quick, thorough, batch, rule}); \
  static void name(Case& c)

// ---- helpers ----
string hex(const string& s);
inline string str(const Z& z) { return z.get_str(); }
inline mpz_ptr mp(Z& z) { return z.get_mpz_t(); }
inline mpz_ptr mp(const Z& z) { return const_cast<mpz_ptr>(z.get_mpz_t()); }
Z zmod(const Z& a, const Z& m);
Z zpow(const Z& a, const Z& e, const Z& m);
Z zinv(const Z& a, const Z& m);
bool isprime(const Z& n);
Z nextprime(const Z& n);

// RAII element
struct E {
  element_t e;
  explicit E(field_ptr f) { element_init(e, f); }
  explicit E(const field_s* f) { element_init(e, const_cast<field_ptr>(f)); }
  E(const E& o) { element_init(e, const_cast<E&>(o).e->field); element_set(e, const_cast<E&>(o).e); }
  E& operator=(const E& o) { element_set(e, const_cast<E&>(o).e); return *this; }
  ~E() { element_clear(e); }
  operator element_ptr() { return e; }
  operator element_ptr() const { return const_cast<E*>(this)->e; }
  field_ptr f() const { return e->field; }
};
string show(element_ptr e);       // text form (empty when not offered)
Z toz(element_ptr e);
string enc(element_ptr e);        // exact byte encoding, with guard bytes checked
bool lib_has_bytes(field_ptr f);
// Run a function in a forked child (for calls which may exit()). Returns true
// when it returned normally; out receives what the child wrote to the pipe.
struct ChildResult { bool ok; int sig; int code; bool timeout; string out; };
ChildResult in_child(const std::function<string()>& fn, int cpu_s = 20);
string capture_file(const std::function<void(FILE*)>& fn);  // text written to a FILE*
string repo_path();
string build_path();
string verif_path();
string read_file(const string& path);
