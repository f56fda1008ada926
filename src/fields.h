// Library fields paired with their reference model.
#pragma once
#include "ref.h"
struct Fld {
  field_t f, ring; bool has_ring = false; RFp r; string desc; std::shared_ptr<Fld> base;
  enum Kind { PRIME, FI, FQ, POLYMOD } kind = PRIME;
  bool text = true;   // has set_str / snprint
  bool own = true;    // false: a model only, no library field attached
  ~Fld() { if (own) field_clear(f); if (has_ring) field_clear(ring); }
};
typedef std::shared_ptr<Fld> Fldp;
enum { BK_NAIVE, BK_FAST, BK_FASTER, BK_MONT, BK_DEFAULT, BK_N };
extern const char* bk_name[];
int legal_backend(const Z& p, int bk);
Fldp fld_prime(const Z& p, int backend);
Fldp fld_fi(Fldp base);                 // p = 3 mod 4
Fldp fld_quadratic(Fldp base);          // uses the base field's non-residue
Fldp fld_polymod(Fldp base, const P& monic);
Fldp gen_prime_field(Case& c, unsigned maxbits);
Fldp gen_ext_field(Case& c, unsigned maxbits, int maxtower = 2, unsigned maxq = 3000);
V get(element_ptr e, const Fld& F);
void put(element_ptr e, const Fld& F, const V& v);
inline V get(const E& e, const Fld& F) { return get((element_ptr)const_cast<E&>(e).e, F); }
// operations of a field with their reference values
enum Op { ADD, SUB, MUL, SQUARE, DOUBLE, HALVE, NEG, INVERT, DIV, POW, MUL_MPZ, MUL_SI, SET, SET0, SET1, SET_SI, SET_MPZ, ADD_UI, POW_ZN, MUL_ZN, OP_N };
extern const char* op_name[];
// performs dst = op(a,b) in the library and returns the expected value
V do_op(Case& c, const Fld& F, int op, element_ptr dst, element_ptr a, element_ptr b, const V& va, const V& vb, string& d);
bool op_defined(const Fld& F, int op, const V& va, const V& vb);
// checks value, canonical range, predicates
void expect(const Fld& F, element_ptr e, const V& v, const string& what);
void check_preds(const Fld& F, element_ptr a, element_ptr b, const V& va, const V& vb);
void canonical(const Fld& F, element_ptr e);
element_ptr build_mz(Case& c, const RF& k, field_ptr mz, V& want, int depth, string& d);
struct Mz { field_t f; element_ptr e = nullptr; Mz() { field_init_multiz(f); } ~Mz() { if (e) { element_clear(e); pbc_free(e); } field_clear(f); } void add(element_ptr x) { if (!e) e = multiz_new_list(x); else multiz_append(e, x); pbc_free(x); } multiz m() { return (multiz)e->data; } };
