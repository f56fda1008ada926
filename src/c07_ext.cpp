#include "fields.h"
// C07: extension fields against reference polynomial arithmetic.
static V gen_el(Case& c, const RF& k) {
  if (!k.base) return k.rnd(c);
  V v = k.zero();
  switch (c.u(0, 6)) {
    case 0: return v;
    case 1: v.c[0] = gen_el(c, *k.base); return v;                        // base-field element
    case 2: v.c[c.u(0, k.n() - 1)] = gen_el(c, *k.base); return v;         // monomial
    case 3: v.c[k.n() - 1] = k.base->one(); v.c[0] = gen_el(c, *k.base); return v;
    case 4: for (auto& x : v.c) if (c.flip()) x = gen_el(c, *k.base); return v;  // sparse
    default: for (auto& x : v.c) x = gen_el(c, *k.base); return v;
  }
}
CHECK("C07", ext_ops, 20000, 2000000, 50, "an arithmetic operation on an element outside the base field") {
  c.seed_lib();
  Fldp F = gen_ext_field(c, c.thorough ? 520 : 260, c.chance(1, 4) ? 3 : 2);
  const RF& k = *F->r;
  c.d << F->desc << ":";
  REQ(Z(F->f->order) == k.q, "order of " << F->desc);
  E a(F->f), b(F->f), r(F->f);
  put(r, *F, gen_el(c, k));
  int steps = c.u(1, 6);
  size_t size = k.deg() * mpz_sizeinbase(k.p.get_mpz_t(), 2);
  for (int i = 0; i < steps; i++) {
    V va = gen_el(c, k), vb = c.chance(1, 6) ? va : c.chance(1, 6) ? k.neg(va) : gen_el(c, k);
    put(a, *F, va); put(b, *F, vb);
    int op = c.u(0, OP_N - 1);
    if ((op == POW || op == POW_ZN) && size > 900 && !c.chance(1, 8)) op = MUL;
    if (!op_defined(*F, op, va, vb)) continue;
    string d; element_ptr dst = r, x = a, y = b;
    int al = c.u(0, 6);
    if (al == 1) dst = a; else if (al == 2) dst = b; else if (al == 3) { y = a; vb = va; } else if (al == 4) { y = a; dst = a; vb = va; }
    if (!op_defined(*F, op, va, vb)) continue;
    V want = do_op(c, *F, op, dst, x, y, va, vb, d);
    c.d << " " << d << "(" << vs(va) << "," << vs(vb) << ")" << (al == 1 ? " into a" : al == 2 ? " into b" : al == 3 ? " b=a" : al == 4 ? " all same" : "");
    c.label(op_name[op]);
    expect(*F, dst, want, d);
    if (dst != x) expect(*F, x, va, d + " changed its first operand:");
    if (dst != y) expect(*F, y, vb, d + " changed its second operand:");
    E t(F->f); put(t, *F, want);
    check_preds(*F, dst, t, want, want);
    V o = gen_el(c, k); put(t, *F, o);
    check_preds(*F, dst, t, want, o);
    if (va != k.fromb(va.c[0]) && op != SET && op != SET0 && op != SET1 && op != SET_SI && op != SET_MPZ) c.nontrivial();
  }
  c.label(F->kind == Fld::FI ? "fi" : F->kind == Fld::FQ ? "quadratic" : "polymod deg " + std::to_string(k.n()));
  c.label("tower height " + std::to_string(F->base->base ? F->base->base->base ? 3 : 2 : 1));
}
// conversions between the base field, integers, nested integer lists and the extension
CHECK("C07", ext_convert, 6000, 400000, 100, "a non-zero value converted") {
  c.seed_lib();
  Fldp F = gen_ext_field(c, 200, 2);
  const RF& k = *F->r; const Fld& B = *F->base;
  E a(F->f), b(B.f), r(F->f);
  put(a, *F, gen_el(c, k));
  V vb = gen_el(c, *B.r); put(b, B, vb);
  switch (c.u(0, 4)) {
    case 0:
      c.d << F->desc << " embed " << vs(vb);
      if (F->kind == Fld::FI) element_field_to_fi(a, b); else if (F->kind == Fld::FQ) element_field_to_quadratic(a, b); else element_field_to_polymod(a, b);
      expect(*F, a, k.fromb(vb), "embedding of base field"); if (!B.r->is0(vb)) c.nontrivial(); c.label("embed"); break;
    case 1: {
      if (F->kind != Fld::POLYMOD) discard();
      V va = gen_el(c, k); put(a, *F, va); bool al = c.flip();
      element_ptr dst = al ? (element_ptr)a : (element_ptr)r;
      c.d << F->desc << " const_mul " << vs(vb) << " * " << vs(va);
      polymod_const_mul(dst, b, a); expect(*F, dst, k.mul(k.fromb(vb), va), "polymod_const_mul"); c.nontrivial(); c.label("const_mul"); break;
    }
    case 2: {
      field_t mz; field_init_multiz(mz); V w; string d; element_ptr m = build_mz(c, k, mz, w, 0, d);
      c.d << F->desc << " set_multiz " << d;
      element_set_multiz(a, (multiz)m->data); expect(*F, a, w, "set_multiz " + d);
      element_clear(m); pbc_free(m); field_clear(mz); if (!k.is0(w)) c.nontrivial(); c.label("multiz"); break;
    }
    case 3: {
      V va = gen_el(c, k); put(a, *F, va); Z z; element_to_mpz(mp(z), a);
      const V* x = &va; while (x->c.size()) x = &x->c[0];
      c.d << F->desc << " to_mpz " << vs(va);
      REQ(z == x->v, "to_mpz(" << vs(va) << ") gave " << z); c.nontrivial(); c.label("to_mpz"); break;
    }
    default: {  // defining relation: the generator satisfies the modulus
      V x = k.zero(); x.c[1] = B.r->one(); put(a, *F, x);
      element_set1(r); E s(F->f), t(F->f); element_set0(s);
      for (size_t i = 0; i < k.n(); i++) { V cc = k.fromb(k.mod[i]); put(t, *F, cc); element_mul(t, t, r); element_add(s, s, t); element_mul(r, r, a); }
      element_add(s, s, r); c.d << F->desc << " relation"; REQ(element_is0(s), "generator does not satisfy the defining polynomial"); c.nontrivial(); c.label("relation");
    }
  }
}
// algebraic laws, Frobenius and Fermat: relations independent of the reference arithmetic
CHECK("C07", ext_laws, 3000, 300000, 50, "law evaluated on three elements, not all in the base field") {
  c.seed_lib();
  Fldp F = gen_ext_field(c, 120, 2); const RF& k = *F->r;
  V v[3]; for (auto& x : v) x = gen_el(c, k);
  E a(F->f), b(F->f), d(F->f), l(F->f), r(F->f), t(F->f);
  put(a, *F, v[0]); put(b, *F, v[1]); put(d, *F, v[2]);
  c.d << F->desc << " laws " << vs(v[0]) << " " << vs(v[1]) << " " << vs(v[2]);
  element_add(t, b, d); element_mul(l, a, t); element_mul(r, a, b); element_mul(t, a, d); element_add(r, r, t); REQ(!element_cmp(l, r), "distributivity");
  element_mul(l, a, b); element_mul(l, l, d); element_mul(r, b, d); element_mul(r, a, r); REQ(!element_cmp(l, r), "associativity");
  Z q = k.q; element_pow_mpz(l, a, mp(q)); REQ(!element_cmp(l, a), "a^q != a");
  Z p = k.p; element_add(t, a, b); element_pow_mpz(l, t, mp(p)); element_pow_mpz(r, a, mp(p)); element_pow_mpz(t, b, mp(p)); element_add(r, r, t); REQ(!element_cmp(l, r), "Frobenius is not additive");
  if (v[0] != k.fromb(v[0].c[0])) c.nontrivial();
}
