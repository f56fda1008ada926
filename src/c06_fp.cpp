#include "fields.h"
#include <climits>
// C06: prime-field arithmetic against integers modulo p.
// a value sharing a factor with a composite modulus (a zero divisor)
static Z gen_divisor(Case& c, const Z& n) {
  for (unsigned long d : {2ul, 3ul, 5ul, 7ul, 11ul, 13ul}) if (n % d == 0) return n / d % n;
  Z s; mpz_sqrt(mp(s), mp(n)); if (s * s == n) return s;
  return 0;
}
CHECK("C06", fp_ops, 300000, 20000000, 500, "an operation other than set/set0/set1 applied to at least one non-zero operand") {
  c.seed_lib();
  Fldp F; Z known = 0;
  if (c.chance(1, 5)) {  // integers modulo a composite (exponent rings of composite-order groups)
    Z n; 
    switch (c.u(0, 3)) {
      case 0: known = gen_prime(c, 200); n = known * gen_prime(c, 200); break;
      case 1: { Z q = gen_prime(c, 100); n = q * q; break; }
      case 2: n = Z(1) << c.u(1, 200); break;
      default: n = c.bits(c.u(2, 300)) + 2;
    }
    F = fld_prime(n, legal_backend(n, c.u(0, BK_N - 1)));
    c.label("composite modulus");
  } else F = gen_prime_field(c, c.thorough ? 1100 : 600);
  const RF& k = *F->r;
  E a(F->f), b(F->f), r(F->f);
  V vr = k.rnd(c); put(r, *F, vr);
  int steps = c.u(1, 12);
  c.d << F->desc << ":";
  for (int i = 0; i < steps; i++) {
    V va = k.rnd(c);
    if (c.chance(1, 4)) { Z g = known != 0 ? known : gen_divisor(c, k.p); if (g != 0) va = V(g); }
    V vb = c.chance(1, 8) && !k.is0(va) && k.p % va.v == 0 ? V(k.p / va.v % k.p) : c.chance(1, 6) ? va : c.chance(1, 6) ? k.neg(va) : k.rnd(c);
    // the operands are set in different ways
    put(a, *F, va); put(b, *F, vb);
    expect(*F, a, va, "set_mpz"); expect(*F, b, vb, "set_mpz");
    int op = c.u(0, OP_N - 1);
    if (!op_defined(*F, op, va, vb)) continue;
    string d;
    element_ptr dst = r, x = a, y = b;
    int al = c.u(0, 6);
    if (al == 1) dst = a; else if (al == 2) dst = b; else if (al == 3) { y = a; vb = va; } else if (al == 4) { y = a; dst = a; vb = va; }
    if (al == 3 || al == 4) if (!op_defined(*F, op, va, vb)) continue;
    V want = do_op(c, *F, op, dst, x, y, va, vb, d);
    c.d << " " << d << "(" << str(va.v) << "," << str(vb.v) << ")" << (al == 1 ? " into a" : al == 2 ? " into b" : al == 3 ? " b=a" : al == 4 ? " all same" : "");
    c.label(op_name[op]);
    expect(*F, dst, want, d);
    if (dst != x) expect(*F, x, va, d + " changed its first operand:");
    if (dst != y) expect(*F, y, vb, d + " changed its second operand:");
    // the result must be usable: compare with a freshly set copy, both ways
    E t(F->f); put(t, *F, want);
    check_preds(*F, dst, t, want, want);
    V o = k.rnd(c); put(t, *F, o);
    check_preds(*F, dst, t, want, o);
    check_preds(*F, t, dst, o, want);
    Z lo; element_to_mpz(mp(lo), dst);
    REQ(element_to_si(dst) == mpz_get_si(mp(lo)), "to_si");
    if (!k.is0(va) && op != SET && op != SET0 && op != SET1) c.nontrivial();
  }
  int bits = mpz_sizeinbase(k.p.get_mpz_t(), 2);
  c.label(bits <= 10 ? "p<=10 bits" : bits <= 64 ? "p<=64 bits" : bits <= 128 ? "p<=128 bits" : "p>128 bits");
}
// exhaustive small fields: every pair of operands, every implementation
CHECK("C06", fp_small_exhaustive, 24, 120, 1, "every pair of residues of a small prime in one implementation") {
  static const unsigned ps[] = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47};
  c.seed_lib();
  long i = c.u(0, 1000000);
  (void)i;
  Z p = ps[(c.index / 2) % (sizeof ps / sizeof *ps)]; int bk = c.index % 2 ? BK_DEFAULT : BK_NAIVE;
  Fldp F = fld_prime(p, bk); const RF& k = *F->r; unsigned n = p.get_ui();
  c.d << "all pairs in " << F->desc; c.nontrivial();
  E a(F->f), b(F->f), r(F->f);
  for (unsigned x = 0; x < n; x++) for (unsigned y = 0; y < n; y++) {
    V vx((Z(x))), vy((Z(y)));
    for (int op : {ADD, SUB, MUL, DIV, SQUARE, DOUBLE, HALVE, NEG, INVERT}) {
      if (!op_defined(*F, op, vx, vy)) continue;
      put(a, *F, vx); put(b, *F, vy);
      string d; V w = do_op(c, *F, op, r, a, b, vx, vy, d);
      expect(*F, r, w, d + "(" + vs(vx) + "," + vs(vy) + ")");
      put(a, *F, vx); put(b, *F, vy);
      d = ""; do_op(c, *F, op, a, a, b, vx, vy, d); expect(*F, a, w, d + " in place (" + vs(vx) + "," + vs(vy) + ")");
    }
    put(a, *F, vx); put(b, *F, vy);
    check_preds(*F, a, b, vx, vy);
    Z e = y; element_pow_mpz(r, a, mp(e)); expect(*F, r, k.pow(vx, e), "pow " + vs(vx) + "^" + str(e));
  }
}
// sign: opposite for negatives, zero only for zero (documented contract)
CHECK("C06", fp_sign, 30000, 500000, 500, "sign of a non-zero element") {
  Fldp F = gen_prime_field(c, 300); const RF& k = *F->r;
  V v = k.rnd(c); E a(F->f), b(F->f); put(a, *F, v); element_neg(b, a);
  c.d << F->desc << " sign " << vs(v);
  int s = element_sign(a), t = element_sign(b);
  if (k.is0(v)) { REQ(s == 0, "sign of zero is " << s); return; }
  c.nontrivial();
  REQ(s != 0 && t != 0 && ((s > 0) == (t < 0)), "sign(" << vs(v) << ")=" << s << " sign of negation=" << t << " in " << F->desc);
}
