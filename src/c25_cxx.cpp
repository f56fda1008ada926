#include <memory>
#include <stdexcept>
#include "pairings.h"
#include "alloc.h"
#include <pbc/pbcxx.h>
// C25: the C++ wrapper.  Every wrapped element has a twin handled through the
// C interface (with a pairing object of its own).
namespace {
template <class W> struct Pool {
  vector<std::unique_ptr<W>> w; vector<std::unique_ptr<E>> m; field_ptr f; const char* n;
  size_t add(W* x) { w.emplace_back(x); m.emplace_back(new E(f)); return w.size() - 1; }
  void same(const string& when) {
    for (size_t i = 0; i < w.size(); i++) { string a = w[i]->to_bytes(), b = enc(*m[i]); REQ(a == b, when << ": " << n << "[" << i << "] is " << hex(a) << ", the C interface gives " << hex(b)); REQ(w[i]->is0() == !!element_is0(*m[i]) && w[i]->is1() == !!element_is1(*m[i]), when << ": is0/is1 of " << n << "[" << i << "]"); }
  }
};
typedef pbc::ZrElement ZE;
template <class W> constexpr bool isz() { return std::is_same<W, ZE>::value; }
// one step on a pool; returns its description
template <class W> string step(Case& c, Pool<W>& p, Pool<ZE>& z, const pbc::Pairing& pr) {
  auto id = [&](size_t i) { return string(p.n) + std::to_string(i); };
  auto adopt = [&](size_t i) { string s = p.w[i]->to_bytes(); element_from_bytes(*p.m[i], (unsigned char*)&s[0]); };
  if (p.w.empty()) { size_t i = p.add(new W(pr)); p.w[i]->set_random(); adopt(i); return id(i) + " random"; }
  size_t i = c.u(0, p.w.size() - 1), j = c.u(0, p.w.size() - 1), k = c.u(0, p.w.size() - 1), q = c.u(0, z.w.size() - 1);
  W &a = *p.w[i], &b = *p.w[j], &d = *p.w[k]; E &A = *p.m[i], &B = *p.m[j], &D = *p.m[k]; ZE& e = *z.w[q]; E& X = *z.m[q]; string I = id(i), J = id(j), K = id(k), Q = "z" + std::to_string(q); W* r = nullptr;
  bool nz = !isz<W>() || !element_is0(D); int op = c.u(0, 33); if (op >= 30 && isz<W>()) op -= 20;
  switch (op) {
    case 0: if (p.w.size() < 6) { size_t t = p.add(new W(pr)); p.w[t]->set_random(); adopt(t); return id(t) + " random"; }
    case 1: if (p.w.size() < 6) { size_t t = p.add(new W(a)); element_set(*p.m[t], A); return id(t) + "(" + I + ")"; }
    case 2: r = &(a = b); element_set(A, B); REQ(r == &a, "= does not return its left side"); return I + "=" + J;
    case 3: a = a; return I + "=" + I;
    case 4: r = &(a += b); element_add(A, A, B); REQ(r == &a, "+= does not return its left side"); return I + "+=" + J;
    case 5: r = &(a -= b); element_sub(A, A, B); REQ(r == &a, "-= does not return its left side"); return I + "-=" + J;
    case 6: r = &(a *= b); element_mul(A, A, B); REQ(r == &a, "*= does not return its left side"); return I + "*=" + J;
    case 7: if (!nz) return "-"; r = &(a /= d); element_div(A, A, D); REQ(r == &a, "/= does not return its left side"); return I + "/=" + K;
    case 8: a = b + d; element_add(A, B, D); return I + "=" + J + "+" + K;
    case 9: a = b - d; element_sub(A, B, D); return I + "=" + J + "-" + K;
    case 10: a = b * d; element_mul(A, B, D); return I + "=" + J + "*" + K;
    case 11: if (!nz) return "-"; a = b / d; element_div(A, B, D); return I + "=" + J + "/" + K;
    case 12: a = b.twice(); element_double(A, B); return I + "=twice " + J;
    case 13: a.twice_inplace(); element_double(A, A); return I + " twice";
    case 14: a = b.square(); element_square(A, B); return I + "=square " + J;
    case 15: a.square_inplace(); element_square(A, A); return I + " square";
    case 16: a = b.neg(); element_neg(A, B); return I + "=neg " + J;
    case 17: a.neg_inplace(); element_neg(A, A); return I + " neg";
    case 18: if (!nz) return "-"; a = d.invert(); element_invert(A, D); return I + "=invert " + K;
    case 19: if (isz<W>() && element_is0(A)) return "-"; a.invert_inplace(); element_invert(A, A); return I + " invert";
    case 20: a.set0(); element_set0(A); return I + " set0";
    case 21: a.set1(); element_set1(A); return I + " set1";
    case 22: { string h = c.bytes(c.u(1, 40)); a.from_hash(h); element_from_hash(A, (void*)h.data(), h.size()); return I + " from_hash " + hex(h); }
    case 23: { string s = b.to_bytes(); REQ((int)s.size() == element_length_in_bytes(B), "length of the encoding"); a.from_bytes(s); element_set(A, B); return I + " from_bytes " + J; }
    case 24: { string s = b.to_bytes(); s.resize(c.u(0, s.size() - 1)); bool t = false; try { a.from_bytes(s); } catch (std::invalid_argument&) { t = true; } REQ(t, "an encoding that is too short was accepted"); return I + " from_bytes short"; }
    case 25: { string s = b.to_bytes() + c.bytes(c.u(1, 9)); bool t = false; try { a.from_bytes(s); } catch (std::invalid_argument&) { t = true; } REQ(t, "an encoding that is too long was accepted"); a.from_bytes(b.to_bytes()); element_set(A, B); return I + " from_bytes long"; }
    case 26: { bool eq = !element_cmp(A, B); REQ((a == b) == eq && (a != b) == !eq && (a.compare(b) == 0) == eq, "comparison"); const W cp(a); REQ(cp == a && !(cp != a), "a copy differs"); return I + "==" + J; }
    case 27: a = (b + d) * (b - d) + b; { E t(p.f), u(p.f); element_add(t, B, D); element_sub(u, B, D); element_mul(t, t, u); element_add(A, t, B); } return I + "=(" + J + "+" + K + ")*(" + J + "-" + K + ")+" + J;
    case 28: { W t(a); t += b; t.set0(); return "copy of " + I + " changed"; }
    case 29: if (p.w.size() > 1) { p.w.erase(p.w.begin() + i); p.m.erase(p.m.begin() + i); return "drop " + I; } return "-";
    default:
      if constexpr (!isz<W>()) {
        switch (op) {
          case 30: a = b.pow_zn(e); element_pow_zn(A, B, X); return I + "=" + J + " pow " + Q;
          case 31: r = &a.pow_zn_inplace(e); element_pow_zn(A, A, X); REQ(r == &a, "pow_zn_inplace does not return its object"); return I + " pow " + Q;
          case 32: r = &(a *= e); element_mul_zn(A, A, X); REQ(r == &a, "*= does not return its left side"); return I + "*=" + Q;
          default: if (c.flip()) { a = b * e; element_mul_zn(A, B, X); return I + "=" + J + "*" + Q; } a = e * b; element_mul_zn(A, B, X); return I + "=" + Q + "*" + J;
        }
      }
  }
  return "-";
}
}
CHECK("C25", wrapper_history, 2400, 300000, 50, "at least five operations on wrapped group elements or pairings") {
  auto& all = param_files(); static vector<const ParamFile*> l, big; if (l.empty()) for (auto& f : all) if (f.fam != 'i' && f.fam != '1') (f.qbits <= (strchr("ae", f.fam) ? 90 : 50) ? l : big).push_back(&f);
  const ParamFile& f = c.chance(1, 100) ? *c.pick(big) : *c.pick(l); c.d << "[" << f.name << "]"; c.label(string("family ") + f.fam); c.seed_lib(); int work = 0;
  AllocTrack tr;
  {
    struct PN { pairing_t p; ~PN() { pairing_clear(p); } } tw; if (pairing_init_set_buf(tw.p, f.text.data(), f.text.size())) fail("parameters rejected");
    pbc::Pairing pr(f.text);
    Pool<ZE> z; Pool<pbc::G1Element> g1; Pool<pbc::G2Element> g2; Pool<pbc::GTElement> gt; z.f = tw.p->Zr; z.n = "z"; g1.f = tw.p->G1; g1.n = "g"; g2.f = tw.p->G2; g2.n = "h"; gt.f = tw.p->GT; gt.n = "t";
    REQ(pr.is_symmetric() == !!pairing_is_symmetric(tw.p), "is_symmetric"); size_t i0 = z.add(new ZE(pr)); z.w[i0]->set_si(3); element_set_si(*z.m[i0], 3);
    int steps = c.u(1, 30);
    for (int s = 0; s < steps; s++) {
      string d; int k = c.u(0, 9);
      if (k <= 1) d = step(c, z, z, pr); else if (k <= 3) d = step(c, g1, z, pr), work++; else if (k <= 5) d = step(c, g2, z, pr), work++; else if (k <= 7) d = step(c, gt, z, pr), work++;
      else if (k == 8) { size_t i = c.u(0, z.w.size() - 1); if (c.flip()) { long v = c.flip() ? (long)c.u(0, ~0ull) : (long)c.u(0, 10) - 5; z.w[i]->set_si(v); element_set_si(*z.m[i], v); d = "z" + std::to_string(i) + " set_si " + std::to_string(v); } else { Z v = c.exponent(Z(tw.p->r)); if (c.flip()) v = -v; z.w[i]->set_mpz(mp(v)); element_set_mpz(*z.m[i], mp(v)); d = "z" + std::to_string(i) + " set_mpz " + str(v); } }
      else if (g1.w.empty() || g2.w.empty() || gt.w.empty()) continue;
      else {
        size_t a = c.u(0, g1.w.size() - 1), b = c.u(0, g2.w.size() - 1), t = c.u(0, gt.w.size() - 1); bool ap = c.flip(); int kind = c.u(0, 3); work++; bool sym = pr.is_symmetric(), threw = false;
        try {
          if (kind <= 1) { if (ap) pr.apply(*gt.w[t], *g1.w[a], *g2.w[b]); else *gt.w[t] = pr(*g1.w[a], *g2.w[b]); pairing_apply(*gt.m[t], *g1.m[a], *g2.m[b], tw.p); }
          else if (kind == 2) { size_t a2 = c.u(0, g1.w.size() - 1); if (ap) pr.apply(*gt.w[t], *g1.w[a], *g1.w[a2]); else *gt.w[t] = pr(*g1.w[a], *g1.w[a2]); pairing_apply(*gt.m[t], *g1.m[a], *g1.m[a2], tw.p); }
          else { size_t b2 = c.u(0, g2.w.size() - 1); if (ap) pr.apply(*gt.w[t], *g2.w[b], *g2.w[b2]); else *gt.w[t] = pr(*g2.w[b], *g2.w[b2]); pairing_apply(*gt.m[t], *g2.m[b], *g2.m[b2], tw.p); }
        } catch (std::invalid_argument&) { threw = true; }
        REQ(threw == (kind >= 2 && !sym), "invalid_argument was " << (threw ? "" : "not ") << "thrown"); d = "pairing kind " + std::to_string(kind); c.label(threw ? "pairing refused" : "pairing");
      }
      c.d << " " << d << ";"; z.same(d); g1.same(d); g2.same(d); gt.same(d);
    }
    if (work >= 5) c.nontrivial();
  }
  tr.balanced("after the pairing and its elements are gone");
}
