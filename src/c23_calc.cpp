#include <sys/prctl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include "ref.h"
// C23: the calculator.  A program is generated as typed syntax trees, evaluated
// by the interpreter below and, as text, by the real calculator.
namespace {
struct Bad {};                                   // outside the domain (division by zero, huge value, ...)
typedef std::map<vector<int>, Z> MP;             // polynomial in several variables over Z
MP madd(const MP& a, const MP& b, int s) { MP r = a; for (auto& x : b) { r[x.first] += s * x.second; if (r[x.first] == 0) r.erase(x.first); } return r; }
MP mmul(const MP& a, const MP& b) {
  MP r; for (auto& x : a) for (auto& y : b) { vector<int> k = x.first; if (k.size() < y.first.size()) k.resize(y.first.size(), 0); for (size_t i = 0; i < y.first.size(); i++) k[i] += y.first[i]; r[k] += x.second * y.second; if (r[k] == 0) r.erase(k); }
  return r;
}
struct Tree { bool leaf = true; Z z; vector<Tree> l; };
void tomp(const Tree& t, vector<int> pre, MP& m) {
  if (t.leaf) { while (!pre.empty() && pre.back() == 0) pre.pop_back(); m[pre] += t.z; if (m[pre] == 0) m.erase(pre); return; }
  for (size_t i = 0; i < t.l.size(); i++) { auto q = pre; q.push_back(i); tomp(t.l[i], q, m); }
}
// dense shapes, to keep the lists of a program small (the lists of the calculator keep their zero coefficients)
size_t leaves(const Tree& t) { if (t.leaf) return 1; size_t n = 0; for (auto& x : t.l) n += leaves(x); return n; }
Tree shape_add(const Tree& a, const Tree& b) { if (a.leaf) return b; if (b.leaf) return a; Tree o = a; if (o.l.size() < b.l.size()) o.l.resize(b.l.size()); for (size_t i = 0; i < b.l.size(); i++) o.l[i] = shape_add(o.l[i], b.l[i]); return o; }
Tree shape_mul(const Tree& a, const Tree& b) { if (a.leaf) return b; if (b.leaf) return a; if (leaves(a) * leaves(b) > 4000) throw Bad(); Tree o; o.leaf = false; o.l.resize(a.l.size() + b.l.size() - 1); for (size_t i = 0; i < a.l.size(); i++) for (size_t j = 0; j < b.l.size(); j++) o.l[i + j] = shape_add(o.l[i + j], shape_mul(a.l[i], b.l[j])); if (leaves(o) > 300) throw Bad(); return o; }
// types: i integer, l list, f prime field, p polynomial, x extension, 1/2/t groups
struct Ty { char k = 'i'; int f = 0; bool operator==(const Ty& o) const { return k == o.k && f == o.f; } };
struct Val { Ty t; Z z; MP m; Tree tree, shape; bool exact = false; V v; P p; std::map<string, Z> e; };
struct FI { string name; char k; RFp r; int base = -1; };  // r: the field (f, x) or the coefficient field (p)
struct N; typedef std::shared_ptr<N> Np;
struct N { char k; Ty t; string s; Z z; vector<Np> c; };   // k: n number, [ list, v variable, = assignment, ? conditional, r relation, b binary, - negation, ^ power, c call, @ item
struct Proc { string name; vector<string> parm; vector<Np> body; };
struct Prog {
  Case& c; vector<FI> F; std::map<string, Val> env; std::map<string, Proc> procs; Z r; bool sym = true; bool easy = false; vector<string> scope;
  explicit Prog(Case& c) : c(c) {}
  // ---------- evaluation
  static void lim(const Val& v) { if (v.t.k == 'i' && mpz_sizeinbase(mp(v.z), 2) > 9000) throw Bad(); if (v.t.k == 'l') { if (v.m.size() > 60 || leaves(v.shape) > 300) throw Bad(); for (auto& x : v.m) if (mpz_sizeinbase(mp(x.second), 2) > 2000) throw Bad(); } if (v.t.k == 'p' && v.p.size() > 30) throw Bad(); }
  static Val I(const Z& z) { Val v; v.z = z; return v; }
  MP asmp(const Val& v) const { if (v.t.k == 'l') return v.m; MP m; if (v.z != 0) m[{}] = v.z; return m; }
  bool zero(const Val& v) const { return v.t.k == 'i' ? v.z == 0 : F[v.t.f].r->is0(v.v); }
  Z expo(const Val& v) const { return v.t.k == 'i' ? v.z : v.v.v; }
  static bool grp(char k) { return k == '1' || k == '2' || k == 't'; }
  std::map<string, Z> gadd(const std::map<string, Z>& a, const std::map<string, Z>& b, const Z& s) const { auto o = a; for (auto& x : b) { Z& y = o[x.first]; y = ::zmod(y + s * x.second, r); if (y == 0) o.erase(x.first); } return o; }
  bool eq(const Val& a, const Val& b) const { switch (a.t.k) { case 'i': return a.z == b.z; case 'p': return a.p == b.p; case 'f': case 'x': return a.v == b.v; default: return a.e == b.e; } }
  Val bin(char op, const Val& a, const Val& b) const {
    Val o; char k = a.t.k;
    if (grp(k)) { o.t = a.t; o.e = gadd(a.e, b.e, op == '+' || op == '*' ? 1 : -1); return o; }
    if (k == 'i' && b.t.k == 'i') { if (op == '+') o.z = a.z + b.z; else if (op == '-') o.z = a.z - b.z; else if (op == '*') o.z = a.z * b.z; else { if (b.z == 0) throw Bad(); mpz_tdiv_q(mp(o.z), mp(a.z), mp(b.z)); } lim(o); return o; }
    if (k == 'i' || k == 'l') {
      o.t.k = 'l'; MP x = asmp(a), y = asmp(b); o.shape = op == '*' ? shape_mul(a.shape, b.shape) : op == '/' ? a.shape : shape_add(a.shape, b.shape); if (op == '+') o.m = madd(x, y, 1); else if (op == '-') o.m = madd(x, y, -1); else if (op == '*') o.m = mmul(x, y);
      else { if (b.t.k != 'i' || b.z == 0) throw Bad(); for (auto& q : x) { Z d; mpz_tdiv_q(mp(d), mp(q.second), mp(b.z)); if (d != 0) o.m[q.first] = d; } } lim(o); return o;
    }
    o.t = a.t; const RF& R = *F[a.t.f].r;
    if (k == 'p') { if (op == '+') o.p = padd(R, a.p, b.p); else if (op == '-') o.p = psub(R, a.p, b.p); else if (op == '*') o.p = pmul(R, a.p, b.p); else throw Bad(); lim(o); return o; }
    if (op == '+') o.v = R.add(a.v, b.v); else if (op == '-') o.v = R.sub(a.v, b.v); else if (op == '*') o.v = R.mul(a.v, b.v); else { if (R.is0(b.v)) throw Bad(); o.v = R.div(a.v, b.v); } return o;
  }
  Val pw(const Val& a, const Z& e) const {
    Val o; o.t = a.t;
    switch (a.t.k) {
      case 'i': if (e < 0 || e > 40) throw Bad(); if (mpz_sizeinbase(mp(a.z), 2) * e.get_ui() > 9000) throw Bad(); mpz_pow_ui(mp(o.z), mp(a.z), e.get_ui()); return o;
      case 'l': { if (e < 1 || e > 5) throw Bad(); o.m[{}] = 1; for (unsigned i = 0; i < e.get_ui(); i++) { o.m = mmul(o.m, a.m); o.shape = shape_mul(o.shape, a.shape); lim(o); } return o; }
      case 'p': { if (e < 0 || e > 8) throw Bad(); o.p = {F[a.t.f].r->one()}; for (unsigned i = 0; i < e.get_ui(); i++) { o.p = pmul(*F[a.t.f].r, o.p, a.p); lim(o); } return o; }
      case 'f': case 'x': { const RF& R = *F[a.t.f].r; if (e < 0 && R.is0(a.v)) throw Bad(); o.v = R.pow(e < 0 ? R.inv(a.v) : a.v, abs(e)); return o; }
      default: o.e = gadd({}, a.e, e); return o;
    }
  }
  Val ev(const Np& n) {
    switch (n->k) {
      case 'n': { Val v = I(n->z); v.tree.z = n->z; v.exact = true; return v; }
      case '[': { Val v; v.t.k = 'l'; v.exact = true; v.tree.leaf = v.shape.leaf = false; for (auto& x : n->c) { Val y = ev(x); v.shape.l.push_back(y.shape); if (y.t.k == 'i') { y.tree = Tree(); y.tree.z = y.z; } else if (!y.exact) v.exact = false; if (v.exact) v.tree.l.push_back(y.tree); vector<int> pre{int(&x - &n->c[0])}; for (auto& q : asmp(y)) { auto k = pre; k.insert(k.end(), q.first.begin(), q.first.end()); while (!k.empty() && k.back() == 0) k.pop_back(); v.m[k] += q.second; } } lim(v); return v; }
      case 'v': { auto i = env.find(n->s); if (i == env.end()) throw Bad(); return i->second; }
      case '=': { Val v = ev(n->c[0]); env[n->s] = v; return v; }
      case '?': { Val v = ev(n->c[0]); return ev(n->c[zero(v) ? 2 : 1]); }
      case 'r': { Val a = ev(n->c[0]), b = ev(n->c[1]); const string& o = n->s; if (o == "==") return I(eq(a, b)); if (o == "!=") return I(!eq(a, b)); int x = cmp(a.z, b.z); return I(o == "<" ? x < 0 : o == ">" ? x > 0 : o == "<=" ? x <= 0 : x >= 0); }
      case 'b': { Val a = ev(n->c[0]), b = ev(n->c[1]); return bin(n->s[0], a, b); }
      case '-': { Val a = ev(n->c[0]), z; z.t = a.t; if (a.t.k == 'i') return I(-a.z); if (a.t.k == 'l') { z.m = madd({}, a.m, -1); z.shape = a.shape; return z; } if (grp(a.t.k)) { z.e = gadd({}, a.e, -1); return z; } const RF& R = *F[a.t.f].r; if (a.t.k == 'p') { z.p = psub(R, {}, a.p); return z; } z.v = R.neg(a.v); return z; }
      case '^': { Val a = ev(n->c[0]), b = ev(n->c[1]); return pw(a, expo(b)); }
      case '@': { Val a = ev(n->c[0]), b = ev(n->c[1]); if (a.t.k == 'l') { if (!a.exact || a.tree.leaf || b.z < 0 || b.z >= (long)a.tree.l.size() || !a.tree.l[b.z.get_ui()].leaf) throw Bad(); return I(a.tree.l[b.z.get_ui()].z); }
        Val o; o.t = {'f', F[a.t.f].base}; const vector<V>& q = a.t.k == 'p' ? a.p : a.v.c; if (b.z < 0 || b.z >= (long)q.size()) throw Bad(); o.v = q[b.z.get_ui()]; return o; }
      default: {
        vector<Val> a; for (auto& x : n->c) a.push_back(ev(x)); const string& s = n->s; Val o; o.t = n->t;
        if (s == "M") return a[0].t.k == 'i' || a[0].t.k == 'l' ? a[0] : I(a[0].v.v);
        if (s == "nextprime") { if (mpz_sizeinbase(mp(a[0].z), 2) > 200 || a[0].z < 2) throw Bad(); return I(::nextprime(a[0].z)); }
        if (s == "inv") return pw(a[0], -1);
        if (s == "pairing") { for (auto& x : a[0].e) for (auto& y : a[1].e) { string k = x.first, l = y.first; if (sym && l < k) std::swap(k, l); Z& e = o.e[k + "*" + l]; e = ::zmod(e + x.second * y.second, r); } for (auto i = o.e.begin(); i != o.e.end();) if (i->second == 0) i = o.e.erase(i); else ++i; return o; }
        if (s == "sqrt") { o = a[0]; return o; }                     // only generated as sqrt(e^2)^2
        if (s == "order" || s == "ord") return I(n->z);
        if (s == "CHECK") { if (a[0].t.k == 'i' ? a[0].z == 0 : F[a[0].t.f].r->is0(a[0].v)) throw Bad(); return a[0]; }
        if (grp(o.t.k)) return o;                                    // G1(0) ...
        const RF& R = *F[o.t.f].r;
        if (o.t.k == 'f') { o.v = R.fromz(a[0].z); return o; }
        // polynomials and extensions from an integer or a flat list of integers
        vector<V> q; const RF& B = o.t.k == 'p' ? R : *R.base; if (a[0].t.k == 'i') q.push_back(B.fromz(a[0].z)); else { if (!a[0].exact) throw Bad(); for (auto& x : a[0].tree.l) { if (!x.leaf) throw Bad(); q.push_back(B.fromz(x.z)); } }
        if (o.t.k == 'p') { pnorm(R, q); o.p = q; } else { if (q.size() > R.n()) throw Bad(); q.resize(R.n(), B.zero()); o.v.c = q; }
        return o;
      }
    }
  }
  // ---------- generation
  Np mk(char k, Ty t, const string& s = "", vector<Np> ch = {}) { auto n = std::make_shared<N>(); n->k = k; n->t = t; n->s = s; n->c = ch; return n; }
  Np num(const Z& z) { auto n = mk('n', Ty()); n->z = abs(z); if (z < 0) return mk('-', Ty(), "", {n}); return n; }
  Z lit() { switch (c.u(0, 7)) { case 0: return c.u(0, 2); case 1: return c.bits(c.u(1, 64)); case 2: return (Z(1) << c.u(0, 130)) - c.u(0, 1); case 3: return c.bits(c.u(1, 200)); case 4: return c.chance(1, 20) ? c.bits(5000) : c.bits(20); default: return c.u(0, 30); } }
  vector<string> vars(const Ty& t) { vector<string> o; for (auto& x : env) if (x.second.t == t && (x.first[0] != '_' || std::count(scope.begin(), scope.end(), x.first))) o.push_back(x.first); return o; }
  string fname(const Ty& t) { return t.k == '1' ? "G1" : t.k == '2' ? "G2" : t.k == 't' ? "GT" : F[t.f].name; }
  Np flat(unsigned n) { vector<Np> v; for (unsigned i = 0; i < n; i++) v.push_back(c.chance(1, 8) ? gen({}, 1) : num(c.chance(1, 4) ? 0 : c.chance(1, 4) ? Z(-lit()) : lit())); Ty t; t.k = 'l'; return mk('[', t, "", v); }
  Np leaf(const Ty& t) {
    auto v = vars(t); if (!v.empty() && c.chance(2, 3)) return mk('v', t, c.pick(v));
    switch (t.k) {
      case 'i': return num(lit());
      case 'l': { int n = c.u(1, 4); vector<Np> q; for (int i = 0; i < n; i++) q.push_back(c.chance(1, 4) ? leaf(t) : c.chance(1, 5) ? num(-lit()) : num(lit())); return mk('[', t, "", q); }
      case 'f': return mk('c', t, fname(t), {c.chance(1, 4) ? num(-lit()) : num(lit())});
      case 'p': return mk('c', t, fname(t), {c.chance(1, 4) ? num(lit()) : flat(c.u(1, 5))});
      case 'x': return mk('c', t, fname(t), {c.chance(1, 4) ? num(lit()) : flat(c.u(1, F[t.f].r->n()))});
      default: return mk('c', t, fname(t), {num(t.k == 't' ? c.u(0, 1) : 0)});
    }
  }
  Ty anyty(const char* ks) { vector<Ty> o; for (const char* p = ks; *p; p++) { if (*p == 'i' || *p == 'l' || grp(*p)) { Ty t; t.k = *p; if (!grp(*p) || groups) o.push_back(t); } else for (size_t i = 0; i < F.size(); i++) if (F[i].k == *p) { Ty t; t.k = *p; t.f = i; o.push_back(t); } } if (o.empty()) return Ty(); return c.pick(o); }
  bool groups = false;
  Np gen(const Ty& t, int d) {
    if (d <= 0 || !c.chance(4, 5)) return leaf(t);
    int k = c.u(0, 15);
    if (k == 0) return mk('?', t, "", {gen(anyty("iif"), d - 1), gen(t, d - 1), gen(t, d - 1)});
    if (k == 1) { auto v = vars(t); if (!v.empty()) { string s = c.pick(v); if (s[0] != '_') return mk('=', t, s, {gen(t, d - 1)}); } }
    if (k == 2) return mk('-', t, "", {gen(t, d - 1)});
    switch (t.k) {
      case 'i':
        if (k == 3 || k == 4) { Ty u = anyty("iiiifpx12t"); Np a = gen(u, d - 1), b = c.chance(1, 4) ? a : gen(u, d - 1); return mk('r', t, u.k == 'i' ? c.pick({"==", "!=", "<", ">", "<=", ">="}) : c.pick({"==", "!="}), {a, b}); }
        if (k == 5) return mk('^', t, "", {gen(t, d - 1), c.chance(1, 4) ? gen(t, d - 1) : num(c.u(0, 6))});
        if (k == 6) { Ty u = anyty("f"); if (u.k == 'f') return mk('c', t, "M", {gen(u, d - 1)}); return mk('c', t, "M", {gen(t, d - 1)}); }
        if (k == 7) { Ty u; u.k = 'l'; auto v = vars(u); Np a = v.empty() || c.flip() ? flat(c.u(1, 4)) : mk('v', u, c.pick(v)); return mk('@', t, "", {a, num(c.u(0, 3))}); }
        if (k == 8) return mk('c', t, "nextprime", {gen(t, d - 1)});
        if (k == 9 && !F.empty()) { Ty u = anyty("fx12t"); if (u.k == 'i') return leaf(t); Np n = mk('c', t, c.pick({"order", "ord"})); n->c.clear(); n->z = grp(u.k) ? r : F[u.f].r->q; n->s += "(" + fname(u) + ")"; n->k = 'o'; return n; }
        return mk('b', t, c.pick({"+", "-", "*", "/"}), {gen(t, d - 1), gen(t, d - 1)});
      case 'l': { Ty i;
        if (k == 3) return mk('^', t, "", {gen(t, d - 1), num(c.u(1, 4))});
        if (k == 4) return mk('b', t, "/", {gen(t, d - 1), gen(i, d - 1)});
        if (k == 5 || k == 6) { int n = c.u(1, 4); vector<Np> q; for (int j = 0; j < n; j++) q.push_back(gen(c.chance(1, 3) ? t : i, d - 1)); return mk('[', t, "", q); }
        if (k == 7) return mk('b', t, c.pick({"+", "-", "*"}), {gen(i, d - 1), gen(t, d - 1)});
        if (k == 8) return mk('b', t, c.pick({"+", "-", "*"}), {gen(t, d - 1), gen(i, d - 1)});
        return mk('b', t, c.pick({"+", "-", "*"}), {gen(t, d - 1), gen(t, d - 1)}); }
      case 'f': case 'x': {
        if (k == 3 || k == 4) return mk('^', t, "", {gen(t, d - 1), c.chance(1, 3) ? gen(anyty("if"), d - 1) : num(c.flip() ? lit() : Z(-lit()))});
        if (k == 5) return mk('c', t, "inv", {gen(t, d - 1)});
        if (k == 6) { Np s = mk('^', t, "", {gen(t, d - 1), num(2)}); return mk('q', t, "", {s}); }
        if (k == 7) return mk('c', t, fname(t), {t.k == 'f' ? gen(Ty(), d - 1) : flat(c.u(1, F[t.f].r->n()))});
        if (k == 8 && t.k == 'f') { vector<int> q; for (size_t i = 0; i < F.size(); i++) if (F[i].base == t.f) q.push_back(i); if (!q.empty()) { int i = c.pick(q); Ty u; u.k = F[i].k; u.f = i; return mk('@', t, "", {gen(u, d - 1), num(c.u(0, 2))}); } }
        return mk('b', t, c.pick({"+", "-", "*", "/"}), {gen(t, d - 1), gen(t, d - 1)}); }
      case 'p': if (k == 3) return mk('^', t, "", {gen(t, d - 1), num(c.u(0, 4))}); return mk('b', t, c.pick({"+", "-", "*"}), {gen(t, d - 1), gen(t, d - 1)});
      default: {
        if (k >= 3 && k <= 6) { Ty z; z.k = 'f'; z.f = 0; return mk('^', t, "", {gen(t, d - 1), c.flip() ? gen(z, d - 1) : num(c.flip() ? lit() : Z(-lit()))}); }
        if (k == 7) return mk('c', t, "inv", {gen(t, d - 1)});
        if (t.k == 't' && k <= 10) { Ty a, b; a.k = '1'; b.k = '2'; if (sym) { a.k = c.flip() ? '1' : '2'; b.k = c.flip() ? '1' : '2'; } return mk('c', t, "pairing", {gen(a, d - 1), gen(b, d - 1)}); }
        return mk('b', t, c.pick({"+", "-", "*", "/"}), {gen(t, d - 1), gen(t, d - 1)}); }
    }
  }
  // ---------- text
  string sp() { if (c.chance(5, 8)) return ""; switch (c.u(0, easy ? 1 : 4)) { case 0: return " "; case 1: return "\t"; case 2: return "\n"; case 3: return "/* c; * 1 */"; default: return " # note ; )\n"; } }
  string asg() { return easy && c.flip() ? "=" : ":="; }
  static int prec(const Np& n) { switch (n->k) { case '?': return 1; case 'r': return 2; case '=': return 3; case 'b': return n->s == "+" || n->s == "-" ? 4 : 5; case '-': return 6; case '^': case 'q': return 7; default: return 9; } }
  string pr(const Np& n, int min) {
    if (prec(n) < min || (prec(n) < 9 && c.chance(1, 12))) return "(" + sp() + pr(n, 1) + sp() + ")";
    switch (n->k) {
      case 'n': return str(n->z);
      case 'v': return n->s;
      case 'o': return n->s;
      case '[': { string o = "["; for (size_t i = 0; i < n->c.size(); i++) o += (i ? sp() + "," + sp() : sp()) + pr(n->c[i], 1); return o + sp() + "]"; }
      case '=': return n->s + sp() + asg() + sp() + pr(n->c[0], 3);
      case '?': return pr(n->c[0], 2) + sp() + "?" + sp() + pr(n->c[1], 1) + sp() + ":" + sp() + pr(n->c[2], 1);
      case 'r': return pr(n->c[0], 2) + sp() + n->s + sp() + pr(n->c[1], 3);
      case 'b': return pr(n->c[0], prec(n)) + sp() + n->s + sp() + pr(n->c[1], prec(n) + 1);
      case '-': return "-" + sp() + pr(n->c[0], 6);
      case '^': { string a = pr(n->c[0], 8) + sp() + "^" + sp(); return a + pr(n->c[1], n->c[1]->k == '-' && c.flip() ? 6 : 7); }
      case 'q': return "sqrt(" + sp() + pr(n->c[0], 1) + ")" + sp() + "^" + sp() + "2";
      case '@': { const Np& b = n->c[0]; bool m = b->k == 'v' || b->k == 'c'; return (m ? pr(b, 9) : "(" + pr(b, 1) + ")") + sp() + "[" + sp() + pr(n->c[1], 1) + "]"; }
      default: { string o = n->s + sp() + "("; for (size_t i = 0; i < n->c.size(); i++) o += (i ? sp() + "," + sp() : sp()) + pr(n->c[i], 1); return o + sp() + ")"; }
    }
  }
};
// the interpreter's two extra nodes
Val evx(Prog& p, const Np& n) { return p.ev(n); }
Np lower(Prog& p, const Np& n) {   // rewrites o (order) and q (sqrt(e)^2) into plain values for evaluation
  auto m = std::make_shared<N>(*n); for (auto& x : m->c) x = lower(p, x);
  if (m->k == 'o') { m->k = 'n'; return m; }
  if (m->k == 'q') return m->c[0];
  return m;
}
// reading printed values
bool rdt(const string& s, size_t& i, Tree& t) {
  if (i < s.size() && s[i] == '[') {
    i++; t.leaf = false; if (i < s.size() && s[i] == ']') { i++; return true; }
    for (;;) { Tree x; if (!rdt(s, i, x)) return false; t.l.push_back(x); if (i < s.size() && s[i] == ']') { i++; return true; } if (s.compare(i, 2, ", ")) return false; i += 2; }
  }
  size_t j = i; if (j < s.size() && s[j] == '-') j++; size_t k = j; while (k < s.size() && isdigit(s[k])) k++; if (k == j) return false; if (k - j > 1 && s[j] == '0') return false; t.z = Z(s.substr(i, k - i)); i = k; return true;
}
bool matches(Prog& p, const Val& v, const string& line) {
  Tree t; size_t i = 0; if (!rdt(line, i, t) || i != line.size()) return false;
  switch (v.t.k) {
    case 'i': return t.leaf && t.z == v.z;
    case 'f': return t.leaf && t.z == v.v.v;
    case 'l': { MP m; tomp(t, {}, m); return !t.leaf && m == v.m; }
    default: { if (t.leaf) return false; vector<V> q; const RF& R = *p.F[v.t.f].r; const RF& B = v.t.k == 'p' ? R : *R.base; for (auto& x : t.l) { if (!x.leaf || x.z < 0 || x.z >= B.p) return false; q.push_back(B.fromz(x.z)); } return v.t.k == 'p' ? q == v.p : q == v.v.c; }
  }
}
string shown(Prog& p, const Val& v) { switch (v.t.k) { case 'i': return str(v.z); case 'f': case 'x': return vs(v.v); case 'p': return ps(v.p); case 'l': { string o = "poly{"; for (auto& x : v.m) { o += str(x.second) + "*x^("; for (int e : x.first) o += std::to_string(e) + " "; o += ") "; } return o + "}"; } default: return "group element"; } }
struct Out { bool val = true; Val v; string must; string stmt; };
struct PR { const char* l; const char* r; bool sym; };
const PR prs[] = {{"a", "730750818665451621361119245571504901405976559617", true}, {"e", "730750862221594424981965739670091261094297337857", true}, {"i", "2726865189058261010774960798134976187171462721", true}, {"d", "208617601094290618684641029477488665211553761021", false}, {"f", "205523667896953300194895899082072403858390252929", false}, {"g", "503189899097385532598571084778608176410973351", false}};
int fdfile(const string& s) { int fd = memfd_create("prog", 0); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } lseek(fd, 0, SEEK_SET); return fd; }
string runcalc(Case& c, const string& text, bool file, bool easy, int& rc, string& err) {
  string seed = std::to_string(c.u(0, 1000000)), bin = build_path() + "/pbccalc"; int in = fdfile(text), eo = memfd_create("err", 0); int p[2]; if (pipe(p)) fail("pipe"); pid_t k = fork();
  if (!k) {
    setenv("VP_TOOL_SEED", seed.c_str(), 1); setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99", 1); struct rlimit rl = {60, 60}; setrlimit(RLIMIT_CPU, &rl); prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(p[1], 1); dup2(eo, 2); close(p[0]); close(p[1]); string path = "/proc/self/fd/" + std::to_string(in); if (!file) dup2(in, 0); else freopen("/dev/null", "r", stdin);
    vector<char*> v{(char*)bin.c_str()}; if (easy) v.push_back((char*)"-y"); if (file) v.push_back((char*)path.c_str()); v.push_back(nullptr); execv(v[0], v.data()); _exit(127);
  }
  close(p[1]); string o; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, n); close(p[0]); int st; waitpid(k, &st, 0); rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  lseek(eo, 0, SEEK_SET); while ((n = read(eo, b, sizeof b)) > 0 && err.size() < 3000) err.append(b, n); close(eo); close(in); return o;
}
}
CHECK("C23", programs, 2600, 150000, 20, "the program printed at least three values") {
  Prog P(c); int mode = c.u(0, 3); bool file = mode < 2, easy = P.easy = mode == 3; vector<Out> out; string text; int rc_want = 0; bool fatal = false, synerr = false;
  const PR& pr = prs[c.chance(1, 6) ? (c.chance(1, 4) ? c.u(1, 5) : c.u(1, 2)) : 0]; P.r = Z(pr.r); P.sym = pr.sym;
  auto sep = [&] { if (easy) return string("\n"); return ";" + string(c.chance(2, 3) ? "\n" : " "); };
  auto emit = [&](const string& s) { text += s + sep(); };
  { FI z; z.name = "Zr"; z.k = 'f'; z.r = rf_prime(P.r); P.F.push_back(z); }
  if (pr.l[0] != 'a' || c.chance(1, 10)) emit(string("init_pairing_") + pr.l + "()");
  int nb = 0, nproc = 0; int steps = c.u(1, 16); c.label(file ? "file" : easy ? "easy mode" : "standard input");
  auto tryst = [&](const Np& n, bool print) {          // evaluate on a copy: outside the domain -> drop
    auto save = P.env; Val v; try { v = P.ev(lower(P, n)); } catch (Bad&) { P.env = save; return false; }
    string s = P.pr(n, 1); if (n->k == '=') print = false; else if (Prog::grp(v.t.k)) { P.env = save; return false; }
    emit(s); if (print) { Out o; o.v = v; o.stmt = s; out.push_back(o); } c.label(string("type ") + v.t.k); return true; };
  auto typed = [&](char k) { Ty t; t.k = k; return t; };
  // every type starts with a variable or two
  for (int i = 0; i < 2; i++) { tryst(P.mk('=', typed('i'), "i" + std::to_string(i), {P.leaf(typed('i'))}), false); }
  tryst(P.mk('=', typed('l'), "l0", {P.leaf(typed('l'))}), false);
  for (int s = 0; s < steps && !fatal; s++) {
    int k = c.u(0, 24);
    if (k == 0 || k == 1) {   // a new field
      int kind = c.u(0, 2); vector<int> pf; for (size_t i = 0; i < P.F.size(); i++) if (P.F[i].k == 'f') pf.push_back(i);
      if (kind == 0 || pf.size() < 2) { Z q; do q = gen_prime(c, c.pick({8u, 20u, 64u, 65u, 160u, 300u})); while (q < 3); FI f; f.name = "F" + std::to_string(P.F.size()); f.k = 'f'; f.r = rf_prime(q); emit(f.name + P.sp() + P.asg() + " zmod(" + str(q) + ")"); P.F.push_back(f); }
      else { int b = pf[c.u(1, pf.size() - 1)]; const RFp R = P.F[b].r; FI f; f.base = b; if (kind == 1) { f.name = "P" + std::to_string(P.F.size()); f.k = 'p'; f.r = R; emit(f.name + P.asg() + " poly(" + P.F[b].name + ")"); P.F.push_back(f); }
        else { if (mpz_sizeinbase(mp(R->q), 2) > 170) continue; ::P m = prand_irred(*R, c.u(2, 3), c); f.name = "K" + std::to_string(P.F.size()); f.k = 'x'; vector<V> low(m.begin(), m.end() - 1); f.r = rf_ext(R, low); string l = "["; for (size_t i = 0; i < m.size(); i++) l += (i ? "," : "") + str(m[i].v); l += "]";
          if (c.flip()) emit(f.name + P.asg() + " extend(" + P.F[b].name + ", " + l + ")"); else { int pp = -1; for (size_t i = 0; i < P.F.size(); i++) if (P.F[i].k == 'p' && P.F[i].base == b) pp = i; if (pp < 0) emit(f.name + P.asg() + "polymod((poly(" + P.F[b].name + "))(" + l + "))"); else emit(f.name + P.asg() + "polymod(" + P.F[pp].name + "(" + l + "))"); } P.F.push_back(f); } }
      int fi = P.F.size() - 1; Ty t; t.k = P.F[fi].k; t.f = fi; for (int i = 0; i < 2; i++) tryst(P.mk('=', t, string(1, t.k) + std::to_string(fi) + "_" + std::to_string(i), {P.leaf(t)}), false);
    } else if (k == 2 && !P.groups) {   // bases of the groups
      P.groups = true; for (const char* g : {"G1", "G2", "GT"}) { int m = c.u(1, 2); for (int i = 0; i < m; i++) { string n = string("g") + g + std::to_string(i); emit(n + P.asg() + c.pick({"rnd(", "random("}) + g + ")"); Val v; v.t.k = g[1] == 'T' ? 't' : g[1]; v.e[n] = 1; P.env[n] = v; } }
      Ty t; t.k = 'f'; tryst(P.mk('=', t, "z0", {P.leaf(t)}), false); c.label("groups");
    } else if (k == 3 && !easy) {       // a procedure
      Proc q; q.name = "fn" + std::to_string(nproc); int np = c.u(0, 2); for (int i = 0; i < np; i++) q.parm.push_back("_p" + std::to_string(nproc) + "_" + std::to_string(i)); nproc++;
      auto save = P.env; for (auto& x : q.parm) { P.env[x] = Prog::I(1); } P.scope = q.parm; int nb2 = c.u(0, 3); string body; for (int i = 0; i < nb2; i++) { Ty t = P.anyty("iiilfpx"); auto v = P.vars(t); v.erase(std::remove_if(v.begin(), v.end(), [](const string& s) { return s[0] == '_'; }), v.end()); if (v.empty()) continue; Np e = c.chance(1, 5) ? P.gen(t, 2) : P.mk('=', t, c.pick(v), {P.gen(t, 3)}); q.body.push_back(e); body += P.pr(e, 1) + P.sp() + ";" + P.sp(); }
      P.scope.clear(); P.env = save; text += "define" + string(" ") + q.name + P.sp() + "("; for (size_t i = 0; i < q.parm.size(); i++) text += (i ? "," + P.sp() : P.sp()) + q.parm[i]; text += ")" + P.sp() + "{" + P.sp() + body + "}\n"; P.procs[q.name] = q; Out o; o.val = false; o.must = q.name; o.stmt = "define " + q.name; out.push_back(o); c.label("procedure");
    } else if ((k == 4 || k == 5) && !P.procs.empty()) {   // call one
      auto it = P.procs.begin(); std::advance(it, c.u(0, P.procs.size() - 1)); Proc& q = it->second; vector<Np> a; for (size_t i = 0; i < q.parm.size(); i++) a.push_back(P.gen(Ty(), 2)); auto save = P.env;
      try { for (size_t i = 0; i < a.size(); i++) { Val v = P.ev(lower(P, a[i])); P.env[q.parm[i]] = v; } for (auto& b : q.body) P.ev(lower(P, b)); string s = q.name + P.sp() + "("; for (size_t i = 0; i < a.size(); i++) s += (i ? "," + P.sp() : P.sp()) + P.pr(a[i], 1); emit(s + ")"); c.label("call"); } catch (Bad&) { P.env = save; }
    } else if (k == 6) {                // type()
      auto v = P.vars(Ty()); string s = c.pick(v); Out a; a.val = false; a.must = "=element"; Out b; b.v = P.env[s]; a.stmt = b.stmt = "type(" + s + ")"; emit("type(" + s + ")"); out.push_back(a); out.push_back(b);
    } else if (k == 7) {                // errors: one line, nothing changes
      static const vector<std::pair<string, string>> es = {{"nosuch", "nosuch"}, {"order()", "order"}, {"order(3)", "order"}, {"nextprime(1,2)", "nextprime"}, {"pairing(G1(0))", "pairing"}, {"extend(Zr)", "extend"}, {"zmod(G1)", "zmod"}, {"M := 3", "M"}, {"order := 3", "order"}, {"sqrt(GT)", "sqrt"}, {"[1, nosuch, 3]", "nosuch"}, {"nosuch ? 1 : 2", "nosuch"}, {"poly(7)", "poly"}, {"inv(M)", "inv"}, {"-Zr", "neg"}, {"1 + Zr", "add"}, {"Zr * 2", "mul"}, {"2 ^ M", "pow"}};
      std::pair<string, string> e = es[c.u(0, es.size() - 1)]; string again;
      switch (c.u(0, 5)) {
        case 0: { string n = "un" + string(c.pick({20u, 60u, 79u, 80u, 81u, 200u, 1000u}), c.pick({'a', 'Z', '_'})); e = {n, n.substr(0, 20)}; c.label("long name"); break; }
        case 1: { auto v = P.vars(Ty()); if (v.empty()) break; again = c.pick(v); e = {again + P.asg() + c.pick({"nosuch", "1 + Zr", "order()", "[1, nosuch]"}), ""}; c.label("failed assignment"); break; }
        case 2: { if (P.procs.empty()) break; auto it = P.procs.begin(); std::advance(it, c.u(0, P.procs.size() - 1)); Proc& q = it->second; int np = q.parm.size(); string l;
          if (np && c.flip()) { int bad = c.u(0, np - 1); if (bad) break; for (int i = 0; i < np; i++) l += (i ? "," : "") + string(i == bad ? "nosuch" : "3"); e = {q.name + "(" + l + ")", "nosuch"}; }
          else { int n; do n = c.u(0, 4); while (n == np); for (int i = 0; i < n; i++) l += (i ? "," : "") + string("3"); e = {q.name + "(" + l + ")", q.name}; }
          auto v = P.vars(Ty()); if (!v.empty()) again = c.pick(v); c.label("failed call"); break; }
      }
      emit(e.first); Out o; o.val = false; o.must = e.second; o.stmt = e.first; out.push_back(o); c.label("error");
      if (!again.empty()) { Out b; b.v = P.env[again]; b.stmt = again; emit(again); out.push_back(b); }
    } else if (k == 8 && c.chance(1, 2)) { Np n = P.mk('c', Ty(), "CHECK", {P.gen(P.anyty("iif"), 2)}); n->t = n->c[0]->t; tryst(n, true);
    } else if (k == 9 && !file && !easy) { text += c.pick({"1 + ;\n", "1 * ;\n", "(3 ;\n", "? ;\n"}); synerr = true; c.label("syntax error");
    } else if (k == 10 && s == steps - 1) {   // the program ends early
      if (c.flip()) { int n = c.u(0, 97); emit("exit(" + std::to_string(n) + ")"); rc_want = n; } else { emit(c.pick({"CHECK(0)", "CHECK(1 == 2)", "CHECK(Zr(0))"})); rc_want = -1; }
      text += "12345" + sep(); fatal = true; c.label("early exit");
    } else {
      Ty t = P.anyty(c.chance(1, 3) ? "12t" : "iillfpx"); Np n; auto v = P.vars(t);
      if (c.chance(1, 3)) { string s = !v.empty() && c.flip() ? c.pick(v) : string(1, t.k == '1' ? 'a' : t.k == '2' ? 'b' : t.k) + std::to_string(t.f) + "n" + std::to_string(c.u(0, 2)); n = P.mk('=', t, s, {P.gen(t, 4)}); }
      else { n = P.gen(t, 4); if (Prog::grp(t.k)) n = P.mk('r', Ty(), c.pick({"==", "!="}), {n, c.flip() ? n : P.gen(t, 4)}); }
      tryst(n, true); nb++;
    }
  }
  if (!fatal) for (auto& x : P.env) if (!Prog::grp(x.second.t.k) && x.first[0] != '_') { emit(x.first); Out o; o.v = x.second; o.stmt = x.first; out.push_back(o); }   // nothing else changed
  if (text.empty()) discard();
  if (text.back() == ' ' || c.chance(1, 3)) { while (!text.empty() && isspace((unsigned char)text.back())) text.pop_back(); c.label("no final newline"); if (easy) text += "\n"; }
  c.d << (file ? "file" : easy ? "easy" : "stdin") << " <<<" << text << ">>>"; if (out.size() >= 3) c.nontrivial(); { size_t m = 0, l = 0; for (char ch : text) if (ch == '\n') l = 0; else m = std::max(m, ++l); if (m > 1023) c.label("long line"); }
  int rc; string err, got = runcalc(c, text, file, easy, rc, err);
  if (rc_want >= 0 ? rc != rc_want : rc == 0 || rc == 99 || rc > 255) fail("exit status " + std::to_string(rc) + ", expected " + (rc_want >= 0 ? std::to_string(rc_want) : "a failure") + "\n" + err.substr(0, 1500));
  if (err.size() && !synerr && rc_want == 0) fail("unexpected message: " + err.substr(0, 500));
  vector<string> ln; { std::istringstream is(got); string l; while (std::getline(is, l)) { while (easy && !l.compare(0, 2, "> ")) l.erase(0, 2); ln.push_back(l); } }
  while (!file && !ln.empty() && ln.back().empty()) ln.pop_back(); if (easy) ln.erase(std::remove(ln.begin(), ln.end(), string()), ln.end());
  for (size_t i = 0; i < out.size(); i++) {
    if (i >= ln.size()) fail("statement " + out[i].stmt + " printed nothing");
    if (out[i].val) { if (!matches(P, out[i].v, ln[i])) fail("statement " + out[i].stmt + " printed " + ln[i] + ", expected " + shown(P, out[i].v)); }
    else if (out[i].must[0] == '=' ? ln[i] != out[i].must.substr(1) : ln[i].find(out[i].must) == string::npos) fail("statement " + out[i].stmt + " printed " + ln[i]);
  }
  if (ln.size() > out.size()) fail("printed a line too many: " + ln[out.size()]);
}
