#pragma once
#include "curves.h"
// A pairing of the library with an independent model of its groups (families
// A, A1, D, E, F, G) and of its value.  Family I has no point model here.
struct Pg {
  string name, text; char fam = 0;   // 'a' '1' 'd' 'e' 'f' 'g' 'i'
  std::map<string, Z> prm; pairing_t p; bool live = false;
  Fldp Fq, Fqd, Fqk;                 // models only
  RC E1, E2; Z r, h1, h2, q;         // h: cofactors killing everything outside the r-part
  Z finalexp; bool symmetric = false, prime_r = true; vector<Z> rfac;  // known prime factors of r
  field_ptr lfq = nullptr, lfqd = nullptr;  // coordinate fields of the library
  ~Pg() { if (live) pairing_clear(p); }
  bool model() const { return fam != 'i'; }
  V up(const V& x) const;            // Fq -> Fqk
  Pt up2(const Pt& Q) const;         // E2 -> E over Fqk
  // composite group orders: the evaluation chain of P meets no identity or
  // multiple +-P before its end (always true for large prime factors)
  bool chain_ok(const Pt& P) const;
  void need_chain(element_ptr e) const { if (fam == '1' && !chain_ok(getpt(e, *Fq))) discard(); }
  bool tate(Case& c, const Pt& P, const Pt& Q, V& out) const;  // false: degenerate for every choice
};
typedef std::shared_ptr<Pg> Pgp;
struct ParamFile { string name, text; char fam; unsigned qbits; };
const vector<ParamFile>& param_files();
std::map<string, Z> parse_params(const string& text, string* type = nullptr);
// fams: letters allowed ("" = all); maxbits: largest base field
Pgp load_pairing(Case& c, const string& fams = "", unsigned maxbits = 2000);
Pgp make_pairing(Case& c, const ParamFile& f);
// point of the model: in the order-r group (g=1), in G2 for asymmetric
// families any point of the twist (g=2)
Pt gen_g1(Case& c, const Pg& G);
Pt gen_g2(Case& c, const Pg& G);
void put1(Case& c, const Pg& G, element_ptr e, const Pt& P);
void put2(Case& c, const Pg& G, element_ptr e, const Pt& P);
inline Pt get1(const Pg& G, element_ptr e) { return getpt(e, *G.Fq); }
inline Pt get2(const Pg& G, element_ptr e) { return getpt(e, *G.Fqd); }
// an element of G1/G2 through the library (works for family I too)
void gen_elt(Case& c, const Pg& G, int which, element_ptr e);
string gkey(element_ptr e);   // canonical text of any group element
