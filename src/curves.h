#pragma once
#include "fields.h"
// A library curve group with its reference model.
struct Cv {
  Fldp K; field_t f; RC R; Z N, order, cofac; string desc; bool live = false; bool hash_ok = false;
  ~Cv() { if (live) field_clear(f); }
};
typedef std::shared_ptr<Cv> Cvp;
Cvp gen_curve(Case& c, int kind = -1);   // kinds: 0 tiny prime, 1 tiny ext, 2 ss j=1728, 3 ss j=0, 4 any big, 5 any ext, 6 ordinary of known order
Pt getpt(element_ptr e, const Fld& K);
void putpt(Case& c, element_ptr e, const Cv& C, const Pt& p);
Pt gen_pt(Case& c, const Cv& C);         // any point of E(K), edge-biased
Pt rand_pt(Case& c, const RC& R);
Z count_points(const RC& R);             // brute force, small fields
vector<V> all_elements(const RF& k);
