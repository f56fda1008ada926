#pragma once
#include "fields.h"
struct T3 { field_t f3, f32, f33, f36; RFp r3, r32, r33, r36; unsigned m, t;
  T3(unsigned m_, unsigned t_) : m(m_), t(t_) {
    field_init_gf3m(f3, m, t); field_init_gf32m(f32, f3); field_init_gf33m(f33, f3); field_init_gf33m(f36, f32);
    RFp b = rf_prime(3); vector<V> mod(m, V(Z(0))); mod[0] = V(Z(2)); mod[t] = V(Z(1)); r3 = rf_ext(b, mod);
    r32 = rf_ext(r3, {r3->one(), r3->zero()});
    auto cub = [](RFp k) { return rf_ext(k, {k->neg(k->one()), k->neg(k->one()), k->zero()}); };
    r33 = cub(r3); r36 = cub(r32);
  }
  ~T3() { field_clear(f36); field_clear(f33); field_clear(f32); field_clear(f3); }
};
void gen_mt(Case& c, unsigned& m, unsigned& t);
V get3(element_ptr e, const RF& k);
void put3(element_ptr e, const RF& k, const V& v);
V gen3(Case& c, const RF& k);
