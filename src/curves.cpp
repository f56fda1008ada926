#include "curves.h"
vector<V> all_elements(const RF& k) {
  vector<V> all;
  if (!k.base) { for (Z i = 0; i < k.p; i++) all.push_back(V(i)); return all; }
  vector<V> b = all_elements(*k.base);
  all.push_back(V());
  for (size_t i = 0; i < k.n(); i++) { vector<V> nx; for (auto& x : all) for (auto& y : b) { V z = x; z.c.push_back(y); nx.push_back(z); } all.swap(nx); }
  return all;
}
Z count_points(const RC& R) {
  std::map<V, int> sq; auto all = all_elements(*R.k);
  for (auto& x : all) sq[R.k->mul(x, x)]++;
  long n = 1;
  for (auto& x : all) { auto it = sq.find(R.k->add(R.k->mul(R.k->add(R.k->mul(x, x), R.a), x), R.b)); if (it != sq.end()) n += it->second; }
  return Z(n);
}
static bool singular(const RC& R) {
  const RF& k = *R.k;
  V d = k.add(k.muli(k.mul(R.a, k.mul(R.a, R.a)), 4), k.muli(k.mul(R.b, R.b), 27));
  return k.is0(d);
}
static Z big_factor(Z n) { Z r = 1; for (Z d = 2; d * d <= n; d++) while (n % d == 0) { r = d; n /= d; } return n > 1 ? n : r; }
// Ordinary curves over large prime fields with a known number of points r*h
// (complex multiplication by small discriminants): p, a, b, r, h.
static const struct { const char *p, *a, *b, *r; unsigned h; } cm_table[] = {
    {"2bd2f2140fb1", "1b46cf3b53c8", "1ae242d9ce9f", "2bd2f1c7a85f", 1},
    {"17c17d4f60089a29", "164216c92c7e3498", "fd10497c3ea91c1", "17c17d4f4d347f2b", 1},
    {"20f8232757d40bdf", "19275cfad2392bb3", "8e63bc69631de53", "20f82328032fbd2b", 1},
    {"425932cde189", "1ed7e919379b", "0", "212c99821d09", 2},
    {"d4a48091e52c3a71", "accebd2bdbbe151d", "0", "6a524048094523c5", 2},
    {"1122abc0eee72e28d", "10039ac3ee8f7ff1a", "0", "89155e08721f64d5", 2},
    {"d04e3de3b739", "0", "367f19e43b31", "456f696d3cc3", 3},
    {"8afa903c96d3a077", "20f71888699a0ab6", "24017c6921134245", "2e538569f454b7d1", 3},
    {"c8ad2e99db3480a1", "0", "4f89f27ba8ad5c2f", "42e464de7af17ed5", 3},
    {"79238e51b6df", "e99a19763d0", "25df2ce71e97", "1e48e33e0f37", 4},
    {"cdc1041bccdb775", "8a20938a921ef21", "881e282e19feb08", "33704108b77634f", 4},
    {"1938a70ab3ffa6fd331e8c8191", "0", "113550f395d46a5afb458db1c1", "64e29c2acffe76811834f981d", 4},
    {"2dbe9a2818d1", "1a139224c425", "0", "4930f56ae7d", 10},
    {"5d42ecbaaba5", "2a6aab68100f", "0", "9537e26ba31", 10},
    {"6ff5eeaf55e3", "3e07775e4eec", "27a1ba56b82c", "a2da17098f1", 11},
    {"af9bb253119b", "0", "1310dd04aa14", "ea24eda3e9d", 12},
    {"5a6fc1373a374023", "0", "4ba82a6d72ae2c34", "789501a08df140d", 12},
    {"783329b1a4ad2909", "27cb11c01309e33e", "1659678a0571f926", "a04437984138d4b", 12},
    {"ccc76cd5983649fd9b9a97c68f79077a9f264161", "9de990e5421462ab698d1a5488872ad94ed11672", "37df249ef407d55dd3a73b99fc66329cde053188", "ccc76cd5983649fd9b98d9674bfa5b13194256b", 16},
    {"b525674c9a83da4d", "4247c0620640e198", "cbe520b49f7708a", "aa7d8e67c287861", 17},
    {"94ca4e870a441bafd9cebd7e8de822dac15cc4b", "7ab3271467b0044cf035d53ff041d19c2932237", "5dc1a9f2a94c585e911ccb350486901efb4e6e9", "84420ce9d03c8a636c40b03eaee51fbd7234e1", 18},
    {"6ea69202e13f", "0", "59d4cb9dbad5", "5d2df3bec21", 19},
    {"70c7ee85b853", "4e4989a72ed5", "34ac72f3e2eb", "5a398bbefd5", 20},
    {"772769e4ccc5", "15b6a93507dd", "36e1b2a91357", "52e3c4a807b", 23},
    {"81545a2742c4cf3d", "2c1cf41c4ab0d50", "80d9b5345291fcd5", "59f7e5abf60da85", 23},
    {"64f942cbc871", "5f87c0d10860", "1a428dff8dce", "409f87b4ded", 25},
    {"3b879fc4b9ce3913d10bbca0452d23a5", "2d71415516921d72b8b10337e0964a96", "0", "24a23aef3743d45aaf61f9fa8cb1ce5", 26},
    {"108ad0e7d07f9", "0", "f3a4d5675c9b", "973e50b2f2b", 28},
    {"16540ae48b15d", "0", "b0d667b6e007", "cc24f5f0c4d", 28},
    {"d8d6a1f631ed", "0", "a66a16a66d07", "6feaa71c403", 31},
    {"526eb6ba805d", "0", "15e10b3725bc", "24a2fc562ab", 36},
    {"14b0968a651e0d9", "0", "662959c7ba70eb", "6e58783e2ceaf", 48},
    {"11daec4bb81ad", "0", "f3ade24fff1b", "5d48bcf6749", 49},
    {"73ebd8c7ecf5549d", "3cabf5100bd73ce6", "3fa21962c34fba62", "25da128ab90f3ff", 49},
    {"7996a0e279821d09", "0", "1fba87f7ca522f4a", "22214c99a2dbccb", 57},
    {"6443d1284791", "54210936557e", "0", "1ba8c6a9f55", 58},
    {"1cbf452983a27201", "130133ccd793dc0b", "404c50eedc382d9", "7cbbbf9f888535", 59},
    {"23fd4c87cc13ff87", "10bdcea80f865bcb", "95cdffe960cfeaa", "8ff53221106e1d", 64},
    {"62105daaa8f6bab", "42c29b9c52ea2cc", "7eaaf90ac72022", "14607ddb489aad", 77},
    {"c079789b2ede209e4ccf0c542fb475", "2ad91a08fbb00c2ff1b69af66a3451", "0", "258e55f8d0f3259a9527d5f68619d", 82},
    {"daf18106c893", "16834c12ca9e", "1fcca4ca8521", "2307ebf24c7", 100},
    {"4336c0bbde8c1b78b08fe355216718e3", "eec7f476f8c3a5bf3b5befd65c1fc98", "3bc97c6153a7b2822eefeb755a684088", "a8b193691573b864c3f72d8ecc3c29", 102},
    {"aa9d2fda9fb1c851305f12241d94f743", "0", "92ee09b5b97f7d13bdee8e4ae93a7094", "1897cf8be8e494cd40d7edc90181943", 111},
    {"11f8632beb7f278d9", "0", "c80db02c3d722603", "2296e1888ccffa5", 133},
    {"509eb4a8d748360b", "77961ea497bf177", "3cc6f8639a93de7b", "98e119e5ce636b", 135},
    {"faed124ab2698499", "26c1cfb39c1fde8", "b5f2c982e3579dc5", "1dbd4854f017573", 135},
    {"1c005e12e171", "0", "184fd52137ba", "31c7c4db2b", 144},
    {"e61d790364a30b9f076eb1c0fdc531d", "35e6b1330681887863fc0ac02a70da5", "168d90e7603b1eab202feafee6a62e0", "14eb681794c9010ed6b207a25a5027", 176},
    {"4366b402fdd53643", "263092a9aa4f64e0", "15d5f87105053ef4", "5fdc05b4cc2df9", 180},
    {"5da545771d03", "3cf821b7da0f", "524a3b80d446", "7913c02091", 198},
    {"2a50ce01b909", "a248cb73bab", "0", "33191fba29", 212},
    {"1329a446f4271", "1183bf6343502", "54ddaf2fbf96", "16b617e29a9", 216},
    {"de0661f3e103", "8568c7aecf01", "75f09954ee8b", "fc9d74db11", 225},
    {"1a84ba61e1a03", "0", "12584450f918b", "1af07c2baad", 252},
    {"34bb6bc15b66bf7b", "9473d3ff127c14f", "3395fd3c50fda686", "3116bbd0d2bcc1", 275},
    {"2f8064f0b27e7ae9", "a1c9c31e538676f", "0", "2a393d47119641", 288},
    {"3315f5f54d7f", "9a355066b02", "23c7bdbc70b2", "2d40a0c8d9", 289},
    {"af7ff9fd274511d7cac8f37ca4755a80ece75a9b", "0", "c11b846a5958f1d1bfc72fac35392eefb2560e2", "9165e22a6127d321cb9f8f766ae4b0d0082c15", 309},
    {"2bb1d5671a909405", "150d0887819647b1", "22a6353fe69cc640", "1c3f3ef7210565", 396},
    {"218446fc46e63c27", "0", "fa7245548a60936", "158123eba4b91b", 399},
};
Cvp gen_curve(Case& c, int kind) {
  auto C = std::make_shared<Cv>();
  if (kind < 0) kind = c.pick({0, 0, 1, 2, 2, 3, 4, 4, 5, 6});
  int how = 0;  // 0: ab, 1: b, 2: j
  auto& cm = cm_table[kind == 6 ? c.u(0, sizeof cm_table / sizeof *cm_table - 1) : 0];
  if (kind == 0) {
    static const int ps[] = {5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 59, 61, 101, 103, 127, 251, 257};
    C->K = fld_prime(Z(ps[c.u(0, 18)]), BK_NAIVE);
  } else if (kind == 1) {
    Z p = c.pick({5, 7, 11, 13, 19, 23});
    Fldp B = fld_prime(p, BK_NAIVE);
    int t = c.u(0, 2);
    C->K = t == 0 && p % 4 == 3 ? fld_fi(B) : t == 1 || p > 7 ? fld_quadratic(B) : fld_polymod(B, prand_irred(*B->r, 3, c));
  } else if (kind == 2 || kind == 3) {
    unsigned rb = c.pick({20u, 64u, 100u, 160u}), hb = c.pick({4u, 16u, 60u, 100u});
    Z r = nextprime(c.bits(rb) | (Z(1) << (rb - 1)));
    Z st = kind == 2 ? 4 : 6, h = (c.bits(hb) / st + 1) * st, p;
    do { h += st; p = h * r - 1; } while (!isprime(p));
    C->K = fld_prime(p, legal_backend(p, c.u(0, BK_N - 1)));
    C->N = p + 1; C->order = r; C->cofac = h; C->hash_ok = true;
  } else if (kind == 6) {
    Z p(cm.p, 16); C->K = fld_prime(p, legal_backend(p, c.u(0, BK_N - 1)));
    C->order = Z(cm.r, 16); C->cofac = cm.h; C->N = C->order * cm.h; C->hash_ok = true;
  } else if (kind == 4) { do C->K = gen_prime_field(c, 300); while (C->K->r->p < 5); }
  else C->K = gen_ext_field(c, c.flip() ? 64 : 120, c.u(0, 3) ? 1 : 2, c.u(0, 3) ? 90 : 240);
  const RF& k = *C->K->r;
  if (k.p < 5) discard();
  C->R.k = C->K->r;
  V a, b, j;
  for (int t = 0;; t++) {
    if (t > 100) discard();
    a = k.rnd(c); b = k.rnd(c); how = 0;
    if (kind == 6) { a = k.fromz(Z(cm.a, 16)); b = k.fromz(Z(cm.b, 16)); }
    else if (kind == 2) b = k.zero();
    else if (kind == 3) { a = k.zero(); how = c.u(0, 1); }
    else if (c.chance(1, 6)) { a = k.zero(); how = 1; }
    else if (c.chance(1, 6)) b = k.zero();
    else if (c.chance(1, 6)) {
      j = k.uni(c); V d = k.sub(k.fromz(1728), j);
      if (k.is0(d) || k.is0(j)) continue;
      V q = k.div(j, d); a = k.muli(q, 3); b = k.muli(q, 2); how = 2;
    }
    C->R.a = a; C->R.b = b;
    if (singular(C->R)) continue;
    break;
  }
  if (kind <= 1) {
    C->N = count_points(C->R); C->order = C->N; C->cofac = 0;
    if (C->N == 1) discard();
    if (c.flip()) { Z r = big_factor(C->N); if (C->N % (r * r) != 0) { C->order = r; C->cofac = C->N / r; } }
  } else if (kind == 4 || kind == 5) { C->N = 0; C->order = k.q; C->cofac = 0; C->hash_ok = k.p > (Z(1) << 40); }
  else if (c.chance(1, 3)) { C->order = C->N; C->cofac = 0; }
  E ea(C->K->f), eb(C->K->f); put(ea, *C->K, a); put(eb, *C->K, b);
  Z o = C->order, h = C->cofac; mpz_ptr hp = h == 0 ? nullptr : mp(h);
  if (how == 1) field_init_curve_b(C->f, eb, mp(o), hp);
  else if (how == 2) { E ej(C->K->f); put(ej, *C->K, j); field_init_curve_j(C->f, ej, mp(o), hp); }
  else field_init_curve_ab(C->f, ea, eb, mp(o), hp);
  C->live = true;
  std::ostringstream d; d << "y^2=x^3+" << vs(a) << "x+" << vs(b) << " over " << C->K->desc << " order " << o << " cofactor " << h << (how == 1 ? " (b form)" : how == 2 ? " (j form)" : "");
  C->desc = d.str();
  c.label(kind == 0 ? "small prime field" : kind == 1 ? "small extension" : kind == 2 ? "supersingular j=1728" : kind == 3 ? "supersingular j=0" : kind == 4 ? "large prime field" : kind == 6 ? "ordinary curve with known order" : "large extension");
  return C;
}
Pt getpt(element_ptr e, const Fld& K) {
  Pt p; p.inf = element_is0(e) != 0;
  if (p.inf) return p;
  REQ(element_item_count(e) == 2, "finite point reports " << element_item_count(e) << " coordinates");
  p.x = get(element_item(e, 0), K); p.y = get(element_item(e, 1), K); return p;
}
void putpt(Case& c, element_ptr e, const Cv& C, const Pt& p) {
  if (p.inf) {
    if (c.flip()) element_set0(e);
    else { Pt q = rand_pt(c, C.R); putpt(c, e, C, q); if (c.flip()) element_sub(e, e, e); else { E t(e->field); element_neg(t, e); element_add(e, e, t); } }
    REQ(element_is0(e), "identity not recognised on " << C.desc);
    return;
  }
  E x(C.K->f), y(C.K->f); put(x, *C.K, p.x); put(y, *C.K, p.y);
  string s = enc(x) + enc(y);
  int n = element_from_bytes(e, (unsigned char*)&s[0]);
  REQ(n == (int)s.size(), "from_bytes of a point read " << n << " bytes of " << s.size());
  REQ(getpt(e, *C.K) == p, "decoding the coordinates of " << pts(p) << " gave " << pts(getpt(e, *C.K)) << " on " << C.desc);
}
Pt rand_pt(Case& c, const RC& R) {
  const RF& k = *R.k; Pt p; p.inf = false;
  V x = k.rnd(c);
  for (int t = 0;; t++) {
    V r = k.add(k.mul(k.add(k.mul(x, x), R.a), x), R.b);
    if (k.is_sqr(r)) { p.x = x; p.y = k.sqrt(r, c); if (c.flip()) p.y = k.neg(p.y); return p; }
    if (t > 400) { Pt o; return o; }
    x = k.uni(c);
    if (t > 40) x = k.add(k.mul(x, x), k.fromz(t));
  }
}
Pt gen_pt(Case& c, const Cv& C) {
  const RF& k = *C.R.k;
  int h = c.u(0, 8); Pt p;
  if (h == 0) return p;
  if (h == 1 && k.is0(C.R.b)) { p.inf = false; p.x = p.y = k.zero(); return p; }
  if ((h == 1 || h == 2) && k.q < 1000) { for (auto& x : all_elements(k)) if (k.is0(k.add(k.mul(k.add(k.mul(x, x), C.R.a), x), C.R.b))) { p.inf = false; p.x = x; p.y = k.zero(); if (c.flip()) return p; } if (!p.inf) return p; }
  if (h == 3) { p = rand_pt(c, C.R); return C.R.mul(p, Z((long)c.u(0, 9))); }
  return rand_pt(c, C.R);
}
