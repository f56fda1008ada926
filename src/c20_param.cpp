#include "structs.h"
#include "alloc.h"
// C20: parameter text.
typedef std::map<string, string> KV;
// The words of the text: separated by blanks, '#' at the start of a word begins a comment.
static vector<string> words(const string& t) {
  vector<string> w; size_t i = 0;
  while (i < t.size() && t[i]) {
    if (strchr(" \t\r\n", t[i])) { i++; continue; }
    if (t[i] == '#') { while (i < t.size() && t[i] && t[i] != '\n') i++; continue; }
    size_t j = i; while (j < t.size() && t[j] && !strchr(" \t\r\n", t[j])) j++;
    w.push_back(t.substr(i, j - i)); i = j;
  }
  return w;
}
static KV table(const string& t) { KV m; auto w = words(t); for (size_t i = 0; i + 1 < w.size(); i += 2) m[w[i]] = w[i + 1]; return m; }
static vector<string> required(const KV& m) {
  auto ty = m.find("type"); vector<string> r; string t = ty == m.end() ? "" : ty->second;
  auto add = [&](const char* s) { std::istringstream in(s); string k; while (in >> k) r.push_back(k); };
  if (t == "a") add("q h r exp2 exp1 sign1 sign0");
  else if (t == "a1") add("p n l");
  else if (t == "d") { add("q n h r a b k nk hk nqr"); auto k = m.find("k"); Z z; if (k != m.end() && !mpz_set_str(mp(z), k->second.c_str(), 0)) for (int i = 0; i < z.get_si() / 2; i++) r.push_back("coeff" + std::to_string(i)); }
  else if (t == "e") add("q r h a b exp2 exp1 sign1 sign0");
  else if (t == "f") add("q r b beta alpha0 alpha1");
  else if (t == "g") add("q n h r a b nk hk coeff0 coeff1 coeff2 coeff3 coeff4 nqr");
  else if (t == "i") add("m t n n2");
  return r;
}
// what reading the text must give: false, or the written parameters
static bool model(const string& text, std::map<string, Z>& out, string& type) {
  KV m = table(text); auto r = required(m); if (r.empty()) return false;
  type = m["type"]; out.clear();
  for (auto& k : r) { if (!m.count(k)) return false; Z z; if (mpz_set_str(mp(z), m[k].c_str(), 0)) return false; out[k] = z; }
  if (type == "d" && out["k"] < 0) return false;
  return true;
}
static string blanks(Case& c, bool line) {
  string s; int n = c.u(1, 3);
  for (int i = 0; i < n; i++) s += c.pick<const char*>({" ", "\n", "\t", "\r\n", "  ", " \t "});
  if (line || c.chance(1, 8)) if (c.chance(1, 3)) s += string("#") + c.pick<const char*>({"", " comment", "#", " q 5 # type a", "type i", "\tr 1 ", " -- '%s' \"x\""}) + "\n" + (c.flip() ? " " : "");
  return s;
}
static const char* NOISE[] = {"Q", "q2", "qq", "types", "typ", "coeff", "coeff00", "coeff99", "comment", "x", "exp", "sign", "r_", "nqr2", "0", "N"};
static string layout(Case& c, vector<std::pair<string, string>> kv, bool noise) {
  for (size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[c.chance(1, 3) ? i - 1 : c.u(0, i - 1)]);
  string t = c.chance(1, 3) ? blanks(c, true) : "";
  std::set<string> known; for (auto& p : kv) known.insert(p.first);
  for (auto& p : kv) {
    if (noise) while (c.chance(1, 6)) { string k = NOISE[c.u(0, 15)]; if (known.count(k)) continue; t += k + blanks(c, false) + c.pick<const char*>({"1", "abc", "-", "99999999999999999999999999999999999999999999999999999999999", "type", "q"}) + blanks(c, true); c.label("unknown keys"); }
    t += p.first + blanks(c, false) + p.second + blanks(c, true);
  }
  return t;
}
struct Par { pbc_param_t p; bool live = false; ~Par() { if (live) pbc_param_clear(p); } };
static string written(pbc_param_ptr p) { return capture_file([&](FILE* f) { pbc_param_out_str(f, p); }); }
static string behaviour(Case& c, const string& text, uint64_t seed) {
  c.rngstate = seed ^ 0x5555; pairing_t p; REQ(!pairing_init_set_buf(p, text.data(), text.size()), "pairing rejects text its parameters were read from");
  struct Cl { pairing_ptr p; ~Cl() { pairing_clear(p); } } cl{p};
  E a(p->G1), b(p->G2), t(p->GT); c.rngstate = seed; element_random(a); element_random(b);
  element_pairing(t, a, b); E z(p->Zr); element_from_hash(z, (void*)"abc", 3); element_pow_zn(t, t, z);
  Z r; mpz_set(mp(r), p->r);
  return show(a) + show(b) + show(t) + show(z) + str(r);
}
CHECK("C20", relayout, 6000, 400000, 50, "keys are reordered or separated by unusual blanks, comments or unknown keys") {
  c.seed_lib(); pbc_set_msg_to_stderr(0);
  auto& all = param_files(); const ParamFile& f = all[c.u(0, all.size() - 1)];
  c.label(string("family ") + f.fam); c.d << f.name;
  std::map<string, Z> want; string ty; if (!model(f.text, want, ty)) fail("harness: bundled text unreadable");
  vector<std::pair<string, string>> kv = {{"type", ty}}; for (auto& p : want) kv.push_back({p.first, str(p.second)});
  string t = layout(c, kv, true);
  if (c.chance(1, 4)) { kv.push_back(kv[c.u(0, kv.size() - 1)]); t = layout(c, kv, true); c.label("repeated key"); }
  int how = c.u(0, 3); string tail;
  if (c.chance(1, 3)) tail = c.pick<const char*>({"dangling", "#end", "#", "</a>", "junk junk2", "odd one out", "\t#x\n#y"});
  if (how == 1) { t += tail; tail.clear(); }
  c.d << " " << hex(t);
  string w1; {
    AllocTrack A; { Par p;
    if (how <= 1) { char* b = strdup(t.c_str()); int rc = pbc_param_init_set_str(p.p, b); free(b); REQ(!rc, "text rejected"); }
    else { string all = t + (how == 2 ? "" : "type zz q 1 r 1 p 1 n 1 " + tail); char* b = (char*)malloc(how == 2 ? t.size() : all.size()); memcpy(b, all.data(), how == 2 ? t.size() : all.size()); int rc = pbc_param_init_set_buf(p.p, b, t.size()); free(b); REQ(!rc, "bounded text rejected"); c.label(how == 2 ? "bounded, unterminated" : "bounded, data follows"); }
    p.live = true; w1 = written(p.p); REQ(written(p.p) == w1, "writing twice differs"); }
    A.balanced("after clearing the parameters");
  }
  string ty2; auto got = parse_params(w1, &ty2);
  REQ(ty2 == ty, "type " << ty << " became " << ty2);
  REQ(got == want, "written text differs from the text read: " << w1);
  { Par q; REQ(!pbc_param_init_set_str(q.p, w1.c_str()), "written text rejected"); q.live = true; REQ(written(q.p) == w1, "text changes when read and written again"); }
  if (f.qbits <= 90 ? c.chance(1, 4) : c.chance(1, 150)) {
    uint64_t sd = c.u(0, 1000000); string b0 = behaviour(c, f.text, sd); REQ(behaviour(c, t, sd) == b0 && behaviour(c, w1, sd) == b0, "pairings from the same parameters behave differently"); c.label("pairing compared");
  }
  c.nontrivial();
}
CHECK("C20", malformed, 20000, 1500000, 200, "the text lacks a required key, has a bad value, or is cut") {
  pbc_set_msg_to_stderr(0);
  auto& all = param_files(); const ParamFile& f = all[c.u(0, all.size() - 1)];
  std::map<string, Z> want; string ty; if (!model(f.text, want, ty)) fail("harness: bundled text unreadable");
  vector<std::pair<string, string>> kv = {{"type", ty}}; for (auto& p : want) kv.push_back({p.first, str(p.second)});
  string t; int mut = c.u(0, 9);
  size_t cut = string::npos;
  static const char* BAD[] = {"abc", "-", "12x", "0x", "++1", "1.5", "q", "12,", "\"5\"", "0b2", "--3", "1e5"};
  static const char* TYPES[] = {"", "b", "A", "aa", "a11", "c", "dd", "z", "type", "a1a", "1", "I", "h"};
  auto& pr = kv[c.u(0, kv.size() - 1)];
  switch (mut) {
    case 0: pr.first = c.pick<const char*>({"x", "Type", "qq", "R"}); break;   // key missing
    case 1: for (size_t i = kv.size(); i-- > 0;) if (c.flip()) kv.erase(kv.begin() + i); break;
    case 2: pr.second = BAD[c.u(0, 11)]; break;
    case 3: kv[0].second = TYPES[c.u(0, 12)]; break;
    case 4: kv[0].second = c.pick<const char*>({"a", "a1", "d", "e", "f", "g", "i"}); break;   // another family
    case 5: pr.second = ""; break;    // shifts the pairing of words
    case 6: pr.first = ""; break;
    case 7: for (auto& p : kv) if (p.first == "k") p.second = c.pick<const char*>({"0", "2", "4", "10", "-2", "-6", "12", "240", "-2147483648"}); break;
    case 8: pr.second = c.pick<const char*>({"0", "-1", "0x1f", "1"}); if (pr.first == "k") pr.second = "-4"; break;
    default: break;
  }
  if (mut == 7 && c.flip()) for (int i = 0; i < 130; i++) { string k = "coeff" + std::to_string(i); if (!want.count(k)) kv.push_back({k, std::to_string(i)}); }
  t = c.flip() ? layout(c, kv, c.flip()) : [&] { string s; for (auto& p : kv) s += p.first + " " + p.second + "\n"; return s; }();
  if (mut == 9 || c.chance(1, 5)) cut = c.u(c.flip() ? 1 : t.size() - std::min<size_t>(t.size(), 40), t.size() - 1);
  if (c.chance(1, 12)) { t = c.bytes(c.u(0, 60)); for (auto& ch : t) if (strchr("</>#", ch) || !ch) ch = ' '; cut = string::npos; c.label("random bytes"); }
  if (cut == 0) cut = 1;
  string seen = cut == string::npos ? t : t.substr(0, cut);
  if (seen.empty()) discard();
  // a number cut short changes the embedding degree: keep it small
  { KV m = table(seen); if (m["type"] == "d" && m.count("k")) { Z z; if (!mpz_set_str(mp(z), m["k"].c_str(), 0) && z > 300) discard(); } for (auto& p : m) if (p.second.find_first_of("</>") != string::npos) discard(); }
  std::map<string, Z> exp; string ety; bool ok = model(seen, exp, ety);
  c.d << hex(seen); int how = c.u(0, 2);
  AllocTrack A; { Par p; int rc; size_t g0 = A.gmp_live();
    if (cut == string::npos && how == 0) { char* b = strdup(t.c_str()); rc = pbc_param_init_set_str(p.p, b); free(b); }
    else if (how == 1) { rc = pbc_param_init_set_buf(p.p, t.c_str(), seen.size()); }
    else { char* b = (char*)malloc(seen.size()); memcpy(b, seen.data(), seen.size()); rc = pbc_param_init_set_buf(p.p, b, seen.size()); free(b); }
    if (!rc) p.live = true;
    REQ((rc == 0) == ok, "reading returned " << rc << ", expected " << (ok ? "success" : "an error"));
    if (!ok) A.balanced("after an error", 0, g0);
    if (ok) { string w = written(p.p), ty2; auto got = parse_params(w, &ty2); REQ(ty2 == ety && got == exp, "read back as " << w); c.label("accepted"); } else { c.label("rejected"); c.nontrivial(); } }
  A.balanced("after clearing");
  if (!ok) { pairing_t q; int rc = pairing_init_set_buf(q, seen.data(), seen.size()); REQ(rc != 0, "pairing accepts rejected parameters"); A.balanced("after a rejected pairing"); }
}
