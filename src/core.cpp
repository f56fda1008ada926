#include "vp.h"
#include <atomic>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_set>

#include <malloc.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#ifdef VP_ASAN
static const char* g_variant = "asan";
#else
static const char* g_variant = "plain";
#endif
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:malloc_context_size=0:detect_container_overflow=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:"
         "max_malloc_fill_size=4096:malloc_fill_byte=171:handle_segv=1:handle_abort=1:"
         "detect_stack_use_after_return=0:quarantine_size_mb=16:symbolize=1:print_summary=1:intercept_tls_get_addr=0";
}

static const size_t TAPE_MAX = 2000000;
static volatile uint64_t* g_tape_map = nullptr;
static char* g_desc_map = nullptr;
static const size_t DESC_MAX = 65536;
vector<Sub>& subs() { static vector<Sub> v; return v; }
void fail(const string& m) { throw Fail{m}; }

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
Case::Case(uint64_t seed) { uint64_t x = seed; for (auto& v : s) v = splitmix(x); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Case::raw() {
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
uint64_t Case::u(uint64_t lo, uint64_t hi) {
  uint64_t span = hi - lo + 1, v;  // span==0: full range
  if (replay) v = tape.size() < replay->size() ? (*replay)[tape.size()] : 0;
  else v = raw();
  if (span) v %= span;
  tape.push_back(v);
  if (g_tape_map && tape.size() < TAPE_MAX) { g_tape_map[tape.size()] = v; g_tape_map[0] = tape.size(); }
  if (g_desc_map) { string t = d.str(); if (t.size() >= DESC_MAX) t.resize(DESC_MAX - 1); memcpy(g_desc_map, t.c_str(), t.size() + 1); }
  if (tape.size() > 2000000) throw Discard();
  return lo + v;
}
Z Case::bits(unsigned n) {
  Z r = 0;
  while (n > 0) {
    unsigned k = n > 64 ? 64 : n;
    uint64_t v = k == 64 ? u(0, ~0ULL) : u(0, (1ULL << k) - 1);
    r <<= k;
    Z t; mpz_import(t.get_mpz_t(), 1, 1, 8, 0, 0, &v);
    r += t; n -= k;
  }
  return r;
}
Z Case::below(const Z& n) {
  if (n <= 1) return 0;
  unsigned b = mpz_sizeinbase(n.get_mpz_t(), 2);
  if (b <= 63) return Z((unsigned long)u(0, n.get_ui() - 1));
  return bits(b + 32) % n;
}
Z Case::edge(const Z& n) {
  if (n <= 1) return 0;
  unsigned b = mpz_sizeinbase(n.get_mpz_t(), 2);
  Z r;
  switch (u(0, 15)) {
    case 0: r = 0; break;
    case 1: r = 1; break;
    case 2: r = n - 1; break;
    case 3: r = Z((unsigned long)u(0, 16)); break;
    case 4: r = n - 1 - Z((unsigned long)u(0, 16)); break;
    case 5: r = (n - 1) / 2 + Z((unsigned long)u(0, 2)); break;
    case 6: r = Z(1) << u(0, b - 1); break;
    case 7: r = (Z(1) << u(0, b)) - 1; break;
    case 8: {  // limb patterns: each 64-bit limb 0, ~0 or 1 or top bit
      r = 0;
      for (unsigned k = 0; k < (b + 63) / 64; k++) {
        r <<= 64;
        switch (u(0, 4)) {
          case 0: break;
          case 1: r += (Z(1) << 64) - 1; break;
          case 2: r += 1; break;
          case 3: r += Z(1) << 63; break;
          case 4: r += bits(64); break;
        }
      }
      break;
    }
    case 9: r = bits(u(1, b)); break;                         // short value
    case 10: r = (n - 1) - bits(u(1, b)); break;
    case 11: { unsigned k = u(0, b - 1); r = bits(b - k) << k; break; }  // trailing zeros
    default: r = below(n);
  }
  r %= n;
  if (r < 0) r += n;
  return r;
}
Z Case::exponent(const Z& order) {
  Z o = order > 0 ? order : (Z(1) << 64);
  switch (u(0, 11)) {
    case 0: return Z((unsigned long)u(0, 8));
    case 1: return o + Z((unsigned long)u(0, 4));
    case 2: return o > 4 ? Z(o - 1 - Z((unsigned long)u(0, 3))) : Z(0);
    case 3: return o * Z((unsigned long)u(2, 5)) + below(o);
    case 4: return Z(1) << u(0, 200);
    case 5: return (Z(1) << u(0, 200)) - 1;
    case 6: return bits(u(1, 300));
    case 7: { Z r = 0; unsigned n = u(1, 200); for (unsigned i = 0; i < n; i += 8) r = (r << 8) + pick({0u, 0xffu, 0x80u, 0x01u, 0xaau, 0x10u}); return r; }
    default: return edge(o);
  }
}
string Case::bytes(size_t n) {
  string r;
  unsigned mode = u(0, 5);
  for (size_t i = 0; i < n; i++) {
    unsigned b;
    if (mode == 0) b = 0; else if (mode == 1) b = 0xff;
    else if (mode == 2) b = pick({0u, 1u, 0x7fu, 0x80u, 0xffu});
    else b = u(0, 255);
    r.push_back((char)b);
  }
  return r;
}
static void libsource(mpz_t r, mpz_t limit, void* data) {
  uint64_t* st = (uint64_t*)data;
  size_t b = mpz_sizeinbase(limit, 2);
  Z v;
  do {
    v = 0;
    for (size_t i = 0; i < b; i += 64) {
      uint64_t x = splitmix(*st);
      Z t; mpz_import(t.get_mpz_t(), 1, 1, 8, 0, 0, &x);
      v = (v << 64) + t;
    }
    Z m; mpz_fdiv_r_2exp(m.get_mpz_t(), v.get_mpz_t(), b); v = m;
  } while (mpz_cmp(v.get_mpz_t(), limit) >= 0);
  mpz_set(r, v.get_mpz_t());
}
void Case::seed_lib() {
  rngstate = u(0, 0xffffffff) * 0x9e3779b97f4a7c15ULL + 1;
  pbc_random_set_function(libsource, &rngstate);
}
string hex(const string& s) {
  string r; char b[3];
  for (unsigned char ch : s) { snprintf(b, 3, "%02x", ch); r += b; }
  return r;
}
Z zmod(const Z& a, const Z& m) { Z r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
Z zpow(const Z& a, const Z& e, const Z& m) { Z r; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
Z zinv(const Z& a, const Z& m) { Z r; if (!mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t())) return 0; return r; }
bool isprime(const Z& n) { return n > 1 && mpz_probab_prime_p(n.get_mpz_t(), 25) > 0; }
Z nextprime(const Z& n) { Z r; mpz_nextprime(r.get_mpz_t(), n.get_mpz_t()); return r; }
Z toz(element_ptr e) { Z r; element_to_mpz(r.get_mpz_t(), e); return r; }
string show(element_ptr e) {
  string r = capture_file([&](FILE* f) { element_out_str(f, 10, e); });
  return r;
}
string capture_file(const std::function<void(FILE*)>& fn) {
  char* buf = nullptr; size_t n = 0;
  FILE* f = open_memstream(&buf, &n);
  fn(f);
  fclose(f);
  string r(buf, n);
  free(buf);
  return r;
}
string enc(element_ptr e) {
  int n = element_length_in_bytes(e);
  REQ(n >= 0 && n < 1 << 20, "advertised length " << n);
  const int G = 32;
  unsigned char* b = (unsigned char*)malloc(n + 2 * G);
  memset(b, 0xA5, n + 2 * G);
  int w = element_to_bytes(b + G, e);
  bool guard = true;
  for (int i = 0; i < G; i++) if (b[i] != 0xA5 || b[G + n + i] != 0xA5) guard = false;
  string r((char*)b + G, n);
  free(b);
  REQ(w == n, "wrote " << w << " bytes, advertised " << n);
  REQ(guard, "bytes outside the advertised length were modified");
  return r;
}
ChildResult in_child(const std::function<string()>& fn, int cpu_s) {
  int p[2];
  if (pipe(p)) { perror("pipe"); _exit(3); }
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (!pid) {
    close(p[0]);
    struct itimerval off; memset(&off, 0, sizeof off); setitimer(ITIMER_PROF, &off, nullptr);
    struct rlimit rl = {(rlim_t)cpu_s, (rlim_t)cpu_s + 1};
    setrlimit(RLIMIT_CPU, &rl);
    signal(SIGXCPU, SIG_DFL);
    string r;
    int code = 0;
    try { r = fn(); } catch (Fail& f) { r = "FAIL:" + f.msg; code = 97; }
    catch (Discard&) { code = 96; }
    size_t o = 0;
    while (o < r.size()) { ssize_t k = write(p[1], r.data() + o, r.size() - o); if (k <= 0) break; o += k; }
    close(p[1]);
    _exit(code);
  }
  close(p[1]);
  ChildResult cr{false, 0, 0, false, ""};
  char buf[65536]; ssize_t k;
  while ((k = read(p[0], buf, sizeof buf)) > 0) cr.out.append(buf, k);
  close(p[0]);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) { cr.sig = WTERMSIG(st); cr.timeout = cr.sig == SIGXCPU || cr.sig == SIGKILL; }
  else { cr.code = WEXITSTATUS(st); cr.ok = cr.code == 0; }
  if (cr.code == 97) fail(cr.out.size() > 5 ? cr.out.substr(5) : "child failed");
  if (cr.code == 96) discard();
  return cr;
}
static string g_repo = "/repo", g_build = ".";
string repo_path() { return g_repo; }
string build_path() { return g_build; }
string verif_path() { return g_build + "/../.."; }
string read_file(const string& path) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); _exit(3); }
  string r; char b[4096]; size_t k;
  while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
  fclose(f);
  return r;
}

// ------------------------------------------------------------------ runner
static const int CPU_LIMIT = 60;   // CPU seconds one case may use before it counts as not terminating
struct Result { int status; string msg, desc; vector<uint64_t> tape; std::set<string> labels; bool nontriv; };
// status: 0 pass, 1 fail, 2 discard, 3 crash, 4 hang

static uint64_t hash_str(const string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; } return h; }
static uint64_t case_seed(uint64_t seed, const Sub& s, long i) {
  uint64_t x = seed * 0x9e3779b97f4a7c15ULL ^ hash_str(s.name) ^ (uint64_t)i * 0xd6e8feb86659fd93ULL;
  splitmix(x); return splitmix(x);
}
static void arm(int sec) {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr);
}
static bool g_thorough;
static void run_fn(const Sub& s, Case& c, Result& r) {
  c.thorough = g_thorough;
  clock_t t0 = clock();
  try { s.fn(c); r.status = 0; }
  catch (Fail& f) { r.status = 1; r.msg = f.msg; }
  catch (Discard&) { r.status = 2; }
  r.desc = c.d.str(); r.labels = c.labels; r.nontriv = c.nontriv; r.tape = c.tape;
  static const char* slow = getenv("VP_SLOW");   // profiling aid: cases above this many ms are logged
  if (slow) { long ms = (clock() - t0) / (CLOCKS_PER_SEC / 1000); if (ms > atol(slow)) if (FILE* f = fopen("/tmp/vpslow.log", "a")) { fprintf(f, "%ld %s %.300s\n", ms, s.name, r.desc.c_str()); fclose(f); } }
}

// message framing over a pipe
static void wr(int fd, const void* p, size_t n) { const char* q = (const char*)p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) _exit(3); q += k; n -= k; } }
static void put64(string& b, uint64_t v) { b.append((char*)&v, 8); }
static void puts_(string& b, const string& s) { put64(b, s.size()); b += s; }
static string pack(const Result& r, long idx) {
  string b; put64(b, idx); put64(b, r.status); put64(b, r.nontriv); puts_(b, r.msg); puts_(b, r.desc);
  string l; for (auto& x : r.labels) l += x + "\n";
  puts_(b, l);
  if (r.status) { put64(b, r.tape.size()); b.append((char*)r.tape.data(), 8 * r.tape.size()); } else put64(b, 0);
  string f; put64(f, b.size()); return f + b;
}
static bool unpack(string& in, Result& r, long& idx) {
  if (in.size() < 8) return false;
  uint64_t n; memcpy(&n, in.data(), 8);
  if (in.size() < 8 + n) return false;
  const char* p = in.data() + 8;
  auto g64 = [&]() { uint64_t v; memcpy(&v, p, 8); p += 8; return v; };
  auto gs = [&]() { uint64_t k = g64(); string s(p, k); p += k; return s; };
  idx = g64(); r.status = g64(); r.nontriv = g64(); r.msg = gs(); r.desc = gs();
  string l = gs(); r.labels.clear();
  std::istringstream is(l); string x; while (std::getline(is, x)) r.labels.insert(x);
  uint64_t k = g64(); r.tape.assign((const uint64_t*)p, (const uint64_t*)p + k);
  in.erase(0, 8 + n);
  return true;
}

struct Shared { std::atomic<long> cur[64]; };
static void quiet_child(const string& errfile) {
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
}
static string tail_err(const string& f) {
  FILE* fp = fopen(f.c_str(), "r"); if (!fp) return "";
  string s; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, fp)) > 0 && s.size() < 200000) s.append(b, k);
  fclose(fp);
  string out; std::istringstream is(s); string l; int n = 0;
  while (std::getline(is, l)) if (l.find("ERROR") != string::npos || l.find("SUMMARY") != string::npos || l.find("    #") == 0) { out += l + " | "; if (++n > 8) break; }
  if (out.empty()) out = s.substr(0, 300);
  return out;
}
static string g_tmp;

static bool g_live;  // replay mode: keep stdout/stderr
// run a list of tapes / case indices in one forked process; report the result of the last
struct Item { const Sub* s; vector<uint64_t> tape; bool gen; uint64_t seed; long idx; };
static Result run_isolated(const vector<Item>& items) {
  int p[2]; if (pipe(p)) _exit(3);
  string ef = g_tmp + "/err.iso." + std::to_string(getpid());
  uint64_t* tm = (uint64_t*)mmap(0, (TAPE_MAX + 8) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  char* dm = (char*)mmap(0, DESC_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (!pid) {
    g_tape_map = tm; g_desc_map = dm;
    close(p[0]); if (!g_live) quiet_child(ef);
    pbc_set_msg_to_stderr(0);
    Result r;
    for (auto& it : items) {
      arm(CPU_LIMIT);
      tm[0] = 0;
      Case c(it.seed); c.index = it.idx; if (!it.gen) c.replay = &it.tape;
      run_fn(*it.s, c, r);
      if (r.status == 1) break;
    }
    string b = pack(r, 0); wr(p[1], b.data(), b.size()); _exit(0);
  }
  close(p[1]);
  string in; char buf[65536]; ssize_t k;
  while ((k = read(p[0], buf, sizeof buf)) > 0) in.append(buf, k);
  close(p[0]);
  int st; waitpid(pid, &st, 0);
  Result r; long idx;
  vector<uint64_t> lasttape(tm + 1, tm + 1 + tm[0]);
  string lastdesc(dm);
  munmap(tm, (TAPE_MAX + 8) * 8); munmap(dm, DESC_MAX);
  if (unpack(in, r, idx)) return r;
  r.status = 3; r.nontriv = true;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { r.status = 4; r.msg = "does not terminate (" + std::to_string(CPU_LIMIT) + " s CPU)"; }
  else if (WIFSIGNALED(st)) r.msg = "crash: signal " + std::to_string(WTERMSIG(st));
  else r.msg = "crash: exit status " + std::to_string(WEXITSTATUS(st)) + " " + tail_err(ef);
  r.tape = lasttape; r.desc = lastdesc;
  unlink(ef.c_str());
  return r;
}
static bool bad(const Result& r) { return r.status == 1 || r.status == 3 || r.status == 4; }

static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// Shrink by deleting, zeroing and minimising choices.
static vector<uint64_t> shrink(const Sub& s, vector<uint64_t> best, int status) {
  double t0 = now(); int evals = 0;
  double budget = status == 4 ? 0 : getenv("VP_SHRINK") ? atof(getenv("VP_SHRINK")) : 60;
  auto ok = [&](const vector<uint64_t>& t) {
    if (evals > 600 || now() - t0 > budget) return false;
    evals++;
    Result r = run_isolated({Item{&s, t, false, 0, 0}});
    return r.status == status;
  };
  bool progress = true;
  while (progress && now() - t0 < budget && evals < 600) {
    progress = false;
    for (size_t chunk = best.size() / 2; chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.size();) {
        vector<uint64_t> t(best); t.erase(t.begin() + i, t.begin() + i + chunk);
        if (ok(t)) { best = t; progress = true; } else i += chunk;
        if (now() - t0 > budget) break;
      }
    }
    for (size_t i = 0; i < best.size(); i++) {
      if (!best[i]) continue;
      vector<uint64_t> t(best); t[i] = 0;
      if (ok(t)) { best = t; progress = true; continue; }
      for (int k = 1; k < 64; k++) {
        t = best; t[i] = best[i] >> k; if (t[i] == 0) break;
        if (!ok(t)) break;
        best = t; progress = true;
      }
      t = best; t[i] = best[i] - 1;
      if (ok(t)) { best = t; progress = true; }
    }
  }
  while (!best.empty() && best.back() == 0) best.pop_back();
  return best;
}

static string jesc(const string& s) {
  string r; char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, 8, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r;
}

static int replay_main(const string& file) {
  std::istringstream is(read_file(file));
  string key, prop, subn; vector<Item> items; string line; uint64_t seed = 1;
  vector<vector<uint64_t>> tapes; long first = -1, last = -1;
  while (std::getline(is, line)) {
    std::istringstream ls(line); ls >> key;
    if (key == "property") ls >> prop;
    else if (key == "check") ls >> subn;
    else if (key == "tape") { vector<uint64_t> t; uint64_t v; while (ls >> v) t.push_back(v); tapes.push_back(t); }
    else if (key == "tier") { string t; ls >> t; g_thorough = t == "thorough"; }
    else if (key == "history") ls >> seed >> first >> last;
  }
  const Sub* s = nullptr;
  for (auto& x : subs()) if (subn == x.name) s = &x;
  if (!s) { fprintf(stderr, "unknown check %s\n", subn.c_str()); return 2; }
  if (first >= 0) for (long i = first; i <= last; i++) items.push_back({s, {}, true, case_seed(seed, *s, i), i});
  else items.push_back({s, tapes.empty() ? vector<uint64_t>() : tapes[0], false, 0, 0});
  g_live = true;
  Result r = run_isolated(items);
  printf("replay %s/%s: status=%d %s\n", prop.c_str(), subn.c_str(), r.status, r.msg.c_str());
  printf("case: %s\n", r.desc.c_str());
  if (bad(r)) { printf("VIOLATION property=%s replay=%s\n", prop.c_str(), file.c_str()); return 1; }
  return 0;
}

int main(int argc, char** argv) {
  string prop, tier = "quick", evid, rdir = ".", only, replay; uint64_t seed = 1; int W = 8; double scale = 1, cap = 700; bool list = false, show_labels = false;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--evidence") evid = nx(); else if (a == "--replaydir") rdir = nx(); else if (a == "--only") only = nx();
    else if (a == "--workers") W = atoi(nx().c_str()); else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--replay") replay = nx(); else if (a == "--repo") g_repo = nx(); else if (a == "--build") g_build = nx();
    else if (a == "--cap") cap = atof(nx().c_str()); else if (a == "--list") list = true; else if (a == "--labels") show_labels = true;
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  signal(SIGPIPE, SIG_IGN);
#ifndef VP_ASAN
  mallopt(M_PERTURB, 0xA7);  // fresh and freed memory never looks like zeros
#endif
  g_thorough = tier == "thorough";
  pbc_set_msg_to_stderr(0);
  char tmpl[] = "/tmp/vp.XXXXXX"; g_tmp = mkdtemp(tmpl);
  struct Cleanup { ~Cleanup() { string c = "rm -rf " + g_tmp; if (g_tmp.compare(0, 8, "/tmp/vp.") == 0) { int x = system(c.c_str()); (void)x; } } } cleanup;
  setenv("VP_TMP", g_tmp.c_str(), 1);
  if (!replay.empty()) return replay_main(replay);
  if (list) { for (auto& s : subs()) printf("%s %s %ld %ld\n", s.prop, s.name, s.quick, s.thorough); return 0; }
  double t0 = now();
  vector<const Sub*> todo;
  for (auto& s : subs()) if (prop == s.prop && (only.empty() || only == s.name)) todo.push_back(&s);
  if (todo.empty()) { fprintf(stderr, "no checks for %s\n", prop.c_str()); return 2; }
  // batches
  struct Batch { const Sub* s; long lo, hi; };
  vector<Batch> q;
  {
    // interleave batches of the sub-checks so that a time cap cuts all evenly
    vector<long> pos(todo.size(), 0), tot(todo.size());
    for (size_t k = 0; k < todo.size(); k++) tot[k] = std::max(1L, (long)((g_thorough ? todo[k]->thorough : todo[k]->quick) * scale));
    bool more = true;
    vector<double> frac(todo.size(), 0);
    while (more) {
      more = false; size_t b = 0; double bf = 2;
      for (size_t k = 0; k < todo.size(); k++) if (pos[k] < tot[k] && (double)pos[k] / tot[k] < bf) { bf = (double)pos[k] / tot[k]; b = k; more = true; }
      if (!more) break;
      long hi = std::min(tot[b], pos[b] + todo[b]->batch);
      q.push_back({todo[b], pos[b], hi}); pos[b] = hi;
    }
  }
  struct Work { pid_t pid; int fd; string in; size_t b; long done; string ef; };
  vector<Work> ws;
  size_t next = 0; bool stop = false, capped = false;
  struct SubStat { long evals = 0, discards = 0, nontriv = 0; double t = 0; };
  std::map<string, SubStat> st;
  std::map<string, long> labels;
  std::unordered_set<uint64_t> distinct;
  std::map<string, vector<string>> samples;
  struct Failure { const Sub* s; Result r; long first, idx; };
  vector<Failure> fails;
  auto consume = [&](Work& w) {
    Result r; long idx;
    while (unpack(w.in, r, idx)) {
      w.done = idx + 1;
      const Sub* s = q[w.b].s;
      auto& x = st[s->name];
      if (r.status == 2) { x.discards++; continue; }
      x.evals++;
      for (auto& l : r.labels) labels[string(s->name) + ":" + l]++;
      if (r.nontriv && distinct.insert(hash_str(string(s->name) + r.desc)).second) {
        x.nontriv++;
        auto& sm = samples[s->name];
        if (sm.size() < 2 || (sm.size() < 4 && idx % 97 == 0)) sm.push_back(r.desc.substr(0, 700));
      }
      if (r.status == 1) { fails.push_back({s, r, q[w.b].lo, idx}); stop = true; }
    }
  };
  while (true) {
    if (!stop && now() - t0 > cap) { stop = true; capped = true; }
    while (!stop && (int)ws.size() < W && next < q.size()) {
      int p[2]; if (pipe(p)) { perror("pipe"); return 2; }
      size_t b = next++;
      string ef = g_tmp + "/err." + std::to_string(b);
      pid_t pid = fork();
      if (!pid) {
        close(p[0]); for (auto& w : ws) close(w.fd);
        quiet_child(ef); pbc_set_msg_to_stderr(0);
        for (long i = q[b].lo; i < q[b].hi; i++) {
          arm(CPU_LIMIT);
          Result r; Case c(case_seed(seed, *q[b].s, i)); c.index = i;
          run_fn(*q[b].s, c, r);
          string m = pack(r, i); wr(p[1], m.data(), m.size());
          if (r.status == 1) break;
        }
        _exit(0);
      }
      close(p[1]);
      ws.push_back({pid, p[0], "", b, q[b].lo, ef});
    }
    if (ws.empty()) break;
    vector<struct pollfd> pf; for (auto& w : ws) pf.push_back({w.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 500);
    for (size_t k = 0; k < ws.size();) {
      Work& w = ws[k]; bool closed = false;
      short re = k < pf.size() && pf[k].fd == w.fd ? pf[k].revents : 0;
      // pf may be misaligned after erase; search
      for (auto& f : pf) if (f.fd == w.fd) re = f.revents;
      if (re) { char buf[1 << 16]; ssize_t n = read(w.fd, buf, sizeof buf); if (n > 0) { w.in.append(buf, n); consume(w); } else closed = true; }
      if (stop && !closed && !fails.empty()) { kill(w.pid, SIGKILL); closed = true; }
      if (stop && !closed && capped) { kill(w.pid, SIGKILL); closed = true; }
      if (closed) {
        int s; waitpid(w.pid, &s, 0); close(w.fd);
        bool killed_by_us = stop && WIFSIGNALED(s) && WTERMSIG(s) == SIGKILL;
        if (!killed_by_us && (WIFSIGNALED(s) || WEXITSTATUS(s) != 0)) {
          Result r; r.nontriv = true; r.status = 3;
          if (WIFSIGNALED(s) && WTERMSIG(s) == SIGPROF) { r.status = 4; r.msg = "does not terminate"; }
          else r.msg = "crash: " + tail_err(w.ef);
          fails.push_back({q[w.b].s, r, q[w.b].lo, w.done}); stop = true;
        }
        unlink(w.ef.c_str());
        ws.erase(ws.begin() + k);
      } else k++;
    }
  }
  int violations = 0; string vpath;
  string unrepro;
  for (auto& f : fails) {
    if (violations) break;
    // confirm: the case alone, in a fresh process
    Item alone{f.s, {}, true, case_seed(seed, *f.s, f.idx), f.idx};
    Result r = run_isolated({alone});
    string path = rdir + "/" + prop + "." + f.s->name + ".replay";
    bool hist = false; vector<uint64_t> tape;
    vector<Item> items;
    if (bad(r)) {
      tape = shrink(*f.s, r.tape, r.status);
      items = {Item{f.s, tape, false, 0, 0}};
    } else {
      hist = true;
      for (long i = f.first; i <= f.idx; i++) items.push_back({f.s, {}, true, case_seed(seed, *f.s, i), i});
    }
    int okc = 0; Result last;
    for (int k = 0; k < 3; k++) { last = run_isolated(items); if (bad(last)) okc++; }
    if (okc == 0 && !hist) { hist = true; items = {alone}; f.first = f.idx; okc = 0; for (int k = 0; k < 3; k++) { last = run_isolated(items); if (bad(last)) okc++; } }
    if (okc < 3) { unrepro += string(f.s->name) + ": " + f.r.msg + "; "; fprintf(stderr, "NOTE: failure of %s (case %ld: %s) reproduced only %d/3 times\n", f.s->name, f.idx, f.r.msg.c_str(), okc); if (okc == 0) continue; }
    FILE* o = fopen(path.c_str(), "w");
    if (!o) { perror(path.c_str()); return 2; }
    fprintf(o, "property %s\ncheck %s\ntier %s\nvariant %s\n", prop.c_str(), f.s->name, tier.c_str(), g_variant);
    if (hist) fprintf(o, "history %llu %ld %ld\n", (unsigned long long)seed, f.first, f.idx);
    else { fprintf(o, "tape"); for (auto v : tape) fprintf(o, " %llu", (unsigned long long)v); fprintf(o, "\n"); }
    auto oneline = [](string s) { for (auto& ch : s) if (ch == '\n') ch = ' '; return s; };
    fprintf(o, "message %s\ncase %s\n", oneline(last.msg).c_str(), oneline(last.desc.substr(0, 4000)).c_str());
    fclose(o);
    violations++; vpath = path;
    printf("FAILED %s/%s: %s\n  case: %s\n", prop.c_str(), f.s->name, last.msg.substr(0, 2000).c_str(), last.desc.substr(0, 2000).c_str());
  }
  long ev = 0, di = 0; for (auto& x : st) { ev += x.second.evals; di += x.second.discards; }
  double wall = now() - t0;
  if (!evid.empty()) {
    FILE* o = fopen(evid.c_str(), "w");
    if (!o) { perror(evid.c_str()); return 2; }
    fprintf(o, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"exploration\",\"coverage\":{\"evaluations\":%ld,\"discarded\":%ld,\"distinct_nontrivial\":%zu,\"rule\":\"", prop.c_str(), tier.c_str(), (unsigned long long)seed, ev, di, distinct.size());
    string rule = "Cases are decoded from a seeded tape of choices; distinct = distinct case descriptions.";
    for (auto s : todo) rule += string(" ") + s->name + ": " + s->rule + ".";
    fprintf(o, "%s\",\"time_capped\":%s,\"checks\":{", jesc(rule).c_str(), capped ? "true" : "false");
    bool f1 = true;
    for (auto& x : st) { fprintf(o, "%s\"%s\":{\"evaluations\":%ld,\"discarded\":%ld,\"distinct_nontrivial\":%ld}", f1 ? "" : ",", x.first.c_str(), x.second.evals, x.second.discards, x.second.nontriv); f1 = false; }
    fprintf(o, "},\"classes\":{");
    f1 = true; for (auto& l : labels) { fprintf(o, "%s\"%s\":%ld", f1 ? "" : ",", jesc(l.first).c_str(), l.second); f1 = false; }
    fprintf(o, "},\"samples\":[");
    f1 = true; for (auto& s : samples) for (auto& d : s.second) { fprintf(o, "%s\"%s\"", f1 ? "" : ",", jesc(s.first + ": " + d).c_str()); f1 = false; }
    fprintf(o, "]},\"assumptions\":[\"GMP and the reference computations in /verif/src are correct\"],\"wall_s\":%.3f,\"violations\":%d", wall, violations);
    if (!unrepro.empty()) fprintf(o, ",\"unreproduced\":\"%s\"", jesc(unrepro).c_str());
    fprintf(o, "}\n");
    fclose(o);
  }
  printf("%s %s seed=%llu: %ld cases, %ld discarded, %zu distinct non-trivial, %.1f s%s\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, ev, di, distinct.size(), wall, capped ? " (time cap reached)" : "");
  if (show_labels) { for (auto& x : st) printf("  %-40s %ld evals %ld discards %ld nontrivial\n", x.first.c_str(), x.second.evals, x.second.discards, x.second.nontriv); for (auto& l : labels) printf("    %-60s %ld\n", l.first.c_str(), l.second); }
  if (violations) { printf("VIOLATION property=%s replay=%s\n", prop.c_str(), vpath.c_str()); return 1; }
  if (!fails.empty() && !violations) { fprintf(stderr, "failures seen but none reproduced\n"); }
  return 0;
}
