#include "vt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <time.h>
#include <unordered_set>
#include <exception>
#include <fstream>
#include <iostream>

namespace vt {
// ------------------------------------------------------------------ shared state
static const size_t MAXREC = 1 << 18;
struct Shm {
  volatile uint64_t caseIdx;
  volatile uint64_t start_ms;       // 0: no case running
  volatile uint64_t nrec;
  volatile int status;              // of a single run: 0 running, 1 pass, 2 fail, 3 discard
  volatile uint64_t done, nontrivial, discarded;
  char msg[4096];
  uint64_t rec[MAXREC];
};
static Shm * S = nullptr;

std::vector<Prop> & props() { static std::vector<Prop> v; return v; }
std::vector<Probe> & probes() { static std::vector<Probe> v; return v; }
void fail(const std::string & m) { throw Fail{m}; }

static uint64_t splitmix(uint64_t & x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t hashStr(const char * s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }
static uint64_t nowMs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }

// ------------------------------------------------------------------ generator
void Gen::seed(uint64_t s) { rng[0] = splitmix(s); rng[1] = splitmix(s) | 1; }
uint64_t Gen::next() {
  uint64_t s1 = rng[0], s0 = rng[1]; uint64_t r = s0 + s1; rng[0] = s0; s1 ^= s1 << 23;
  rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return r;
}
static void record(uint64_t v) { uint64_t n = S->nrec; if (n < MAXREC) { S->rec[n] = v; S->nrec = n + 1; } }
uint64_t Gen::below(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (playing) { v = tapePos < tape->size() ? (*tape)[tapePos++] : 0; return v % n; }
  if (replaying) {
    if (pos < nrep) { v = rep[pos++]; if (v >= n) v %= n; }
    else if (rng[0] == 0 && rng[1] == 0) { v = 0; if (++past > 50000) overrun = true; }
    else { v = next() % n; }
  } else v = next() % n;
  if (S->nrec >= MAXREC) { overrun = true; v = 0; }
  record(v);
  if (tape) tape->push_back(v);
  return v;
}
uint64_t Gen::bits64() {
  uint64_t hi = below(1ull << 32), lo = below(1ull << 32); return (hi << 32) | lo;
}
size_t Gen::weighted(std::initializer_list<unsigned> w) {
  uint64_t t = 0; for (unsigned x : w) t += x;
  uint64_t v = below(t); size_t i = 0;
  for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
  return 0;
}
size_t Gen::small(size_t hi) {
  if (hi == 0) return 0;
  switch (below(8)) {
    case 0: case 1: case 2: return below(std::min<size_t>(hi, 3) + 1);
    case 3: case 4: case 5: return below(std::min<size_t>(hi, 8) + 1);
    case 6: return below(std::min<size_t>(hi, 30) + 1);
    default: return below(hi + 1);
  }
}
void Gen::note(const std::string & s) { if (verbose) std::cerr << "  | " << s << "\n"; }

std::string hex(const void * p, size_t n) {
  static const char * d = "0123456789abcdef"; std::string r; const unsigned char * c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) { r += d[c[i] >> 4]; r += d[c[i] & 15]; } return r;
}

// ------------------------------------------------------------------ directories
static std::string g_tmpRoot, g_exe;
std::string binDir() { return g_exe.substr(0, g_exe.rfind('/')); }
std::string verifDir() { const char * e = getenv("VT_VERIF"); return e ? e : "/verif"; }
static void rmTree(const std::string & d) {
  if (d.compare(0, 9, "/tmp/vtx.") != 0) return;       // only what this program created
  DIR * dir = opendir(d.c_str()); if (!dir) return;
  while (dirent * e = readdir(dir)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p); else unlink(p.c_str());
  }
  closedir(dir); rmdir(d.c_str());
}
std::string scratch() {
  static int pid = 0; static std::string s;
  if (pid != getpid()) { pid = getpid(); s = g_tmpRoot + "/" + std::to_string(pid); mkdir(s.c_str(), 0700); }
  return s;
}

// ------------------------------------------------------------------ coverage
static const size_t COVN = 1 << 17;
static uint8_t g_map[COVN], g_seen[COVN];
static void covClear() { memset(g_map, 0, sizeof g_map); }
static inline uint8_t bucket(uint8_t c) { return c >= 128 ? 128 : c >= 32 ? 64 : c >= 16 ? 32 : c >= 8 ? 16 : c >= 4 ? 8 : c == 3 ? 4 : c == 2 ? 2 : c ? 1 : 0; }
static size_t covNew() {
  size_t n = 0;
  for (size_t i = 0; i < COVN;) {
    if ((i & 7) == 0 && *(uint64_t *)(g_map + i) == 0) { i += 8; continue; }
    uint8_t b = bucket(g_map[i]);
    if (b & ~g_seen[i]) { g_seen[i] |= b; ++n; }
    ++i;
  }
  return n;
}
static size_t covHit() { size_t n = 0; for (uint8_t b : g_seen) n += b != 0; return n; }
}
extern "C" char __executable_start;
extern "C" __attribute__((no_sanitize_address)) void __sanitizer_cov_trace_pc() {
  uintptr_t o = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
  uint8_t & c = vt::g_map[(o ^ (o >> 17)) & (vt::COVN - 1)]; if (c != 255) ++c;
}

namespace vt {
// ------------------------------------------------------------------ running one case
static std::string describeCurrent() {
  try { throw; }
  catch (Fail & f) { return f.msg; }
  catch (std::exception & e) { return std::string("unexpected exception: ") + e.what(); }
  catch (const char * s) { return std::string("unexpected exception: ") + s; }
  catch (...) { return "unexpected exception of unknown type"; }
}
static int runCase(const Prop & p, Gen & g, std::string & msg) {
  S->nrec = 0;
  try { p.fn(g); return 1; }
  catch (Discard &) { return 3; }
  catch (...) { msg = describeCurrent(); return 2; }
}

struct Opts {
  std::string prop, part, tier = "quick", replay, out, replayDir = ".", findings; uint64_t seed = 1; int workers = 8;
  double timeCap = 0; double scale = 1; unsigned caseTimeout = 60; bool list = false; bool noprobes = false;
} O;

struct Stats {
  uint64_t evals = 0, nontriv = 0, discards = 0, mutated = 0; std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hashes; std::vector<std::string> samples; size_t cov = 0;
};

static void mutate(std::vector<uint64_t> & v, Gen & r) {
  int n = 1 + r.next() % 4;
  for (int k = 0; k < n; ++k) {
    if (v.empty()) { v.push_back(r.next()); continue; }
    size_t i = r.next() % v.size();
    switch (r.next() % 7) {
      case 0: v[i] = r.next() & 0xffffffff; break;
      case 1: v[i] += 1; break;
      case 2: v[i] = v[i] ? v[i] - 1 : 1; break;
      case 3: { size_t l = 1 + r.next() % 8; v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + l)); break; }
      case 4: { size_t l = std::min<size_t>(1 + r.next() % 12, v.size() - i); std::vector<uint64_t> c(v.begin() + i, v.begin() + i + l); v.insert(v.begin() + r.next() % (v.size() + 1), c.begin(), c.end()); break; }
      case 5: v[i] = r.next() % 4; break;
      case 6: v.resize(i); break;
    }
  }
}

static const int RC_CONTINUE = 77;
static void writeStats(int fd, const Stats & st, bool withHashes) {
  std::ostringstream o;
  o << st.evals << ' ' << st.nontriv << ' ' << st.discards << ' ' << st.mutated << ' ' << st.cov << '\n';
  o << st.labels.size() << '\n';
  for (auto & l : st.labels) o << l.second << ' ' << l.first << '\n';
  o << st.samples.size() << '\n';
  for (auto s : st.samples) { for (char & c : s) if (c == '\n') c = ' '; o << s << '\n'; }
  o << st.hashes.size() << '\n';
  if (withHashes) for (auto h : st.hashes) o << h << '\n';
  std::string s = o.str(); size_t off = 0;
  while (off < s.size()) { ssize_t k = ::write(fd, s.data() + off, s.size() - off); if (k <= 0) break; off += k; }
}
static void readStats(const std::string & f, Stats & t) {
  std::ifstream i(f); uint64_t a, b, c, m; size_t cov; if (!(i >> a >> b >> c >> m >> cov)) return;
  t.evals += a; t.nontriv += b; t.discards += c; t.mutated += m; t.cov = std::max(t.cov, cov);
  size_t n; std::string l; i >> n; std::getline(i, l);
  for (size_t k = 0; k < n; ++k) { uint64_t cnt; i >> cnt; std::getline(i, l); t.labels[l.substr(1)] += cnt; }
  i >> n; std::getline(i, l);
  for (size_t k = 0; k < n; ++k) { std::getline(i, l); if (t.samples.size() < 12) t.samples.push_back(l); }
  i >> n; for (size_t k = 0; k < n; ++k) { uint64_t h; i >> h; t.hashes.insert(h); }
}

// Runs cases first, first+stride, ... < count
static int workerMain(const Prop & p, unsigned w, unsigned stride, uint64_t first, uint64_t count, uint64_t deadline, const std::string & statFile) {
  Stats st; std::vector<std::vector<uint64_t>> corpus; int rc = 0;
  uint64_t base = O.seed * 0x9e3779b97f4a7c15ull ^ hashStr(p.id) ^ (hashStr(p.part) << 1);
  uint64_t i = first; unsigned local = 0;
  for (; i < count; i += stride, ++local) {
    if (deadline && nowMs() > deadline) break;
    Gen g; uint64_t cs = base + i * 0xd1342543de82ef95ull; g.seed(splitmix(cs));
    std::vector<uint64_t> m; bool mut = false;
    if (corpus.size() > 4 && (local & 3) == 3) {        // one case in four mutates a case which reached new code
      Gen r; r.seed(cs ^ 0x5bd1e995); m = corpus[corpus.size() - 1 - (r.next() % corpus.size()) * (r.next() % 2 ? 1 : 0) % corpus.size()];
      mutate(m, r); g.replaying = true; g.rep = m.data(); g.nrep = m.size(); mut = true;
    }
    S->caseIdx = i; S->start_ms = nowMs();
    covClear();
    std::string msg; int s = runCase(p, g, msg);
    S->start_ms = 0;
    if (s == 2) { strncpy(S->msg, msg.c_str(), sizeof S->msg - 1); S->status = 2; rc = 3; break; }
    ++st.evals; if (mut) ++st.mutated;
    S->done = S->done + 1;
    if (s == 3) { ++st.discards; continue; }
    if (covNew() && corpus.size() < 4000) corpus.emplace_back(S->rec, S->rec + S->nrec);
    for (auto & l : g.labels) ++st.labels[l];
    if (g.nontriv) {
      ++st.nontriv; uint64_t h = 1469598103934665603ull;
      for (uint64_t k = 0; k < S->nrec; ++k) { h ^= S->rec[k]; h *= 1099511628211ull; h ^= h >> 29; }
      st.hashes.insert(h);
      if (st.samples.size() < 2 && !g.samp.empty()) st.samples.push_back(cat("case ", i, ": ", g.samp));
    }
    if ((local & 63) == 63) {     // replace this process when it has grown
      FILE * f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
      if (b * 4096L > 1200L * 1000 * 1000) { S->caseIdx = i + stride; rc = RC_CONTINUE; break; }
    }
  }
  st.cov = covHit();
  int fd = open(statFile.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); writeStats(fd, st, true); close(fd);
  return rc;
}

// messages are cut anywhere: what is printed is UTF-8 nevertheless
static std::string printable(const std::string & s) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i]; size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0; bool ok = n && i + n <= s.size();
    for (size_t k = 1; ok && k < n; ++k) ok = ((unsigned char)s[i + k] & 0xc0) == 0x80;
    if (ok && n == 3) ok = !(c == 0xe0 && (unsigned char)s[i + 1] < 0xa0) && !(c == 0xed && (unsigned char)s[i + 1] >= 0xa0);
    if (ok && n == 4) ok = !(c == 0xf0 && (unsigned char)s[i + 1] < 0x90) && !(c == 0xf4 && (unsigned char)s[i + 1] >= 0x90);
    if (ok && !(n == 1 && c < 0x20 && c != '\n' && c != '\t')) { r.append(s, i, n); i += n; } else { r += '?'; ++i; }
  }
  return r;
}
static Shm * newShm() { void * p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return (Shm *)p; }

static std::string describeExit(int st) {
  if (WIFSIGNALED(st)) return cat("process ended by signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")");
  return cat("process exited with code ", WEXITSTATUS(st), " (sanitizer report or exit() called by the code under test)");
}
static std::string sanitizerLine(const std::string & f) {
  std::ifstream i(f); std::string l, r; int frames = 0;
  while (std::getline(i, l)) {
    if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos) { if (r.empty()) r = l; }
    else if (!r.empty() && frames < 6 && l.find("    #") == 0 && l.find("/repo/") != std::string::npos) { r += " <- " + l.substr(l.find(" in ") == std::string::npos ? 0 : l.find(" in ") + 4); ++frames; }
  }
  return r.substr(0, 1500);
}

// Runs one recorded choice list in a child. 1 pass, 2 fail, 3 discard, 4 hang
static int runIsolated(const Prop & p, const std::vector<uint64_t> & c, std::string & msg, std::vector<uint64_t> * used, unsigned timeoutS, bool verbose, bool randomTail = false) {
  (void)randomTail;
  Shm * save = S; static Shm * mine = newShm(); S = mine; S->status = 0; S->nrec = 0; S->msg[0] = 0;
  std::string err = g_tmpRoot + "/err";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    if (!verbose) { int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1); }
    Gen g; g.rng[0] = g.rng[1] = 0; g.replaying = true; g.rep = c.data(); g.nrep = c.size(); g.verbose = verbose;
    std::string m; int s = runCase(p, g, m); strncpy(S->msg, m.c_str(), sizeof S->msg - 1); S->status = s;
    std::string sd = scratch(); rmTree(sd);
    _exit(0);
  }
  uint64_t t0 = nowMs(); int st = 0; int res = 0;
  unsigned us = 200;
  for (;;) {
    pid_t k = waitpid(pid, &st, WNOHANG); if (k == pid) break;
    if (nowMs() - t0 > timeoutS * 1000ull) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); res = 4; msg = cat("no answer within ", timeoutS, " s"); break; }
    usleep(us); if (us < 5000) us *= 2;
  }
  kill(-pid, SIGKILL);
  if (!res) {
    if (S->status) { res = S->status; msg = S->msg; }
    else { res = 2; msg = describeExit(st); if (!verbose) { std::string l = sanitizerLine(err); if (!l.empty()) msg += ": " + l; } }
  }
  if (used) used->assign(S->rec, S->rec + S->nrec);
  rmTree(g_tmpRoot + "/" + std::to_string(pid));
  S = save; return res;
}

static void shrink(const Prop & p, std::vector<uint64_t> & best, std::string & msg, double seconds) {
  uint64_t end = nowMs() + (uint64_t)(seconds * 1000); unsigned tries = 0;
  auto attempt = [&](const std::vector<uint64_t> & c) {
    if (nowMs() > end) return false;
    ++tries; std::string m; std::vector<uint64_t> used;
    if (runIsolated(p, c, m, &used, 20, false) != 2) return false;
    while (!used.empty() && used.back() == 0) used.pop_back();
    if (used.size() > best.size()) return false;
    if (used.size() == best.size() && !std::lexicographical_compare(used.begin(), used.end(), best.begin(), best.end())) return false;
    best = used; msg = m; return true;
  };
  bool progress = true;
  while (progress && nowMs() < end) {
    progress = false;
    for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len /= 2) {
      for (size_t i = best.size(); i-- > 0 && nowMs() < end;) {
        if (i + len > best.size()) continue;
        std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) { progress = true; if (i > best.size()) i = best.size(); }
        else if (len > 8) i = i > len / 2 ? i - len / 2 : 0;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && nowMs() < end; ++i) {
      if (best[i] == 0) continue;
      { std::vector<uint64_t> c(best); c[i] = 0; if (attempt(c)) { progress = true; continue; } }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;   // binary search for the least failing value
      while (lo + 1 < hi && nowMs() < end) {
        uint64_t mid = lo + (hi - lo) / 2; std::vector<uint64_t> c(best); if (i >= c.size()) break; c[i] = mid;
        size_t before = best.size(); if (attempt(c)) { progress = true; hi = mid; if (best.size() != before) break; } else lo = mid;
      }
    }
  }
  std::cerr << "shrinking: " << tries << " attempts, " << best.size() << " choices left\n";
}

static std::string jesc(const std::string & s) {
  std::string r; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
  return r;
}

static std::string writeReplay(const std::string & prop, const std::string & part, const std::string & msg, const std::vector<uint64_t> & c, uint64_t idx) {
  mkdir(O.replayDir.c_str(), 0755);
  std::string f = O.replayDir + "/" + prop + "-" + part + "-" + std::to_string(O.seed) + ".replay";
  std::ofstream o(f); std::string m = msg; for (char & ch : m) if (ch == '\n') ch = ' ';
  o << "property " << prop << "\npart " << part << "\nseed " << O.seed << "\ncase " << idx << "\nmessage " << m << "\nchoices " << c.size();
  for (auto v : c) o << ' ' << v;
  o << "\n"; return f;
}

struct Result { bool violation = false; std::string replay, msg, part; };

// Cases first, first+stride, ... idx in one process, as a worker runs them. True when it fails.
static bool runHistory(const Prop & p, unsigned w, unsigned W, uint64_t first, uint64_t idx, std::string & msg) {
  Shm * shm = newShm(); shm->status = 0; std::string err = g_tmpRoot + "/err.h"; fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0); S = shm; int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); close(fd);
    int rc = workerMain(p, w, W, first, idx + 1, 0, g_tmpRoot + "/stat.h"); std::string sd = scratch(); rmTree(sd); _exit(rc);
  }
  int st = 0; bool bad = false; uint64_t t0 = nowMs();
  for (;;) {
    pid_t k = waitpid(pid, &st, WNOHANG);
    if (k == pid) break;
    uint64_t sm = shm->start_ms;
    if (nowMs() - t0 > 240000 || (sm && nowMs() > sm + O.caseTimeout * 1000ull)) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(3000);
  }
  kill(-pid, SIGKILL);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { bad = true; msg = shm->msg; }
  else if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == RC_CONTINUE)) && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { bad = true; msg = describeExit(st) + ": " + sanitizerLine(err); }
  if (bad && shm->caseIdx != idx) msg = cat("(at case ", (uint64_t)shm->caseIdx, ") ", msg);
  rmTree(g_tmpRoot + "/" + std::to_string(pid)); munmap(shm, sizeof(Shm)); return bad;
}

static Result runProp(const Prop & p, Stats & tot) {
  Result R; R.part = p.part;
  uint64_t count = (uint64_t)std::ceil((O.tier == "thorough" ? p.thorough : p.quick) * O.scale);
  uint64_t deadline = O.timeCap > 0 ? nowMs() + (uint64_t)(O.timeCap * 1000) : 0;
  unsigned W = std::max(1, O.workers);
  struct Wk { pid_t pid = 0; Shm * shm = nullptr; bool active = false; uint64_t next; unsigned gen = 0; std::string err; };
  std::vector<Wk> ws(W); std::vector<std::string> statFiles; std::vector<uint64_t> firstOf(W);
  auto start = [&](unsigned w) {
    firstOf[w] = ws[w].next;
    Wk & k = ws[w]; if (!k.shm) k.shm = newShm();
    std::string sf = cat(g_tmpRoot, "/stat.", w, ".", k.gen++); statFiles.push_back(sf);
    k.err = cat(g_tmpRoot, "/err.", w); k.shm->status = 0; k.shm->start_ms = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      S = k.shm; int fd = open(k.err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); close(fd);
      int rc = workerMain(p, w, W, k.next, count, deadline, sf);
      std::string sd = scratch(); rmTree(sd);
      _exit(rc);
    }
    k.pid = pid; k.active = true;
  };
  for (unsigned w = 0; w < W; ++w) { ws[w].next = w; if (w < count) start(w); }
  int failed = -1; std::string how;
  for (;;) {
    bool any = false;
    for (unsigned w = 0; w < W && failed < 0; ++w) {
      Wk & k = ws[w]; if (!k.active) continue; any = true;
      int st; pid_t r = waitpid(k.pid, &st, WNOHANG);
      if (r == k.pid) {
        k.active = false; kill(-k.pid, SIGKILL);
        rmTree(g_tmpRoot + "/" + std::to_string(k.pid));
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == RC_CONTINUE) { k.next = k.shm->caseIdx; start(w); continue; }
        failed = w; how = WIFEXITED(st) && WEXITSTATUS(st) == 3 ? std::string(k.shm->msg) : describeExit(st);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) { std::string l = sanitizerLine(k.err); if (!l.empty()) how += ": " + l; }
      } else if (uint64_t sm = k.shm->start_ms; sm && nowMs() > sm + O.caseTimeout * 1000ull) {
        kill(-k.pid, SIGKILL); kill(k.pid, SIGKILL); waitpid(k.pid, &st, 0); k.active = false; failed = w; how = cat("no answer within ", O.caseTimeout, " s");
      }
    }
    if (failed >= 0 || !any) break;
    usleep(3000);
  }
  if (failed >= 0) for (auto & k : ws) if (k.active) { kill(-k.pid, SIGKILL); kill(k.pid, SIGKILL); int st; waitpid(k.pid, &st, 0); k.active = false; rmTree(g_tmpRoot + "/" + std::to_string(k.pid)); }
  for (auto & f : statFiles) { readStats(f, tot); unlink(f.c_str()); }
  if (failed < 0) return R;
  Shm * fs = ws[failed].shm; std::vector<uint64_t> c(fs->rec, fs->rec + fs->nrec); uint64_t idx = fs->caseIdx;
  std::cerr << p.id << "/" << p.part << " case " << idx << " failed: " << printable(how) << "\n";
  // A failure counts only when it happens again, three times, from the recorded choices alone.
  std::string m; int ok = 0; bool hang = false;
  for (int k = 0; k < 3; ++k) { int r = runIsolated(p, c, m, nullptr, O.caseTimeout, false); if (r == 2 || r == 4) ++ok; if (r == 4) hang = true; }
  if (ok < 3 && !hang) {
    // Not the case alone: run the same worker again from its first case, in a new process.
    unsigned w = failed; int again = 0; std::string hm;
    for (int k = 0; k < 2; ++k) again += runHistory(p, w, W, firstOf[w], idx, hm);
    if (again == 2) {
      std::cerr << "reproduced 2/2 as the last of a sequence of cases of one process: " << printable(hm) << "\n";
      R.violation = true; R.msg = hm; R.replay = writeReplay(p.id, p.part, hm, c, idx);
      std::ofstream o(R.replay, std::ios::app); o << "history " << w << ' ' << W << ' ' << firstOf[w] << ' ' << idx << ' ' << O.seed << "\n";
      return R;
    }
  }
  if (ok < 3) {
    std::cerr << "not reproduced (" << ok << "/3): kept in " << writeReplay(p.id, std::string(p.part) + "-unreproduced", how, c, idx) << "\n";
    tot.labels["unreproduced failure"]++; return R;
  }
  std::vector<uint64_t> whole = c;
  if (!hang) { m = how; shrink(p, c, m, getenv("VT_SHRINK") ? atoi(getenv("VT_SHRINK")) : 45); }
  int again = 0; std::string m2, mf; for (int k = 0; k < 3; ++k) { int r = runIsolated(p, c, m2, nullptr, O.caseTimeout, false); if (r == 2 || r == 4) { ++again; mf = m2; } }
  if (again < 3) { std::cerr << "the shrunk case reproduces " << again << "/3: keeping the original choices\n"; c = whole; mf = how; }
  m2 = mf;
  std::cerr << "minimal failure (" << c.size() << " choices, reproduced " << again << "/3): " << printable(m2) << "\n";
  R.violation = true; R.msg = m2; R.replay = writeReplay(p.id, p.part, m2, c, idx);
  return R;
}

// a probe in a child: empty when it holds
static std::string runProbe(const Probe & b) {
  Prop p{b.id, b.key, nullptr, 0, 0, ""}; (void)p;
  Shm * save = S; static Shm * mine = newShm(); S = mine; S->status = 0; S->msg[0] = 0; S->nrec = 0;
  std::string err = g_tmpRoot + "/err"; pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1);
    try { b.fn(); S->status = 1; } catch (...) { std::string m = describeCurrent(); strncpy(S->msg, m.c_str(), sizeof S->msg - 1); S->status = 2; }
    std::string sd = scratch(); rmTree(sd); _exit(0);
  }
  uint64_t t0 = nowMs(); int st = 0; std::string res; bool hung = false;
  for (;;) { pid_t k = waitpid(pid, &st, WNOHANG); if (k == pid) break; if (nowMs() - t0 > 60000) { kill(-pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; } usleep(2000); }
  kill(-pid, SIGKILL);
  if (hung) res = "no answer within 60 s";
  else if (S->status == 2) res = *S->msg ? S->msg : "failed";
  else if (S->status == 0) { res = describeExit(st); std::string l = sanitizerLine(err); if (!l.empty()) res += ": " + l; }
  rmTree(g_tmpRoot + "/" + std::to_string(pid));
  S = save; return res;
}
}

using namespace vt;
int main(int argc, char ** argv) {
  { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; g_exe = b; }
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") O.prop = v(); else if (a == "--part") O.part = v(); else if (a == "--tier") O.tier = v();
    else if (a == "--seed") O.seed = strtoull(v().c_str(), 0, 10); else if (a == "--workers") O.workers = atoi(v().c_str());
    else if (a == "--time") O.timeCap = atof(v().c_str()); else if (a == "--scale") O.scale = atof(v().c_str());
    else if (a == "--replay") O.replay = v(); else if (a == "--out") O.out = v(); else if (a == "--replay-dir") O.replayDir = v();
    else if (a == "--findings") O.findings = v(); else if (a == "--list") O.list = true; else if (a == "--no-probes") O.noprobes = true;
    else { std::cerr << "unknown option " << a << "\n"; return 2; }
  }
  if (O.list) { for (auto & p : props()) std::cout << p.id << " " << p.part << " " << p.quick << " " << p.thorough << "\n"; for (auto & b : probes()) std::cout << b.id << " probe " << b.key << "\n"; return 0; }
  char t[] = "/tmp/vtx.XXXXXX"; if (!mkdtemp(t)) return 2; g_tmpRoot = t;
  S = newShm();
  struct Cleanup { ~Cleanup() { rmTree(g_tmpRoot); } } cleanup;
  if (!O.replay.empty()) {
    std::ifstream i(O.replay); std::string k, prop, part, l; std::vector<uint64_t> c; uint64_t hist[5] = {0, 0, 0, 0, 0};
    while (i >> k) { if (k == "property") i >> prop; else if (k == "part") i >> part; else if (k == "choices") { size_t n; i >> n; c.resize(n); for (auto & x : c) i >> x; } else if (k == "history") i >> hist[0] >> hist[1] >> hist[2] >> hist[3] >> hist[4]; else std::getline(i, l); }
    if (part.compare(0, 6, "probe-") == 0) {
      for (auto & b : probes()) if (b.id == prop && part == std::string("probe-") + b.key) { std::string r = runProbe(b); std::cerr << (r.empty() ? "holds" : printable(r)) << "\n"; return r.empty() ? 0 : 1; }
      return 2;
    }
    for (auto & p : props()) if (p.id == prop && part == p.part) { std::string m;
      if (hist[1]) { O.seed = hist[4]; bool bad = runHistory(p, hist[0], hist[1], hist[2], hist[3], m); std::cerr << (bad ? "FAIL " : "pass ") << printable(m) << "\n"; return bad; }
      int r = runIsolated(p, c, m, nullptr, 600, true); std::cerr << (r == 2 || r == 4 ? "FAIL " : r == 3 ? "DISCARD " : "pass ") << printable(m) << "\n"; return r == 2 || r == 4; }
    std::cerr << "no such check\n"; return 2;
  }
  unsigned partsLeft = 0; for (auto & p : props()) if (p.id == O.prop && (O.part.empty() || O.part == p.part)) ++partsLeft;
  const double timeTotal = O.timeCap;
  Stats tot; uint64_t t0 = nowMs(); std::vector<std::string> rules; bool viol = false, found = false; std::string vline, parts;
  std::set<std::string> known;
  { std::ifstream i(O.findings); std::string l; while (std::getline(i, l)) { std::string pre = "KNOWN-FINDING: property=" + O.prop + " "; if (l.compare(0, pre.size(), pre) == 0) { std::string rest = l.substr(pre.size()); known.insert(rest.substr(0, rest.find(' '))); } } }
  unsigned knownHits = 0, probesRun = 0;
  if (!O.noprobes) for (auto & b : probes()) if (b.id == O.prop && (O.part.empty())) {
    found = true; ++probesRun; std::string r = runProbe(b);
    if (r.empty()) continue;
    for (int k = 0; k < 2 && !r.empty(); ++k) { std::string r2 = runProbe(b); if (r2.empty()) r.clear(); }
    if (r.empty()) continue;
    if (known.count(b.key)) { std::cout << "KNOWN-FINDING: property=" << O.prop << " " << b.key << " " << printable(r.substr(0, 300)) << "\n"; ++knownHits; continue; }
    viol = true; std::vector<uint64_t> c; vline = writeReplay(b.id, std::string("probe-") + b.key, r, c, 0);
    std::cerr << "fixed input " << b.key << " fails: " << printable(r) << "\n"; break;
  }
  for (auto & p : props()) if (!viol && p.id == O.prop && (O.part.empty() || O.part == p.part)) {
    if (timeTotal > 0) O.timeCap = std::max(3.0, (timeTotal - (nowMs() - t0) / 1000.0) / partsLeft); --partsLeft;
    found = true; Stats one; uint64_t t1 = nowMs(); Result r = runProp(p, one);
    std::cerr << p.id << "/" << p.part << ": " << one.evals << " cases, " << one.nontriv << " non-trivial (" << one.hashes.size() << " distinct), " << one.discards << " discarded, " << one.mutated << " coverage-guided, " << one.cov << " edges in one worker, " << (nowMs() - t1) / 1000.0 << " s\n";
    for (auto & l : one.labels) std::cerr << "    " << l.first << ": " << l.second << " (" << 100 * l.second / std::max<uint64_t>(1, one.evals - one.discards) << "%)\n";
    tot.evals += one.evals; tot.nontriv += one.nontriv; tot.discards += one.discards; tot.mutated += one.mutated; tot.cov = std::max(tot.cov, one.cov);
    for (auto h : one.hashes) tot.hashes.insert(h ^ hashStr(p.part));
    for (auto & l : one.labels) tot.labels[std::string(p.part) + ": " + l.first] += l.second;
    size_t ns = 0; for (auto & s : one.samples) if (ns++ < 4) tot.samples.push_back(std::string(p.part) + " " + s);
    rules.push_back(std::string(p.part) + ": " + p.rule);
    if (r.violation) { viol = true; vline = r.replay; }
  }
  if (!found) { std::cerr << "no check for property " << O.prop << "\n"; return 2; }
  if (!O.out.empty()) {
    std::ofstream o(O.out);
    o << "{\"evaluations\":" << tot.evals << ",\"distinct_nontrivial\":" << tot.hashes.size() << ",\"nontrivial\":" << tot.nontriv << ",\"discarded\":" << tot.discards << ",\"coverage_guided\":" << tot.mutated << ",\"edges\":" << tot.cov << ",\"probes\":" << probesRun << ",\"known_findings\":" << knownHits << ",\"rule\":\"";
    for (size_t i = 0; i < rules.size(); ++i) o << (i ? "; " : "") << jesc(rules[i]);
    o << "\",\"samples\":["; for (size_t i = 0; i < tot.samples.size(); ++i) o << (i ? "," : "") << "\"" << jesc(tot.samples[i]) << "\"";
    o << "],\"labels\":{"; size_t i = 0; for (auto & l : tot.labels) o << (i++ ? "," : "") << "\"" << jesc(l.first) << "\":" << l.second;
    o << "},\"wall_s\":" << (nowMs() - t0) / 1000.0 << ",\"violations\":" << (viol ? 1 : 0) << "}\n";
  }
  if (viol) { std::cout << "VIOLATION property=" << O.prop << " replay=" << vline << std::endl; return 1; }
  return 0;
}
