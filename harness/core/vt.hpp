// Property-based testing core: choice-sequence generators, forked workers,
// coverage-guided mutation, shrinking of choice sequences, replay.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <utility>
#include <algorithm>

namespace vt {

struct Fail { std::string msg; };
struct Discard {};

// Source of every generated value.  Each draw is recorded so that a failing
// case is a finite list of integers which can be replayed and shrunk.
class Gen {
public:
  // uniform in [0, n-1]
  uint64_t below(uint64_t n);
  // inclusive range; shrinks toward lo
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  uint64_t bits64();
  bool flip() { return below(2) == 1; }
  // true with probability num/den, shrinks to false
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  // index by weight
  size_t weighted(std::initializer_list<unsigned> w);
  template <class V> auto & pick(V & v) { return v[below(v.size())]; }
  template <class T> T one(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  // size-ish number: small mostly, at most hi
  size_t small(size_t hi);
  // statistics
  void label(const std::string & l) { labels.insert(l); }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void sample(const std::string & s) { if (samp.size() < 600) samp += s; }
  bool exhausted() const { return overrun; }
  bool verbose = false;
  void note(const std::string & s);   // printed on replay only

  // the draws made between startTape and stopTape can be played again, so that
  // one script of choices runs against two systems
  typedef std::vector<uint64_t> Tape;
  void startTape(Tape & t) { t.clear(); tape = &t; playing = false; }
  void playTape(Tape & t) { tape = &t; playing = true; tapePos = 0; }
  void stopTape() { tape = nullptr; playing = false; }

  // internal
  Tape * tape = nullptr; bool playing = false; size_t tapePos = 0;
  bool replaying = false;
  const uint64_t * rep = nullptr; size_t nrep = 0, pos = 0, past = 0;
  uint64_t rng[2] = {1, 2};
  bool overrun = false, nontriv = false;
  std::set<std::string> labels;
  std::string samp;
  uint64_t next();
  void seed(uint64_t s);
};

struct Prop {
  const char * id;       // property id
  const char * part;     // name of this executable check of the property
  void (*fn)(Gen &);
  unsigned quick, thorough; // case counts
  const char * rule;     // what makes a case non-trivial
};
struct Probe {           // one fixed input; listed as a finding when it fails on the unchanged tree
  const char * id;
  const char * key;
  void (*fn)();
};
std::vector<Prop> & props();
std::vector<Probe> & probes();
struct RegP { RegP(Prop p) { props().push_back(p); } };
struct RegB { RegB(Probe p) { probes().push_back(p); } };

#define VT_CAT2(a, b) a##b
#define VT_CAT(a, b) VT_CAT2(a, b)
#define PROPERTY(id, part, q, t, rule)                                  \
  static void VT_CAT(prop_, __LINE__)(vt::Gen &);                       \
  static vt::RegP VT_CAT(regp_, __LINE__)(vt::Prop{id, part, VT_CAT(prop_, __LINE__), q, t, rule}); \
  static void VT_CAT(prop_, __LINE__)(vt::Gen & g)
#define PROBE(id, key)                                                  \
  static void VT_CAT(probe_, __LINE__)();                               \
  static vt::RegB VT_CAT(regb_, __LINE__)(vt::Probe{id, key, VT_CAT(probe_, __LINE__)}); \
  static void VT_CAT(probe_, __LINE__)()

[[noreturn]] void fail(const std::string & m);
inline void appendAll(std::ostringstream &) {}
template <class A, class... R> void appendAll(std::ostringstream & o, const A & a, const R &... r) { o << a; appendAll(o, r...); }
template <class... A> std::string cat(const A &... a) { std::ostringstream o; o.precision(17); appendAll(o, a...); return o.str(); }
#define CHECK(cond, ...) do { if (!(cond)) vt::fail(vt::cat("[" #cond "] ", ##__VA_ARGS__)); } while (0)
template <class A, class B> void checkEq(const A & a, const B & b, const std::string & what) {
  if (!(a == b)) fail(cat(what, ": got ", a, ", expected ", b));
}
#define CHECK_EQ(got, exp, ...) vt::checkEq((got), (exp), vt::cat(__VA_ARGS__))

std::string scratch();   // a private scratch directory of this process
std::string binDir();    // where plugins and runAECpp are
std::string verifDir();
std::string hex(const void * p, size_t n);
}
