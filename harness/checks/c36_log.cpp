// P36: log entries and error reports reach the user as they were given.
#include "engines.hpp"
#include "uima/log.hpp"
#include "uima/resmgr.hpp"
#include <thread>
#include <mutex>
#include <atomic>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
using namespace uima;
using namespace vt;
namespace {
typedef LogStream::EnEntryType Lev; const Lev LEV[3] = {LogStream::EnMessage, LogStream::EnWarning, LogStream::EnError};
struct Entry {
  int type; std::string origin, method, text; long code; bool anyCode = false;
  std::string show() const { return cat("[", type, "] ", origin, " | ", method, " | ", text, " | ", code); }
  bool same(const Entry & o) const { return type == o.type && origin == o.origin && method == o.method && text == o.text && (anyCode || o.anyCode || code == o.code); }
};
struct Rec : Logger {
  std::vector<Entry> got; std::atomic<int> inside{0}; bool overlap = false, yielding = false, throws = false; Logger * forward = nullptr;
  void log(Lev t, std::string c, std::string m, std::string x, long code) override {
    if (inside.fetch_add(1)) overlap = true;
    if (yielding) std::this_thread::yield();
    if (throws) { inside.fetch_sub(1); throw std::runtime_error("logger"); }
    Entry e; e.type = t; e.origin = c; e.method = m; e.text = x; e.code = code; got.push_back(e); inside.fetch_sub(1);
  }
};
// loggers and level as they were
struct Restore {
  ResourceManager & r; std::vector<Logger *> l; Lev v; Restore() : r(ResourceManager::getInstance()), l(r.getLoggers()), v(r.getLoggingLevel()) {}
  ~Restore() { r.getLoggers() = l; r.setLoggingLevel(v); }
};
std::string genLine(Gen & g, bool ascii = false) {
  std::string t; for (size_t n = g.weighted({2, 6, 2}) == 2 ? 40 + g.below(3000) : 1 + g.below(14); n-- > 0;) t += g.one<const char *>({"a", "b", "message", " ", "%1", "%", "\n", "x y", "{0}", "<&>", "\\", "1"});
  if (!ascii && g.chance(1, 5)) t += g.one<const char *>({"\xc3\xa9", "\xff", "\x01", "\xe4\xb8\xad"}); return t;
}
long genCode(Gen & g) { return g.chance(1, 4) ? 0 : g.chance(1, 6) ? (long)g.bits64() : g.range(-3, 5000); }
std::string def(const US & s) { std::vector<char> b(s.length() * 6 + 16); int n = s.extract(0, s.length(), b.data(), (unsigned)b.size(), (const char *)nullptr); return std::string(b.data(), n); }
ErrorInfo genInfo(Gen & g) {
  ErrorInfo e; ErrorMessage m((TyMessageId)UIMA_MSG_ID_LITERAL_STRING, genLine(g)); e.setErrorId((TyErrorId)g.range(1, 5000)); e.setMessage(m); e.setSeverity(g.flip() ? ErrorInfo::recoverable : ErrorInfo::unrecoverable);
  for (size_t n = g.below(3); n-- > 0;) e.addContext(ErrorContext(ErrorMessage((TyMessageId)UIMA_MSG_ID_LITERAL_STRING, genLine(g)), g.flip() ? "file.cpp" : NULL, g.flip() ? "function" : NULL, g.below(3)));
  return e;
}
// what the last error of a facility is
struct Last { int kind = 0; std::string text; long code = 0; ErrorInfo info; };   // 0 none, 1 text, 2 info, 3 not specified
struct Fac {
  LogFacility * f = nullptr; std::string origin; int level = 0; std::string pending; int pendType = 0; Last last; bool own = true; LogStream * s = nullptr;
};
struct Logs {
  Gen & g; ResourceManager & r; std::vector<std::unique_ptr<Rec>> recs; std::vector<std::vector<Entry>> want; std::vector<int> reg; // registrations in order
  std::vector<Fac> facs; std::unique_ptr<FileLogger> file; std::string path; std::vector<Entry> fileWant; time_t t0; int logged = 0, dropped = 0;
  explicit Logs(Gen & g) : g(g), r(ResourceManager::getInstance()) {}
  void emit(Fac & f, int type, const std::string & text, long code, bool anyCode = false) {
    if (type < f.level) { ++dropped; return; } ++logged;
    Entry e; e.type = type; e.origin = f.origin; e.text = text; e.code = code; e.anyCode = anyCode;
    for (int i : reg) if (i < 0) fileWant.push_back(e); else want[i].push_back(e);
  }
  void text(Fac & f, int type, const std::string & t, long code) { emit(f, type, t, code); if (type == 2) { if (t.empty()) f.last.kind = 3; else { f.last.kind = 1; f.last.text = t; f.last.code = code; } } }
  void flushPending(Fac & f) { if (f.pending.empty()) return; text(f, f.pendType, f.pending, 0); f.pending.clear(); }
  void compare() {
    for (size_t i = 0; i < recs.size(); ++i) {
      auto & a = recs[i]->got; auto & b = want[i];
      for (size_t k = 0; k < a.size() || k < b.size(); ++k) { CHECK(k < a.size(), "logger ", i, " misses entry ", k, " ", b[k].show()); CHECK(k < b.size(), "logger ", i, " got an entry too many: ", a[k].show()); CHECK(a[k].same(b[k]), "logger ", i, " entry ", k, ": got ", a[k].show(), ", expected ", b[k].show()); }
      a.clear(); b.clear();
    }
    if (!file) return;
    std::string s = readFile(path); size_t p = 0;
    for (auto & e : fileWant) {
      struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_isdst = -1; const char * q = strptime(s.substr(p, 24).c_str(), "%a %b %d %H:%M:%S %Y", &tm); CHECK(q, "no time before the entry ", e.show(), " in the log file: ", s.substr(p, 80)); time_t t = mktime(&tm); CHECK(t >= t0 - 1 && t <= time(nullptr) + 1, "the time of a log entry: ", s.substr(p, 24)); p += 24;
      std::string x = e.type == 0 ? " INFO: " : e.type == 1 ? " WARNING: " : " SEVERE: "; CHECK_EQ(s.substr(p, x.size()), x, "type of the entry ", e.show(), " in the log file"); p += x.size();
      if (e.anyCode) { if (s.compare(p, 4, " RC=") == 0) { p += 4; while (p < s.size() && (isdigit(s[p]) || s[p] == '-')) ++p; ++p; } }
      else if (e.type || e.code) { x = cat(" RC=", e.code, " "); CHECK_EQ(s.substr(p, x.size()), x, "code of the entry ", e.show(), " in the log file"); p += x.size(); }
      x = e.origin + " " + e.text + "\n"; CHECK_EQ(s.substr(p, x.size()), x, "entry in the log file"); p += x.size();
    }
    CHECK_EQ(s.size(), p, "size of the log file");
  }
  void checkLast(Fac & f) {
    if (f.last.kind == 3) return;
    for (int pass = 0; pass < 3; ++pass) {
      if (g.flip()) {
        ErrorInfo const & e = f.f->getLastError();
        if (f.last.kind == 0) CHECK_EQ(e.getErrorId(), UIMA_ERR_NONE, "last error although none was logged");
        else if (f.last.kind == 1) {
          CHECK_EQ((long)e.getErrorId(), (long)(TyErrorId)(f.last.code ? f.last.code : UIMA_ERR_USER_ANNOTATOR_ERROR_UNSPECIFIED), "id of the last error");
          if (e.getErrorId() != UIMA_ERR_NONE) CHECK_EQ(e.getMessage().asString(), f.origin + ": " + f.last.text, "message of the last error");
        } else { CHECK_EQ(e.getErrorId(), f.last.info.getErrorId(), "id of the last error"); CHECK_EQ(e.asString(), f.last.info.asString(), "last error"); CHECK_EQ(e.contextCount(), f.last.info.contextCount(), "contexts of the last error"); CHECK_EQ(e.isRecoverable(), f.last.info.isRecoverable(), "severity of the last error"); }
      } else {
        const char * s = f.f->getLastErrorAsCStr();
        if (f.last.kind == 0) CHECK(!s, "last error although none was logged: ", s);
        else if (f.last.kind == 1) { if ((TyErrorId)f.last.code == 0 && f.last.code) continue; CHECK(s, "no last error"); CHECK(std::string(s).find(f.origin + ": " + f.last.text) != std::string::npos, "text of the last error: ", s, ", logged: ", f.last.text); CHECK(std::string(s).find(f.origin + ": " + f.last.text) == std::string(s).rfind(f.origin + ": " + f.last.text) || f.last.text.size() < 4, "the last error is named twice: ", s); }
        else { CHECK(s, "no last error"); CHECK_EQ(std::string(s), f.last.info.asString(), "text of the last error"); }
      }
    }
  }
};
}
PROPERTY("P36", "log", 4000, 150000, "at least five entries reached loggers through two facilities or more") {
  initUima(); Restore restore; Logs w(g); w.t0 = time(nullptr); w.r.getLoggers().clear(); std::set<std::string> used;
  { Fac f; f.f = &w.r.getLogger(); f.own = false; f.origin = "org.apache.uima.cpp"; f.last.kind = 3; w.facs.push_back(f); }
  size_t steps = 5 + g.below(60);
  for (size_t k = 0; k < steps; ++k) {
    Fac & f = w.facs[g.below(w.facs.size())];
    switch (g.weighted({3, 2, 1, 3, 1, 14, 4, 8, 3, 4, 2})) {
      case 0: {
        if (w.recs.size() < 4 && g.flip()) { w.recs.emplace_back(new Rec); w.want.emplace_back(); }
        if (w.recs.empty()) break; int i = (int)g.below(w.recs.size()); if (std::count(w.reg.begin(), w.reg.end(), i) && !g.chance(1, 4)) break;
        w.r.registerLogger(w.recs[i].get()); w.reg.push_back(i); g.note(cat("register logger ", i, "\n")); break;
      }
      case 1: {
        if (w.recs.empty()) break; int i = (int)g.below(w.recs.size()); g.note(cat("unregister logger ", i, "\n")); auto p = std::find(w.reg.begin(), w.reg.end(), i);
        bool threw = throwsUima([&] { w.r.unregisterLogger(w.recs[i].get()); }); CHECK_EQ(threw, p == w.reg.end(), "exception from unregisterLogger"); if (p != w.reg.end()) w.reg.erase(p); break;
      }
      case 2: if (!w.file) { w.path = scratch() + cat("/log", k); if (g.flip()) writeFile(w.path, ""); else ::unlink(w.path.c_str()); w.file.reset(new FileLogger(w.path)); w.r.registerLogger(w.file.get()); w.reg.push_back(-1); g.note("file logger\n"); } break;
      case 3: {
        if (w.facs.size() < 5 && g.chance(2, 3)) {
          Fac n; US name = g.chance(1, 8) ? us("\xc3\xa9ngine") : g.chance(1, 10) ? US() : us(g.one<const char *>({"engine", "a.b.C", "my annotator", "org.apache.uima.cpp", "e"})); n.origin = def(name);
          if (g.flip()) { n.level = (int)w.r.getLoggingLevel(); n.f = new LogFacility(name); } else { n.level = (int)g.below(3); n.f = new LogFacility(name, LEV[n.level]); }
          g.note(cat("facility ", w.facs.size(), " ", n.origin, " level ", n.level, "\n")); w.facs.push_back(n);
        } else if (w.facs.size() > 1) { size_t i = 1 + g.below(w.facs.size() - 1); g.note(cat("delete facility ", i, "\n")); w.flushPending(w.facs[i]); delete w.facs[i].f; w.facs.erase(w.facs.begin() + i); }
        break;
      }
      case 4: { int l = (int)g.below(3); w.r.setLoggingLevel(LEV[l]); CHECK_EQ((int)w.r.getLoggingLevel(), l, "logging level"); g.note(cat("level ", l, "\n")); break; }
      case 5: {
        int t = (int)g.below(3); long c = genCode(g); bool hasCode = c || g.flip(); std::string s = genLine(g); int how = (int)g.below(3); g.note(cat("facility ", &f - &w.facs[0], " log ", t, " code ", c, " as ", how, ": ", s, "\n")); US u;
        if (how == 2) { u = US::fromUTF8(s); s = def(u); if (s.find('\0') != std::string::npos) break; }
        #define VT_LOG(fn) do { if (how == 0) { if (hasCode) f.f->fn(s.c_str(), c); else f.f->fn(s.c_str()); } else if (how == 1) { if (hasCode) f.f->fn(s, c); else f.f->fn(s); } else if (hasCode) f.f->fn(u, c); else f.f->fn(u); } while (0)
        if (t == 0) VT_LOG(logMessage); else if (t == 1) VT_LOG(logWarning); else VT_LOG(logError);
        w.text(f, t, s, c); used.insert(cat(&f - &w.facs[0])); break;
      }
      case 6: { ErrorInfo e = genInfo(g); int t = 1 + (int)g.below(2); g.note(cat("facility ", &f - &w.facs[0], " log info ", t, ": ", e.asString(), "\n")); if (t == 1) f.f->logWarning(e); else f.f->logError(e); w.emit(f, t, e.asString(), 0, true); f.last.kind = t == 1 ? 3 : 2; f.last.info = e; break; }
      case 7: {
        if (!f.own && g.flip()) break; int t = (int)g.below(3); w.flushPending(f); f.pendType = t; LogStream & s = f.f->getLogStream(LEV[t]); f.s = &s; g.note(cat("facility ", &f - &w.facs[0], " stream ", t, "\n"));
        for (size_t n = g.below(3); n-- > 0;) { std::string x = genLine(g); int num = (int)g.range(-50, 50); s << x << num; f.pending += x + cat(num); g.note("  << " + x + cat(num) + "\n"); }
        if (g.flip()) { s.flush(); w.flushPending(f); g.note("  flush\n"); if (g.chance(1, 3)) { s << "more"; f.pending += "more"; s.flush(); w.flushPending(f); } } used.insert(cat(&f - &w.facs[0])); break;
      }
      case 8: { g.note(cat("facility ", &f - &w.facs[0], " flush\n")); if (f.s && g.flip()) f.s->flush(); else f.f->flushLogStream(); w.flushPending(f); break; }
      case 9: {
        int t = (int)g.below(3); std::string x = genLine(g); int n = (int)g.range(0, 99); g.note(cat("facility ", &f - &w.facs[0], " stream macro ", t, ": ", x, n, "\n")); LogFacility & l = *f.f; w.flushPending(f);
        if (g.flip()) UIMA_LOG_STREAM(l, LEV[t], x << n) else if (t == 0) { UIMA_LOG_STREAM_MESSAGE(l, x << n) } else if (t == 1) { UIMA_LOG_STREAM_WARNING(l, x << n) } else { UIMA_LOG_STREAM_ERROR(l, x << n) }
        w.text(f, t, x + cat(n), 0); break;
      }
      default: w.checkLast(f); break;
    }
    if (g.chance(1, 3)) w.compare();
  }
  for (auto & f : w.facs) w.checkLast(f);
  for (auto & f : w.facs) { w.flushPending(f); if (f.own) delete f.f; else f.f->flushLogStream(); }
  w.compare(); g.nontrivial(w.logged >= 5 && w.facs.size() >= 2); g.label(w.dropped ? "below level" : "all levels"); g.label(w.file ? "file" : "no file"); g.label(cat("loggers:", w.recs.size())); g.sample(cat(w.logged, " entries, ", w.facs.size(), " facilities; "));
}
PROPERTY("P36", "threads", 150, 5000, "three threads or more logged through one facility") {
  initUima(); Restore restore; auto & r = ResourceManager::getInstance(); r.getLoggers().clear(); r.setLoggingLevel(LogStream::EnMessage);
  size_t nt = 2 + g.below(5), nl = 1 + g.below(3), n = 20 + g.below(150); bool own = g.chance(1, 3); std::vector<std::unique_ptr<Rec>> recs; for (size_t i = 0; i < nl; ++i) { recs.emplace_back(new Rec); recs.back()->yielding = g.flip(); r.registerLogger(recs.back().get()); }
  LogFacility shared(us("shared"), LogStream::EnMessage); std::vector<std::vector<Entry>> plan(nt); std::vector<int> kinds(nt);
  for (size_t t = 0; t < nt; ++t) for (size_t i = 0; i < n; ++i) { Entry e; e.type = (int)g.below(3); e.origin = own ? cat("own", t) : "shared"; e.text = cat("thread ", t, " entry ", i, " ", std::string(g.chance(1, 3) ? 30 + g.below(60) : 0, (char)('a' + t))); e.code = (long)(t * 1000 + i + 1); plan[t].push_back(e); }
  std::atomic<int> ready{0}; std::vector<std::thread> th;
  for (size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
    std::unique_ptr<LogFacility> mine; if (own) mine.reset(new LogFacility(us(cat("own", t)), LogStream::EnMessage)); LogFacility & f = own ? *mine : shared; ++ready; while (ready < (int)nt) std::this_thread::yield();
    for (auto & e : plan[t]) { if (e.type == 0) f.logMessage(e.text, e.code); else if (e.type == 1) f.logWarning(e.text, e.code); else f.logError(e.text, e.code); }
  });
  for (auto & t : th) t.join();
  for (size_t i = 0; i < nl; ++i) {
    CHECK(!recs[i]->overlap, "logger ", i, " was called by two threads at once"); CHECK_EQ(recs[i]->got.size(), nt * n, "entries of logger ", i); std::vector<size_t> at(nt, 0);
    for (auto & e : recs[i]->got) { size_t t = (size_t)(e.code - 1) / 1000; CHECK(t < nt && at[t] < n, "entry ", e.show()); CHECK(e.same(plan[t][at[t]]), "thread ", t, " entry ", at[t], ": got ", e.show(), ", expected ", plan[t][at[t]].show()); ++at[t]; }
    if (i) for (size_t k = 0; k < nt * n; ++k) CHECK(recs[i]->got[k].same(recs[0]->got[k]), "loggers disagree about the order at ", k);
  }
  if (!own) {
    // the last error is one of those logged last by its thread
    ErrorInfo const & e = shared.getLastError(); bool found = false, any = false; for (auto & p : plan) { for (size_t i = p.size(); i-- > 0;) if (p[i].type == 2) { any = true; found = found || ((long)e.getErrorId() == p[i].code && e.getMessage().asString() == "shared: " + p[i].text); break; } }
    if (any) CHECK(found, "last error: ", e.asString());
  }
  g.nontrivial(nt >= 3 && !own); g.label(own ? "own facilities" : "one facility"); g.sample(cat(nt, " threads, ", n, " entries each; "));
}
// texts of messages: the parameters, in whatever way they were given, stand at their places
PROPERTY("P36", "messages", 6000, 200000, "a message with two parameters or more, or a report with contexts") {
  initUima();
  auto marks = [](size_t n) { std::vector<std::string> v; for (size_t i = 0; i < n; ++i) v.push_back(cat("\x01", i, "\x02")); return v; };
  auto gen = [&](ErrorMessage & m, std::string & want) {
    bool lit = g.chance(1, 3); TyMessageId id = (TyMessageId)(lit ? UIMA_MSG_ID_LITERAL_STRING : UIMA_MSG_ID_SIGNATURE_BEGIN + g.below(UIMA_MSG_ID_SIGNATURE_END - UIMA_MSG_ID_SIGNATURE_BEGIN)); size_t n = g.below(5); std::vector<std::string> ps; bool first = true; m = ErrorMessage(id);
    for (size_t i = 0; i < n; ++i) {
      std::string s; bool ctor = first && g.flip();
      #define VT_PARAM(v) do { if (ctor) m = ErrorMessage(id, v); else m.addParam(v); } while (0)
      switch (g.below(9)) {
        case 0: { std::string x = genLine(g); s = x; VT_PARAM(x.c_str()); break; }
        case 1: { std::string x = genLine(g); s = x; VT_PARAM(x); break; }
        case 2: { US x = us(genLine(g, true)); s = u8(x); VT_PARAM(x); break; }
        case 3: { int x = (int)g.bits64(); s = std::to_string(x); VT_PARAM(x); break; }
        case 4: { unsigned x = (unsigned)g.bits64(); s = std::to_string(x); VT_PARAM(x); break; }
        case 5: { long x = (long)g.bits64(); s = std::to_string(x); VT_PARAM(x); break; }
        case 6: { unsigned long x = (unsigned long)g.bits64(); s = std::to_string(x); VT_PARAM(x); break; }
        case 7: { double x = (double)g.range(-3000, 3000) / 8; char b[60]; snprintf(b, sizeof b, "%g", x); s = b; VT_PARAM(x); break; }
        default: { US x = us(genLine(g, true)); s = u8(x); if (ctor) m = ErrorMessage(id, x.getTerminatedBuffer()); else m.addParam(x); break; }
      }
      ps.push_back(s); first = false;
    }
    if (n && g.chance(1, 5)) m = ErrorMessage(id, ps);
    if (g.chance(1, 8)) m = ErrorMessage(m);
    want = ErrorMessage(id, marks(n)).asString(); std::string r; size_t at = 0;
    for (size_t i = 0; i < want.size(); ++i) if (want[i] == '\x01') { size_t e = want.find('\x02', i); CHECK(e != std::string::npos, want); size_t k = (size_t)atol(want.c_str() + i + 1); CHECK(k < n, want); r += ps[k]; i = e; ++at; } else r += want[i];
    if (lit) CHECK_EQ(r, n ? ps[0] : std::string("???"), "literal text"); want = r; CHECK_EQ((long)m.getMessageID(), (long)id, "message id"); CHECK_EQ(m.getMessageParams().size(), n, "parameters"); for (size_t i = 0; i < n; ++i) CHECK_EQ(m.getMessageParams()[i], ps[i], "parameter ", i);
    if (n >= 2) g.nontrivial(); g.label(cat("params:", n)); g.label(at ? "substituted" : "plain");
  };
  ErrorMessage m; std::string want; gen(m, want); CHECK_EQ(m.asString(), want, "text of a message"); { std::ostringstream o; o << m; CHECK_EQ(o.str(), want, "message written to a stream"); }
  TyErrorId id = (TyErrorId)g.range(1, 9999); auto sev = g.flip() ? ErrorInfo::recoverable : ErrorInfo::unrecoverable; size_t nc = g.below(4); if (nc) g.nontrivial(); g.sample(want.substr(0, 60) + "; ");
  struct Ctx { std::string text; const char * file, * fun; unsigned long line; }; std::vector<Ctx> cs; ErrorInfo info(m, id, sev);
  for (size_t i = 0; i < nc; ++i) { ErrorMessage c; Ctx x; gen(c, x.text); x.file = g.flip() ? "some/file.cpp" : NULL; x.fun = g.flip() ? "fun" : NULL; x.line = g.chance(1, 3) ? 0 : g.below(100000); info.addContext(ErrorContext(c, x.file, x.fun, x.line)); cs.push_back(x); }
  ErrorInfo e; e = info; if (g.flip()) { try { if (g.flip()) throw Exception(info); Exception x(m, id, sev); for (size_t i = 0; i < nc; ++i) x.getErrorInfo().addContext(*info.contextPtrAtIndex(i)); throw x; } catch (Exception & x) { e = x.getErrorInfo(); CHECK_EQ(x.getErrorInfo().asString(), info.asString(), "report of an exception"); CHECK_EQ(x.getErrorInfo().getErrorId(), id, "id of an exception"); } }
  CHECK_EQ(e.getErrorId(), id, "error id"); CHECK_EQ(e.isRecoverable(), sev == ErrorInfo::recoverable, "recoverable"); CHECK_EQ(e.getMessage().asString(), want, "message of a report"); CHECK_EQ(e.contextCount(), nc, "contexts");
  // the report names everything, the contexts in the order they were added
  std::string s = e.asString(); size_t p = 0; auto next = [&](const std::string & x, const char * what) { size_t q = s.find(x, p); CHECK(q != std::string::npos, "the report does not name ", what, " ", x, " in its place:", s); p = q + x.size(); };
  next(cat(": ", (long)id, "\n"), "the id"); next(sev == ErrorInfo::recoverable ? "Yes" : "No", "the severity"); next(want, "the message");
  for (auto & c : cs) { next(c.text, "the context"); if (c.file) next(c.file, "the file"); if (c.fun) next(c.fun, "the function"); if (c.line) next(cat(": ", c.line, "\n"), "the line"); }
  for (size_t i = 0; i < nc; ++i) { auto * c = e.contextPtrAtIndex(i); CHECK(c && c->getMessage().asString() == cs[i].text && c->getLineNumber() == cs[i].line, "context ", i); } CHECK(!e.contextPtrAtIndex(nc), "a context too many");
  e.reset(); CHECK_EQ(e.getErrorId(), UIMA_ERR_NONE, "id after reset"); CHECK_EQ(e.contextCount(), 0u, "contexts after reset");
}
// engines, failing loggers and new resource managers
PROPERTY("P36", "engines", 400, 20000, "entries of two annotators or more, or of several resource managers") {
  initUima();
  if (g.chance(2, 3)) {
    Restore restore; auto & r = ResourceManager::getInstance(); r.getLoggers().clear(); Stage st; TreeOpts o; o.depth = 3; o.maxPrims = 5; o.repeats = false; Ae a = genEngineTree(g, o); int level = (int)g.below(3); r.setLoggingLevel(LEV[level]); Rec rec, all; r.registerLogger(&rec); std::vector<Ae *> prims; primitivesOf(a, prims); std::vector<Entry> want;
    auto say = [&](Ann & n, AnnotatorContext & c, const char * op) { int t = 0; for (char x : n.who) t += x; t %= 3; std::string m = cat("entry of ", n.who, " at ", op); LogFacility & f = c.getLogger(); if (t == 0) f.logMessage(m, 7); else if (t == 1) f.logWarning(m, 7); else f.logError(m, 7); if (t >= level) { Entry e; e.type = t; e.origin = n.who; e.text = m; e.code = 7; want.push_back(e); } };
    for (auto * p : prims) { Role & x = st.roles[p->name]; x.init = [&](Ann & n, AnnotatorContext & c) { say(n, c, "initialize"); return (TyErrorId)UIMA_ERR_NONE; }; x.process = [&](Ann & n, CAS &, ResultSpecification const &) { say(n, *n.ctx, "process"); return (TyErrorId)UIMA_ERR_NONE; }; x.reconf = [&](Ann & n) { say(n, *n.ctx, "reconfigure"); return (TyErrorId)UIMA_ERR_NONE; }; }
    { EngineP e = makeEngine(g, a); ViewP c(e->newCAS()); for (size_t n = g.below(3); n-- > 0;) { e->process(*c); c->getBaseCas()->reset(); if (g.chance(1, 3)) e->reconfigure(); } }
    std::vector<Entry> got; for (auto & e : rec.got) if (e.text.compare(0, 9, "entry of ") == 0) got.push_back(e);
    for (size_t i = 0; i < got.size() || i < want.size(); ++i) { CHECK(i < got.size(), "missing entry ", want[i].show()); CHECK(i < want.size(), "unexpected entry ", got[i].show()); CHECK(got[i].same(want[i]), "entry ", i, ": got ", got[i].show(), ", expected ", want[i].show()); }
    g.nontrivial(prims.size() >= 2 && want.size() >= 2); g.label("annotators"); g.sample(cat(prims.size(), " annotators, ", want.size(), " entries; ")); return;
  }
  bool throwing = g.flip(); int rounds = 1 + (int)g.below(3); uint64_t levels = g.bits64(); g.label(throwing ? "failing logger" : "new managers"); g.nontrivial(rounds > 1 || throwing);
  std::string out = scratch() + "/child"; ::unlink(out.c_str()); pid_t pid = fork();
  if (pid == 0) {
    alarm(30); std::string err;
    try {
      if (throwing) {
        auto & r = ResourceManager::getInstance(); r.getLoggers().clear(); Rec a, b; LogFacility f(us("f"), LogStream::EnMessage);
        for (int i = 0; i < rounds; ++i) { a.throws = true; r.registerLogger(&a); try { f.logMessage("lost"); } catch (std::exception &) {} r.unregisterLogger(&a); r.registerLogger(&b); f.logMessage("kept"); r.unregisterLogger(&b); if ((int)b.got.size() != i + 1 || b.got.back().text != "kept") err = "entries after a logger failed"; }
      } else for (int i = 0; i < rounds && err.empty(); ++i) {
        std::string log = scratch() + cat("/mgr", i); ResourceManager::deleteInstance(); if (ResourceManager::hasInstance()) err = "instance after deleteInstance"; setenv("UIMACPP_LOGFILE", log.c_str(), 1); auto & r = ResourceManager::createInstance("vt"); Rec rec; r.registerLogger(&rec); Lev l = LEV[levels >> (i * 4) & 1]; 
        if (r.getLoggers().size() != 2) err = cat(r.getLoggers().size(), " loggers of a new manager");
        { LogFacility f(us(cat("f", i)), l); f.logWarning("entry", 3); } r.getLogger().logMessage("framework");
        std::string s = readFile(log); if (s.find(cat(" WARNING:  RC=3 f", i, " entry\n")) == std::string::npos || s.find(" INFO: org.apache.uima.cpp framework\n") == std::string::npos) err = "log file: " + s;
        if (rec.got.size() != 2 || rec.got[0].origin != cat("f", i) || rec.got[1].origin != "org.apache.uima.cpp") err = cat("entries of a new manager: ", rec.got.size()); r.unregisterLogger(&rec);
      }
    } catch (Exception & x) { err = "exception: " + excText(x); } catch (std::exception & x) { err = std::string("exception: ") + x.what(); }
    writeFile(out, err.empty() ? "ok" : err); _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process which ", throwing ? "has a failing logger" : "creates resource managers anew", " does not end (status ", st, ")"); std::string s = readFile(out); CHECK_EQ(s, "ok", "report of the process"); g.sample(cat(rounds, throwing ? " failing loggers; " : " managers; "));
}
