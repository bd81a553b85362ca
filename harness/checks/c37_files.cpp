// P37: file names, locations and resources lead to what their users named.
#include "engines.hpp"
#include "uima/resmgr.hpp"
#include "uima/res_abase.hpp"
#include "uima/filename.hpp"
#include "uima/location.hpp"
#include "uima/dirwalk.hpp"
#include "uima/envvars.h"
#include <unistd.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace uima;
using namespace vt;
namespace {
std::string freshDir() { static int n = 0; std::string d = scratch() + cat("/w", n++); mkdir(d.c_str(), 0700); return d; }
void removeTree(const std::string & d) {
  if (d.compare(0, scratch().size(), scratch())) return; DIR * o = opendir(d.c_str()); if (!o) return; std::vector<std::string> v; while (dirent * e = readdir(o)) v.push_back(e->d_name); closedir(o);
  for (auto & n : v) if (n != "." && n != "..") { std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) removeTree(p); else ::unlink(p.c_str()); } ::rmdir(d.c_str());
}
struct Tree { std::string dir; Tree() : dir(freshDir()) {} ~Tree() { removeTree(dir); } };
struct Cwd { int fd; Cwd() : fd(open(".", O_RDONLY | O_DIRECTORY)) {} ~Cwd() { if (fchdir(fd)) {} close(fd); } };
struct DataDir { std::string old; DataDir() : old(ResourceManager::getInstance().getLocationData().getAsCString()) { while (old.size() > 1 && old.back() == '/') old.pop_back(); } ~DataDir() { ResourceManager::getInstance().setNewLocationData(util::Location(old.c_str())); } };
void makeDirs(const std::string & p) { for (size_t i = p.find('/', 1); i != std::string::npos; i = p.find('/', i + 1)) mkdir(p.substr(0, i).c_str(), 0700); mkdir(p.c_str(), 0700); }
bool isFile(const std::string & p) { struct stat st; return !stat(p.c_str(), &st); }
std::string def(const US & s) { std::vector<char> b(s.length() * 6 + 16); int n = s.extract(0, s.length(), b.data(), (unsigned)b.size(), (const char *)nullptr); return std::string(b.data(), n); }
std::string rel(const std::string & p, const std::string & d) { return p.compare(0, d.size(), d) ? p : "…" + p.substr(d.size()); }
}
PROPERTY("P37", "resolve", 4000, 150000, "a name that exists at some place but not at the first") {
  initUima(); Tree t; Cwd cwd; DataDir dd; std::string d = t.dir;
  std::string data = d + g.one<const char *>({"/data", "/the data", "/cwd/data", "/data.x/y"}); for (std::string s : {d + "/cwd", d + "/cwd/last", d + "/far/last", data, data + "/descriptors", data + "/specifiers"}) makeDirs(s);
  if (chdir((d + "/cwd").c_str())) fail("chdir"); bool relData = g.chance(1, 4) && data == d + "/cwd/data"; ResourceManager::getInstance().setNewLocationData(util::Location(relData ? "data" : data.c_str()));
  std::vector<std::string> names = {"a.xml", "b c.xml", "sub/a.xml", "no-extension", "x.y.xml", "f/a.xml", "a", "sub/deep/name.with.dots.xml", std::string(120, 'n') + ".xml"};
  for (size_t q = 1 + g.below(3); q-- > 0;) {
    std::string n = g.pick(names), last = g.one<const char *>({".", "", "last/engine.xml", "@/far/last/engine.xml", "@/cwd/last/a.xml", "last/no", "last/", "engine.xml", "@/far/last/an-engine-with-a-very-long-name.descriptor.xml", "gone/engine.xml"}); if (last[0] == '@') last = d + last.substr(1);
    std::string lastDir = last.substr(0, last.rfind('/') == std::string::npos ? 0 : last.rfind('/') + 1); std::vector<std::string> places = {d + "/cwd/" + n, (lastDir.empty() || lastDir[0] != '/' ? d + "/cwd/" : "") + lastDir + n, data + "/" + n, data + "/descriptors/" + n, data + "/specifiers/" + n};
    std::vector<std::string> made; for (size_t i = 0; i < places.size(); ++i) {
      if (i == 1 && (lastDir.empty() || lastDir == "gone/")) continue; std::string dir = places[i].substr(0, places[i].rfind('/'));
      if (!g.chance(1, 3)) { if (g.chance(1, 6) && n.compare(0, 2, "f/") == 0) { ::rmdir(dir.c_str()); struct stat st; if (stat(dir.c_str(), &st)) { writeFile(dir, "a file"); made.push_back(dir); } } continue; }
      makeDirs(dir); struct stat st; if (stat(dir.c_str(), &st) || !S_ISDIR(st.st_mode)) continue; writeFile(places[i], cat("place ", i)); made.push_back(places[i]);
    }
    bool abs = g.chance(1, 8); std::string ask = abs ? places[g.below(places.size())] : n; int at = -1; for (size_t i = 0; i < places.size() && at < 0; ++i) if (isFile(places[i])) at = (int)i;
    std::string got = def(ResourceManager::resolveFilename(us(ask), us(last))); g.note(cat("resolve ", rel(ask, d), " last ", rel(last, d), ": ", rel(got, d), "\n")); for (auto & m : made) g.note("  there is " + rel(m, d) + "\n");
    if (abs || at < 0) CHECK_EQ(rel(got, d), rel(ask, d), "an ", abs ? "absolute" : "unknown", " name after it was resolved");
    else { CHECK(isFile(got), "the resolved name ", rel(got, d), " does not exist although there is ", rel(places[at], d)); CHECK_EQ(readFile(got), readFile(places[at]), "file which ", n, " is resolved to, as ", rel(got, d), ", expected ", rel(places[at], d)); if (at > 0) g.nontrivial(); }
    g.label(abs ? "absolute" : cat("place:", at)); g.sample(cat(n, " at ", at, "; "));
    for (auto & m : made) ::unlink(m.c_str());
  }
}
PROPERTY("P37", "languages", 6000, 200000, "a language with territory, or an alternate one, found through another name") {
  initUima(); Tree t; Cwd cwd; std::string d = t.dir + g.one<const char *>({"/d", "/with blank", "/x.y"}); makeDirs(d); if (chdir(t.dir.c_str())) fail("chdir");
  const std::vector<std::string> stems = {"en", "en-us", "en-gb", "de", "de-ch", "de-at", "fr", "es-mx", "x", "enx", "pt"}, exts = {".tsw", ".twf", ".t", ".tsw.bak", ""}; std::set<std::string> there, dirs;
  for (size_t n = g.below(g.flip() ? 9 : 30); n-- > 0;) { std::string f = g.pick(stems) + exts[g.weighted({6, 2, 1, 1, 1})]; if (!dirs.count(f)) { writeFile(d + "/" + f, f); there.insert(f); g.note("there is " + f + "\n"); } }
  for (size_t q = 1 + g.below(4); q-- > 0;) {
    std::string l = g.one<const char *>({"en", "en-us", "en-gb", "en-ca", "de", "de-ch", "de-de", "fr", "fr-fr", "es", "es-mx", "pt", "EN-US", "en_us"}), ext = g.one<const char *>({".tsw", ".tsw", ".tsw", ".twf", ".t"}); bool alt = g.flip(); Language lang(l.c_str()); std::string canon = lang.asString(), ll = canon.substr(0, 2); std::set<std::string> want;
    if (there.count(canon + ext)) want.insert(canon + ext); else if (there.count(ll + ext)) want.insert(ll + ext); else if (alt) for (auto & f : there) if (f.compare(0, 2, ll) == 0 && f.size() >= 2 + ext.size() && f.compare(f.size() - ext.size(), ext.size(), ext) == 0) want.insert(f);
    util::Filename out("before"); bool relDir = g.flip(); util::Location loc(relDir ? d.substr(t.dir.size() + 1).c_str() : d.c_str()); bool got = ResourceManager::createFilenameForLanguage(lang, ext.c_str(), alt, loc, out);
    g.note(cat("language ", l, ext, alt ? " or other territories" : "", ": ", got ? rel(out.getAsCString(), t.dir) : "none", "\n"));
    CHECK_EQ(got, !want.empty(), "whether there is a file for ", l, ext, ", files: ", want.empty() ? "" : *want.begin()); g.label(want.empty() ? "none" : *want.begin() == canon + ext ? "exact" : "other"); if (!want.empty() && !want.count(canon + ext)) g.nontrivial();
    if (got) { CHECK(isFile(out.getAsCString()), "the file ", out.getAsCString(), " does not exist"); CHECK(want.count(readFile(out.getAsCString())), "file for ", l, ext, ": ", out.getAsCString(), ", expected ", *want.begin()); CHECK_EQ(std::string(out.getName()), readFile(out.getAsCString()), "name of the file for ", l); } g.sample(cat(l, ext, got ? " found; " : " not found; "));
  }
}
PROPERTY("P37", "names", 6000, 150000, "a name with a directory and an extension that was changed") {
  initUima(); Tree t; Cwd cwd; if (chdir(t.dir.c_str())) fail("chdir");
  auto part = [&] { std::string s; for (size_t n = 1 + g.below(g.chance(1, 10) ? 60 : 6); n-- > 0;) s += g.one<const char *>({"a", "b", "C", "-", " ", "1", "\xc3\xa9", "."}); if (s.find_first_not_of('.') == std::string::npos) s += "n"; return s; };
  auto dir = [&] { std::string s; if (g.chance(1, 4)) s = "/"; for (size_t n = g.below(4); n-- > 0;) s += part() + "/"; return s; };
  auto ext = [&] { return "." + std::string(g.one<const char *>({"xml", "x", "txt", "longextension", "", "1"})); };
  auto baseOf = [](const std::string & n) { size_t p = n.rfind('/'); return p == std::string::npos ? n : n.substr(p + 1); }; auto dirOf = [](const std::string & n) { size_t p = n.rfind('/'); return p == std::string::npos ? std::string() : n.substr(0, p + 1); };
  auto extOf = [&](const std::string & n) { std::string b = baseOf(n); size_t p = b.rfind('.'); return p == std::string::npos ? std::string() : b.substr(p); };
  std::vector<std::unique_ptr<util::Filename>> f; std::vector<std::string> m; bool changed = false;
  auto add = [&](util::Filename * x, std::string s) { f.emplace_back(x); m.push_back(s); g.note(cat("name ", m.size() - 1, ": ", s, "\n")); };
  for (size_t n = 3 + g.below(14); n-- > 0;) {
    size_t op = f.empty() ? g.below(2) : g.below(8); size_t i = f.empty() ? 0 : g.below(f.size());
    if (f.size() > 6 && op < 3) op = 3;
    switch (op) {
      case 0: { std::string s = dir() + part() + (g.flip() ? ext() : ""); add(new util::Filename(s.c_str()), s); break; }
      case 1: { std::string p = "/" + part() + "x", b = part() + "z", e = g.flip() ? ext() : ""; std::string want = p + "/" + b + e; bool sl = g.flip(); add(e.empty() ? new util::Filename((p + (sl ? "/" : "")).c_str(), b.c_str()) : new util::Filename((p + (sl ? "/" : "")).c_str(), b.c_str(), e.c_str()), want); break; }
      case 2: { if (g.flip()) add(new util::Filename(*f[i]), m[i]); else { util::Filename * x = g.flip() ? new util::Filename() : new util::Filename("other"); *x = *f[i]; add(x, m[i]); } break; }
      case 3: { std::string s = part() + (g.flip() ? ext() : ""); f[i]->setNewName(s.c_str()); m[i] = dirOf(m[i]) + s; g.note(cat(i, " new name ", s, "\n")); changed = true; break; }
      case 4: { std::string s = ext(), e = extOf(m[i]); f[i]->setNewExtension(s.c_str()); m[i] = m[i].substr(0, m[i].size() - e.size()) + s; g.note(cat(i, " new extension ", s, "\n")); changed = true; break; }
      case 5: { std::string p = dir(), b = part(), e = ext(); switch (g.below(3)) { case 0: f[i]->setNew((p + b).c_str()); m[i] = p + b; break; case 1: f[i]->setNew(p.c_str(), b.c_str()); m[i] = p + b; break; default: f[i]->setNew(p.c_str(), b.c_str(), e.c_str()); m[i] = p + b + e; } g.note(cat(i, " new: ", m[i], "\n")); break; }
      case 6: { size_t j = g.below(f.size()); *f[i] = *f[j]; m[i] = m[j]; g.note(cat(i, " = ", j, "\n")); break; }
      default: { if (f.size() > 1) { f.erase(f.begin() + i); m.erase(m.begin() + i); } break; }
    }
    for (size_t k = 0; k < f.size(); ++k) {
      util::Filename & x = *f[k]; CHECK_EQ(std::string(x.getAsCString()), m[k], "file name ", k); CHECK_EQ(std::string((const char *)x), m[k], "file name ", k); CHECK_EQ(x.getLength(), m[k].size(), "length of ", m[k]); CHECK_EQ(std::string(x.getName()), baseOf(m[k]), "name of ", m[k]); CHECK_EQ(std::string(x.getExtension()), extOf(m[k]), "extension of ", m[k]); CHECK_EQ(x.isAbsolute(), m[k][0] == '/', "whether ", m[k], " is absolute");
      std::vector<char> b(m[k].size() + 1, 'Z'); x.extractPath(b.data()); CHECK_EQ(std::string(b.data()), dirOf(m[k]), "path of ", m[k]); std::fill(b.begin(), b.end(), 'Z'); x.extractBaseName(b.data()); std::string base = baseOf(m[k]); base.resize(base.size() - extOf(m[k]).size()); CHECK_EQ(std::string(b.data()), base, "base name of ", m[k]);
      size_t o = g.below(f.size()); std::string ob = baseOf(m[o]); ob.resize(ob.size() - extOf(m[o]).size()); CHECK_EQ(x.matchesBase(*f[o]), base == ob, "whether ", m[k], " and ", m[o], " have the same base name"); if (changed && !dirOf(m[k]).empty() && !extOf(m[k]).empty()) g.nontrivial();
    }
  }
  // the names of files which exist
  struct There { std::string p; size_t n; }; std::vector<There> files; for (size_t n = 1 + g.below(3); n-- > 0;) { std::string p = t.dir + "/" + (g.flip() ? "s" + part() + "/" : "") + "f" + part(); makeDirs(dirOf(p).substr(0, dirOf(p).size() - 1)); struct stat st; if (!stat(p.c_str(), &st)) continue; std::string c(g.below(5000), 'x'); writeFile(p, c); files.push_back({p, c.size()}); }
  for (auto & x : files) {
    std::string r = x.p.substr(t.dir.size() + 1), odd = g.one<const char *>({"", "./", "no/../", ".//"}) + r; if (odd.compare(0, 3, "no/") == 0) makeDirs(t.dir + "/no"); util::Filename n(g.flip() ? x.p.c_str() : odd.c_str()); g.note(cat("existing ", n.getAsCString(), "\n"));
    CHECK(n.isExistent(), "the file ", n.getAsCString(), " exists"); CHECK_EQ(n.getFileSize(), (unsigned long)x.n, "size of ", n.getAsCString()); util::Filename below((x.p + "/below").c_str()), lng((x.p + std::string(5000, 'n')).c_str()), none((x.p + "-").c_str()); bool has = isFile(x.p + "-"); CHECK(!below.isExistent(), "a file below a file exists"); CHECK(!lng.isExistent(), "a file with a name that is too long exists"); CHECK_EQ(none.isExistent(), has, "whether ", none.getAsCString(), " exists"); CHECK_EQ(below.getFileSize(), 0ul, "size of a file that does not exist");
    util::Filename a(n); a.normalizeAbsolute(); CHECK(a.isAbsolute(), "normalized name ", a.getAsCString()); CHECK_EQ(std::string(a.getAsCString()), x.p, "absolute name of ", n.getAsCString()); util::Filename b(a); b.normalizeAbsolute(); CHECK_EQ(std::string(b.getAsCString()), std::string(a.getAsCString()), "absolute name of an absolute name"); util::Filename c(n); c.normalize(); CHECK(c.isExistent() && c.getFileSize() == x.n, "normalized name ", c.getAsCString(), " of ", n.getAsCString());
    std::string dirn = dirOf(x.p); util::Filename found(("else/where/" + baseOf(x.p)).c_str()); bool inNone = isFile(t.dir + "/none/" + baseOf(x.p)); CHECK(found.determinePath((t.dir + "/none:" + dirn.substr(0, dirn.size() - 1) + ":" + t.dir).c_str()), "the file ", baseOf(x.p), " is on the path"); if (!inNone) CHECK_EQ(std::string(found.getAsCString()), x.p, "file found on a path"); util::Filename miss("no-such-file"); CHECK(!miss.determinePath(dirn.substr(0, dirn.size() - 1).c_str()), "found a file that does not exist");
  }
  // locations and directories
  util::Location l(t.dir.c_str()), l2(l), l3("x"); l3 = l2; CHECK_EQ(std::string(l.getAsCString()), t.dir + "/", "location"); CHECK_EQ(std::string(l2.getAsCString()), t.dir + "/", "copied location"); CHECK_EQ(std::string(l3.getAsCString()), t.dir + "/", "assigned location"); CHECK(l.isExistent() && l2.isAbsolute(), "location"); util::Location made((t.dir + "/made").c_str()); CHECK(!made.isExistent() && !isFile(t.dir + "/made"), "a directory before it is made"); made.makeDirectory(); CHECK(made.isExistent(), "a directory that was made"); made.makeDirectory();
  std::map<std::string, bool> want, got; DIR * o = opendir(t.dir.c_str()); while (dirent * e = readdir(o)) { struct stat st; lstat((t.dir + "/" + e->d_name).c_str(), &st); want[e->d_name] = S_ISDIR(st.st_mode); } closedir(o); std::string pat = g.one<const char *>({"*", "f*", "*a", "s*", "*.*", "f?", "*.xml", "no", "?"});
  util::DirectoryWalk w(t.dir.c_str()); for (; w.isValid(); w.setToNext()) { std::string n = w.getNameWithoutPath(); CHECK(!got.count(n), "directory entry twice: ", n); got[n] = w.isDirectory(); CHECK_EQ(w.isFile(), !w.isDirectory(), "kind of ", n); CHECK_EQ(w.matchesWildcardPattern(pat.c_str()), fnmatch(pat.c_str(), n.c_str(), 0) == 0, "whether ", n, " matches ", pat); } CHECK(!w.isFile() && !w.isDirectory() && !w.setToNext(), "entry after the last");
  CHECK_EQ(got.size(), want.size(), "directory entries"); for (auto & e : want) CHECK(got.count(e.first) && got[e.first] == e.second, "directory entry ", e.first); util::DirectoryWalk none((t.dir + "/nowhere").c_str()); CHECK(!none.isValid(), "walk through a directory that does not exist");
  g.label(cat("files:", files.size())); if (!m.empty()) g.sample(m.back() + "; ");
}
namespace {
struct Count { int created = 0, inits = 0, deinits = 0, deleted = 0; };
std::map<std::string, Count> counts; int failures; std::vector<std::string> broken;
struct Res : ResourceABase {
  std::string id; bool ready = false; int serial; static int made;
  Res(US const & k, US const & kind) : ResourceABase(k, kind), id(u8(kind) + "/" + u8(k)), serial(++made) { ++counts[id].created; }
  ~Res() override { ++counts[id].deleted; if (ready) broken.push_back(id + " is deleted before it was de-inited"); }
  void init(ErrorInfo & e) override { ++counts[id].inits; if (ready) broken.push_back(id + " is inited twice"); if (failures > 0) { --failures; e.setErrorId(4711); e.setMessage(ErrorMessage((TyMessageId)UIMA_MSG_ID_LITERAL_STRING, "no")); return; } ready = true; }
  void deInit() override { ++counts[id].deinits; if (!ready) broken.push_back(id + " is de-inited without init"); ready = false; }
};
int Res::made = 0;
struct Fact : ResourceFactoryABase { Fact(US const & k) : ResourceFactoryABase(k) {} ResourceABase * createResource(US const & k) const override { return new Res(k, getKind()); } };
// runs something in a process of its own, which has the resource manager to itself
void inProcess(const std::string & what, std::function<void()> f) {
  std::string out = scratch() + "/report"; ::unlink(out.c_str()); pid_t p = fork();
  if (p == 0) { alarm(60); std::string err = "ok"; try { f(); } catch (Fail & x) { err = x.msg; } catch (Exception & x) { err = "exception: " + excText(x); } catch (std::exception & x) { err = std::string("exception: ") + x.what(); } writeFile(out, err); _exit(0); }
  int st = 0; waitpid(p, &st, 0); std::string s = readFile(out); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, what, ": the process ends with status ", st); CHECK(s == "ok", what, ": ", s);
}
struct Op { int op, kind, key, fails; };
}
PROPERTY("P37", "resources", 1500, 40000, "a resource asked for again, and one whose first init failed") {
  initUima(); std::vector<Op> ops; bool failed = false, again = false; std::set<std::pair<int, int>> seen;
  for (size_t n = 2 + g.below(30); n-- > 0;) { Op o; o.op = (int)g.weighted({8, 6, 2, 3, 2}); o.kind = (int)g.below(3); o.key = (int)g.below(5); o.fails = g.chance(1, 5); failed = failed || o.fails; if (o.op < 2 && !seen.insert({o.kind, o.key}).second) again = true; ops.push_back(o); g.note(cat("op ", o.op, " kind ", o.kind, " key ", o.key, o.fails ? " fails" : "", "\n")); }
  g.nontrivial(failed && again); g.label(failed ? "failing" : "all succeed"); g.sample(cat(ops.size(), " requests; "));
  inProcess("resources", [&] {
    auto & r = ResourceManager::getInstance(); std::vector<std::unique_ptr<Fact>> facts; const char * kinds[] = {"vt.kind", "tsw", "vt.kind2"}, * keys[] = {"en", "en-us", "de", "key", "kEy"}; for (auto k : kinds) facts.emplace_back(new Fact(us(k))); std::map<std::string, const ResourceABase *> live; std::map<std::string, int> serials, created; bool reg[3] = {false, false, false};
    for (auto & o : ops) {
      std::string id = cat(kinds[o.kind], "/", keys[o.key]); ErrorInfo e; failures = o.fails; ResourceABase const * x = nullptr;
      if (o.op == 3) { if (!reg[o.kind]) { r.registerFactory(us(kinds[o.kind]), *facts[o.kind]); reg[o.kind] = true; } continue; } if (o.op == 4) { r.deRegisterFactory(us(kinds[o.kind]), *facts[o.kind]); reg[o.kind] = false; continue; }
      bool known = o.op != 1 || reg[o.kind];
      if (o.op == 1) x = r.getResource(us(keys[o.key]), us(kinds[o.kind]), e); else if (o.op == 2) { int k = o.key % 3; id = cat(kinds[o.kind], "/", keys[k]); x = r.getResource(Language(keys[k]), *facts[o.kind], e); } else x = r.getResource(us(keys[o.key]), *facts[o.kind], e);
      if (!known) { CHECK(!x, "a resource of a kind without factory"); CHECK_EQ(e.getErrorId(), (TyErrorId)UIMA_ERR_RESMGR_NO_RESOURCE_FACTORY_FOR_KIND, "error for a kind without factory"); failures = 0; continue; }
      if (live.count(id)) { CHECK(x == live[id] && ((Res *)x)->serial == serials[id], "another object for ", id); CHECK_EQ(e.getErrorId(), UIMA_ERR_NONE, "error for the existing resource ", id); }
      else { ++created[id]; if (o.fails) { CHECK(!x, "a resource whose init failed: ", id); CHECK_EQ(e.getErrorId(), 4711, "error for ", id); CHECK_EQ(e.getMessage().asString(), "no", "message for ", id); } else { CHECK(x, "no resource ", id); CHECK_EQ(e.getErrorId(), UIMA_ERR_NONE, "error for ", id); CHECK_EQ(u8(x->getKind()) + "/" + u8(x->getKey()), id, "key and kind"); CHECK(((Res *)x)->ready, id, " is not inited"); live[id] = x; serials[id] = ((Res *)x)->serial; } }
      failures = 0; for (auto & c : created) { CHECK_EQ(counts[c.first].created, c.second, "objects created for ", c.first); CHECK_EQ(counts[c.first].inits, c.second, "inits of ", c.first); CHECK_EQ(counts[c.first].deleted, c.second - (int)live.count(c.first), "objects deleted of ", c.first); CHECK_EQ(counts[c.first].deinits, 0, "de-inits of ", c.first); }
    }
    ResourceManager::deleteInstance(); CHECK(!ResourceManager::hasInstance(), "instance after deleteInstance");
    for (auto & c : created) { CHECK_EQ(counts[c.first].deinits, (int)live.count(c.first), "de-inits of ", c.first, " in the end"); CHECK_EQ(counts[c.first].deleted, c.second, "deleted objects of ", c.first, " in the end"); } CHECK(broken.empty(), broken.empty() ? "" : broken[0]);
  });
}
PROPERTY("P37", "manager", 400, 10000, "several stream handlers, a data path or a long home directory") {
  initUima(); Tree t; std::string home = getenv("UIMACPP_HOME"); int depth = g.chance(1, 3) ? (int)(10 + g.below(60)) : (int)g.below(4); bool withHome = !g.chance(1, 6), blank = g.chance(1, 3); std::string deep = t.dir; for (int i = 0; i < depth; ++i) deep += "/" + std::string(blank ? "a name" : "name") + std::string(g.below(40), 'n'); if (deep.size() > 3800) deep.resize(3800); while (deep.back() == '/') deep.pop_back();
  std::vector<std::pair<std::string, std::string>> hs; std::string env; for (size_t n = g.below(5), i = 0; i < n; ++i) { std::string s = cat(g.one<const char *>({"http", "s", "my-scheme", "A"}), i), f = g.one<const char *>({"/some/lib.so", "lib", "./a:b.so", "/x/y"}); hs.push_back({s, f}); env += std::string(g.below(3) + (i ? 1 : 0), ' ') + s + ":" + f; } env += std::string(g.below(3), ' ');
  bool dp = g.flip(), wp = g.flip(), dup = g.chance(1, 3); Ae a = primitiveAe("p"); AeFormat f; f.dir = t.dir; g.nontrivial(hs.size() > 1 || dp || deep.size() > 1000); g.label(withHome ? deep.size() > 1000 ? "long home" : "home" : "no home"); g.label(cat("handlers:", hs.size())); g.sample(cat(deep.size(), " characters, ", hs.size(), " handlers; ")); g.note(cat("home ", deep, "\nhandlers '", env, "'\n"));
  inProcess("resource manager", [&] {
    ResourceManager::deleteInstance(); makeDirs(deep); if (symlink((home + "/data").c_str(), (deep + "/data").c_str())) fail("symlink"); makeDirs(t.dir + "/dp");
    if (withHome) setenv("UIMACPP_HOME", deep.c_str(), 1); else unsetenv("UIMACPP_HOME"); if (dp) setenv("UIMACPP_DATAPATH", (t.dir + "/dp").c_str(), 1); else unsetenv("UIMACPP_DATAPATH"); if (wp) setenv("UIMACPP_WORKPATH", (t.dir + "/wp").c_str(), 1); else { unsetenv("UIMACPP_WORKPATH"); setenv("TMP", t.dir.c_str(), 1); } if (hs.empty()) unsetenv("UIMACPP_STREAMHANDLERS"); else setenv("UIMACPP_STREAMHANDLERS", env.c_str(), 1);
    if (dup && !hs.empty()) { setenv("UIMACPP_STREAMHANDLERS", (env + " " + hs[0].first + ":another").c_str(), 1); CHECK(throwsUima([&] { ResourceManager::createInstance("vt2"); }), "a scheme with two handlers"); CHECK(!ResourceManager::hasInstance(), "an instance although it could not be made"); setenv("UIMACPP_STREAMHANDLERS", env.c_str(), 1); }
    ResourceManager & r = ResourceManager::createInstance("vt2"); CHECK(&r == &ResourceManager::getInstance() && &r == &ResourceManager::createInstance("other") && ResourceManager::hasInstance(), "there is one instance");
    CHECK_EQ(std::string(r.getLocationData().getAsCString()), dp ? t.dir + "/dp/" : std::string("./"), "data location"); CHECK_EQ(std::string(r.getLocationWork().getAsCString()), t.dir + (wp ? "/wp/" : "/"), "work location");
    r.setNewLocationData(util::Location("new data")); r.setNewLocationWork(util::Location("new work")); CHECK_EQ(std::string(r.getLocationData().getAsCString()), "new data/", "new data location"); CHECK_EQ(std::string(r.getLocationWork().getAsCString()), "new work/", "new work location");
    for (auto & h : hs) { auto * x = r.getStreamHandlerForURIScheme(h.first); CHECK(x, "no handler for ", h.first); CHECK_EQ(std::string(x->getAsCString()), h.second, "handler for ", h.first); } CHECK(!r.getStreamHandlerForURIScheme("unknown") && !r.getStreamHandlerForURIScheme("htt"), "a handler nobody registered");
    CHECK_EQ(r.isSchemaAvailable(), withHome, "whether there is a schema"); if (withHome) { std::string p = deep + "/data/resourceSpecifierSchema.xsd", q; for (char c : p) q += c == ' ' ? std::string("%20") : std::string(1, c); CHECK_EQ(std::string(r.getSchemaInfo()), "http://uima.apache.org/resourceSpecifier " + q, "where the schema is"); }
    r.enableSchemaValidation(false); CHECK(!r.doSchemaValidation(), "schema validation"); r.enableSchemaValidation(true); CHECK(r.doSchemaValidation(), "schema validation"); 
    Stage st; { EngineP e = makeEngine(g, a); ViewP c(e->newCAS()); CHECK_EQ(e->process(*c), UIMA_ERR_NONE, "process with a new resource manager"); }
  });
}
