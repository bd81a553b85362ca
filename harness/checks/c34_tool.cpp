// P34: the program runAECpp does what its user could do through the interface of the library.
#include "xmlcas.hpp"
#include "engines.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
using namespace uima;
using namespace vt;
namespace {
struct Ran { int code = 0; bool signalled = false; std::string out; };
Ran run(const std::vector<std::string> & args, const std::string & log) {
  std::string exe = binDir() + "/runAECpp", file = scratch() + "/console"; std::vector<char *> v; v.push_back((char *)exe.c_str()); for (auto & a : args) v.push_back((char *)a.c_str()); v.push_back(nullptr);
  pid_t p = fork();
  if (p == 0) { int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); setenv("VT_TOOL_LOG", log.c_str(), 1); alarm(60); execv(exe.c_str(), v.data()); _exit(111); }
  int st = 0; waitpid(p, &st, 0); Ran r; r.signalled = WIFSIGNALED(st); r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1; r.out = readFile(file); return r;
}
std::vector<std::string> lines(const std::string & s) { std::vector<std::string> r; std::istringstream i(s); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }
struct Doc { std::string name, bytes; int form = 0; bool bad = false; };       // form: 0 text, 1 xcas, 2 xmi
struct Tool {
  Gen & g; User u; std::vector<MIndex> ix; Ae a; std::string dir, in, out, desc; std::vector<Doc> docs; bool multiplier = false; int form = 0; std::string sofa; bool lenient = false;
  explicit Tool(Gen & g) : g(g) {}
  void types() {
    TSOpts t; t.maxTypes = 4; t.maxFeats = 4; u.ts = genTS(g, t); u.sys = buildTS(u.ts, &g); ix = userIndexes(g, u.ts, 1, false);
    for (auto & i : ix) { u.labels.push_back(i.label); for (auto & k : i.keys) if (!k.typePrio) u.keyFeats.insert(k.feat); } u.labels.push_back("AnnotationIndex");
    u.vo.text = T_XML; u.vo.denormals = false; u.vo.special = true; u.xmlData = true; u.noDup = true; u.cas = makeCAS(*u.sys, ix);
  }
  void engine() {
    auto prim = [&](const std::string & n) { Ae p = primitiveAe(n); p.impl = binDir() + "/vt_tool.so"; return p; };
    if (g.chance(1, 3)) { a.primitive = false; a.name = "agg"; a.flow = 0; for (size_t n = 1 + g.below(2), i = 0; i < n; ++i) { AeDel d; d.key = cat("k", i); d.ae = std::make_shared<Ae>(prim(cat("p", i))); a.dels.push_back(d); a.nodes.push_back(d.key); } if (g.chance(1, 2)) { AeMap m; m.key = "k0"; m.comp = "_InitialView"; m.agg = VIEW_NAMES[g.below(3)]; a.maps.push_back(m); } }
    else { a = prim("p"); if (g.chance(1, 3)) { multiplier = true; a.ops = true; a.modifies = a.multiple = a.outputs = 1; } }
    a.ts = u.ts; a.tsFile.assign(a.ts.types.size(), 0); a.tsElem = !a.ts.types.empty(); a.ixs = ix; a.ixFile.assign(ix.size(), 0); a.ixElem = !ix.empty();
    AeFormat f; f.dir = dir; std::string doc = aeXml(a, f); desc = dir + "/engine.xml"; writeFile(desc, doc); g.note(doc + "\n");
  }
  std::string content() {
    if (form == 0) { std::string t; int n = (int)g.below(30); for (int i = 0; i < n; ++i) t += g.one<const char *>({"a", "e", "e", " ", "\n", "\r\n", "\xc3\xa9", "\xf0\x9f\x98\x80", "<&>", "\t", "x"}); if (g.chance(1, 10)) t += "\xff\xc3"; if (g.chance(1, 12)) t += std::string(3000 + g.below(100000), 'e'); if (g.chance(1, 10)) { const char * w = g.one<const char *>({"\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80"}); for (size_t m = 400 + g.below(30000); m-- > 0;) t += w; } if (g.chance(1, 20)) t = "\xef\xbb\xbf" + t; return t; }
    u.begin(); u.run(g, 1 + g.below(25)); std::string s = form == 1 ? u.xcas() : u.xmi(); u.cas->getBaseCas()->reset(); return s;
  }
  void files() {
    form = (int)g.below(3); size_t n = g.chance(1, 3) ? 1 : g.below(6);
    for (size_t i = 0; i < n; ++i) { Doc d; d.name = cat(g.one<const char *>({"doc", "a b", ".hidden", "x.y", "\xc3\xa9t"}), i, g.one<const char *>({"", ".xml", ".txt", ".xmi"})); d.form = form; d.bytes = content(); if (form && g.chance(1, 6)) { d.bad = true; d.bytes = g.flip() ? d.bytes.substr(0, d.bytes.size() / 2) : "no xml"; } if (form && g.chance(1, 25)) d.bytes = ""; docs.push_back(d); }
  }
  // what the library makes of one document: the outputs by name
  void model(AnalysisEngine & e, const Doc & d, const std::string & path, std::map<std::string, std::string> & outs, bool & stops) {
    ViewP c(e.newCAS());
    try {
      if (d.form == 0) { US t = US::fromUTF8(icu::StringPiece(d.bytes.data(), d.bytes.size())); US x(d.bytes.data(), d.bytes.size(), "utf-8"); c->setDocumentText(UnicodeStringRef(x)); }
      else if (d.form == 1) XCASDeserializer::deserialize(path.c_str(), *c); else XmiDeserializer::deserialize(path.c_str(), *c, lenient);
      CAS * v = c.c; if (!sofa.empty()) { SofaFS s = c->getSofa(e.getAnnotatorContext().mapToSofaID(sofa.c_str())); if (!s.isValid()) { stops = true; return; } v = c->getView(s); }
      CASIterator it = e.processAndOutputNewCASes(*v); int i = 0; while (it.hasNext()) { CAS & o = it.next(); ++i; std::ostringstream x; XmiWriter w(o, true); w.write(x); outs[cat(d.name, "_seg_", i)] = x.str(); e.getAnnotatorContext().releaseCAS(o); }
      std::ostringstream x; XmiWriter w(*c, true); w.write(x); outs[d.name] = x.str();
    } catch (Exception & x) { g.note(cat("model: ", d.name, ": ", excText(x), "\n")); }
  }
  std::string shown(const std::string & xmi) {
    ViewP c(makeCAS(*u.sys, ix)); std::string e; try { readXmi(*c, xmi); } catch (Exception & x) { return "unreadable: " + excText(x) + "\n" + xmi; }
    return dumpCAS(*c, u.labels, DumpOpts());
  }
};
}
PROPERTY("P34", "files", 700, 9000, "at least two documents, or several runs, instances or segments, or a document that fails") {
  initUima(); ResourceManager::getInstance().enableSchemaValidation(false); Tool t(g); t.dir = scratch() + "/t"; if (system(("rm -rf '" + t.dir + "' && mkdir -p '" + t.dir + "/in' '" + t.dir + "/out'").c_str())) fail("scratch");
  t.types(); t.engine(); t.files(); bool single = t.docs.size() == 1 && g.flip(); if (t.form == 2) t.lenient = g.chance(1, 4); if (t.form && g.chance(1, 3)) t.sofa = VIEW_NAMES[g.below(3)];
  t.in = t.dir + "/in"; for (auto & d : t.docs) writeFile(t.in + "/" + d.name, d.bytes); if (g.chance(1, 4)) mkdir((t.in + "/sub").c_str(), 0700); if (single) t.in += "/" + t.docs[0].name;
  int runs = g.chance(1, 3) ? 2 + (int)g.below(2) : 1, inst = g.chance(1, 4) ? 2 + (int)g.below(3) : 1; bool rnd = g.chance(1, 6), write = inst == 1 && g.chance(4, 5);
  std::vector<std::string> args; std::vector<std::vector<std::string>> opts; if (t.form) opts.push_back({t.form == 2 ? "-xmi" : g.flip() ? "-x" : "-xcas"}); if (t.lenient) opts.push_back({"-lenient"}); if (!t.sofa.empty()) opts.push_back({"-s", t.sofa}); if (runs > 1 || g.chance(1, 8)) opts.push_back({"-r", cat(runs)}); if (inst > 1) opts.push_back({"-n", cat(inst)}); if (rnd) opts.push_back({"-rand"}); if (g.chance(1, 6)) opts.push_back({"-l", cat(g.below(3))}); if (g.chance(1, 12)) opts.push_back({"-rdelay", "1"});
  std::vector<std::vector<std::string>> pos = {{t.desc}, {t.in}}; if (write) pos.push_back({t.dir + "/out"});
  while (!opts.empty() || !pos.empty()) { bool o = !opts.empty() && (pos.empty() || g.flip()); auto & from = o ? opts : pos; size_t i = o ? g.below(opts.size()) : 0; for (auto & x : from[i]) args.push_back(x); from.erase(from.begin() + i); }
  std::string shownArgs; for (auto & x : args) shownArgs += "'" + x + "' "; g.sample(cat(t.docs.size(), " documents: ", shownArgs)); g.note("runAECpp " + shownArgs + "\n"); for (auto & d : t.docs) g.note("--- " + d.name + "\n" + d.bytes.substr(0, 3000) + "\n");
  // through the interface of the library
  std::map<std::string, std::string> outs; bool stops = false, failed = false; std::map<std::string, std::vector<std::string>> expect; std::string mlog = t.dir + "/model.log"; std::map<std::string, bool> okDoc;
  { ErrorInfo e; EngineP ae(Framework::createAnalysisEngine(t.desc.c_str(), e)); CHECK(ae, "no engine: ", cat(e.getErrorId())); for (auto & d : t.docs) { unlink(mlog.c_str()); setenv("VT_TOOL_LOG", mlog.c_str(), 1); size_t before = outs.size(); bool s = false; t.model(*ae, d, t.dir + "/in/" + d.name, outs, s); unsetenv("VT_TOOL_LOG"); stops = stops || s; failed = failed || (outs.size() == before); struct stat st; expect[d.name] = stat(mlog.c_str(), &st) == 0 ? lines(readFile(mlog)) : std::vector<std::string>(); } }
  if (t.docs.size() >= 2 || runs > 1 || inst > 1 || outs.size() > 1 || failed) g.nontrivial(); g.label(t.form == 0 ? "text" : t.form == 1 ? "XCAS" : "XMI"); if (failed) g.label("a document fails"); if (inst > 1) g.label("several instances"); if (stops) g.label("no such sofa"); if (t.multiplier && outs.size() > t.docs.size()) g.label("segments");
  std::string log = t.dir + "/tool.log"; unlink(log.c_str()); Ran r = run(args, log); g.note(r.out.substr(0, 20000) + "\n");
  if (stops && inst > 1) { CHECK(r.code != 0, "runAECpp succeeds without the sofa ", t.sofa, " it has to process"); return; }   // one instance ends the program beneath the others
  CHECK(!r.signalled && r.out.find("Sanitizer") == std::string::npos && r.out.find("runtime error:") == std::string::npos, "runAECpp crashes, code ", r.code, "\n", r.out.substr(0, 6000));
  if (stops) { if (!(rnd && t.docs.size() > 1)) CHECK(r.code != 0, "runAECpp succeeds without the sofa ", t.sofa, " it has to process"); return; }
  CHECK_EQ(r.code, 0, "exit code of runAECpp");
  // what the annotators were asked to do
  struct stat st; std::vector<std::string> got = stat(log.c_str(), &st) == 0 ? lines(readFile(log)) : std::vector<std::string>(), exp; std::vector<std::string> prims = expandFlow(t.a);
  for (int k = 0; k < inst; ++k) for (auto & p : prims) { exp.push_back(p + " initialize"); exp.push_back(p + " destroy"); for (int i = 0; i < runs; ++i) exp.push_back(p + " collection"); }
  if (!rnd) for (auto & d : t.docs) for (int k = 0; k < inst * runs; ++k) for (auto & l : expect[d.name]) exp.push_back(l);
  if (rnd) { std::set<std::string> known(exp.begin(), exp.end()); for (auto & d : t.docs) for (auto & l : expect[d.name]) known.insert(l); for (auto & l : got) CHECK(known.count(l), "the annotators are asked for something strange: ", l); bool all = true; size_t first = 0, firstExp = 0; for (auto & d : t.docs) { all = all && !expect[d.name].empty(); } for (auto & l : got) if (l.compare(0, prims[0].size() + 8, prims[0] + " process") == 0) ++first; firstExp = t.docs.size() * inst * runs; if (all) CHECK_EQ(first, firstExp, "documents processed in random order"); else CHECK(first <= firstExp, "more documents are processed than there are"); }
  else { std::multiset<std::string> x(exp.begin(), exp.end()), y(got.begin(), got.end()); for (auto & l : x) if (y.count(l) != x.count(l)) fail(cat("asked ", y.count(l), " times instead of ", x.count(l), ": ", l)); for (auto & l : y) if (!x.count(l)) fail(cat("asked ", y.count(l), " times instead of never: ", l)); }
  // what it wrote
  std::map<std::string, std::string> files; { std::string list = t.dir + "/list"; if (system(("cd '" + t.dir + "/out' && find . -type f | sed 's,^./,,' > '" + list + "'").c_str())) fail("scratch"); for (auto & n : lines(readFile(list))) files[n] = readFile(t.dir + "/out/" + n); }
  if (!write) { CHECK(files.empty(), "something is written: ", files.begin()->first); return; }
  for (auto & f : files) CHECK(outs.count(f.first), "a file which nobody asked for: ", f.first);
  for (auto & o : outs) { if (!files.count(o.first)) { if (rnd) continue; fail("the output " + o.first + " is missing"); } std::string x = t.shown(files[o.first]), y = t.shown(o.second); if (x != y) { g.note(y + "---\n" + x); fail(cat("the output ", o.first, " (+) is not what the engine makes of the document (-)", firstDiff(y, x))); } }
}
PROPERTY("P34", "refused", 60, 600, "every case") {
  initUima(); ResourceManager::getInstance().enableSchemaValidation(false); Tool t(g); t.dir = scratch() + "/t"; if (system(("rm -rf '" + t.dir + "' && mkdir -p '" + t.dir + "/in' '" + t.dir + "/out'").c_str())) fail("scratch"); g.nontrivial();
  t.types(); t.engine(); t.form = 0; writeFile(t.dir + "/in/doc", "hello"); std::string log = t.dir + "/tool.log"; std::vector<std::string> args = {t.desc, t.dir + "/in", t.dir + "/out"}; std::string what;
  switch (g.below(12)) {
    case 0: args.resize(g.below(2)); what = "too few arguments"; break;
    case 1: args[0] = t.dir + "/none.xml"; what = "no descriptor"; break;
    case 2: writeFile(t.desc, readFile(t.desc).substr(0, 200)); what = "malformed descriptor"; break;
    case 3: args[1] = t.dir + "/none"; what = "no input"; break;
    case 4: args[2] = args[1]; what = "output to the input"; break;
    case 5: args.push_back("-n"); args.push_back("2"); what = "instances with output"; break;
    case 6: args.push_back("-l"); args.push_back(g.one<const char *>({"3", "-1", "17"})); what = "log level"; break;
    case 7: args.push_back("-r"); args.push_back("0"); what = "no runs"; break;
    case 8: args.resize(2); args.push_back("-n"); args.push_back("0"); what = "no instances"; break;
    case 9: args.push_back(g.one<const char *>({"-s", "-l", "-n", "-r", "-rdelay"})); what = "option without value"; break;
    case 10: args.insert(args.begin(), {"-n", "2"}); what = "instances with output"; break;
    default: args.push_back("-rdelay"); args.push_back("0"); what = "no delay"; break;
  }
  g.label(what); g.sample(what); Ran r = run(args, log); g.note(r.out); CHECK(!r.signalled && r.out.find("Sanitizer") == std::string::npos, what, ": runAECpp crashes\n", r.out.substr(0, 4000));
  CHECK(r.code != 0, what, ": accepted by runAECpp"); CHECK(!r.out.empty(), what, ": nothing is said"); struct stat st; if (stat(log.c_str(), &st) == 0) { std::string l = readFile(log); CHECK(l.find("process") == std::string::npos, what, ": documents are processed"); }
}
