// Analysis engines whose annotators are scripted by a check.
#pragma once
#include "../core/aedesc.hpp"
#include "../core/dump.hpp"
#include "uima/annotator_context.hpp"
#include "uima/annotator_abase.hpp"
#include "uima/engine.hpp"
#include "uima/result_specification.hpp"
#include "uima/casiterator.hpp"
#include "uima/caspool.hpp"
namespace vt {
struct Ann;
struct Role {               // what the annotators of one primitive descriptor do; nothing: succeed
  std::function<uima::TyErrorId(Ann &, uima::AnnotatorContext &)> init;
  std::function<uima::TyErrorId(Ann &, uima::TypeSystem const &)> tsInit;
  std::function<uima::TyErrorId(Ann &, uima::CAS &, uima::ResultSpecification const &)> process;
  std::function<uima::TyErrorId(Ann &)> reconf, batch, coll, destroy;
  std::function<bool(Ann &)> hasNext; std::function<uima::CAS &(Ann &)> next; int instances = 0;
};
struct Ev { std::string op, who; int id; };
struct Stage {              // the annotators alive during one case
  std::map<std::string, Role> roles; std::vector<Ev> log; int created = 0, deleted = 0; std::set<Ann *> live;
  Stage(); ~Stage();
  std::vector<std::string> ops(size_t from = 0) const;   // "op who"
};
extern Stage * stage;
struct Ann : uima::Annotator {
  int id; std::string who; uima::AnnotatorContext * ctx = nullptr; std::string state;
  Ann(); ~Ann();
  Role & role(); void ev(const char * op);
  uima::TyErrorId initialize(uima::AnnotatorContext & c) override;
  uima::TyErrorId typeSystemInit(uima::TypeSystem const & t) override;
  uima::TyErrorId destroy() override; uima::TyErrorId reconfigure() override;
  uima::TyErrorId process(uima::CAS & c, uima::ResultSpecification const & r) override;
  uima::TyErrorId batchProcessComplete() override; uima::TyErrorId collectionProcessComplete() override;
  bool hasNext() override; uima::CAS & next() override; int getCasInstancesRequired() override;
};
// a primitive component
Ae primitiveAe(const std::string & name);
struct TreeOpts { int depth = 3; size_t maxPrims = 8; bool repeats = true, unused = true; };
// aggregates with fixed flows over scripted annotators with distinct names
Ae genEngineTree(Gen & g, const TreeOpts & o);
std::vector<std::string> expandFlow(const Ae & a);         // names of the primitives in the order of their calls
void primitivesOf(Ae & a, std::vector<Ae *> & out);        // all primitive descriptors
void componentsOf(Ae & a, std::vector<Ae *> & out);        // all descriptors
const Ae * delegateOf(const Ae & a, const std::string & key);
// spreads a type system over the components of a tree; some types are declared several times with parts of their features
void spreadTypes(Gen & g, const MTS & ts, Ae & root);
struct EngineDelete { void operator()(uima::AnalysisEngine * e) const; };   // with the description when it does not belong to the engine
typedef std::unique_ptr<uima::AnalysisEngine, EngineDelete> EngineP;
uima::AnalysisEngine * tryEngine(Gen & g, const Ae & a, uima::ErrorInfo & e, std::string * doc = nullptr);    // nullptr when refused
EngineP makeEngine(Gen & g, const Ae & a);                                       // Fail when refused
struct ViewP { uima::CAS * base = nullptr, * c = nullptr; explicit ViewP(uima::CAS * v = nullptr) : base(v ? v->getBaseCas() : nullptr), c(v) {} ViewP(ViewP && o) : base(o.base), c(o.c) { o.base = o.c = nullptr; } ViewP & operator=(ViewP && o) { std::swap(base, o.base); std::swap(c, o.c); return *this; } ~ViewP() { delete base; } uima::CAS & operator*() const { return *c; } uima::CAS * operator->() const { return c; } };
// changes a CAS in a way that depends only on what is in it, and on who does it
void effect(const MTS & ts, uima::CAS & c, const std::string & who);
std::string whole(uima::CAS & c);                          // the content of a CAS
void setDoc(Gen & g, uima::CAS & c);
}
