// A self-contained annotator for programs that load engines by themselves: it
// writes down what it is asked to do, in the file VT_TOOL_LOG, and changes what it gets.
#include "uima/api.hpp"
#include "uima/annotator_context.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <cstdlib>
#include <string>
#include <set>
using namespace uima;
namespace {
struct Tool : Annotator {
  AnnotatorContext * ctx = nullptr; std::string who; size_t pos = 0; std::vector<icu::UnicodeString> segs;
  void log(const std::string & s) { const char * f = getenv("VT_TOOL_LOG"); if (!f) return; int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0600); if (fd < 0) return; std::string l = who + " " + s + "\n"; if (write(fd, l.data(), l.size())) {} close(fd); }
  TyErrorId initialize(AnnotatorContext & c) override { ctx = &c; c.getTaeSpecifier().getAnalysisEngineMetaData()->getName().toUTF8String(who); log("initialize"); return UIMA_ERR_NONE; }
  TyErrorId destroy() override { log("destroy"); return UIMA_ERR_NONE; }
  TyErrorId batchProcessComplete() override { log("batch"); return UIMA_ERR_NONE; }
  TyErrorId collectionProcessComplete() override { log("collection"); return UIMA_ERR_NONE; }
  TyErrorId process(CAS & c, ResultSpecification const &) override {
    std::string t = c.getDocumentText().asUTF8(), q; for (char ch : t) q += (unsigned char)ch < 32 ? '~' : ch;
    std::string view = c.getViewName().asUTF8(); ANIndex ix = c.getAnnotationIndex(); ANIterator it = ix.iterator(); std::string cover; std::set<std::string> types; size_t n = 0;
    for (it.moveToFirst(); it.isValid(); it.moveToNext()) { ++n; cover += std::to_string(it.get().getBeginPosition()) + "-" + std::to_string(it.get().getEndPosition()) + ","; }
    log("process view=" + view + " annotations=" + std::to_string(n) + " at " + cover + " text=" + q);
    Type ann = c.getTypeSystem().getType(CAS::TYPE_NAME_ANNOTATION);
    for (size_t i = 0; i < n % 3 + 1; ++i) c.getIndexRepository().addFS(c.createAnnotation(ann, i + who.size(), i + n + who.size()));
    segs.clear(); pos = 0; icu::UnicodeString u(c.getDocumentText().getBuffer(), c.getDocumentText().length()), cur;
    for (int32_t i = 0; i < u.length(); ++i) if (u.charAt(i) == 'e') { segs.push_back(cur); cur.remove(); if (segs.size() > 4) break; } else cur.append(u.charAt(i));
    if (u.length() % 7 == 5) return 4711;
    if (u.length() % 7 == 3) throw uima::Exception(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "planted"), 4712, ErrorInfo::recoverable);
    return UIMA_ERR_NONE;
  }
  bool hasNext() override { return pos < segs.size(); }
  CAS & next() override { log("next " + std::to_string(pos)); CAS & c = ctx->getEmptyCAS(); c.setDocumentText(UnicodeStringRef(segs[pos++])); c.getIndexRepository().addFS(c.createAnnotation(c.getTypeSystem().getType(CAS::TYPE_NAME_ANNOTATION), 0, pos)); return c; }
  int getCasInstancesRequired() override { return ctx->getTaeSpecifier().getAnalysisEngineMetaData()->getOperationalProperties() && ctx->getTaeSpecifier().getAnalysisEngineMetaData()->getOperationalProperties()->getOutputsNewCASes() ? 2 : 0; }
};
}
extern "C" Annotator * makeAE() { return new Tool(); }
