// Damage done to XML documents.
#pragma once
#include "../core/ucas.hpp"
namespace vt {
struct XTok { enum K { TEXT, OPEN, CLOSE, EMPTY, OTHER } k = TEXT; std::string name; std::vector<std::pair<std::string, std::string>> attrs; std::string text; };
std::vector<XTok> xmlTokens(const std::string & doc);      // of a document written by the library or the checks
std::string xmlJoin(const std::vector<XTok> & t);
struct MutPool { std::vector<std::string> elems, attrs, values; };
// at least one change; what was done is appended to log
std::string mutate(Gen & g, const std::string & doc, const MutPool & pool, std::string & log);
}
