// An annotator library; the annotators themselves live in the test program.
#include "uima/api.hpp"
using namespace uima;
extern "C" Annotator * vtNewAnnotator();
extern "C" Annotator * makeAE() { return vtNewAnnotator(); }
