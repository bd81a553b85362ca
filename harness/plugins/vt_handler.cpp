// A sofa stream handler library; the handler itself lives in the test program.
#include "uima/api.hpp"
#include "uima/sofastreamhandler.hpp"
using namespace uima;
extern "C" SofaStreamHandler * vtNewStreamHandler();
extern "C" SofaStreamHandler * makeHandler() { return vtNewStreamHandler(); }
