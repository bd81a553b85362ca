// XML descriptors written by the checks.
#pragma once
#include "ucas.hpp"
namespace vt {
std::string xmlEsc(const std::string & s);
std::string tsBody(const MTS & ts, const std::vector<std::string> & imports = {});          // <imports>, <types>
std::string tsXml(const MTS & ts, const std::vector<std::string> & imports = {});           // a whole document
void writeFile(const std::string & path, const std::string & data);
std::string readFile(const std::string & path);
// every query of a type system against the model
void checkTypeSystem(const MTS & ts, uima::TypeSystem & sys, Gen * g);
}
