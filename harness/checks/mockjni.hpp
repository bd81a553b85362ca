// A Java virtual machine as far as the Java bridge needs one: strings, arrays and
// the object that holds the engine.  Elements handed out are copies of exact size.
#pragma once
#include "../core/ucas.hpp"
#include <jni.h>
namespace vt {
struct JObj { std::string cls; US str; std::vector<JObj *> elems; std::vector<jint> ints; std::vector<jbyte> bytes; std::vector<jshort> shorts; std::vector<jlong> longs; jlong field = 0; int frame = -1; bool dead = false; };
struct MockJvm {
  std::vector<std::unique_ptr<JObj>> heap; std::map<const void *, const JObj *> pinned; int frames = 0;
  bool thrown = false; std::string message; jlong errorId = 0; std::vector<std::string> logged;
  JNIEnv * env(); MockJvm(); ~MockJvm();
  JObj * make(const std::string & cls); JObj * string(const US & s);
  template <class V> JObj * ints(const V & v) { auto o = make("[I"); o->ints.assign(v.begin(), v.end()); return o; }
  JObj * strings(const std::vector<uima::UnicodeStringRef> & v);
  bool took(jlong & id, std::string & msg);    // an exception is pending: takes it
};
extern MockJvm * jvm;
}
