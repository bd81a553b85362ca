#include "mockjni.hpp"
#include <cstdarg>
using namespace uima;
namespace vt {
MockJvm * jvm = nullptr;
static JObj * O(const void * p) { if (!p) fail("the Java bridge uses a null object"); JObj * o = (JObj *)p; if (o->dead) fail("the Java bridge uses a local reference after its frame was popped"); return o; }
static void ready(const char * what) { if (jvm->thrown) fail(cat("the Java bridge calls ", what, " while an exception is pending")); }
JObj * MockJvm::make(const std::string & cls) { heap.emplace_back(new JObj); heap.back()->cls = cls; heap.back()->frame = frames; return heap.back().get(); }
JObj * MockJvm::string(const US & s) { auto o = make("java/lang/String"); o->str = s; return o; }
JObj * MockJvm::strings(const std::vector<UnicodeStringRef> & v) { auto o = make("["); for (auto & s : v) o->elems.push_back(s.getBuffer() ? string(US(s.getBuffer(), s.length())) : nullptr); return o; }
bool MockJvm::took(jlong & id, std::string & msg) { if (!thrown) return false; thrown = false; id = errorId; msg = message; return true; }
static jclass JNICALL findClass(JNIEnv *, const char * n) { ready("FindClass"); return (jclass)jvm->make(cat("class ", n)); }
static jclass JNICALL getObjectClass(JNIEnv *, jobject o) { ready("GetObjectClass"); O(o); return (jclass)jvm->make("class"); }
static jfieldID JNICALL getFieldID(JNIEnv *, jclass, const char * n, const char * s) { ready("GetFieldID"); CHECK_EQ(cat(n, s), std::string("cppEnginePointerJ"), "field"); return (jfieldID)1; }
static jmethodID JNICALL getMethodID(JNIEnv *, jclass c, const char * n, const char * s) { ready("GetMethodID"); O(c); CHECK_EQ(std::string(n), std::string("<init>"), "method"); return (jmethodID)(std::string(s) == "(I)V" ? 2 : 3); }
static jmethodID JNICALL getStaticMethodID(JNIEnv *, jclass, const char * n, const char *) { return (jmethodID)(std::string(n) == "log" ? 4 : 5); }
static jlong JNICALL getLongField(JNIEnv *, jobject o, jfieldID) { ready("GetLongField"); return O(o)->field; }
static void JNICALL setLongField(JNIEnv *, jobject o, jfieldID, jlong v) { ready("SetLongField"); O(o)->field = v; }
static jobject JNICALL newObjectV(JNIEnv *, jclass c, jmethodID, va_list a) { ready("NewObject"); auto o = jvm->make(O(c)->cls.substr(6)); jobject s = va_arg(a, jobject); o->str = O(s)->str; o->field = va_arg(a, jlong); return (jobject)o; }
static jobject JNICALL newObjectA(JNIEnv *, jclass c, jmethodID, const jvalue * v) { ready("NewObject"); auto o = jvm->make(O(c)->cls.substr(6)); o->ints.push_back(v[0].i); return (jobject)o; }
static jint JNICALL throw_(JNIEnv *, jthrowable t) { jvm->thrown = true; jvm->message = u8(O(t)->str); jvm->errorId = O(t)->field; CHECK_EQ(O(t)->cls, std::string("org/apache/uima/uimacpp/InternalTafException"), "class of the exception thrown"); return 0; }
static jthrowable JNICALL exceptionOccurred(JNIEnv *) { return nullptr; }
static jboolean JNICALL exceptionCheck(JNIEnv *) { return jvm && jvm->thrown; }
static void JNICALL exceptionNop(JNIEnv *) {}
static jint JNICALL pushLocalFrame(JNIEnv *, jint) { ready("PushLocalFrame"); ++jvm->frames; return 0; }
static jobject JNICALL popLocalFrame(JNIEnv *, jobject r) { CHECK(jvm->frames > 0, "more frames popped than pushed"); for (auto & o : jvm->heap) if (o->frame == jvm->frames && (jobject)o.get() != r) o->dead = true; --jvm->frames; return r; }
static jobject JNICALL newGlobalRef(JNIEnv *, jobject o) { if (O(o)->frame > 0) O(o)->frame = 0; return o; }
static void JNICALL deleteRef(JNIEnv *, jobject) {}
static jstring JNICALL newString(JNIEnv *, const jchar * p, jsize n) { ready("NewString"); return (jstring)jvm->string(US((const UChar *)p, n)); }
static jstring JNICALL newStringUTF(JNIEnv *, const char * p) { ready("NewStringUTF"); return (jstring)jvm->string(us(p)); }
static jsize JNICALL getStringLength(JNIEnv *, jstring s) { return O(s)->str.length(); }
template <class T> static T * pin(const void * o, const T * p, size_t n, jboolean * copied) { ready("Get...Elements"); T * r = (T *)malloc(n * sizeof(T)); if (n) memcpy(r, p, n * sizeof(T)); jvm->pinned[r] = O(o); if (copied) *copied = JNI_TRUE; return r; }
static void unpin(const void * o, const void * p) { auto i = jvm->pinned.find(p); CHECK(i != jvm->pinned.end() && i->second == o, "elements released that were not handed out"); jvm->pinned.erase(i); free((void *)p); }
static const jchar * JNICALL getStringChars(JNIEnv *, jstring s, jboolean * c) { return pin<jchar>(s, (const jchar *)O(s)->str.getBuffer(), O(s)->str.length(), c); }
static void JNICALL releaseStringChars(JNIEnv *, jstring s, const jchar * p) { unpin(s, p); }
static jsize JNICALL getArrayLength(JNIEnv *, jarray a) { JObj * o = O(a); return (jsize)(o->elems.size() + o->ints.size() + o->bytes.size() + o->shorts.size() + o->longs.size()); }
static jobjectArray JNICALL newObjectArray(JNIEnv *, jsize n, jclass, jobject v) { ready("NewObjectArray"); auto o = jvm->make("["); o->elems.assign(n, (JObj *)v); return (jobjectArray)o; }
static jobject JNICALL getObjectArrayElement(JNIEnv *, jobjectArray a, jsize i) { ready("GetObjectArrayElement"); CHECK(i >= 0 && (size_t)i < O(a)->elems.size(), "element ", i, " of an array of ", O(a)->elems.size()); return (jobject)O(a)->elems[i]; }
static void JNICALL setObjectArrayElement(JNIEnv *, jobjectArray a, jsize i, jobject v) { ready("SetObjectArrayElement"); CHECK(i >= 0 && (size_t)i < O(a)->elems.size(), "element ", i, " of an array of ", O(a)->elems.size()); O(a)->elems[i] = (JObj *)v; }
#define ARR(T, N, F) \
  static j##T##Array JNICALL new##N(JNIEnv *, jsize n) { ready("New" #N "Array"); auto o = jvm->make(#T "[]"); o->F.resize(n); return (j##T##Array)o; } \
  static j##T * JNICALL get##N(JNIEnv *, j##T##Array a, jboolean * c) { return pin<j##T>(a, O(a)->F.data(), O(a)->F.size(), c); } \
  static void JNICALL rel##N(JNIEnv *, j##T##Array a, j##T * p, jint m) { if (m != JNI_ABORT && !O(a)->F.empty()) memcpy(O(a)->F.data(), p, O(a)->F.size() * sizeof(j##T)); unpin(a, p); } \
  static void JNICALL set##N(JNIEnv *, j##T##Array a, jsize s, jsize n, const j##T * p) { ready("Set" #N "ArrayRegion"); CHECK(s >= 0 && n >= 0 && (size_t)(s + n) <= O(a)->F.size(), "region of an array"); if (n) memcpy(O(a)->F.data() + s, p, n * sizeof(j##T)); } \
  static void JNICALL gr##N(JNIEnv *, j##T##Array a, jsize s, jsize n, j##T * p) { CHECK(s >= 0 && n >= 0 && (size_t)(s + n) <= O(a)->F.size(), "region of an array"); if (n) memcpy(p, O(a)->F.data() + s, n * sizeof(j##T)); }
ARR(int, Int, ints) ARR(byte, Byte, bytes) ARR(short, Short, shorts) ARR(long, Long, longs)
static jint JNICALL callStaticIntV(JNIEnv *, jclass, jmethodID, va_list) { return 3; }
static void JNICALL callStaticVoidV(JNIEnv *, jclass, jmethodID, va_list a) { if (!jvm) return; jint level = va_arg(a, jint); va_arg(a, jobject); va_arg(a, jobject); jobject m = va_arg(a, jobject); jvm->logged.push_back(cat(level, " ", u8(O(m)->str))); }
static JavaVM * theVm();
static jint JNICALL getJavaVM(JNIEnv *, JavaVM ** v) { *v = theVm(); return 0; }
static JNIEnv * theEnv() {
  static JNINativeInterface_ t; static JNIEnv e; static bool done = false;
  if (!done) { done = true; memset(&t, 0, sizeof t);
    t.FindClass = findClass; t.GetObjectClass = getObjectClass; t.GetFieldID = getFieldID; t.GetMethodID = getMethodID; t.GetStaticMethodID = getStaticMethodID; t.GetLongField = getLongField; t.SetLongField = setLongField; t.NewObjectV = newObjectV; t.NewObjectA = newObjectA; t.Throw = throw_;
    t.ExceptionOccurred = exceptionOccurred; t.ExceptionCheck = exceptionCheck; t.ExceptionDescribe = exceptionNop; t.ExceptionClear = exceptionNop; t.PushLocalFrame = pushLocalFrame; t.PopLocalFrame = popLocalFrame; t.NewGlobalRef = newGlobalRef; t.DeleteGlobalRef = deleteRef; t.DeleteLocalRef = deleteRef;
    t.NewString = newString; t.NewStringUTF = newStringUTF; t.GetStringLength = getStringLength; t.GetStringChars = getStringChars; t.ReleaseStringChars = releaseStringChars; t.GetArrayLength = getArrayLength; t.NewObjectArray = newObjectArray; t.GetObjectArrayElement = getObjectArrayElement; t.SetObjectArrayElement = setObjectArrayElement;
#define SET(N) t.New##N##Array = new##N; t.Get##N##ArrayElements = get##N; t.Release##N##ArrayElements = rel##N; t.Set##N##ArrayRegion = set##N; t.Get##N##ArrayRegion = gr##N;
    SET(Int) SET(Byte) SET(Short) SET(Long) t.CallStaticIntMethodV = callStaticIntV; t.CallStaticVoidMethodV = callStaticVoidV; t.GetJavaVM = getJavaVM; e.functions = &t; }
  return &e;
}
static jint JNICALL attach(JavaVM *, void ** e, void *) { *e = jvm ? theEnv() : nullptr; return 0; }
static jint JNICALL detach(JavaVM *) { return 0; }
static JavaVM * theVm() { static JNIInvokeInterface_ t; static JavaVM v; memset(&t, 0, sizeof t); t.AttachCurrentThread = attach; t.DetachCurrentThread = detach; v.functions = &t; return &v; }
JNIEnv * MockJvm::env() { return theEnv(); }
MockJvm::MockJvm() { jvm = this; }
MockJvm::~MockJvm() { jvm = nullptr; for (auto & p : pinned) free((void *)p.first); }
}
