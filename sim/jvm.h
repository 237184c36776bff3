// A simulated JVM: objects, arrays that can be pinned, copied or moved, per-thread environments and reference
// tables, pending exceptions, and the rules of the JNI specification, checked at every service call.
#ifndef SIM_JVM_H
#define SIM_JVM_H
#include <jni.h>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include "core.h"

namespace hx { namespace jvm {
struct Class; struct Obj; struct Thread;
struct Value { int64_t j = 0; double d = 0; Obj *o = nullptr; };
inline Value vj(int64_t j) { Value v; v.j = j; return v; }
inline Value vd(double d) { Value v; v.d = d; return v; }
inline Value vo(Obj *o) { Value v; v.o = o; return v; }
struct Field { Class *cls; std::string name, sig; bool st; Value value; };
typedef std::function<Value(Thread &, Obj *, const std::vector<Value> &)> Body;
struct Method { Class *cls; std::string name, sig; bool st; Body fn; };
struct Class {
    std::string name;
    Class *super = nullptr;
    Obj *mirror = nullptr;
    std::vector<Field *> fields;
    std::vector<Method *> methods;
    bool is(const Class *c) const { for (const Class *k = this; k; k = k->super) if (k == c) return true; return false; }
};
struct Obj {
    Class *cls = nullptr, *of = nullptr;          // of: the class a mirror stands for
    std::map<const Field *, Value> f;
    char elem = 0;                                // arrays: B S I F J D Z C L
    int len = 0, pins = 0;
    unsigned char *store = nullptr;
    std::vector<Obj *> refs;
    std::string text;
    void *host = nullptr;                         // model data of the harness
};
struct Held { Obj *arr; void *ptr; bool critical, copied; int thread; };
struct Ref;
struct Thread {
    JNIEnv_ env;                                  // first member: the JNIEnv* handed to native code
    int id = 0;
    Obj *pending = nullptr, *raised = nullptr;    // raised: by Java code which the current native call ran
    int critical = 0;
    std::vector<std::vector<Ref *>> frames;
    int live_locals = 0, max_locals = 0;
    // faults of the current operation
    std::vector<int64_t> null_at, callback_at, gc_at;
    int64_t fallible = 0, callbacks = 0, services = 0;
    int fired = 0;
};
void start(uint64_t seed, int mode, int threads); // mode: 0 pins, 1 copies, 2 mixture
void load_library();                              // runs JNI_OnLoad when the library has one
Thread &thread(int id);
Class *cls(const std::string &name, Class *super = nullptr);
Field *field(Class *c, const std::string &name, const std::string &sig, bool st = false);
Method *method(Class *c, const std::string &name, const std::string &sig, Body fn);
Obj *make(Class *c);
Obj *make_array(char elem, int len);
int elem_size(char e);
Value &get(Obj *o, const std::string &name);      // field by name
void throw_java(Thread &t, const char *cls, const char *msg);
void move_all();
jobject arg(Thread &t, Obj *o);                   // a local reference for an argument
// Runs native code as one native method call.  Returns the exception it left pending, which is cleared.
Obj *native(const Op &op, int thread, const std::function<void(JNIEnv *)> &fn, bool *faulted);
Obj *deref(Thread &t, jobject r);
extern int g_local_limit, g_max_locals;
extern uint64_t g_services, g_moves, g_copies, g_pins;
}}
#endif
