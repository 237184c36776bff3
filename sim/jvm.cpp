#include "jvm.h"
#include "threads.h"
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <deque>
#include <unordered_set>

namespace hx { namespace jvm {
struct Ref { Obj *o; int kind; int thread; bool live; };      // kind: 1 local, 2 global, 3 weak
static std::deque<Ref> *g_refs;
static std::unordered_set<const void *> *g_ref_set;
static std::vector<Held> *g_held;
static std::vector<Obj *> *g_objs;
static std::map<std::string, Class *> *g_classes;
static std::vector<Thread *> *g_threads;
static std::unordered_set<const void *> *g_ids;
static JNINativeInterface_ g_table;
static int g_mode;
static uint64_t g_seed, g_hand;
static Class *c_class, *c_string;
int g_local_limit = 40, g_max_locals;
uint64_t g_services, g_moves, g_copies, g_pins;

int elem_size(char e) { switch (e) { case 'B': case 'Z': return 1; case 'S': case 'C': return 2; case 'I': case 'F': return 4; default: return 8; } }
Thread &thread(int id) { return *(*g_threads)[(size_t)id]; }
Class *cls(const std::string &name, Class *super) {
    auto &c = (*g_classes)[name];
    if (!c) { c = new Class(); c->name = name; c->super = super; if (c_class) { c->mirror = make(c_class); c->mirror->of = c; } }
    return c;
}
Field *field(Class *c, const std::string &name, const std::string &sig, bool st) {
    for (auto f : c->fields) if (f->name == name && f->sig == sig) return f;
    Field *f = new Field{c, name, sig, st, Value()};
    c->fields.push_back(f); g_ids->insert(f);
    return f;
}
Method *method(Class *c, const std::string &name, const std::string &sig, Body fn) {
    Method *m = new Method{c, name, sig, false, fn};
    c->methods.push_back(m); g_ids->insert(m);
    return m;
}
Obj *make(Class *c) { Obj *o = new Obj(); o->cls = c; g_objs->push_back(o); return o; }
Obj *make_array(char e, int len) {
    Obj *o = make(cls(std::string("[") + (e == 'L' ? "Ljava/lang/Object;" : std::string(1, e))));
    o->elem = e; o->len = len;
    if (e == 'L') o->refs.resize((size_t)len);
    else { size_t n = (size_t)len * (size_t)elem_size(e); o->store = (unsigned char *)malloc(n); memset(o->store, 0, n); }
    return o;
}
static Field *find_field(Class *c, const std::string &name, const char *sig, bool st) {
    for (; c; c = c->super) for (auto f : c->fields) if (f->name == name && (!sig || f->sig == sig) && f->st == st) return f;
    return nullptr;
}
Value &get(Obj *o, const std::string &name) {
    Field *f = find_field(o->cls, name, nullptr, false);
    if (!f) harness_error("no field %s in %s", name.c_str(), o->cls->name.c_str());
    return o->f[f];
}
static Ref *new_ref(Obj *o, int kind, int th) { g_refs->push_back(Ref{o, kind, th, true}); g_ref_set->insert(&g_refs->back()); return &g_refs->back(); }
static jobject local(Thread &t, Obj *o) {
    if (!o) return nullptr;
    Ref *r = new_ref(o, 1, t.id);
    if (t.frames.empty()) t.frames.push_back({});
    t.frames.back().push_back(r);
    if (++t.live_locals > t.max_locals) t.max_locals = t.live_locals;
    if (t.max_locals > g_max_locals) g_max_locals = t.max_locals;
    if (t.live_locals > g_local_limit) violation("jni:local-refs", "a native call holds %d local references: they accumulate", t.live_locals);
    return (jobject)r;
}
jobject arg(Thread &t, Obj *o) { NotSut ns; return local(t, o); }
static void drop(Thread &t, Ref *r) { if (r->live) { r->live = false; if (r->kind == 1) t.live_locals--; } }
static void pop_frame(Thread &t) { for (auto r : t.frames.back()) drop(t, r); t.frames.pop_back(); }
Obj *deref(Thread &t, jobject j) {
    if (!j) return nullptr;
    if (!g_ref_set->count((const void *)j)) violation("jni:bad-ref", "a service call is given something that is not a reference");
    Ref *r = (Ref *)j;
    if (!r->live) violation("jni:stale-ref", "a reference is used after it was deleted or its native call ended");
    if (r->kind == 1 && r->thread != t.id) violation("jni:foreign-ref", "a local reference of another thread is used");
    return r->o;
}
static Obj *must(Thread &t, jobject j, const char *what) {
    Obj *o = deref(t, j);
    if (!o) violation("jni:null-argument", "%s is given a null reference", what);
    return o;
}
static Class *must_class(Thread &t, jclass j, const char *what) {
    Obj *o = must(t, j, what);
    if (!o->of) violation("jni:bad-class", "%s is given an object that is not a class", what);
    return o->of;
}
void throw_java(Thread &t, const char *name, const char *msg) {
    Obj *e = make(cls(name, nullptr));
    e->text = msg ? msg : "";
    t.pending = e;
    ev_str(name);
}
void move_all() {
    g_moves++;
    for (auto o : *g_objs) if (o->store && !o->pins) {
        size_t n = (size_t)o->len * (size_t)elem_size(o->elem);
        unsigned char *p = (unsigned char *)malloc(n);
        memcpy(p, o->store, n);
        free(o->store);
        o->store = p;
    }
}
static bool fails(Thread &t) {
    int64_t k = t.fallible++;
    for (auto x : t.null_at) if (x == k) { t.fired++; g_sh->fired[FK_JVM_NULL]++; return true; }
    return false;
}
enum { CRIT_OK = 1, EXC_OK = 2 };
static uint64_t name_hash(const char *s) { uint64_t h = 7; while (*s) h = h * 131 + (unsigned char)*s++; return h; }
static Thread &enter(JNIEnv *env, const char *name, int flags) {
    sched_point(SW_CALL);
    if (!env) violation("jni:null-env", "%s called on a null environment", name);
    int self = sched_self() < 0 ? 0 : sched_self();
    Thread *t = nullptr;
    for (auto x : *g_threads) if ((JNIEnv *)&x->env == env) t = x;
    if (!t) violation("jni:bad-env", "%s called on something that is not an environment", name);
    if (t->id != self) violation("jni:wrong-env", "%s called on the environment of another thread", name);
    g_services++;
    ev(name_hash(name));
    logf("      jni %s", name);
    if (t->critical && !(flags & CRIT_OK)) violation("jni:call-in-critical", "%s called between GetPrimitiveArrayCritical and its release", name);
    if (t->pending && !(flags & EXC_OK)) violation("jni:call-with-pending", "%s called while an exception is pending", name);
    int64_t k = t->services++;
    for (auto x : t->gc_at) if (x == k) { g_sh->fired[FK_GC_MOVE]++; move_all(); }
    return *t;
}
#define ENTER(name, flags) NotSut ns; Thread &t = enter(env, name, flags); (void)t

// ------------------------------------------------------------------ classes, fields, methods
static jclass JNICALL FindClass(JNIEnv *env, const char *name) {
    ENTER("FindClass", 0);
    if (!name) violation("jni:null-argument", "FindClass is given no name");
    if (fails(t)) { throw_java(t, "java/lang/OutOfMemoryError", "FindClass"); return nullptr; }
    auto it = g_classes->find(name);
    if (it == g_classes->end()) {
        std::string n = name;
        if (n.compare(0, 10, "java/lang/") == 0 && (n.find("Error") != std::string::npos || n.find("Exception") != std::string::npos)) return (jclass)local(t, cls(n)->mirror);
        throw_java(t, "java/lang/NoClassDefFoundError", name);
        return nullptr;
    }
    return (jclass)local(t, it->second->mirror);
}
static jclass JNICALL GetObjectClass(JNIEnv *env, jobject o) { ENTER("GetObjectClass", 0); return (jclass)local(t, must(t, o, "GetObjectClass")->cls->mirror); }
static jclass JNICALL GetSuperclass(JNIEnv *env, jclass c) { ENTER("GetSuperclass", 0); Class *k = must_class(t, c, "GetSuperclass"); return k->super ? (jclass)local(t, k->super->mirror) : nullptr; }
static jboolean JNICALL IsInstanceOf(JNIEnv *env, jobject o, jclass c) { ENTER("IsInstanceOf", 0); Class *k = must_class(t, c, "IsInstanceOf"); Obj *x = deref(t, o); return !x || x->cls->is(k) ? JNI_TRUE : JNI_FALSE; }
static jboolean JNICALL IsSameObject(JNIEnv *env, jobject a, jobject b) { ENTER("IsSameObject", 0); return deref(t, a) == deref(t, b) ? JNI_TRUE : JNI_FALSE; }
static jfieldID field_id(JNIEnv *env, jclass c, const char *n, const char *s, bool st, const char *what) {
    ENTER(what, 0);
    Class *k = must_class(t, c, what);
    if (!n || !s) violation("jni:null-argument", "%s is given no name", what);
    if (fails(t)) { throw_java(t, "java/lang/OutOfMemoryError", what); return nullptr; }
    Field *f = find_field(k, n, s, st);
    if (!f) throw_java(t, "java/lang/NoSuchFieldError", n);
    return (jfieldID)f;
}
static jfieldID JNICALL GetFieldID(JNIEnv *env, jclass c, const char *n, const char *s) { return field_id(env, c, n, s, false, "GetFieldID"); }
static jfieldID JNICALL GetStaticFieldID(JNIEnv *env, jclass c, const char *n, const char *s) { return field_id(env, c, n, s, true, "GetStaticFieldID"); }
static Method *find_method(Class *c, const char *n, const char *s) { for (; c; c = c->super) for (auto m : c->methods) if (m->name == n && m->sig == s) return m; return nullptr; }
static jmethodID JNICALL GetMethodID(JNIEnv *env, jclass c, const char *n, const char *s) {
    ENTER("GetMethodID", 0);
    Class *k = must_class(t, c, "GetMethodID");
    if (!n || !s) violation("jni:null-argument", "GetMethodID is given no name");
    if (fails(t)) { throw_java(t, "java/lang/OutOfMemoryError", "GetMethodID"); return nullptr; }
    Method *m = find_method(k, n, s);
    if (!m && !strcmp(n, "<init>") && k->name.compare(0, 10, "java/lang/") == 0) m = method(k, n, s, [](Thread &, Obj *, const std::vector<Value> &) { return Value(); });
    if (!m) throw_java(t, "java/lang/NoSuchMethodError", n);
    return (jmethodID)m;
}
static Field *chk_field(Obj *o, jfieldID f, const char *sig, const char *what) {
    if (!f) violation("jni:null-argument", "%s is given a null field", what);
    if (!g_ids->count((const void *)f)) violation("jni:bad-field-id", "%s is given something that is not a field", what);
    Field *x = (Field *)f;
    if (o && !o->cls->is(x->cls)) violation("jni:bad-field-id", "%s is given field '%s' of another class", what, x->name.c_str());
    bool ref = x->sig[0] == 'L' || x->sig[0] == '[';
    if (*sig == 'L' ? !ref : x->sig != sig) violation("jni:bad-field-id", "%s used on field '%s' of type %s", what, x->name.c_str(), x->sig.c_str());
    return x;
}
static jobject JNICALL GetObjectField(JNIEnv *env, jobject o, jfieldID f) { ENTER("GetObjectField", 0); Obj *x = must(t, o, "GetObjectField"); return local(t, x->f[chk_field(x, f, "L", "GetObjectField")].o); }
static void JNICALL SetObjectField(JNIEnv *env, jobject o, jfieldID f, jobject v) { ENTER("SetObjectField", 0); Obj *x = must(t, o, "SetObjectField"); x->f[chk_field(x, f, "L", "SetObjectField")].o = deref(t, v); }
static jobject JNICALL GetStaticObjectField(JNIEnv *env, jclass c, jfieldID f) { ENTER("GetStaticObjectField", 0); must_class(t, c, "GetStaticObjectField"); return local(t, chk_field(nullptr, f, "L", "GetStaticObjectField")->value.o); }
static jint JNICALL GetStaticIntField(JNIEnv *env, jclass c, jfieldID f) { ENTER("GetStaticIntField", 0); must_class(t, c, "GetStaticIntField"); return (jint)chk_field(nullptr, f, "I", "GetStaticIntField")->value.j; }
#define FIELD(Name, T, sig, m) \
    static T JNICALL Get##Name##Field(JNIEnv *env, jobject o, jfieldID f) { ENTER("Get" #Name "Field", 0); Obj *x = must(t, o, "Get" #Name "Field"); return (T)x->f[chk_field(x, f, sig, "Get" #Name "Field")].m; } \
    static void JNICALL Set##Name##Field(JNIEnv *env, jobject o, jfieldID f, T v) { ENTER("Set" #Name "Field", 0); Obj *x = must(t, o, "Set" #Name "Field"); x->f[chk_field(x, f, sig, "Set" #Name "Field")].m = v; }
FIELD(Int, jint, "I", j) FIELD(Long, jlong, "J", j) FIELD(Boolean, jboolean, "Z", j) FIELD(Double, jdouble, "D", d) FIELD(Float, jfloat, "F", d) FIELD(Short, jshort, "S", j) FIELD(Byte, jbyte, "B", j)

static Value invoke(Thread &t, Obj *o, jmethodID id, va_list *va, const jvalue *ja, char ret, const char *what) {
    if (!id) violation("jni:null-argument", "%s is given a null method", what);
    if (!g_ids->count((const void *)id)) violation("jni:bad-method-id", "%s is given something that is not a method", what);
    Method *m = (Method *)id;
    if (!o->cls->is(m->cls)) violation("jni:bad-method-id", "%s: method '%s' does not belong to the object's class", what, m->name.c_str());
    char rc = m->sig[m->sig.find(')') + 1];
    if (rc == '[') rc = 'L';
    if (rc != ret) violation("jni:bad-method-id", "%s used on method %s%s", what, m->name.c_str(), m->sig.c_str());
    std::vector<Value> a;
    int k = 0;
    for (size_t i = 1; m->sig[i] != ')'; i++, k++) {
        Value v;
        char c = m->sig[i];
        switch (c) {
            case 'J': v.j = ja ? ja[k].j : va_arg(*va, jlong); break;
            case 'D': v.d = ja ? ja[k].d : va_arg(*va, double); break;
            case 'F': v.d = ja ? ja[k].f : va_arg(*va, double); break;
            case 'L': case '[': v.o = deref(t, ja ? ja[k].l : va_arg(*va, jobject)); break;
            case 'Z': v.j = ja ? ja[k].z : va_arg(*va, int); break;
            default: v.j = ja ? ja[k].i : va_arg(*va, int);
        }
        if (c == '[') { while (m->sig[i] == '[') i++; c = m->sig[i]; }
        if (c == 'L') while (m->sig[i] != ';') i++;
        a.push_back(v);
    }
    int64_t n = t.callbacks++;
    for (auto x : t.callback_at) if (x == n) { t.fired++; g_sh->fired[FK_JVM_CALLBACK]++; throw_java(t, "java/lang/RuntimeException", "callback"); t.raised = t.pending; return Value(); }
    sched_point(SW_CALL);
    Value v = m->fn(t, o, a);
    sched_point(SW_CALL);
    return t.pending ? Value() : v;
}
#define CALL(Name, T, code, conv) \
    static T JNICALL Call##Name##MethodV(JNIEnv *env, jobject o, jmethodID m, va_list va) { ENTER("Call" #Name "Method", 0); va_list c; va_copy(c, va); Obj *x = must(t, o, "Call" #Name "Method"); Value v = invoke(t, x, m, &c, nullptr, code, "Call" #Name "Method"); va_end(c); (void)v; return conv; } \
    static T JNICALL Call##Name##MethodA(JNIEnv *env, jobject o, jmethodID m, const jvalue *ja) { ENTER("Call" #Name "Method", 0); Obj *x = must(t, o, "Call" #Name "Method"); Value v = invoke(t, x, m, nullptr, ja, code, "Call" #Name "Method"); (void)v; return conv; } \
    static T JNICALL Call##Name##Method(JNIEnv *env, jobject o, jmethodID m, ...) { ENTER("Call" #Name "Method", 0); va_list c; va_start(c, m); Obj *x = must(t, o, "Call" #Name "Method"); Value v = invoke(t, x, m, &c, nullptr, code, "Call" #Name "Method"); va_end(c); (void)v; return conv; }
CALL(Void, void, 'V', (void)0) CALL(Int, jint, 'I', (jint)v.j) CALL(Boolean, jboolean, 'Z', (jboolean)v.j) CALL(Long, jlong, 'J', (jlong)v.j) CALL(Double, jdouble, 'D', v.d) CALL(Float, jfloat, 'F', (jfloat)v.d) CALL(Object, jobject, 'L', local(t, v.o))
static jobject new_object(Thread &t, jclass c, jmethodID m, va_list *va, const jvalue *ja) {
    Class *k = must_class(t, c, "NewObject");
    if (fails(t)) { throw_java(t, "java/lang/OutOfMemoryError", "NewObject"); return nullptr; }
    Obj *o = make(k);
    invoke(t, o, m, va, ja, 'V', "NewObject");
    return t.pending ? nullptr : local(t, o);
}
static jobject JNICALL NewObjectV(JNIEnv *env, jclass c, jmethodID m, va_list va) { ENTER("NewObject", 0); va_list k; va_copy(k, va); jobject o = new_object(t, c, m, &k, nullptr); va_end(k); return o; }
static jobject JNICALL NewObjectA(JNIEnv *env, jclass c, jmethodID m, const jvalue *ja) { ENTER("NewObject", 0); return new_object(t, c, m, nullptr, ja); }
static jobject JNICALL NewObject(JNIEnv *env, jclass c, jmethodID m, ...) { ENTER("NewObject", 0); va_list k; va_start(k, m); jobject o = new_object(t, c, m, &k, nullptr); va_end(k); return o; }
static jstring JNICALL NewStringUTF(JNIEnv *env, const char *s) { ENTER("NewStringUTF", 0); if (fails(t)) { throw_java(t, "java/lang/OutOfMemoryError", "NewStringUTF"); return nullptr; } Obj *o = make(c_string); o->text = s ? s : ""; return (jstring)local(t, o); }

// ------------------------------------------------------------------ exceptions
static jint JNICALL Throw(JNIEnv *env, jthrowable e) { ENTER("Throw", 0); t.pending = must(t, e, "Throw"); return 0; }
static jint JNICALL ThrowNew(JNIEnv *env, jclass c, const char *msg) {
    ENTER("ThrowNew", 0);
    Class *k = must_class(t, c, "ThrowNew");
    if (fails(t)) { throw_java(t, "java/lang/OutOfMemoryError", "ThrowNew"); return -1; }
    throw_java(t, k->name.c_str(), msg);
    return 0;
}
static jthrowable JNICALL ExceptionOccurred(JNIEnv *env) { ENTER("ExceptionOccurred", EXC_OK); return (jthrowable)local(t, t.pending); }
static void JNICALL ExceptionDescribe(JNIEnv *env) { ENTER("ExceptionDescribe", EXC_OK); t.pending = nullptr; }   // clears it (JNI specification)
static void JNICALL ExceptionClear(JNIEnv *env) { ENTER("ExceptionClear", EXC_OK); t.pending = nullptr; }
static jboolean JNICALL ExceptionCheck(JNIEnv *env) { ENTER("ExceptionCheck", EXC_OK); return t.pending ? JNI_TRUE : JNI_FALSE; }
static void JNICALL FatalError(JNIEnv *env, const char *m) { ENTER("FatalError", EXC_OK | CRIT_OK); violation("jni:fatal-error", "native code ends the virtual machine: %s", m ? m : ""); }

// ------------------------------------------------------------------ references
static jobject JNICALL NewGlobalRef(JNIEnv *env, jobject o) { ENTER("NewGlobalRef", 0); Obj *x = deref(t, o); if (!x || fails(t)) return nullptr; return (jobject)new_ref(x, 2, -1); }
static jweak JNICALL NewWeakGlobalRef(JNIEnv *env, jobject o) { ENTER("NewWeakGlobalRef", 0); Obj *x = deref(t, o); if (!x || fails(t)) return nullptr; return (jweak)new_ref(x, 3, -1); }
static void del(Thread &t, jobject j, int kind, const char *what) {
    if (!j) return;
    deref(t, j);
    Ref *r = (Ref *)j;
    if (r->kind != kind) violation("jni:bad-ref", "%s is given a reference of another kind", what);
    drop(t, r);
}
static void JNICALL DeleteGlobalRef(JNIEnv *env, jobject o) { ENTER("DeleteGlobalRef", EXC_OK); del(t, o, 2, "DeleteGlobalRef"); }
static void JNICALL DeleteWeakGlobalRef(JNIEnv *env, jweak o) { ENTER("DeleteWeakGlobalRef", EXC_OK); del(t, o, 3, "DeleteWeakGlobalRef"); }
static void JNICALL DeleteLocalRef(JNIEnv *env, jobject o) { ENTER("DeleteLocalRef", EXC_OK); del(t, o, 1, "DeleteLocalRef"); }
static jobject JNICALL NewLocalRef(JNIEnv *env, jobject o) { ENTER("NewLocalRef", 0); return local(t, deref(t, o)); }
static jint JNICALL EnsureLocalCapacity(JNIEnv *env, jint) { ENTER("EnsureLocalCapacity", 0); if (fails(t)) { throw_java(t, "java/lang/OutOfMemoryError", "EnsureLocalCapacity"); return -1; } return 0; }
static jint JNICALL PushLocalFrame(JNIEnv *env, jint) { ENTER("PushLocalFrame", EXC_OK); if (fails(t)) { throw_java(t, "java/lang/OutOfMemoryError", "PushLocalFrame"); return -1; } t.frames.push_back({}); return 0; }
static jobject JNICALL PopLocalFrame(JNIEnv *env, jobject o) {
    ENTER("PopLocalFrame", EXC_OK);
    Obj *x = deref(t, o);
    if (t.frames.size() < 2) violation("jni:bad-frame", "PopLocalFrame without a pushed frame");
    pop_frame(t);
    return local(t, x);
}
static jobjectRefType JNICALL GetObjectRefType(JNIEnv *env, jobject o) { ENTER("GetObjectRefType", 0); if (!o || !g_ref_set->count(o) || !((Ref *)o)->live) return JNIInvalidRefType; return (jobjectRefType)((Ref *)o)->kind; }
static jint JNICALL MonitorEnter(JNIEnv *env, jobject o) { ENTER("MonitorEnter", 0); must(t, o, "MonitorEnter"); return 0; }
static jint JNICALL MonitorExit(JNIEnv *env, jobject o) { ENTER("MonitorExit", EXC_OK); must(t, o, "MonitorExit"); return 0; }

// ------------------------------------------------------------------ arrays
static Obj *must_array(Thread &t, jarray a, char e, const char *what) {
    Obj *o = must(t, a, what);
    if (!o->elem) violation("jni:not-an-array", "%s is given an object that is not an array", what);
    if (e && o->elem != e) violation("jni:array-type", "%s is given an array of type %c", what, o->elem);
    if (e == 0 && o->elem == 'L') violation("jni:array-type", "%s is given an array of objects", what);
    return o;
}
static jsize JNICALL GetArrayLength(JNIEnv *env, jarray a) {
    ENTER("GetArrayLength", 0);
    Obj *o = must(t, a, "GetArrayLength");
    if (!o->elem) violation("jni:not-an-array", "GetArrayLength is given an object that is not an array");
    return o->len;
}
static void *hand_out(Thread &t, Obj *o, bool critical, jboolean *is_copy, const char *what) {
    if (fails(t)) { if (mix(g_seed, g_hand++) & 1) throw_java(t, "java/lang/OutOfMemoryError", what); return nullptr; }
    bool copy = g_mode == 1 || (g_mode == 2 && (mix(g_seed, g_hand++) & 1));
    size_t n = (size_t)o->len * (size_t)elem_size(o->elem);
    void *p = o->store;
    if (copy) { p = malloc(n); memcpy(p, o->store, n); g_copies++; PROBE("array-handed-out-as-copy"); } else { o->pins++; g_pins++; PROBE("array-pinned"); }
    if (is_copy) *is_copy = copy ? JNI_TRUE : JNI_FALSE;
    if (critical) t.critical++;
    g_held->push_back(Held{o, p, critical, copy, t.id});
    return p;
}
static void take_back(Thread &t, Obj *o, void *p, jint mode, bool critical, const char *what) {
    if (mode != 0 && mode != JNI_COMMIT && mode != JNI_ABORT) violation("jni:bad-release", "%s with unknown mode %d", what, (int)mode);
    for (size_t i = g_held->size(); i-- > 0;) {
        Held &h = (*g_held)[i];
        if (h.arr != o || h.ptr != p || h.critical != critical) continue;
        if (h.thread != t.id) continue;
        size_t n = (size_t)o->len * (size_t)elem_size(o->elem);
        if (h.copied && mode != JNI_ABORT) memcpy(o->store, p, n);
        if (mode == JNI_COMMIT) return;
        if (h.copied) free(p); else o->pins--;
        if (critical) t.critical--;
        g_held->erase(g_held->begin() + (long)i);
        return;
    }
    violation("jni:bad-release", "%s returns something that was not obtained that way, or was returned before", what);
}
static void *JNICALL GetPrimitiveArrayCritical(JNIEnv *env, jarray a, jboolean *c) { ENTER("GetPrimitiveArrayCritical", CRIT_OK); return hand_out(t, must_array(t, a, 0, "GetPrimitiveArrayCritical"), true, c, "GetPrimitiveArrayCritical"); }
static void JNICALL ReleasePrimitiveArrayCritical(JNIEnv *env, jarray a, void *p, jint m) { ENTER("ReleasePrimitiveArrayCritical", CRIT_OK | EXC_OK); take_back(t, must_array(t, a, 0, "ReleasePrimitiveArrayCritical"), p, m, true, "ReleasePrimitiveArrayCritical"); }
static void region(Thread &t, Obj *o, jsize start, jsize len, void *buf, bool out) {
    if (start < 0 || len < 0 || (int64_t)start + len > o->len) { throw_java(t, "java/lang/ArrayIndexOutOfBoundsException", "region"); return; }
    size_t e = (size_t)elem_size(o->elem);
    if (out) memcpy(buf, o->store + (size_t)start * e, (size_t)len * e); else memcpy(o->store + (size_t)start * e, buf, (size_t)len * e);
}
#define ARRAY(Name, T, A, e) \
    static T *JNICALL Get##Name##ArrayElements(JNIEnv *env, A a, jboolean *c) { ENTER("Get" #Name "ArrayElements", 0); return (T *)hand_out(t, must_array(t, a, e, "Get" #Name "ArrayElements"), false, c, "Get" #Name "ArrayElements"); } \
    static void JNICALL Release##Name##ArrayElements(JNIEnv *env, A a, T *p, jint m) { ENTER("Release" #Name "ArrayElements", EXC_OK); take_back(t, must_array(t, a, e, "Release" #Name "ArrayElements"), p, m, false, "Release" #Name "ArrayElements"); } \
    static void JNICALL Get##Name##ArrayRegion(JNIEnv *env, A a, jsize s, jsize n, T *b) { ENTER("Get" #Name "ArrayRegion", 0); region(t, must_array(t, a, e, "Get" #Name "ArrayRegion"), s, n, b, true); } \
    static void JNICALL Set##Name##ArrayRegion(JNIEnv *env, A a, jsize s, jsize n, const T *b) { ENTER("Set" #Name "ArrayRegion", 0); region(t, must_array(t, a, e, "Set" #Name "ArrayRegion"), s, n, (void *)b, false); } \
    static A JNICALL New##Name##Array(JNIEnv *env, jsize n) { ENTER("New" #Name "Array", 0); if (fails(t)) { throw_java(t, "java/lang/OutOfMemoryError", "array"); return nullptr; } if (n < 0) { throw_java(t, "java/lang/NegativeArraySizeException", "array"); return nullptr; } return (A)local(t, make_array(e, n)); }
ARRAY(Byte, jbyte, jbyteArray, 'B') ARRAY(Short, jshort, jshortArray, 'S') ARRAY(Int, jint, jintArray, 'I') ARRAY(Float, jfloat, jfloatArray, 'F') ARRAY(Long, jlong, jlongArray, 'J') ARRAY(Double, jdouble, jdoubleArray, 'D') ARRAY(Boolean, jboolean, jbooleanArray, 'Z')
static jobject JNICALL GetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i) { ENTER("GetObjectArrayElement", 0); Obj *o = must_array(t, a, 'L', "GetObjectArrayElement"); if (i < 0 || i >= o->len) { throw_java(t, "java/lang/ArrayIndexOutOfBoundsException", "element"); return nullptr; } return local(t, o->refs[(size_t)i]); }
static void JNICALL SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject v) { ENTER("SetObjectArrayElement", 0); Obj *o = must_array(t, a, 'L', "SetObjectArrayElement"); if (i < 0 || i >= o->len) { throw_java(t, "java/lang/ArrayIndexOutOfBoundsException", "element"); return; } o->refs[(size_t)i] = deref(t, v); }
static jint JNICALL GetVersion(JNIEnv *env) { ENTER("GetVersion", 0); return JNI_VERSION_1_8; }

// the invocation interface, for code that looks its environment up
static JNIInvokeInterface_ g_inv;
static JavaVM_ g_vm;
static jint JNICALL VmGetEnv(JavaVM *, void **p, jint) { NotSut ns; *p = &thread(sched_self() < 0 ? 0 : sched_self()).env; return JNI_OK; }
static jint JNICALL VmAttach(JavaVM *vm, void **p, void *) { return VmGetEnv(vm, p, 0); }
static jint JNICALL VmDetach(JavaVM *) { return JNI_OK; }
static jint JNICALL GetJavaVM(JNIEnv *env, JavaVM **vm) { ENTER("GetJavaVM", 0); *vm = &g_vm; return 0; }

static void unsupported() { harness_error("native code used a JNI service the simulated JVM does not have"); }

extern "C" jint JNI_OnLoad(JavaVM *vm, void *) __attribute__((weak));
void start(uint64_t seed, int mode, int threads) {
    NotSut ns;
    g_refs = new std::deque<Ref>; g_ref_set = new std::unordered_set<const void *>; g_held = new std::vector<Held>; g_objs = new std::vector<Obj *>;
    g_classes = new std::map<std::string, Class *>; g_threads = new std::vector<Thread *>; g_ids = new std::unordered_set<const void *>;
    g_seed = seed; g_mode = mode; g_hand = 0;
    void (**p)() = (void (**)())&g_table;
    for (size_t i = 0; i < sizeof g_table / sizeof(void *); i++) p[i] = unsupported;
#define S(n) g_table.n = n
    S(FindClass); S(GetObjectClass); S(GetSuperclass); S(IsInstanceOf); S(IsSameObject); S(GetFieldID); S(GetStaticFieldID); S(GetMethodID);
    S(GetObjectField); S(SetObjectField); S(GetStaticObjectField); S(GetStaticIntField);
#define SF(n) S(Get##n##Field); S(Set##n##Field)
    SF(Int); SF(Long); SF(Boolean); SF(Double); SF(Float); SF(Short); SF(Byte);
#define SC(n) S(Call##n##MethodV); S(Call##n##MethodA); S(Call##n##Method)
    SC(Void); SC(Int); SC(Boolean); SC(Long); SC(Double); SC(Float); SC(Object);
    S(NewObjectV); S(NewObjectA); S(NewObject); S(NewStringUTF); S(Throw); S(ThrowNew); S(ExceptionOccurred); S(ExceptionDescribe); S(ExceptionClear); S(ExceptionCheck); S(FatalError);
    S(NewGlobalRef); S(NewWeakGlobalRef); S(DeleteGlobalRef); S(DeleteWeakGlobalRef); S(DeleteLocalRef); S(NewLocalRef); S(EnsureLocalCapacity); S(PushLocalFrame); S(PopLocalFrame); S(GetObjectRefType); S(MonitorEnter); S(MonitorExit);
    S(GetArrayLength); S(GetPrimitiveArrayCritical); S(ReleasePrimitiveArrayCritical);
#define SA(n) S(Get##n##ArrayElements); S(Release##n##ArrayElements); S(Get##n##ArrayRegion); S(Set##n##ArrayRegion); S(New##n##Array)
    SA(Byte); SA(Short); SA(Int); SA(Float); SA(Long); SA(Double); SA(Boolean);
    S(GetObjectArrayElement); S(SetObjectArrayElement); S(GetVersion); S(GetJavaVM);
    void (**q)() = (void (**)())&g_inv;
    for (size_t i = 0; i < sizeof g_inv / sizeof(void *); i++) q[i] = unsupported;
    g_inv.GetEnv = VmGetEnv; g_inv.AttachCurrentThread = VmAttach; g_inv.AttachCurrentThreadAsDaemon = VmAttach; g_inv.DetachCurrentThread = VmDetach;
    g_vm.functions = &g_inv;
    c_class = nullptr;
    Class *k = cls("java/lang/Class");
    c_class = k; k->mirror = make(k); k->mirror->of = k;
    c_string = cls("java/lang/String");
    for (int i = 0; i < threads; i++) { Thread *t = new Thread(); t->id = i; t->env.functions = &g_table; g_threads->push_back(t); }
}
void load_library() {
    if (!JNI_OnLoad) return;
    Thread &t = thread(0);
    t.frames.push_back({});
    { Sut s; JNI_OnLoad(&g_vm, nullptr); }
    pop_frame(t);
    t.pending = nullptr;
}

Obj *native(const Op &op, int th, const std::function<void(JNIEnv *)> &fn, bool *faulted) {
    Thread &t = thread(th);
    t.null_at.clear(); t.callback_at.clear(); t.gc_at.clear();
    t.fallible = t.callbacks = t.services = 0; t.fired = 0;
    for (auto &f : op.f) {
        if (f.kind == FK_JVM_NULL) t.null_at.push_back(f.k);
        if (f.kind == FK_JVM_CALLBACK) t.callback_at.push_back(f.k);
        if (f.kind == FK_GC_MOVE) t.gc_at.push_back(f.k);
    }
    t.pending = t.raised = nullptr;
    t.frames.push_back({});
    size_t depth = t.frames.size();
    std::string why;
    Outcome o = call(op, [&] { fn(&t.env); }, &why);
    if (o != OK) violation("jni:cpp-exception", "a C++ exception leaves a native method (%s)", o == BAD_ALLOC ? "bad_alloc" : o == REJECTED ? why.c_str() : "not a std::exception");
    for (auto &h : *g_held) if (h.thread == t.id) violation("jni:array-not-returned", "a native call ends while it holds an array%s", h.critical ? " in a critical region" : "");
    if (t.critical) violation("jni:critical-open", "a native call ends inside a critical region");
    if (t.frames.size() != depth) violation("jni:bad-frame", "a native call ends with local frames pushed");
    pop_frame(t);
    Obj *e = t.pending;
    t.pending = nullptr;
    if (e && t.raised && e != t.raised) violation("jni:exception-replaced", "Java code run by a native call raised %s, its caller receives %s (%s) instead", t.raised->cls->name.c_str(), e->cls->name.c_str(), e->text.c_str());
    if (e) { logf("    exception %s: %s", e->cls->name.c_str(), e->text.c_str()); }
    sig(e ? 3 : 4);
    ev(e ? 1 : 0);
    if (faulted) *faulted = t.fired > 0 || alloc_fault_fired();
    return e;
}
}}
