// A small stand-in for pybind11 (which is not installed in this sandbox): just enough of its interface to compile
// /repo/core/bindings/Binding.cpp unchanged, so that the Python package runs on the real bindings and the real core.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <structmember.h>

#include <Eigen/Dense>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

struct error_already_set : std::exception {};
struct cast_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct value_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct type_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct no_match : std::exception {};

// ---------------------------------------------------------------- handles
class object {
  public:
    PyObject* p = nullptr;
    object() = default;
    explicit object(PyObject* q) : p(q) {}  // steals
    object(const object& o) : p(o.p) { Py_XINCREF(p); }
    object(object&& o) noexcept : p(o.p) { o.p = nullptr; }
    object& operator=(object o) {
        std::swap(p, o.p);
        return *this;
    }
    ~object() { Py_XDECREF(p); }
    PyObject* ptr() const { return p; }
    PyObject* release() {
        PyObject* q = p;
        p = nullptr;
        return q;
    }
};
template <class T>
object cast(const T& v);
struct none : object {
    none() : object(Py_None) { Py_INCREF(Py_None); }
};
struct str : object {
    str(const char* s) : object(PyUnicode_FromString(s)) {}
    str(const std::string& s) : object(PyUnicode_FromStringAndSize(s.data(), s.size())) {}
};
struct list : object {
    list() : object(PyList_New(0)) {}
    template <class T>
    void append(const T& v) {
        object o = cast(v);
        if (PyList_Append(p, o.p)) throw error_already_set();
    }
};
struct dict : object {
    struct item {
        PyObject* d;
        std::string k;
        template <class T>
        void operator=(const T& v) {
            object o = cast(v);
            if (PyDict_SetItemString(d, k.c_str(), o.p)) throw error_already_set();
        }
    };
    dict() : object(PyDict_New()) {}
    item operator[](const char* k) { return {p, k}; }
    item operator[](const std::string& k) { return {p, k}; }
};

// ---------------------------------------------------------------- registered types
struct Inst {
    PyObject_HEAD void* ptr;
    void (*del)(void*);
    std::type_index* ti;
    PyObject* keep;  // list of objects kept alive
};
struct TypeInfo {
    PyTypeObject* type = nullptr;
    std::vector<std::pair<std::type_index, void* (*)(void*)>> bases;  // upcasts
};
inline std::unordered_map<std::type_index, TypeInfo>& registry() {
    static std::unordered_map<std::type_index, TypeInfo> r;
    return r;
}
inline void* upcast(void* p, std::type_index from, std::type_index to) {
    if (from == to) return p;
    auto it = registry().find(from);
    if (it == registry().end()) return nullptr;
    for (auto& b : it->second.bases) {
        void* q = upcast(b.second(p), b.first, to);
        if (q) return q;
    }
    return nullptr;
}
inline PyTypeObject*& instanceBase() {
    static PyTypeObject* t = nullptr;
    return t;
}
inline void* instance_ptr(PyObject* o, std::type_index to) {
    if (!instanceBase() || !PyObject_TypeCheck(o, instanceBase())) throw no_match();
    Inst* i = reinterpret_cast<Inst*>(o);
    if (!i->ptr) throw no_match();
    void* q = upcast(i->ptr, *i->ti, to);
    if (!q) throw no_match();
    return q;
}

// ---------------------------------------------------------------- casters
template <class T, class Enable = void>
struct caster {  // registered class
    static T& load(PyObject* o) { return *static_cast<T*>(instance_ptr(o, typeid(T))); }
    static PyObject* store(const T& v) {
        if constexpr (std::is_copy_constructible_v<T>) return store_owned(new T(v));
        throw cast_error("not copyable");
    }
    static PyObject* store_owned(T* v) {
        auto it = registry().find(typeid(T));
        if (it == registry().end()) throw cast_error("unregistered type");
        PyObject* o = it->second.type->tp_alloc(it->second.type, 0);
        Inst* i = reinterpret_cast<Inst*>(o);
        i->ptr = v;
        i->del = [](void* p) { delete static_cast<T*>(p); };
        i->ti = new std::type_index(typeid(T));
        i->keep = nullptr;
        return o;
    }
};
template <>
struct caster<bool> {
    static bool load(PyObject* o) {
        if (o == Py_True) return true;
        if (o == Py_False) return false;
        const char* n = Py_TYPE(o)->tp_name;
        if (o == Py_None) return false;
        if (std::strstr(n, "numpy.bool")) return PyObject_IsTrue(o) == 1;
        if (Py_TYPE(o)->tp_as_number && Py_TYPE(o)->tp_as_number->nb_bool) {
            int r = PyObject_IsTrue(o);
            if (r >= 0) return r;
            PyErr_Clear();
        }
        throw no_match();
    }
    static PyObject* store(bool v) { return PyBool_FromLong(v); }
};
template <class T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static T load(PyObject* o) {
        if (PyFloat_Check(o)) throw no_match();
        PyObject* i = PyNumber_Index(o);
        if (!i) {
            PyErr_Clear();
            throw no_match();
        }
        int ov = 0;
        long long v = PyLong_AsLongLongAndOverflow(i, &ov);
        Py_DECREF(i);
        if (ov || static_cast<long long>(static_cast<T>(v)) != v) throw no_match();
        return static_cast<T>(v);
    }
    static PyObject* store(T v) { return PyLong_FromLongLong(static_cast<long long>(v)); }
};
template <class T>
struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static T load(PyObject* o) {
        if (PyUnicode_Check(o)) throw no_match();
        double v = PyFloat_AsDouble(o);
        if (v == -1.0 && PyErr_Occurred()) {
            PyErr_Clear();
            throw no_match();
        }
        return static_cast<T>(v);
    }
    static PyObject* store(T v) { return PyFloat_FromDouble(static_cast<double>(v)); }
};
template <>
struct caster<std::string> {
    static std::string load(PyObject* o) {
        if (!PyUnicode_Check(o)) throw no_match();
        Py_ssize_t n;
        const char* s = PyUnicode_AsUTF8AndSize(o, &n);
        if (!s) {
            PyErr_Clear();
            throw no_match();
        }
        return std::string(s, n);
    }
    static PyObject* store(const std::string& s) { return PyUnicode_FromStringAndSize(s.data(), s.size()); }
};
template <>
struct caster<const char*> {
    static PyObject* store(const char* s) { return PyUnicode_FromString(s); }
};
template <std::size_t N>
struct caster<char[N]> {
    static PyObject* store(const char* s) { return PyUnicode_FromString(s); }
};
template <class T>
struct caster<T, std::enable_if_t<std::is_base_of_v<object, T>>> {
    static PyObject* store(const object& o) {
        Py_INCREF(o.p);
        return o.p;
    }
};
template <class T>
struct caster<T, std::enable_if_t<std::is_enum_v<T>>> {
    static T load(PyObject* o) {
        auto it = registry().find(typeid(T));
        if (it == registry().end() || !PyObject_TypeCheck(o, it->second.type)) throw no_match();
        return static_cast<T>(PyLong_AsLong(o));
    }
    static PyObject* store(T v) {
        auto it = registry().find(typeid(T));
        return PyObject_CallFunction(reinterpret_cast<PyObject*>(it->second.type), "l", static_cast<long>(v));
    }
};
template <class T>
struct caster<std::vector<T>> {
    static std::vector<T> load(PyObject* o) {
        if (PyUnicode_Check(o) || !PySequence_Check(o)) throw no_match();
        object f(PySequence_Fast(o, ""));
        if (!f.p) {
            PyErr_Clear();
            throw no_match();
        }
        std::vector<T> r;
        for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(f.p); ++i)
            r.push_back(caster<T>::load(PySequence_Fast_GET_ITEM(f.p, i)));
        return r;
    }
    static PyObject* store(const std::vector<T>& v) {
        PyObject* l = PyList_New(v.size());
        for (std::size_t i = 0; i < v.size(); ++i) PyList_SET_ITEM(l, i, caster<T>::store(v[i]));
        return l;
    }
};
template <class T>
struct caster<std::unique_ptr<T>> {
    static PyObject* store(std::unique_ptr<T> v) {
        if (!v) Py_RETURN_NONE;
        return caster<T>::store_owned(v.release());
    }
};
// Eigen arrays <-> numpy (through numpy's Python interface and the buffer protocol)
inline PyObject* numpy() {
    static PyObject* m = PyImport_ImportModule("numpy");
    if (!m) throw error_already_set();
    return m;
}
template <class S>
const char* dtypeName() {
    if constexpr (std::is_same_v<S, double>) return "float64";
    if constexpr (std::is_same_v<S, float>) return "float32";
    if constexpr (std::is_same_v<S, int>) return "int32";
    return "int64";
}
template <class A>
struct caster<A, std::enable_if_t<std::is_base_of_v<Eigen::DenseBase<A>, A>>> {
    using S = typename A::Scalar;
    static constexpr bool vec = A::ColsAtCompileTime == 1;
    static A load(PyObject* o) {
        object a(PyObject_CallMethod(numpy(), "ascontiguousarray", "Os", o, dtypeName<S>()));
        if (!a.p) {
            PyErr_Clear();
            throw no_match();
        }
        Py_buffer b;
        if (PyObject_GetBuffer(a.p, &b, PyBUF_C_CONTIGUOUS | PyBUF_FORMAT)) {
            PyErr_Clear();
            throw no_match();
        }
        A r;
        Py_ssize_t n = b.ndim > 0 ? b.shape[0] : 1, m = b.ndim > 1 ? b.shape[1] : 1;
        bool bad = b.ndim > 2 || (vec && b.ndim == 2 && n != 1 && m != 1) || (vec && b.ndim == 0);
        if (!bad) {
            const S* s = static_cast<const S*>(b.buf);
            if constexpr (vec) {
                r.resize(n * m);
                for (Py_ssize_t i = 0; i < n * m; ++i) r(i) = s[i];
            } else {
                r.resize(n, m);
                for (Py_ssize_t i = 0; i < n; ++i)
                    for (Py_ssize_t j = 0; j < m; ++j) r(i, j) = s[i * m + j];
            }
        }
        PyBuffer_Release(&b);
        if (bad) throw no_match();
        return r;
    }
    static PyObject* store(const A& v) {
        object sh(vec ? Py_BuildValue("(n)", static_cast<Py_ssize_t>(v.rows()))
                      : Py_BuildValue("(nn)", static_cast<Py_ssize_t>(v.rows()), static_cast<Py_ssize_t>(v.cols())));
        object a(PyObject_CallMethod(numpy(), "empty", "Os", sh.p, dtypeName<S>()));
        if (!a.p) throw error_already_set();
        Py_buffer b;
        if (PyObject_GetBuffer(a.p, &b, PyBUF_C_CONTIGUOUS | PyBUF_WRITABLE)) throw error_already_set();
        S* s = static_cast<S*>(b.buf);
        for (Eigen::Index i = 0; i < v.rows(); ++i)
            for (Eigen::Index j = 0; j < v.cols(); ++j) s[i * v.cols() + j] = v(i, j);
        PyBuffer_Release(&b);
        return a.release();
    }
};
template <class T>
object cast(const T& v) {
    return object(caster<std::decay_t<std::conditional_t<std::is_array_v<T>, const char*, T>>>::store(v));
}

// ---------------------------------------------------------------- arguments and extras
struct arg_v {
    std::string name;
    std::shared_ptr<object> value;
};
struct arg {
    std::string name;
    template <class T>
    arg_v operator=(const T& v) const {
        return {name, std::make_shared<object>(cast(v))};
    }
};
inline namespace literals {
inline arg operator""_a(const char* s, std::size_t) { return {s}; }
}  // namespace literals
struct gil_scoped_release {
    PyThreadState* s;
    gil_scoped_release() : s(PyEval_SaveThread()) {}
    ~gil_scoped_release() { PyEval_RestoreThread(s); }
};
template <class... T>
struct call_guard {};
template <class... A>
struct init_t {};
template <class... A>
init_t<A...> init() {
    return {};
}
template <class... A>
struct overload_cast_t {
    template <class R, class C>
    constexpr auto operator()(R (C::*f)(A...)) const { return f; }
    template <class R>
    constexpr auto operator()(R (*f)(A...)) const { return f; }
};
template <class... A>
inline constexpr overload_cast_t<A...> overload_cast{};

// ---------------------------------------------------------------- functions
struct Overload {
    std::size_t nargs;
    std::vector<std::string> names;                // names of the trailing named arguments
    std::vector<std::shared_ptr<object>> defaults;  // same length as names, null if none
    std::function<PyObject*(PyObject**)> call;
    bool release = false;
};
struct Func {
    PyObject_HEAD std::vector<Overload>* ov;
    std::string* name;
};
inline void translate() {
    try {
        throw;
    } catch (const error_already_set&) {
    } catch (const value_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const type_error& e) {
        PyErr_SetString(PyExc_TypeError, e.what());
    } catch (const std::bad_alloc& e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (const std::domain_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::invalid_argument& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::length_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::out_of_range& e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const std::range_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::overflow_error& e) {
        PyErr_SetString(PyExc_OverflowError, e.what());
    } catch (const std::exception& e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (...) {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
    }
}
inline PyObject* func_call(PyObject* self, PyObject* args, PyObject* kw) {
    Func* f = reinterpret_cast<Func*>(self);
    Py_ssize_t np = PyTuple_GET_SIZE(args);
    for (auto& o : *f->ov) {
        if (np > static_cast<Py_ssize_t>(o.nargs)) continue;
        std::vector<PyObject*> a(o.nargs, nullptr);
        for (Py_ssize_t i = 0; i < np; ++i) a[i] = PyTuple_GET_ITEM(args, i);
        std::size_t off = o.nargs - o.names.size();
        bool ok = true;
        Py_ssize_t used = 0;
        for (std::size_t k = 0; k < o.names.size(); ++k) {
            PyObject* v = kw ? PyDict_GetItemString(kw, o.names[k].c_str()) : nullptr;
            if (v) {
                if (a[off + k]) ok = false;
                a[off + k] = v;
                used++;
            }
            if (!a[off + k] && o.defaults[k]) a[off + k] = o.defaults[k]->p;
        }
        for (auto* x : a)
            if (!x) ok = false;
        if (kw && used != PyDict_Size(kw)) ok = false;
        if (!ok) continue;
        try {
            return o.call(a.data());
        } catch (const no_match&) {
            continue;
        } catch (...) {
            translate();
            return nullptr;
        }
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", f->name->c_str());
    return nullptr;
}
inline PyObject* func_get(PyObject* self, PyObject* obj, PyObject*) {
    if (!obj || obj == Py_None) {
        Py_INCREF(self);
        return self;
    }
    return PyMethod_New(self, obj);
}
inline PyTypeObject* funcType() {
    static PyTypeObject* t = nullptr;
    if (!t) {
        static PyType_Slot slots[] = {{Py_tp_call, reinterpret_cast<void*>(func_call)},
                                      {Py_tp_descr_get, reinterpret_cast<void*>(func_get)},
                                      {0, nullptr}};
        static PyType_Spec spec = {"_hydrobricks.function", sizeof(Func), 0, Py_TPFLAGS_DEFAULT, slots};
        t = reinterpret_cast<PyTypeObject*>(PyType_FromSpec(&spec));
    }
    return t;
}
template <class T>
using base_t = std::remove_cv_t<std::remove_reference_t<T>>;
template <class A>
struct argload {  // by value / const ref of values, reference of registered classes, pointers of registered classes
    static decltype(auto) get(PyObject* o) { return caster<base_t<A>>::load(o); }
};
template <class T>
struct argload<T*> {
    static T* get(PyObject* o) {
        if (o == Py_None) return nullptr;
        return &caster<std::remove_cv_t<T>>::load(o);
    }
};
template <class T>
struct argload<std::unique_ptr<T>> {
    static std::unique_ptr<T> get(PyObject* o) {
        T* p = &caster<T>::load(o);
        Inst* i = reinterpret_cast<Inst*>(o);
        i->ptr = nullptr;  // ownership moves
        return std::unique_ptr<T>(p);
    }
};
inline void apply_extra(Overload& o, const arg& a) {
    o.names.push_back(a.name);
    o.defaults.push_back(nullptr);
}
inline void apply_extra(Overload& o, const arg_v& a) {
    o.names.push_back(a.name);
    o.defaults.push_back(a.value);
}
inline void apply_extra(Overload&, const char*) {}
inline void apply_extra(Overload& o, const call_guard<gil_scoped_release>&) { o.release = true; }

template <class R, class F, class... A, std::size_t... I>
PyObject* invoke(const F& f, PyObject** a, std::index_sequence<I...>, bool release) {
    // load every argument first (braced initialization: in order), then call
    std::tuple<decltype(argload<A>::get(a[I]))...> t{argload<A>::get(a[I])...};
    std::unique_ptr<gil_scoped_release> g(release ? new gil_scoped_release : nullptr);
    if constexpr (std::is_void_v<R>) {
        f(std::forward<decltype(argload<A>::get(a[I]))>(std::get<I>(t))...);
        g.reset();
        Py_RETURN_NONE;
    } else {
        decltype(auto) r = f(std::forward<decltype(argload<A>::get(a[I]))>(std::get<I>(t))...);
        g.reset();
        if constexpr (std::is_rvalue_reference_v<decltype(r)&&> && !std::is_reference_v<R>)
            return caster<base_t<R>>::store(std::move(r));
        else
            return caster<base_t<R>>::store(r);
    }
}
template <class R, class... A, class F, class... E>
Overload make(F f, const E&... extra) {
    Overload o;
    o.nargs = sizeof...(A);
    (apply_extra(o, extra), ...);
    bool rel = o.release;
    o.call = [f, rel](PyObject** a) { return invoke<R, F, A...>(f, a, std::index_sequence_for<A...>{}, rel); };
    return o;
}
template <class R, class... A, class... E>
Overload overload(R (*f)(A...), const E&... e) {
    return make<R, A...>(f, e...);
}
template <class R, class C, class... A, class... E>
Overload overload(R (C::*f)(A...), const E&... e) {
    return make<R, C&, A...>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, e...);
}
template <class R, class C, class... A, class... E>
Overload overload(R (C::*f)(A...) const, const E&... e) {
    return make<R, C&, A...>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, e...);
}
template <class R, class C, class... A, class... E>
Overload overload(R (C::*f)(A...) noexcept, const E&... e) {
    return make<R, C&, A...>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, e...);
}
template <class R, class C, class... A, class... E>
Overload overload(R (C::*f)(A...) const noexcept, const E&... e) {
    return make<R, C&, A...>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, e...);
}
template <class L, class R, class C, class... A, class... E>
Overload overload_lambda(L l, R (C::*)(A...) const, const E&... e) {
    return make<R, A...>(l, e...);
}
template <class L, class... E>
    requires requires { &L::operator(); }
Overload overload(L l, const E&... e) {
    return overload_lambda(l, &L::operator(), e...);
}
inline void add_overload(PyObject* target, const char* name, Overload o, bool isStatic, PyObject* dictOwn) {
    PyObject* cur = dictOwn ? PyDict_GetItemString(dictOwn, name) : nullptr;
    if (cur && Py_TYPE(cur) == funcType()) {
        reinterpret_cast<Func*>(cur)->ov->push_back(std::move(o));
        return;
    }
    Func* f = PyObject_New(Func, funcType());
    f->ov = new std::vector<Overload>{std::move(o)};
    f->name = new std::string(name);
    PyObject* v = reinterpret_cast<PyObject*>(f);
    if (isStatic) {
        PyObject* s = PyStaticMethod_New(v);
        Py_DECREF(v);
        v = s;
    }
    PyObject_SetAttrString(target, name, v);
    Py_DECREF(v);
}

class module_ : public object {
  public:
    using object::object;
    struct docref {
        void operator=(const char*) {}
    };
    docref doc() { return {}; }
    template <class F, class... E>
    module_& def(const char* name, F f, const E&... e) {
        add_overload(p, name, overload(f, e...), false, PyModule_GetDict(p));
        return *this;
    }
};

inline void inst_dealloc(PyObject* o) {
    Inst* i = reinterpret_cast<Inst*>(o);
    if (i->ptr && i->del) i->del(i->ptr);
    delete i->ti;
    Py_XDECREF(i->keep);
    PyTypeObject* t = Py_TYPE(o);
    t->tp_free(o);
    Py_DECREF(t);
}
inline PyTypeObject* baseType() {
    if (!instanceBase()) {
        static PyType_Slot slots[] = {{Py_tp_dealloc, reinterpret_cast<void*>(inst_dealloc)},
                                      {Py_tp_new, reinterpret_cast<void*>(PyType_GenericNew)},
                                      {0, nullptr}};
        static PyType_Spec spec = {"_hydrobricks.object", sizeof(Inst), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        instanceBase() = reinterpret_cast<PyTypeObject*>(PyType_FromSpec(&spec));
    }
    return instanceBase();
}
template <class T, class... Bases>
class class_ : public object {
  public:
    class_(object& m, const char* name) {
        PyObject* base;
        if constexpr (sizeof...(Bases) > 0)
            base = reinterpret_cast<PyObject*>(
                registry().at(typeid(std::tuple_element_t<0, std::tuple<Bases...>>)).type);
        else
            base = reinterpret_cast<PyObject*>(baseType());
        object d(PyDict_New());
        object mod(PyUnicode_FromString("_hydrobricks"));
        PyDict_SetItemString(d.p, "__module__", mod.p);
        object slots(PyTuple_New(0));
        // instances may carry Python attributes only in Python subclasses
        PyDict_SetItemString(d.p, "__slots__", slots.p);
        p = PyObject_CallFunction(reinterpret_cast<PyObject*>(&PyType_Type), "s(O)O", name, base, d.p);
        if (!p) throw error_already_set();
        auto& r = registry()[typeid(T)];
        r.type = reinterpret_cast<PyTypeObject*>(p);
        Py_INCREF(p);
        (r.bases.push_back({std::type_index(typeid(Bases)),
                            [](void* q) -> void* { return static_cast<Bases*>(static_cast<T*>(q)); }}),
         ...);
        PyObject_SetAttrString(m.p, name, p);
    }
    PyObject* own() const { return reinterpret_cast<PyTypeObject*>(p)->tp_dict; }
    template <class... A, class... E>
    class_& def(init_t<A...>, const E&... e) {
        Overload o;
        o.nargs = 1 + sizeof...(A);
        (apply_extra(o, e), ...);
        o.call = [](PyObject** a) -> PyObject* {
            if (!PyObject_TypeCheck(a[0], baseType())) throw no_match();
            return construct<A...>(a, std::index_sequence_for<A...>{});
        };
        add_overload(p, "__init__", std::move(o), false, own());
        return *this;
    }
    template <class... A, std::size_t... I>
    static PyObject* construct(PyObject** a, std::index_sequence<I...>) {
        T* t = new T(argload<A>::get(a[I + 1])...);
        Inst* i = reinterpret_cast<Inst*>(a[0]);
        if (i->ptr && i->del) i->del(i->ptr);
        delete i->ti;
        i->ptr = t;
        i->del = [](void* q) { delete static_cast<T*>(q); };
        i->ti = new std::type_index(typeid(T));
        Py_RETURN_NONE;
    }
    template <class F, class... E>
    class_& def(const char* name, F f, const E&... e) {
        add_overload(p, name, overload(f, e...), false, own());
        return *this;
    }
    template <class F, class... E>
    class_& def_static(const char* name, F f, const E&... e) {
        add_overload(p, name, overload(f, e...), true, own());
        return *this;
    }
    template <class G, class S>
    class_& def_property(const char* name, G g, S s) {
        object m(PyModule_New("tmp"));
        add_overload(m.p, "get", overload(g), false, nullptr);
        add_overload(m.p, "set", overload(s), false, nullptr);
        object get(PyObject_GetAttrString(m.p, "get")), set(PyObject_GetAttrString(m.p, "set"));
        object pr(PyObject_CallFunction(reinterpret_cast<PyObject*>(&PyProperty_Type), "OO", get.p, set.p));
        PyObject_SetAttrString(p, name, pr.p);
        return *this;
    }
    template <class G>
    class_& def_property_readonly(const char* name, G g) {
        object m(PyModule_New("tmp"));
        add_overload(m.p, "get", overload(g), false, nullptr);
        object get(PyObject_GetAttrString(m.p, "get"));
        object pr(PyObject_CallFunction(reinterpret_cast<PyObject*>(&PyProperty_Type), "O", get.p));
        PyObject_SetAttrString(p, name, pr.p);
        return *this;
    }
};
template <class T>
class enum_ : public object {
  public:
    enum_(object& m, const char* name) {
        object d(PyDict_New());
        p = PyObject_CallFunction(reinterpret_cast<PyObject*>(&PyType_Type), "s(O)O", name, &PyLong_Type, d.p);
        auto& r = registry()[typeid(T)];
        r.type = reinterpret_cast<PyTypeObject*>(p);
        Py_INCREF(p);
        PyObject_SetAttrString(m.p, name, p);
    }
    enum_& value(const char* name, T v) {
        object o(caster<T>::store(v));
        PyObject_SetAttrString(p, name, o.p);
        return *this;
    }
};
}  // namespace pybind11

#define PYBIND11_MODULE(name, var)                                                          \
    static void pybind11_init_##name(pybind11::module_&);                                   \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() {           \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr};      \
        pybind11::module_ m(PyModule_Create(&def));                                         \
        try {                                                                               \
            pybind11_init_##name(m);                                                        \
        } catch (...) {                                                                     \
            pybind11::translate();                                                          \
            return nullptr;                                                                 \
        }                                                                                   \
        return m.release();                                                                 \
    }                                                                                       \
    static void pybind11_init_##name(pybind11::module_& var)
