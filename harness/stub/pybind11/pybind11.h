// A stand-in for pybind11 (which is not installed here): what a module defines is put into a registry, and can be called
// by name with values of C++ types, as Python would call it.  Only what a module of classes needs: constructors, methods,
// static methods, names and defaults of arguments, holders.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

int PyErr_CheckSignals();

namespace pybind11 {

struct Value {                       // a Python object
    std::shared_ptr<void> p;         // empty: None
    const std::type_info* type = &typeid(void);
    bool owned = false;              // an object of a class which Python will destroy
    Value() {}
    template <class T>
    static Value of(T v) { Value r; r.p = std::make_shared<T>(std::move(v)); r.type = &typeid(T); return r; }
    bool none() const { return !p; }
    template <class T>
    const T& get() const {
        if (*type != typeid(T)) throw std::invalid_argument("TypeError");
        return *static_cast<const T*>(p.get());
    }
};

struct args {};
struct kwargs {};
struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("Python exception") {} };
struct module_ {
    template <class... E> module_& def(const char*, const E&...) { return *this; }
    struct Doc { template <class T> Doc& operator=(const T&) { return *this; } };
    Doc& doc() { static Doc d; return d; }
};
using module = module_;
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <class...> struct call_guard {};
template <int, int> struct keep_alive {};
struct scoped_ostream_redirect {};
struct scoped_estream_redirect {};
struct gil_scoped_release {};
template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }
template <class F> struct factory_t { F f; };
template <class F, class = decltype(&F::operator())> factory_t<F> init(F f) { return {f}; }
template <class... A> struct overload_cast_t {
    template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <class... A> static constexpr overload_cast_t<A...> overload_cast{};
static constexpr std::true_type const_{};

struct arg_v { std::string name; Value value; };
struct arg {
    std::string name;
    explicit arg(const char* n) : name(n) {}
    arg_v operator=(const char* v) const { return {name, Value::of(std::string(v))}; }
    arg_v operator=(std::nullptr_t) const { return {name, Value()}; }
    template <class T>
    arg_v operator=(T v) const { return {name, Value::of(std::move(v))}; }
};

struct Function {
    std::vector<std::string> names;
    std::vector<Value> defaults;     // of the last arguments
    size_t takes = 0;
    std::function<Value(void*, std::vector<Value>&)> call;
};
struct Class {
    std::map<std::string, std::vector<Function>> methods, statics;
    std::function<void(void*)> destroy;
};
inline std::map<std::string, Class>& classes() { static std::map<std::string, Class> c; return c; }

namespace detail {
template <class T> struct is_shared : std::false_type {};
template <class T> struct is_shared<std::shared_ptr<T>> : std::true_type {};

template <class T, class = void> struct from {
    static T get(const Value& v) { return v.get<T>(); }
};
template <> struct from<bool> {
    static bool get(const Value& v) { return *v.type == typeid(int) ? v.get<int>() != 0 : v.get<bool>(); }
};
template <class T> struct from<std::shared_ptr<T>> {
    static std::shared_ptr<T> get(const Value& v) { return v.none() ? nullptr : v.get<std::shared_ptr<T>>(); }
};
template <class T> using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;

// what Python passes: *args is always empty here
template <class A> struct take {
    template <class V> static bare<A> get(V& values, size_t& i) { return from<bare<A>>::get(values.at(i++)); }
    static constexpr size_t count = 1;
};
template <> struct take<args&> {
    template <class V> static args& get(V&, size_t&) { static args a; return a; }
    static constexpr size_t count = 0;
};
template <> struct take<const args&> : take<args&> {};
template <> struct take<args> : take<args&> {};

template <class... A> constexpr size_t count() {
    size_t n = 0;
    for (size_t c : std::initializer_list<size_t>{0, take<A>::count...}) n += c;
    return n;
}

inline void extra(Function& f, const arg& a) { f.names.push_back(a.name); }
inline void extra(Function& f, const arg_v& a) { f.names.push_back(a.name); f.defaults.push_back(a.value); }
template <class T> void extra(Function&, const T&) {}

template <class R> struct result {
    template <class F> static Value of(F f) { return Value::of<bare<R>>(f()); }
};
template <> struct result<void> {
    template <class F> static Value of(F f) { f(); return Value(); }
};
template <class T> struct result<T*> {          // a pointer to an object: who owns it is up to the caller
    template <class F> static Value of(F f) {
        T* p = f();
        if (!p) return Value();
        Value v;
        v.p = std::shared_ptr<void>(p, [](void*) {});
        v.type = &typeid(T);
        return v;
    }
};
template <class T> struct result<std::shared_ptr<T>> {
    template <class F> static Value of(F f) {
        std::shared_ptr<T> p = f();
        Value v;
        v.p = p;
        v.type = &typeid(T);
        v.owned = true;
        return v;
    }
};

// in the order of the arguments, which the braces guarantee
template <class R> struct Call {
    R r;
    template <class F, class... A> Call(F& f, A&&... a) : r(f(std::forward<A>(a)...)) {}
    R get() { return static_cast<R&&>(r); }
};
template <> struct Call<void> {
    template <class F, class... A> Call(F& f, A&&... a) { f(std::forward<A>(a)...); }
    void get() {}
};
}  // namespace detail

template <class T, class... Options>
class class_ {
    Class& c_;
    static constexpr bool shared_holder() {
        bool r = false;
        for (bool b : std::initializer_list<bool>{false, detail::is_shared<Options>::value...}) r = r || b;
        return r;
    }
    // f(self, arguments...)
    template <class R, class... A, class F, class... E>
    void method(const char* name, F f, const E&... extras) {
        Function fn;
        fn.takes = detail::count<A...>();
        fn.call = [f](void* self, std::vector<Value>& values) {
            return detail::result<R>::of([&]() -> R {
                size_t i = 0;
                struct Bound {
                    F f; T* self;
                    R operator()(A... a) { return f(*self, std::forward<A>(a)...); }
                } bound{f, static_cast<T*>(self)};
                return detail::Call<R>{bound, detail::take<A>::get(values, i)...}.get();
            });
        };
        (void) std::initializer_list<int>{0, (detail::extra(fn, extras), 0)...};
        c_.methods[name].push_back(fn);
    }
public:
    template <class M>
    class_(M&, const char* name, const char* = "") : c_(classes()[name]) {
        c_.destroy = [](void* p) { delete static_cast<T*>(p); };
    }
    template <class... A, class... E>
    class_& def(init_t<A...>, const E&... extras) {
        Function fn;
        fn.takes = detail::count<A...>();
        fn.call = [](void*, std::vector<Value>& values) {
            return detail::result<T*>::of([&]() -> T* {
                size_t i = 0;
                struct New { T* operator()(A... a) { return new T(std::forward<A>(a)...); } } make;
                return detail::Call<T*>{make, detail::take<A>::get(values, i)...}.get();
            });
        };
        (void) std::initializer_list<int>{0, (detail::extra(fn, extras), 0)...};
        c_.methods["__init__"].push_back(fn);
        return *this;
    }
    template <class F, class... E>
    class_& def(factory_t<F> made, const E&... extras) { return factory(made.f, &F::operator(), extras...); }
    template <class R, class C, class... A, class... E>
    class_& def(const char* name, R (C::*f)(A...), const E&... extras) {
        method<R, A...>(name, [f](T& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }, extras...);
        return *this;
    }
    template <class R, class C, class... A, class... E>
    class_& def(const char* name, R (C::*f)(A...) const, const E&... extras) {
        method<R, A...>(name, [f](T& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }, extras...);
        return *this;
    }
    template <class R, class S, class... A, class... E>
    class_& def(const char* name, R (*f)(S, A...), const E&... extras) {
        method<R, A...>(name, [f](T& self, A... a) -> R { return f(self, std::forward<A>(a)...); }, extras...);
        return *this;
    }
    template <class F, class... E, class = decltype(&F::operator())>
    class_& def(const char* name, F f, const E&... extras) { return lambda(name, f, &F::operator(), extras...); }
    template <class R, class... A, class... E>
    class_& def_static(const char* name, R (*f)(A...), const E&... extras) {
        Function fn;
        fn.takes = detail::count<A...>();
        fn.call = [f](void*, std::vector<Value>& values) {
            size_t i = 0;
            Value v = detail::result<R>::of([&]() -> R { return detail::Call<R>{*f, detail::take<A>::get(values, i)...}.get(); });
            // Python keeps the object in the holder of its class; a shared_ptr is of use only to a holder that is one
            if (detail::is_shared<R>::value != shared_holder() && detail::is_shared<R>::value)
                throw std::logic_error("an object that is shared is returned for a class which holds objects of its own: it is destroyed twice");
            return v;
        };
        (void) std::initializer_list<int>{0, (detail::extra(fn, extras), 0)...};
        c_.statics[name].push_back(fn);
        return *this;
    }
    template <class F, class... E, class = decltype(&F::operator())>
    class_& def_static(const char* name, F f, const E&... extras) { return static_lambda(name, f, &F::operator(), extras...); }

private:
    static T* made(T* p) { return p; }
    template <class H> static T* made(H h) { static_assert(!detail::is_shared<H>::value, "a constructor which gives a shared_ptr is not modelled"); return h.release(); }
    template <class F, class R, class... A, class... E>
    class_& factory(F f, R (F::*)(A...) const, const E&... extras) {
        Function fn;
        fn.takes = detail::count<A...>();
        fn.call = [f](void*, std::vector<Value>& values) {
            return detail::result<T*>::of([&]() -> T* {
                size_t i = 0;
                return made(detail::Call<R>{f, detail::take<A>::get(values, i)...}.get());
            });
        };
        (void) std::initializer_list<int>{0, (detail::extra(fn, extras), 0)...};
        c_.methods["__init__"].push_back(fn);
        return *this;
    }
    template <class F, class R, class S, class... A, class... E>
    class_& lambda(const char* name, F f, R (F::*)(S, A...) const, const E&... extras) {
        method<R, A...>(name, [f](T& self, A... a) -> R { return f(self, std::forward<A>(a)...); }, extras...);
        return *this;
    }
    template <class F, class R, class... A, class... E>
    class_& static_lambda(const char* name, F f, R (F::*)(A...) const, const E&... extras) {
        return def_static(name, static_cast<R (*)(A...)>(f), extras...);
    }
};

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable) void pybind_module_##name(pybind11::module_& variable)
