// Stand-in for craftnapi (not available offline): JS values in memory.  A failed
// operation is an error of type_error; as in N-API an absent property or argument
// reads as undefined.
#pragma once
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <typeindex>
#include <utility>
#include <variant>
#include <vector>
#include <craftpp/binary/const_view.hpp>
#include <craftpp/error/error.hpp>
#include <craftpp/maybe/maybe.hpp>
#include <craftpp/result/result.hpp>
#include "error.hpp"

namespace craftnapi {

using craftpp::result::Result;
using craftpp::maybe::Maybe;
using craftpp::binary::ConstView;

class Object;
class Value;

namespace js {
struct Undefined {};
struct Null {};
struct Num { int64_t v; };
struct Big { uint64_t v; };
struct Buffer { std::vector<uint8_t> v; };
struct Arr { std::vector<Value> v; };
struct Obj {
    std::map<std::string, Value> props;
    std::shared_ptr<void> wrapped;
    std::type_index type = typeid(void);
};
struct Cell;
}

class Value {
public:
    Value();
    explicit Value(std::shared_ptr<js::Cell> c) : m_c(std::move(c)) {}
    template<typename T> static Value make(T&& v);
    static Result<Object> to_object(const Value& v);
    static Result<std::string> to_string(const Value& v) { return v.as_string(); }
    static Result<ConstView> to_buffer(const Value& v) { return v.as_buffer(); }
    Result<Object> as_object() const;
    Result<std::string> as_string() const;
    Result<bool> as_boolean() const;
    Result<int32_t> as_int32() const;
    Result<ConstView> as_buffer() const;
    template<typename T> Result<std::reference_wrapper<T>> unwrap() const;
    const js::Cell& cell() const { return *m_c; }
    js::Cell& cell() { return *m_c; }
private:
    std::shared_ptr<js::Cell> m_c;
};

class Object {
public:
    explicit Object(const Value& v) : m_v(v) {}
    static Value fmap_to_value(const Object& o) { return o.m_v; }
    Value to_value() const { return m_v; }
    Result<Value> named_property(std::string_view name) const;
    Result<Maybe<Value>> maybe_named_property(std::string_view name) const;
    template<typename T> Result<Value> wrap(std::unique_ptr<T> p) const;
private:
    Value m_v;
};

namespace js {
struct Cell { std::variant<Undefined, Null, bool, Num, Big, std::string, Buffer, Arr, Obj> v; };
}

template<typename T> Value Value::make(T&& v) {
    auto c = std::make_shared<js::Cell>();
    c->v = std::forward<T>(v);
    return Value(c);
}
inline Value::Value() : m_c(std::make_shared<js::Cell>()) {}
inline std::error_code type_error() { return make_error_code(Error::type_error); }
inline Result<Object> Value::as_object() const {
    if (std::holds_alternative<js::Obj>(m_c->v)) { return Object(*this); }
    return type_error();
}
inline Result<Object> Value::to_object(const Value& v) { return v.as_object(); }
inline Result<std::string> Value::as_string() const {
    if (auto *p = std::get_if<std::string>(&m_c->v)) { return *p; }
    return type_error();
}
inline Result<bool> Value::as_boolean() const {
    if (auto *p = std::get_if<bool>(&m_c->v)) { return *p; }
    return type_error();
}
inline Result<int32_t> Value::as_int32() const {
    if (auto *p = std::get_if<js::Num>(&m_c->v)) { return static_cast<int32_t>(p->v); }
    return type_error();
}
inline Result<ConstView> Value::as_buffer() const {
    if (auto *p = std::get_if<js::Buffer>(&m_c->v)) { return ConstView(p->v.data(), p->v.size()); }
    return type_error();
}
template<typename T> Result<std::reference_wrapper<T>> Value::unwrap() const {
    if (auto *p = std::get_if<js::Obj>(&m_c->v); p && p->wrapped && p->type == typeid(T)) { return std::ref(*static_cast<T *>(p->wrapped.get())); }
    return type_error();
}
inline Result<Value> Object::named_property(std::string_view name) const {
    auto& o = std::get<js::Obj>(m_v.cell().v);
    auto i = o.props.find(std::string(name));
    return i == o.props.end() ? Value() : i->second;
}
inline Result<Maybe<Value>> Object::maybe_named_property(std::string_view name) const {
    auto& o = std::get<js::Obj>(m_v.cell().v);
    auto i = o.props.find(std::string(name));
    if (i == o.props.end()) { return Maybe<Value>(craftpp::maybe::none()); }
    return Maybe<Value>(i->second);
}
template<typename T> Result<Value> Object::wrap(std::unique_ptr<T> p) const {
    Value v = m_v;
    auto& o = std::get<js::Obj>(v.cell().v);
    o.type = typeid(T);
    o.wrapped = std::shared_ptr<T>(std::move(p));
    return v;
}

class CallbackInfo {
public:
    Value this_arg;
    std::vector<Value> args;
    Result<Value> operator[](size_t n) const { return n < args.size() ? args[n] : Value(); }
};

class Env;
using Callback = std::function<Result<Value>(Env&, const CallbackInfo&)>;

// Value of a property: a value, an error of making it, or nothing (the property is absent)
class Prop {
public:
    Prop(const Value& v) : m_v(Result<Value>(v)) {}
    Prop(const Object& o) : m_v(Result<Value>(o.to_value())) {}
    Prop(const Result<Value>& r) : m_v(r) {}
    Prop(const Result<Object>& r) : m_v(r.fmap(Object::fmap_to_value)) {}
    Prop(const Maybe<Value>& m) { if (!m.is_none()) { m_v = Result<Value>(m.unwrap()); } }
    Prop(const Maybe<Object>& m) { if (!m.is_none()) { m_v = Result<Value>(m.unwrap().to_value()); } }
    Prop(const Maybe<Result<Value>>& m) { if (!m.is_none()) { m_v = m.unwrap(); } }
    Prop(const Maybe<Result<Object>>& m) { if (!m.is_none()) { m_v = m.unwrap().fmap(Object::fmap_to_value); } }
    const std::optional<Result<Value>>& get() const { return m_v; }
private:
    std::optional<Result<Value>> m_v;
};

class Env {
public:
    using Props = std::initializer_list<std::pair<std::string_view, Prop>>;
    Result<Object> create_object(Props ps) const {
        js::Obj o;
        for (auto& [k, p] : ps) {
            if (!p.get()) { continue; }
            if (p.get()->is_err()) { return p.get()->unwrap_err(); }
            o.props.insert_or_assign(std::string(k), p.get()->unwrap());
        }
        return Object(Value::make(std::move(o)));
    }
    Result<Value> create_string(std::string_view s) const { return Value::make(std::string(s)); }
    Result<Value> create_int32(int32_t v) const { return Value::make(js::Num{v}); }
    Result<Value> create_uint32(uint32_t v) const { return Value::make(js::Num{v}); }
    Result<Value> create_int64(int64_t v) const { return Value::make(js::Num{v}); }
    Result<Value> create_bigint_uint64(uint64_t v) const { return Value::make(js::Big{v}); }
    Result<Value> create_boolean(bool v) const { return Value::make(bool(v)); }
    Result<Value> create_null() const { return Value::make(js::Null{}); }
    Result<Value> create_undefined() const { return Value(); }
    Result<Value> create_buffer(const ConstView& v) const { return Value::make(js::Buffer{std::vector<uint8_t>(v.begin(), v.end())}); }
    template<typename C, typename F> Result<Value> create_array(const C& c, F&& f) const {
        js::Arr a;
        for (auto& x : c) {
            Result<Value> v = f(x);
            if (v.is_err()) { return v.unwrap_err(); }
            a.v.push_back(v.unwrap());
        }
        return Value::make(std::move(a));
    }
    struct Class {
        Callback ctor;
        std::map<std::string, Callback> methods;
    };
    Result<Value> create_class(std::string_view name, Callback ctor, std::initializer_list<std::pair<std::string_view, Callback>> ms) {
        Class& c = classes[std::string(name)];
        c.ctor = std::move(ctor);
        for (auto& [k, f] : ms) { c.methods[std::string(k)] = f; }
        return Value::make(js::Obj{});
    }
    std::map<std::string, Class> classes;
};

}
