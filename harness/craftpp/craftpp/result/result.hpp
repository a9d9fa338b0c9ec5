#pragma once

#include <functional>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>

#include <craftpp/error/error.hpp>
#include <craftpp/types/unit.hpp>

namespace craftpp::result {

using craftpp::error::Error;
using craftpp::types::Unit;

template<typename V> class Result;
using MaybeError = Result<Unit>;

namespace details {
template<typename T> struct is_result : std::false_type {};
template<typename T> struct is_result<Result<T>> : std::true_type {};
template<typename T> inline constexpr bool is_result_v = is_result<std::remove_cvref_t<T>>::value;
template<typename T> inline constexpr bool is_error_v
    = std::is_same_v<std::remove_cvref_t<T>, Error>
    || std::is_same_v<std::remove_cvref_t<T>, std::error_code>
    || std::is_error_code_enum_v<std::remove_cvref_t<T>>;
// What bind's function may return: a Result, or an error (then Result<V> itself).
template<typename R, typename Dflt> struct bound { static_assert(is_result_v<R>, "bind: function must return Result"); using type = R; };
template<typename Dflt> struct bound<Error, Dflt> { using type = Dflt; };
template<typename Dflt> struct bound<std::error_code, Dflt> { using type = Dflt; };
// A function taking V& may be given the value of an rvalue Result.
template<typename F, typename A, bool direct = std::is_invocable_v<F, A>> struct arg { using type = A; };
template<typename F, typename A> struct arg<F, A, false> { using type = std::remove_reference_t<A>&; };
template<typename F, typename A> using arg_t = typename arg<F, A>::type;
}

template<typename V>
class Result {
public:
    using Value = V;

    Result(const V& v) : m_v(std::in_place_index<0>, v) {}
    Result(V&& v) : m_v(std::in_place_index<0>, std::move(v)) {}
    Result(const Error& e) : m_v(std::in_place_index<1>, e) {}
    Result(Error&& e) : m_v(std::in_place_index<1>, std::move(e)) {}
    Result(const std::error_code& ec) : m_v(std::in_place_index<1>, Error(ec)) {}
    template<typename U>
        requires (!details::is_result_v<U> && !details::is_error_v<U>
                  && !std::is_same_v<std::remove_cvref_t<U>, V>
                  && std::is_convertible_v<U&&, V>)
    Result(U&& u) : m_v(std::in_place_index<0>, std::forward<U>(u)) {}
    template<typename U>
        requires (!std::is_same_v<U, V> && !std::is_convertible_v<const Result<U>&, V> && std::is_convertible_v<const U&, V>)
    Result(const Result<U>& o)
        : m_v(o.is_ok() ? Store(std::in_place_index<0>, o.unwrap()) : Store(std::in_place_index<1>, o.unwrap_err())) {}
    template<typename U>
        requires (!std::is_same_v<U, V> && !std::is_convertible_v<Result<U>&&, V> && std::is_convertible_v<U&&, V>)
    Result(Result<U>&& o)
        : m_v(o.is_ok() ? Store(std::in_place_index<0>, std::move(o).unwrap()) : Store(std::in_place_index<1>, std::move(o).unwrap_err())) {}
    Result(const Result&) = default;
    Result(Result&&) = default;
    Result& operator=(const Result&) = default;
    Result& operator=(Result&&) = default;

    bool is_ok() const noexcept { return m_v.index() == 0; }
    bool is_err() const noexcept { return m_v.index() != 0; }

    V& unwrap() & { return std::get<0>(m_v); }
    const V& unwrap() const& { return std::get<0>(m_v); }
    V&& unwrap() && { return std::move(std::get<0>(m_v)); }
    Error& unwrap_err() & { return std::get<1>(m_v); }
    const Error& unwrap_err() const& { return std::get<1>(m_v); }
    Error&& unwrap_err() && { return std::move(std::get<1>(m_v)); }
    template<typename D> V unwrap_or(D&& d) const& { if (is_ok()) { return unwrap(); } return V(std::forward<D>(d)); }
    template<typename D> V unwrap_or(D&& d) && { if (is_ok()) { return std::move(*this).unwrap(); } return V(std::forward<D>(d)); }
    template<typename D> V value_or(D&& d) const& { return unwrap_or(std::forward<D>(d)); }
    template<typename D> V value_or(D&& d) && { return std::move(*this).unwrap_or(std::forward<D>(d)); }

    template<typename F> auto fmap(F&& f) & { return fmap_(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) const& { return fmap_(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) && { return fmap_(std::move(*this), std::forward<F>(f)); }

    template<typename F> auto bind(F&& f) & { return bind_(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) const& { return bind_(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) && { return bind_(std::move(*this), std::forward<F>(f)); }

    template<typename F> Result bind_err(F&& f) & { return bind_err_(*this, std::forward<F>(f)); }
    template<typename F> Result bind_err(F&& f) const& { return bind_err_(*this, std::forward<F>(f)); }
    template<typename F> Result bind_err(F&& f) && { return bind_err_(std::move(*this), std::forward<F>(f)); }

    template<typename... Ts> Result& add_context(Ts&&... vs) & {
        if (is_err()) { unwrap_err().add_context(std::forward<Ts>(vs)...); }
        return *this;
    }
    template<typename... Ts> Result add_context(Ts&&... vs) const& {
        Result r(*this);
        r.add_context(std::forward<Ts>(vs)...);
        return r;
    }
    template<typename... Ts> Result add_context(Ts&&... vs) && {
        if (is_err()) { unwrap_err().add_context(std::forward<Ts>(vs)...); }
        return std::move(*this);
    }

private:
    using Store = std::variant<V, Error>;

    template<typename S, typename F>
    static auto fmap_(S&& self, F&& f) {
        using A = details::arg_t<F, decltype(std::forward<S>(self).unwrap())>;
        using R0 = std::invoke_result_t<F, A>;
        if constexpr (std::is_void_v<R0>) {
            if (self.is_err()) { return Result<Unit>(std::forward<S>(self).unwrap_err()); }
            std::invoke(std::forward<F>(f), static_cast<A>(self.unwrap()));
            return Result<Unit>(Unit::create());
        } else {
            using R = std::decay_t<R0>;
            if (self.is_err()) { return Result<R>(std::forward<S>(self).unwrap_err()); }
            return Result<R>(R(std::invoke(std::forward<F>(f), static_cast<A>(self.unwrap()))));
        }
    }
    template<typename S, typename F>
    static auto bind_(S&& self, F&& f) {
        using A = details::arg_t<F, decltype(std::forward<S>(self).unwrap())>;
        using R0 = std::remove_cvref_t<std::invoke_result_t<F, A>>;
        using R = typename details::bound<R0, Result<V>>::type;
        if (self.is_err()) { return R(std::forward<S>(self).unwrap_err()); }
        return R(std::invoke(std::forward<F>(f), static_cast<A>(self.unwrap())));
    }
    template<typename S, typename F>
    static Result bind_err_(S&& self, F&& f) {
        if (self.is_ok()) { return Result(std::forward<S>(self)); }
        return Result(std::invoke(std::forward<F>(f), std::forward<S>(self).unwrap_err()));
    }

    Store m_v;
};

inline MaybeError success() { return MaybeError(Unit::create()); }
template<typename T> Result<std::decay_t<T>> success(T&& v) { return Result<std::decay_t<T>>(std::forward<T>(v)); }
template<typename T> Result<std::decay_t<T>> return_value(T&& v) { return Result<std::decay_t<T>>(std::forward<T>(v)); }

template<typename... Rs>
    requires (details::is_result_v<Rs> && ...)
MaybeError any_is_err(Rs&&... rs) {
    const Error *err = nullptr;
    ((err == nullptr && rs.is_err() ? (void)(err = &std::as_const(rs).unwrap_err()) : (void)0), ...);
    if (err != nullptr) { return MaybeError(*err); }
    return success();
}

template<typename F, typename... Rs>
    requires (details::is_result_v<Rs> && ...)
auto combine(F&& f, Rs&&... rs) {
    if constexpr (std::is_invocable_v<F, decltype(std::forward<Rs>(rs).unwrap())...>) {
        using R = std::remove_cvref_t<std::invoke_result_t<F, decltype(std::forward<Rs>(rs).unwrap())...>>;
        static_assert(details::is_result_v<R>, "combine: function must return Result");
        auto e = any_is_err(rs...);
        if (e.is_err()) { return R(std::move(e).unwrap_err()); }
        return R(std::invoke(std::forward<F>(f), std::forward<Rs>(rs).unwrap()...));
    } else {
        using R = std::remove_cvref_t<std::invoke_result_t<F, decltype(rs.unwrap())...>>;
        static_assert(details::is_result_v<R>, "combine: function must return Result");
        auto e = any_is_err(rs...);
        if (e.is_err()) { return R(std::move(e).unwrap_err()); }
        return R(std::invoke(std::forward<F>(f), rs.unwrap()...));
    }
}

}
