#pragma once

#include <functional>
#include <optional>
#include <type_traits>
#include <utility>

namespace craftpp::maybe {

struct None {
    friend constexpr bool operator==(const None&, const None&) noexcept { return true; }
};

constexpr inline None none() noexcept { return None{}; }

template<typename T> class Maybe;

namespace details {
template<typename T> struct is_maybe : std::false_type {};
template<typename T> struct is_maybe<Maybe<T>> : std::true_type {};
template<typename T> inline constexpr bool is_maybe_v = is_maybe<std::remove_cvref_t<T>>::value;
}

}

#include <craftpp/result/result.hpp>

namespace craftpp::maybe {

template<typename T>
class Maybe {
public:
    using Value = T;

    constexpr Maybe() = default;
    constexpr Maybe(None) {}
    Maybe(const T& v) : m_v(v) {}
    Maybe(T&& v) : m_v(std::move(v)) {}
    template<typename U>
        requires (!details::is_maybe_v<U>
                  && !std::is_same_v<std::remove_cvref_t<U>, None>
                  && !std::is_same_v<std::remove_cvref_t<U>, T>
                  && std::is_convertible_v<U&&, T>)
    Maybe(U&& u) : m_v(std::in_place, std::forward<U>(u)) {}
    template<typename U>
        requires (!std::is_same_v<U, T> && !std::is_convertible_v<const Maybe<U>&, T> && std::is_convertible_v<const U&, T>)
    Maybe(const Maybe<U>& o) { if (o.is_some()) { m_v.emplace(o.unwrap()); } }
    template<typename U>
        requires (!std::is_same_v<U, T> && !std::is_convertible_v<Maybe<U>&&, T> && std::is_convertible_v<U&&, T>)
    Maybe(Maybe<U>&& o) { if (o.is_some()) { m_v.emplace(std::move(o).unwrap()); } }
    Maybe(const std::optional<T>& o) : m_v(o) {}
    Maybe(std::optional<T>&& o) : m_v(std::move(o)) {}
    Maybe(const Maybe&) = default;
    Maybe(Maybe&&) = default;
    Maybe& operator=(const Maybe&) = default;
    Maybe& operator=(Maybe&&) = default;
    Maybe& operator=(None) { m_v.reset(); return *this; }

    static Maybe none() { return Maybe{None{}}; }
    static Maybe move_from(T&& v) { return Maybe{std::move(v)}; }
    static Maybe copy_from(const T& v) { return Maybe{v}; }

    bool is_some() const noexcept { return m_v.has_value(); }
    bool is_none() const noexcept { return !m_v.has_value(); }
    bool has_value() const noexcept { return m_v.has_value(); }
    explicit operator bool() const noexcept { return m_v.has_value(); }

    T& unwrap() & { return m_v.value(); }
    const T& unwrap() const& { return m_v.value(); }
    T&& unwrap() && { return std::move(m_v.value()); }
    T& value() & { return m_v.value(); }
    const T& value() const& { return m_v.value(); }
    T&& value() && { return std::move(m_v.value()); }
    T& operator*() & { return m_v.value(); }
    const T& operator*() const& { return m_v.value(); }
    T* operator->() { return &m_v.value(); }
    const T* operator->() const { return &m_v.value(); }

    template<typename D> T value_or(D&& d) const& { if (is_some()) { return *m_v; } return T(std::forward<D>(d)); }
    template<typename D> T value_or(D&& d) && { if (is_some()) { return std::move(*m_v); } return T(std::forward<D>(d)); }
    template<typename D> T unwrap_or(D&& d) const& { return value_or(std::forward<D>(d)); }
    template<typename D> T unwrap_or(D&& d) && { return std::move(*this).value_or(std::forward<D>(d)); }
    template<typename F> T value_or_call(F&& f) const& { if (is_some()) { return *m_v; } return T(f()); }
    template<typename F> T value_or_call(F&& f) && { if (is_some()) { return std::move(*m_v); } return T(f()); }
    template<typename F> T unwrap_or_call(F&& f) const& { return value_or_call(std::forward<F>(f)); }

    template<typename F> auto fmap(F&& f) & { return fmap_(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) const& { return fmap_(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) && { return fmap_(std::move(*this), std::forward<F>(f)); }

    template<typename F> auto bind(F&& f) & { return bind_(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) const& { return bind_(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) && { return bind_(std::move(*this), std::forward<F>(f)); }

    template<typename F> Maybe& with_inner(F&& f) & { if (is_some()) { call_inner(*m_v, std::forward<F>(f)); } return *this; }
    template<typename F> const Maybe& with_inner(F&& f) const& { if (is_some()) { std::invoke(std::forward<F>(f), *m_v); } return *this; }
    template<typename F> Maybe with_inner(F&& f) && { if (is_some()) { call_inner(*m_v, std::forward<F>(f)); } return std::move(*this); }

    result::Result<T> require() const&;
    result::Result<T> require() &&;

    template<typename U>
    friend bool operator==(const Maybe& a, const Maybe<U>& b) {
        if (a.is_some() != b.is_some()) { return false; }
        return a.is_none() || a.unwrap() == b.unwrap();
    }
    friend bool operator==(const Maybe& a, None) { return a.is_none(); }

private:
    template<typename F>
    static void call_inner(T& v, F&& f) {
        if constexpr (std::is_invocable_v<F, T&>) { std::invoke(std::forward<F>(f), v); }
        else { std::invoke(std::forward<F>(f), std::move(v)); }
    }
    template<typename S, typename F>
    static auto fmap_(S&& self, F&& f) {
        using A = result::details::arg_t<F, decltype(std::forward<S>(self).unwrap())>;
        using R = std::decay_t<std::invoke_result_t<F, A>>;
        if (self.is_some()) {
            return Maybe<R>(R(std::invoke(std::forward<F>(f), static_cast<A>(self.unwrap()))));
        }
        return Maybe<R>(None{});
    }
    template<typename S, typename F>
    static auto bind_(S&& self, F&& f) {
        using A = result::details::arg_t<F, decltype(std::forward<S>(self).unwrap())>;
        using R = std::remove_cvref_t<std::invoke_result_t<F, A>>;
        static_assert(details::is_maybe_v<R>, "Maybe::bind: function must return Maybe");
        if (self.is_some()) {
            return R(std::invoke(std::forward<F>(f), static_cast<A>(self.unwrap())));
        }
        return R(None{});
    }
    std::optional<T> m_v;
};

template<typename T> Maybe(T) -> Maybe<T>;

enum class ErrorCode { ok = 0, value_required = 1 };
class MaybeErrorCategory : public std::error_category {
public:
    const char* name() const noexcept override { return "maybe error"; }
    std::string message(int code) const override { return code == 1 ? "value required" : "success"; }
};
inline const std::error_category& maybe_error_category() noexcept { static const MaybeErrorCategory cat; return cat; }
inline std::error_code make_error_code(ErrorCode ec) noexcept { return std::error_code((int)ec, maybe_error_category()); }

template<typename T> result::Result<T> Maybe<T>::require() const& {
    if (is_some()) { return result::Result<T>(*m_v); }
    return result::Result<T>(make_error_code(ErrorCode::value_required));
}
template<typename T> result::Result<T> Maybe<T>::require() && {
    if (is_some()) { return result::Result<T>(std::move(*m_v)); }
    return result::Result<T>(make_error_code(ErrorCode::value_required));
}

}
