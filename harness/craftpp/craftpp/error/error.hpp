#pragma once

#include <string>
#include <string_view>
#include <system_error>
#include <utility>
#include <vector>

namespace craftpp::error {

class Error {
public:
    template<typename T>
        requires (std::is_error_code_enum_v<std::remove_cvref_t<T>>)
    Error(T e) : m_code(make_error_code(e)) {}
    Error(const std::error_code& ec) : m_code(ec) {}
    Error(const Error&) = default;
    Error(Error&&) = default;
    Error& operator=(const Error&) = default;
    Error& operator=(Error&&) = default;

    const std::error_category& category() const noexcept { return m_code.category(); }
    int value() const noexcept { return m_code.value(); }
    const std::error_code& code() const noexcept { return m_code; }
    std::string message() const {
        std::string out;
        for (auto it = m_context.rbegin(); it != m_context.rend(); ++it) {
            out += *it;
            out += ": ";
        }
        out += m_code.message();
        return out;
    }

    template<typename... Ts>
    Error& add_context(Ts&&... vs) {
        std::string s;
        (append(s, std::forward<Ts>(vs)), ...);
        m_context.emplace_back(std::move(s));
        return *this;
    }

    friend bool operator==(const Error& a, const Error& b) noexcept { return a.m_code == b.m_code; }
    friend bool operator==(const Error& a, const std::error_code& b) noexcept { return a.m_code == b; }

private:
    static void append(std::string& s, std::string_view v) { s.append(v); }
    static void append(std::string& s, char c) { s.push_back(c); }
    template<typename T>
        requires (std::is_arithmetic_v<T> && !std::is_same_v<T, char>)
    static void append(std::string& s, T v) { s += std::to_string(v); }

    std::error_code m_code;
    std::vector<std::string> m_context;
};

}
