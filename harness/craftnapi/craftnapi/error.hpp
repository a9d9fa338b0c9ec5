// Stand-in for craftnapi (not available offline): errors of the JS binding layer.
#pragma once
#include <string>
#include <system_error>

namespace craftnapi {
enum class Error { ok = 0, type_error };
struct Category : std::error_category {
    const char *name() const noexcept override { return "napi"; }
    std::string message(int) const override { return "wrong type of a JS value"; }
};
inline std::error_code make_error_code(Error e) {
    static const Category c;
    return std::error_code(static_cast<int>(e), c);
}
}
