// Stand-in for craftpp (github.com/poroh/craftpp), which is not available
// offline. Written from the way freewebrtc uses it and from freewebrtc's own
// tests (util_return_value_tests.cpp specifies Result).
#pragma once

namespace craftpp::types {

struct Unit {
    static constexpr Unit create() noexcept { return Unit{}; }
    friend constexpr bool operator==(const Unit&, const Unit&) noexcept { return true; }
};

}
