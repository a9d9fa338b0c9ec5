// Time points and clock converters.
#include "common.hpp"
#include <atomic>
#include <mutex>
#include <thread>
#include "clock/clock_timepoint.hpp"
#include "clock/clock_std.hpp"

using namespace vf;
using freewebrtc::clock::Timepoint;
namespace {

template<intmax_t N, intmax_t D, typename Rep = int64_t> using Dur = std::chrono::duration<Rep, std::ratio<N, D>>;

// a clock that shows what it is told
template<typename D> struct Fake {
    using duration = D;
    using rep = typename D::rep;
    using period = typename D::period;
    using time_point = std::chrono::time_point<Fake>;
    static constexpr bool is_steady = false;
    static time_point now() { return time_point{reading}; }
    static inline thread_local D reading{0};
};

struct Conv {
    virtual ~Conv() = default;
    virtual Timepoint now(int64_t t) = 0;
    virtual std::unique_ptr<Conv> copy() = 0;
};
template<typename D> struct ConvOf : Conv {
    explicit ConvOf(int64_t t) { Fake<D>::reading = D(t); c = std::make_unique<freewebrtc::clock::ChronoClockConverter<Fake<D>>>(); }
    ConvOf(const ConvOf& o) : c(std::make_unique<freewebrtc::clock::ChronoClockConverter<Fake<D>>>(*o.c)) {}
    Timepoint now(int64_t t) override { Fake<D>::reading = D(t); return c->now(); }
    std::unique_ptr<Conv> copy() override { return std::make_unique<ConvOf>(*this); }
    std::unique_ptr<freewebrtc::clock::ChronoClockConverter<Fake<D>>> c;
};
std::unique_ptr<Conv> conv(const std::string& u, int64_t t) {
#define U(n, ...) if (u == n) { return std::make_unique<ConvOf<__VA_ARGS__>>(t); }
    U("ns", Dur<1, 1000000000>) U("ps", Dur<1, 1000000000000>) U("third", Dur<1, 3000000>) U("tenth", Dur<1, 10000000>)
    U("us", Dur<1, 1000000>) U("10us", Dur<1, 100000>) U("ms", Dur<1, 1000>) U("s", Dur<1, 1>) U("min", Dur<60, 1>)
#undef U
    bad_script("clock unit " + u);
}

std::string w64(uint64_t v) {
    std::string s = "[";
    for (auto x : limbs64(v)) { s += (s.size() > 1 ? "," : "") + std::to_string(x); }
    return s + "]";
}
std::string tp(const Timepoint& t) { return w64((t - Timepoint::epoch()).count()); }

template<typename D> Timepoint adv(const Timepoint& t, int64_t n) { return t.advance(D(n)); }
template<typename D> Timepoint advf(const Timepoint& t, int64_t n, int64_t& rem) {
    D d(n);
    auto r = t.advance_from(d);
    rem = d.count();
    return r;
}

}

static int session() {
    std::vector<Timepoint> regs(8, Timepoint::epoch());
    std::vector<std::unique_ptr<Conv>> cv(4);
    std::string line;
    while (std::getline(in(), line)) {
        auto w = words(line);
        if (w.empty()) { continue; }
        J j;
        if (w[0] == "R") {
            regs.assign(8, Timepoint::epoch());
            for (auto& c : cv) { c.reset(); }
            j.s("e", "reset");
        }
        else if (w[0] == "A" || w[0] == "F") {     // dst src unit rep n
            auto dst = std::stoul(w.at(1)), src = std::stoul(w.at(2));
            int64_t n = std::stoll(w.at(5)), rem = 0;
            auto v = Timepoint::epoch();
            bool done = false;
            const auto id = w[3] + "/" + w[4];
            if (w[0] == "A") {
#define U(i, ...) if (id == i) { v = adv<__VA_ARGS__>(regs.at(src), n); done = true; }
                U("us/64", Dur<1, 1000000>) U("ms/64", Dur<1, 1000>) U("s/64", Dur<1, 1>) U("min/64", Dur<60, 1>) U("h/64", Dur<3600, 1>)
                U("d/64", Dur<86400, 1>) U("w/64", Dur<604800, 1>) U("10us/64", Dur<1, 100000>)
                U("us/32", Dur<1, 1000000, int32_t>) U("ms/32", Dur<1, 1000, int32_t>) U("s/32", Dur<1, 1, int32_t>) U("h/32", Dur<3600, 1, int32_t>)
                U("us/std", std::chrono::microseconds) U("ms/std", std::chrono::milliseconds) U("s/std", std::chrono::seconds) U("min/std", std::chrono::minutes) U("h/std", std::chrono::hours)
                U("us/nat", Timepoint::Duration) U("us/u64", Dur<1, 1000000, uint64_t>) U("ms/u64", Dur<1, 1000, uint64_t>) U("s/u32", Dur<1, 1, uint32_t>)
                U("ms/16", Dur<1, 1000, int16_t>) U("s/8", Dur<1, 1, int8_t>)
#undef U
            } else {
#define U(i, ...) if (id == i) { v = advf<__VA_ARGS__>(regs.at(src), n, rem); done = true; }
                U("ns/64", Dur<1, 1000000000>) U("ps/64", Dur<1, 1000000000000>) U("third/64", Dur<1, 3000000>) U("tenth/64", Dur<1, 10000000>)
                U("us/64", Dur<1, 1000000>) U("ms/64", Dur<1, 1000>) U("s/64", Dur<1, 1>) U("min/64", Dur<60, 1>) U("h/64", Dur<3600, 1>) U("10us/64", Dur<1, 100000>)
                U("ns/32", Dur<1, 1000000000, int32_t>) U("ms/32", Dur<1, 1000, int32_t>)
                U("ns/std", std::chrono::nanoseconds) U("us/std", std::chrono::microseconds) U("ms/std", std::chrono::milliseconds) U("s/std", std::chrono::seconds) U("h/std", std::chrono::hours)
                U("ms/16", Dur<1, 1000, int16_t>) U("tenth/16", Dur<1, 10000000, int16_t>) U("third/32", Dur<1, 3000000, int32_t>)
#undef U
            }
            if (!done) { bad_script("unit " + id); }
            j.s("e", w[0] == "A" ? "adv" : "advf").raw("v", tp(v)).raw("keep", tp(regs.at(src))).raw("rem", w64(rem));
            regs.at(dst) = v;
        }
        else if (w[0] == "C") {
            auto a = regs.at(std::stoul(w.at(1))), b = regs.at(std::stoul(w.at(2)));
            j.s("e", "cmp").b("after", a.is_after(b)).b("before", a.is_before(b)).b("eq", a == b).b("ne", a != b).raw("diff", w64((a - b).count()))
                .b("rafter", b.is_after(a)).b("rbefore", b.is_before(a)).raw("rdiff", w64((b - a).count()));
        }
        else if (w[0] == "K") {      // K reg unit reading
            cv.at(std::stoul(w.at(1))) = conv(w.at(2), std::stoll(w.at(3)));
            j.s("e", "conv");
        }
        else if (w[0] == "KC") {     // KC dst src: a copy
            auto c = cv.at(std::stoul(w.at(2)))->copy();
            cv.at(std::stoul(w.at(1))) = std::move(c);
            j.s("e", "convcopy");
        }
        else if (w[0] == "N") {      // N reg reading
            j.s("e", "now").raw("v", tp(cv.at(std::stoul(w.at(1)))->now(std::stoll(w.at(2)))));
        }
        else if (w[0] == "Y") {
            auto rd = [] { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); };
            int64_t t0 = 0, t1 = 0;
            auto v = Timepoint::epoch();
            auto f = [&] { t0 = rd(); v = freewebrtc::clock::steady_clock_now(); t1 = rd(); };
            if (w.size() > 1) { std::thread(f).join(); } else { f(); }
            if (w.size() > 2) {      // Y t n: n readings in each of several threads at once; the worst is shown
                auto bad = [](int64_t a, uint64_t x, int64_t b) { return int64_t(x) * 1000 > b || int64_t(x) * 1000 + 1000 <= a; };
                std::mutex mx;
                std::atomic<int> ready{0};
                bool found = false;
                std::vector<std::thread> th;
                for (int i = 0; i < 6; ++i) {
                    th.emplace_back([&] {
                        ++ready;
                        while (ready < 6) {}
                        for (int n = std::stoi(w[2]); n > 0; --n) {
                            int64_t a = rd();
                            auto x = freewebrtc::clock::steady_clock_now();
                            int64_t b = rd();
                            if (bad(a, (x - Timepoint::epoch()).count(), b)) {
                                std::lock_guard g(mx);
                                if (!found) { found = true; t0 = a; v = x; t1 = b; }
                                return;
                            }
                        }
                    });
                }
                for (auto& t : th) { t.join(); }
                if (!found) { f(); }
            }
            j.s("e", "steady").raw("t0", w64(t0)).raw("t1", w64(t1)).raw("v", tp(v));
        }
        else { bad_script(line); }
        j.out();
    }
    return 0;
}

int main(int argc, char **argv) { return serve(session, argc, argv); }
