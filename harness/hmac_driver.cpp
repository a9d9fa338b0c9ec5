// HMAC over recorded hash functions, and the OpenSSL hash functions.
#include <dlfcn.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include "common.hpp"
#include "crypto/crypto_hash.hpp"
#include "crypto/crypto_hmac.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "node/openssl/node_openssl_hash.hpp"

// Faults of the OpenSSL functions: the count-th call of the function at the given point fails.
static thread_local std::string fault_at;
static thread_local int fault_count = 0;
static thread_local bool fault_raised = false;
static bool faulty(const char *at) {
    if (fault_at != at || --fault_count != 0) { return false; }
    fault_raised = true;
    ERR_new();
    ERR_set_error(ERR_LIB_EVP, ERR_R_INTERNAL_ERROR, nullptr);
    return true;
}
template<typename F> static F *real(const char *name) { return reinterpret_cast<F *>(dlsym(RTLD_NEXT, name)); }
extern "C" {
EVP_MD_CTX *EVP_MD_CTX_new(void) { return faulty("new") ? nullptr : real<EVP_MD_CTX *(void)>("EVP_MD_CTX_new")(); }
int EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e) { return faulty("init") ? 0 : real<int(EVP_MD_CTX *, const EVP_MD *, ENGINE *)>("EVP_DigestInit_ex")(c, t, e); }
int EVP_DigestUpdate(EVP_MD_CTX *c, const void *d, size_t n) { return faulty("update") ? 0 : real<int(EVP_MD_CTX *, const void *, size_t)>("EVP_DigestUpdate")(c, d, n); }
int EVP_DigestFinal_ex(EVP_MD_CTX *c, unsigned char *d, unsigned int *n) { return faulty("final") ? 0 : real<int(EVP_MD_CTX *, unsigned char *, unsigned int *)>("EVP_DigestFinal_ex")(c, d, n); }
}

using namespace vf;
using namespace freewebrtc;
namespace {

template<typename S> std::string arr(const S& s) {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); ++i) { if (i) { r += ","; } r += std::to_string((unsigned)(uint8_t)s.data()[i]); }
    return r + "]";
}

struct Parts {
    std::vector<std::unique_ptr<Buf>> b;
    std::vector<util::ConstBinaryView> v;
    Parts(const std::vector<std::string>& w, size_t from) {
        for (size_t i = from; i < w.size(); ++i) { b.push_back(std::make_unique<Buf>(unhex(w[i]))); v.push_back(b.back()->view()); }
    }
};

// a function defined as it is called; its n-th new input fails
template<typename H> struct Oracle {
    struct Call { Bytes in, out; bool ok; };
    std::vector<Call> calls;
    int fail;
    unsigned seed;
    std::vector<Bytes> known;
    typename H::Result operator()(const typename H::Input& in) {
        Bytes x;
        for (auto& v : in) { x.insert(x.end(), v.begin(), v.end()); }
        size_t i = 0;
        while (i < known.size() && known[i] != x) { ++i; }
        if (i == known.size()) { known.push_back(x); }
        if ((int)i + 1 == fail) {
            calls.push_back({x, {}, false});
            return std::make_error_code(std::errc::owner_dead);
        }
        typename H::Value o;
        unsigned s = seed + 77 * (unsigned)i;
        for (auto& c : o) { s = s * 1103515245u + 12345u; c = s >> 16; }
        calls.push_back({x, Bytes(o.begin(), o.end()), true});
        return H::move_from(std::move(o));
    }
    std::string log() const {
        std::string r = "[";
        for (auto& c : calls) { r += (r.size() > 1 ? "," : "") + ("{\"in\":" + arr(c.in)) + ",\"out\":" + arr(c.out) + ",\"ok\":" + (c.ok ? "true" : "false") + "}"; }
        return r + "]";
    }
};

template<typename E> std::string errtok(const E& e) { return std::error_code(e.value(), e.category()) == std::make_error_code(std::errc::owner_dead) ? "hash failed" : "other"; }
template<typename R, typename F> void result(J& j, R&& r, F f) {
    j.b("ok", r.is_ok());
    if (r.is_ok()) { j.raw("v", f(r.unwrap())); } else { j.s("err", errtok(r.unwrap_err())); }
}

// both padded keys, made in the order asked for, the key gone afterwards
template<typename F> Result<std::pair<crypto::hmac::OPadKey, crypto::hmac::IPadKey>> pads(const Bytes& key, F f, bool ofirst) {
    auto k = std::make_unique<Buf>(key);
    using R = Result<std::pair<crypto::hmac::OPadKey, crypto::hmac::IPadKey>>;
    std::optional<crypto::hmac::OPadKey> o;
    std::optional<crypto::hmac::IPadKey> i;
    for (int n = 0; n < 2; ++n) {
        if ((n == 0) == ofirst) {
            auto r = crypto::hmac::OPadKey::from_key(k->view(), f);
            if (r.is_err()) { return r.unwrap_err(); }
            o = r.unwrap();
        }
        else {
            auto r = crypto::hmac::IPadKey::from_key(k->view(), f);
            if (r.is_err()) { return r.unwrap_err(); }
            i = r.unwrap();
        }
    }
    return R{std::make_pair(*o, *i)};
}
template<typename H, typename F> void hmac(J& j, const Bytes& key, bool ofirst, const Parts& p, F f) {
    using Func = typename H::Func;
    auto k = pads(key, Func(f), ofirst);
    if (k.is_err()) { j.b("ok", false).s("err", errtok(k.unwrap_err())); return; }
    auto r = crypto::hmac::digest(p.v, k.unwrap().first, k.unwrap().second, Func(f));
    result(j, r, [](auto& d) { return arr(d.value.value()); });
}
template<typename H> void scripted(J& j, const std::vector<std::string>& w) {
    Oracle<H> o{{}, std::stoi(w.at(3)), (unsigned)std::stoul(w.at(4)), {}};
    Parts p(w, 6);
    hmac<H>(j, unhex(w.at(2)), w.at(5) == "o", p, [&](const typename H::Input& in) { return o(in); });
    j.raw("calls", o.log());
}
template<typename H, typename P> void pad(J& j, const std::vector<std::string>& w) {
    Oracle<H> o{{}, std::stoi(w.at(3)), (unsigned)std::stoul(w.at(4)), {}};
    auto f = typename H::Func([&](const typename H::Input& in) { return o(in); });
    auto k = std::make_unique<Buf>(unhex(w.at(2)));
    auto r = P::from_key(k->view(), f);
    k.reset();
    result(j, r, [](auto& x) { return arr(x.view()); });
    j.raw("calls", o.log());
}
template<typename H, typename F> void talk(J& j, int n, F f) {
    std::vector<std::string> texts, want;
    auto one = [&](const std::string& t, const std::string& k) {
        using V = util::ConstBinaryView;
        auto key = crypto::hmac::OPadKey::from_key(V(k.data(), k.size()), typename H::Func(f)).unwrap();
        auto ik = crypto::hmac::IPadKey::from_key(V(k.data(), k.size()), typename H::Func(f)).unwrap();
        return arr(f({V(t.data(), t.size() / 2), V(t.data() + t.size() / 2, t.size() - t.size() / 2)}).unwrap().value())
            + arr(crypto::hmac::digest({V(t.data(), t.size())}, key, ik, typename H::Func(f)).unwrap().value.value());
    };
    for (int i = 0; i < 6; ++i) { texts.push_back(std::string(40 * i + 1, 'a' + i)); }
    for (int i = 0; i < 6; ++i) { want.push_back(one(texts[i], texts[5 - i])); }
    std::atomic<int> wrong{0}, ready{0};
    std::vector<std::thread> th;
    for (int i = 0; i < 6; ++i) {
        th.emplace_back([&, i] {
            ++ready;
            while (ready < 6) {}
            for (int k = 0; k < n; ++k) { if (one(texts[i], texts[5 - i]) != want[i]) { ++wrong; } }
        });
    }
    for (auto& t : th) { t.join(); }
    j.i("wrong", wrong);
}
template<typename H> void view(J& j, const Bytes& d) {
    Buf b(d);
    auto r = H::from_view(b.view());
    bool same = true;
    if (r.is_some()) {
        typename H::Value v;
        std::copy(d.begin(), d.end(), v.begin());
        auto m = H::move_from(typename H::Value(v));
        same = m == r.unwrap() && m.value() == v && r.unwrap().value() == v;
        v[v.size() - 1] ^= 1;
        same = same && !(H::move_from(typename H::Value(v)) == m);
    }
    j.raw("r", r.is_some() ? "[" + arr(r.unwrap().view()) + "]" : "[]").b("same", same);
}

}

static int session() {
    std::string line;
    while (std::getline(in(), line)) {
        auto w = words(line);
        if (w.empty()) { continue; }
        const auto& o = w[0];
        J j;
        if (o == "R") { j.s("e", "reset"); }
        else if (o == "H") {          // H size key fail seed o|i part...
            j.s("e", "hmac");
            const auto& s = w.at(1);
            if (s == "16") { scripted<crypto::MD5Hash>(j, w); } else if (s == "20") { scripted<crypto::SHA1Hash>(j, w); } else { scripted<crypto::SHA256Hash>(j, w); }
        }
        else if (o == "PO" || o == "PI") {         // PO size key fail seed
            j.s("e", "pad").i("x", o == "PO" ? 0x5c : 0x36);
            const auto& s = w.at(1);
            using namespace crypto;
            if (o == "PO") { if (s == "16") { pad<MD5Hash, hmac::OPadKey>(j, w); } else if (s == "20") { pad<SHA1Hash, hmac::OPadKey>(j, w); } else { pad<SHA256Hash, hmac::OPadKey>(j, w); } }
            else { if (s == "16") { pad<MD5Hash, hmac::IPadKey>(j, w); } else if (s == "20") { pad<SHA1Hash, hmac::IPadKey>(j, w); } else { pad<SHA256Hash, hmac::IPadKey>(j, w); } }
        }
        else if (o == "S" || o == "F") {   // S alg part... ; F alg point count part... ; alg is sha1 or md5, of the node back end with an n appended
            Parts p(w, o == "S" ? 2 : 4);
            j.s("e", "hash");
            if (o == "F") { fault_at = w.at(2); fault_count = std::stoi(w.at(3)); fault_raised = false; }
            const auto& a = w.at(1);
            if (a == "sha1") { result(j, crypto::openssl::sha1(p.v), [](auto& d) { return arr(d.value()); }); }
            else if (a == "sha1n") { result(j, crypto::node_openssl::sha1(p.v), [](auto& d) { return arr(d.value()); }); }
            else if (a == "md5") { result(j, crypto::openssl::md5(p.v), [](auto& d) { return arr(d.value()); }); }
            else { result(j, crypto::node_openssl::md5(p.v), [](auto& d) { return arr(d.value()); }); }
            fault_at.clear();
            j.b("raised", o == "F" && fault_raised);
        }
        else if (o == "M") {          // M alg key o|i part...
            Parts p(w, 4);
            j.s("e", "real");
            const auto& a = w.at(1);
            if (a == "sha1") { hmac<crypto::SHA1Hash>(j, unhex(w.at(2)), w.at(3) == "o", p, crypto::openssl::sha1); }
            else if (a == "sha1n") { hmac<crypto::SHA1Hash>(j, unhex(w.at(2)), w.at(3) == "o", p, crypto::node_openssl::sha1); }
            else if (a == "md5") { hmac<crypto::MD5Hash>(j, unhex(w.at(2)), w.at(3) == "o", p, crypto::openssl::md5); }
            else { hmac<crypto::MD5Hash>(j, unhex(w.at(2)), w.at(3) == "o", p, crypto::node_openssl::md5); }
        }
        else if (o == "Y") {          // Y alg n: the same digests by several threads at once
            const auto& a = w.at(1);
            j.s("e", "talk");
            if (a == "sha1") { talk<crypto::SHA1Hash>(j, std::stoi(w.at(2)), crypto::openssl::sha1); }
            else if (a == "sha1n") { talk<crypto::SHA1Hash>(j, std::stoi(w.at(2)), crypto::node_openssl::sha1); }
            else if (a == "md5") { talk<crypto::MD5Hash>(j, std::stoi(w.at(2)), crypto::openssl::md5); }
            else { talk<crypto::MD5Hash>(j, std::stoi(w.at(2)), crypto::node_openssl::md5); }
        }
        else if (o == "V") {          // V size bytes
            j.s("e", "view");
            auto d = unhex(w.at(2));
            if (w.at(1) == "16") { view<crypto::MD5Hash>(j, d); } else if (w.at(1) == "20") { view<crypto::SHA1Hash>(j, d); } else { view<crypto::SHA256Hash>(j, d); }
        }
        else { bad_script(line); }
        j.out();
    }
    return 0;
}

int main(int argc, char **argv) { return serve(session, argc, argv); }
