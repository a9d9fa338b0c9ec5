// STUN class/method bit positions: in-scope headers only.  One line "from to" per batch of message types.
#include "common.hpp"
#include "stun/stun_class.hpp"
#include "stun/stun_method.hpp"
using namespace freewebrtc;
using namespace vf;

static unsigned num(stun::Class c) {
    unsigned n = 9, hits = 0;
    const stun::Class all[] = {stun::Class::request(), stun::Class::indication(), stun::Class::success_response(), stun::Class::error_response()};
    for (unsigned i = 0; i < 4; ++i) { if (c == all[i]) { n = i; ++hits; } }
    return hits == 1 ? n : 9;
}

static int session() {
    std::string line;
    while (std::getline(in(), line)) {
        auto w = words(line);
        if (w.empty()) { continue; }
        if (w[0] == "reset") { J j; j.s("e", "reset").out(); continue; }
        unsigned from = std::stoul(w.at(0)), to = std::stoul(w.at(1));
        std::vector<unsigned> cls, val, cenc, menc, rt, self;
        for (unsigned v = from; v < to; ++v) {
            auto c = stun::Class::from_msg_type(v);
            auto m = stun::Method::from_msg_type(v);
            cls.push_back(num(c));
            val.push_back((unsigned)c.value());
            cenc.push_back(c.to_msg_type());
            menc.push_back(m.to_msg_type());
            // decoding the encoded pair, and equality with a method of another class of type
            unsigned e = c.to_msg_type() | m.to_msg_type();
            rt.push_back(stun::Class::from_msg_type(e) == c && stun::Method::from_msg_type(e) == m && !(stun::Method::from_msg_type(e) != m));
            unsigned eq = 0;
            for (unsigned b = 0; b < 14; ++b) { eq = eq * 2 + (stun::Method::from_msg_type(v ^ (1u << b)) == m ? 1 : 0); }
            self.push_back(eq);
        }
        J j;
        j.s("e", "types").i("from", from).ints("cls", cls).ints("val", val).ints("cenc", cenc).ints("menc", menc).ints("rt", rt).ints("eq", self);
        j.b("binding", stun::Method::binding() == stun::Method::from_msg_type(1) && stun::Method::binding().to_msg_type() == 1);
        std::vector<unsigned> ce;
        for (auto c : {stun::Class::request(), stun::Class::indication(), stun::Class::success_response(), stun::Class::error_response()}) { ce.push_back(c.to_msg_type()); }
        j.ints("classes", ce);
        j.out();
    }
    return 0;
}

int main(int argc, char **argv) { return serve(session, argc, argv); }
