// Intrusive lists.
#include "common.hpp"
#include "util/util_intrusive_list.hpp"

using namespace vf;
using namespace freewebrtc;
namespace {

struct Item {
    using List = util::IntrusiveList<Item>;
    explicit Item(int i) : id(i), l1(*this), l2(*this) {}
    Item(int i, Item&& o) : id(i), l1(*this, std::move(o.l1)), l2(*this, std::move(o.l2)) {}
    int id;
    List::Link l1;
    List::Link l2;
};
using List = Item::List;
constexpr int NL = 5, NE = 60;

}

static int session() {
    std::unique_ptr<List> ls[NL + 1];
    std::unique_ptr<Item> es[NE + 1];
    std::string line;
    while (std::getline(in(), line)) {
        auto w = words(line);
        if (w.empty()) { continue; }
        J j;
        auto list = [&](size_t i) -> std::unique_ptr<List>& { int k = std::stoi(w.at(i)); if (k < 1 || k > NL) { bad_script(line); } return ls[k]; };
        auto elem = [&](size_t i) -> std::unique_ptr<Item>& { int k = std::stoi(w.at(i)); if (k < 1 || k > NE) { bad_script(line); } return es[k]; };
        const auto& o = w[0];
        if (o == "R") {
            // half of the time elements go first, half of the time lists
            if (w.size() > 1) { for (auto& e : es) { e.reset(); } }
            for (auto& l : ls) { l.reset(); }
            for (auto& e : es) { e.reset(); }
            j.s("e", "reset").out();
            continue;
        }
        if (o == "NL") { list(1) = std::make_unique<List>(w.at(2) == "1" ? &Item::l1 : &Item::l2); }
        else if (o == "DL") { list(1).reset(); }
        else if (o == "ML") { list(1) = std::make_unique<List>(std::move(*list(2))); }
        else if (o == "AL") { *list(1) = std::move(*list(2)); }
        else if (o == "NE") { elem(1) = std::make_unique<Item>(std::stoi(w.at(1))); }
        else if (o == "DE") { elem(1).reset(); }
        else if (o == "ME") { elem(1) = std::make_unique<Item>(std::stoi(w.at(1)), std::move(*elem(2))); }
        else if (o == "pb") { list(1)->push_back(*elem(2)); }
        else if (o == "pf") { list(1)->push_front(*elem(2)); }
        else if (o == "PF") { list(1)->pop_front(); }
        else if (o == "PB") { list(1)->pop_back(); }
        else if (o == "CL") { list(1)->clear(); }
        else if (o == "RM") { if (w.at(1) == "1") { elem(2)->l1.remove(); } else { elem(2)->l2.remove(); } }
        else { bad_script(line); }
        bool ok = true;
        std::string v = "[";
        for (int k = 1; k <= NL; ++k) {
            v += k > 1 ? "," : "";
            if (!ls[k]) { v += "[]"; continue; }
            const List& c = *ls[k];
            auto f = ls[k]->front(), b = ls[k]->back();
            auto cf = c.front(), cb = c.back();
            bool e = c.empty();
            ok = ok && f.is_some() == !e && b.is_some() == !e && cf.is_some() == !e && cb.is_some() == !e;
            if (f.is_some() && b.is_some() && cf.is_some() && cb.is_some()) {
                Item& fi = f.unwrap().get();
                Item& bi = b.unwrap().get();
                ok = ok && &fi == &cf.unwrap().get() && &bi == &cb.unwrap().get() && fi.id > 0 && fi.id <= NE && &fi == es[fi.id].get() && bi.id > 0 && bi.id <= NE && &bi == es[bi.id].get();
                v += "[" + std::to_string(fi.id) + "," + std::to_string(bi.id) + "]";
            }
            else { v += "[]"; }
        }
        std::string in = "[";
        for (int i = 1; i <= NE; ++i) {
            if (!es[i]) { continue; }
            if (es[i]->l1.in_list()) { in += (in.size() > 1 ? "," : "") + ("[1," + std::to_string(i)) + "]"; }
            if (es[i]->l2.in_list()) { in += (in.size() > 1 ? "," : "") + ("[2," + std::to_string(i)) + "]"; }
            ok = ok && &es[i]->l1.get() == es[i].get() && &es[i]->l2.get() == es[i].get();
        }
        j.s("e", "op").raw("ls", v + "]").raw("inl", in + "]").b("ok", ok).out();
    }
    return 0;
}

int main(int argc, char **argv) { return serve(session, argc, argv); }
