#include "drv.h"
using namespace boofcv;
template<class T> T rnd(Drv& d) { return d.any<T>(0); }
template<> Point2D<S32> rnd<Point2D<S32>>(Drv& d) { return Point2D<S32>((S32) d.u(), (S32) d.u()); }
template<class T> bool eqv(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template<class T> void compare(Drv& d, PackedSet<T>& s, const std::vector<std::vector<T>>& m) {
    d.check(s.number_of_sets() == m.size(), S("number of sets ", s.number_of_sets(), " expected ", m.size()));
    d.check(s.size_of_tail() == (m.empty() ? 0 : m.back().size()), "size of tail");
    for (size_t i = 0; i < m.size(); i++) {
        std::vector<T> out(d.in(0, 2));
        std::vector<T> keep = out;
        s.load_set(i, out);
        d.check(out.size() == keep.size() + m[i].size(), S("set ", i, ": loaded ", out.size() - keep.size(), " expected ", m[i].size()));
        for (size_t k = 0; k < m[i].size(); k++) {
            d.check(eqv(out[keep.size() + k], m[i][k]), S("set ", i, " element ", k, " loaded"));
            d.check(eqv(s.at(i, k), m[i][k]), S("set ", i, " element ", k));
        }
        bool threw = false;
        try { s.at(i, m[i].size() + d.in(0, 2)); } catch (std::exception&) { threw = true; }
        d.check(threw, "at() past the end of a set");
    }
    bool threw = false;
    try { s.at(m.size() + d.in(0, 2), 0); } catch (std::exception&) { threw = true; }
    d.check(threw, "at() of a missing set");
    threw = false;
    std::vector<T> out;
    try { s.load_set(m.size() + d.in(0, 2), out); } catch (std::exception&) { threw = true; }
    d.check(threw, "load_set() of a missing set");
}
template<class T> void one(Drv& d) {
    int bs = d.coin(6) ? 2000 : d.in(1, d.coin() ? 4 : 17);
    d.begin(S("PackedSet<", typeid(T).name(), "> block size ", bs, ":"));
    PackedSet<T>* sp = bs == 2000 && d.coin() ? new PackedSet<T>() : new PackedSet<T>(bs);
    PackedSet<T>& s = *sp;
    std::vector<std::vector<T>> m;
    int steps = d.in(1, 40);
    for (int i = 0; i < steps; i++) {
        int k = d.in(0, 11);
        if (k <= 4) {
            int n = d.in(1, d.coin(4) ? 3 * (bs > 50 ? 900 : bs) : 4);
            d.add(S(" push*", n));
            for (int j = 0; j < n; j++) {
                T v = rnd<T>(d);
                if (m.empty()) m.push_back(std::vector<T>());
                m.back().push_back(v);
                s.push_tail(v);
            }
        } else if (k <= 6) { d.add(" start"); s.start_new_set(); m.push_back(std::vector<T>()); }
        else if (k <= 8) { d.add(" remove"); s.remove_tail(); if (!m.empty()) m.pop_back(); }
        else if (k == 9 && d.coin(3)) { d.add(" clear"); s.clear(); m.clear(); }
        else if (!m.empty()) {
            int q = d.in(0, m.size() - 1);
            if (k == 10) {
                std::vector<T> in(m[q].size());
                for (auto& v : in) v = rnd<T>(d);
                bool bad = d.coin(4);
                if (bad) in.resize(d.coin() && !in.empty() ? in.size() - 1 : in.size() + 1);
                d.add(S(" write ", q, "*", in.size()));
                bool threw = false;
                try { s.write_set(q, in); } catch (std::exception&) { threw = true; }
                d.check(threw == bad, "write_set of a wrong size");
                if (!bad) m[q] = in;
                threw = false;
                try { s.write_set(m.size(), in); } catch (std::exception&) { threw = true; }
                d.check(threw, "write_set of a missing set");
            } else if (!m[q].empty()) {
                int j = d.in(0, m[q].size() - 1);
                T v = rnd<T>(d);
                d.add(S(" at ", q, ",", j));
                s.at(q, j) = v;
                m[q][j] = v;
            }
        }
        if (d.coin(3)) compare(d, s, m);
    }
    compare(d, s, m);
    delete sp;
}
int main() {
    Drv d;
    while (d.more()) { one<U8>(d); one<S16>(d); one<S32>(d); one<F64>(d); one<Point2D<S32>>(d); }
    return d.finish();
}
