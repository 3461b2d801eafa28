#include "drv.h"
using namespace boofcv;

// a sequence of operations on a growable array compared with a std::vector
template<class T> void history(Drv& d) {
    int n0 = d.dim();
    GrowArray<T> a(n0);
    std::vector<T> m(n0, (T) 0);
    T def = 0;
    d.begin(S("history<", typeid(T).name(), "> size ", n0));
    for (int k = 0; k < 10; k++) {
        int op = d.in(0, 8);
        int n = d.dim(20);
        T v = d.value<T>();
        if (op == 0) { d.add(S(" resize ", n)); a.resize(n); m.resize(n, def); }
        else if (op == 1) { d.add(S(" fill ", v)); a.fill(v); for (auto& x : m) x = v; }
        else if (op == 2) {
            std::vector<T> s(n ? n : 1);
            for (auto& x : s) x = d.value<T>();
            d.add(S(" set ", n));
            a.set(s.data(), n);
            m.assign(s.begin(), s.begin() + n);
        } else if (op == 3) {
            GrowArray<T> b(n);
            for (int i = 0; i < n; i++) b.data[i] = d.value<T>();
            b.default_value = d.coin() ? def : d.value<T>();
            d.add(S(" assign ", n));
            m.assign(b.data, b.data + n);
            a = b;
            def = b.default_value;
        } else if (op == 4) {
            T x = d.value<T>(), y = d.value<T>();
            d.add(" setTo{3}");
            a.setTo({x, v, y});
            m = {x, v, y};
        } else if (op == 5) { def = v; a.default_value = v; d.add(S(" default ", v)); }
        else if (op == 6) {
            d.add(S(" grow_array ", n));
            uint32_t L = a.array_length;
            a.grow_array(n);
            d.check(a.size == 0, "grow_array does not reset the size");
            d.check(a.array_length >= (uint32_t) n && a.array_length >= L, "grow_array capacity");
            if ((uint32_t) n > L) for (int i = 0; i < n; i++) d.check(Img<T>::same(a.data[i], def), S("fresh element ", i, " is ", a.data[i]));
            m.clear();
        } else if (op == 7 && !m.empty()) {
            int i = d.in(0, (int) m.size() - 1);
            d.add(S(" write ", i));
            a[i] = v;
            m[i] = v;
        } else {
            d.add(" copy");
            GrowArray<T> c(a);
            d.check(c.size == a.size && (c.data != a.data || c.data == nullptr), "copy");
            for (uint32_t i = 0; i < a.size; i++) { d.check(Img<T>::same(c.data[i], m[i]), S("copied element ", i)); c.data[i] = v; }
            GrowArray<T>& r = a;
            if (d.coin()) { d.add(" self"); a = r; }
        }
        d.check(a.size == m.size(), S("size is ", a.size, " expected ", m.size()));
        d.check(a.size <= a.array_length, "size exceeds the storage");
        for (size_t i = 0; i < m.size(); i++) d.check(Img<T>::same(a[i], m[i]), S("element ", i, " is ", a[i], " expected ", m[i]));
        uint32_t idx = d.in(0, (int) m.size() + 2);
        bool threw = false;
        try { d.check(&a.at(idx) == a.data + idx, "at"); } catch (std::exception&) { threw = true; }
        d.check(threw == (idx >= m.size()), S("at ", idx, " throws ", threw));
    }
}

template<class T> void wrapped(Drv& d) {
    int L = d.dim(10, 1), n = d.in(0, L);
    std::vector<T> s(L + 4), s0;
    for (auto& x : s) x = d.value<T>();
    s0 = s;
    {
        GrowArray<T> a(s.data(), L, n);
        int k = d.in(0, 20);
        int op = d.in(0, 4);
        d.begin(S("wrapped<", typeid(T).name(), "> ", L, " ", n, " op ", op, " ", k));
        bool threw = false;
        std::vector<T> src(k + 1);
        GrowArray<T> b(k);
        try {
            if (op == 0) a.resize(k); else if (op == 1) a.grow_array(k); else if (op == 2) a.set(src.data(), k);
            else if (op == 3) a = b; else { a.fill((T) 7); for (int i = 0; i < n; i++) s0[i] = (T) 7; throw std::runtime_error(""); }
        } catch (std::exception&) { threw = true; }
        d.check(threw, "wrapped array was resized");
        d.check(a.data == s.data() && a.size == (uint32_t) n, "wrapped array changed");
    }
    for (size_t i = 0; i < s.size(); i++) d.check(Img<T>::same(s[i], s0[i]), S("foreign storage ", i, " changed"));
}

int main() {
    Drv d;
    while (d.more()) {
        history<U8>(d); history<S16>(d); history<U16>(d); history<S32>(d); history<uint32_t>(d); history<S64>(d); history<F32>(d); history<F64>(d);
        wrapped<U8>(d); wrapped<S16>(d); wrapped<S32>(d); wrapped<F32>(d); wrapped<F64>(d); wrapped<S64>(d);
    }
    return d.finish();
}
