#include "drv.h"
using namespace boofcv;

template<class T> struct Acc { typedef typename TypeInfo<T>::sum_type S; typedef typename std::conditional<std::is_floating_point<T>::value, T, uint64_t>::type W; };

template<class T> void one(Drv& d) {
    int w = d.dim(), h = d.dim();
    Img<T> in;
    in.make(d, w, h);
    int mode = d.in(0, 3);
    bool sm = d.coin();
    in.fill([&](int, int) {
        if (mode == 0 && (std::numeric_limits<T>::is_signed)) return (T) -d.in(1, sm ? 50 : 30000);
        if (mode == 1) return (T) d.in(0, 100);
        return d.value<T>(); });
    d.begin(S("statistics<", typeid(T).name(), "> in=", in.text()));
    T mn = std::numeric_limits<T>::max(), mx = std::numeric_limits<T>::lowest();
    typedef typename Acc<T>::W W;
    typedef typename Acc<T>::S SS;
    W sum = 0;
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            T p = in.ref(x, y);
            if (p < mn) mn = p;
            if (p > mx) mx = p;
            sum += (W) p;
        }
    T a = ImageStatistics::min(*in.g), b = ImageStatistics::max(*in.g);
    d.check(a == mn, S("min is ", a, " expected ", mn));
    d.check(b == mx, S("max is ", b, " expected ", mx));
    SS s = ImageStatistics::sum(*in.g), es = (SS) sum;
    d.check(s == es || (s != s && es != es), S("sum is ", s, " expected ", es));
    if (w > 0 && h > 0) {
        T m = ImageStatistics::mean(*in.g);
        T em = (T) (es / (SS) (w * h));
        d.check(m == em || (m != m && em != em), S("mean is ", m, " expected ", em));
    }
    in.unchanged(d, "input");
}

template<class T> void hist(Drv& d) {
    int w = d.dim(), h = d.dim();
    Img<T> in;
    in.make(d, w, h);
    long lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
    int range = d.coin() ? d.in(1, 10) : d.in(1, 300);
    if (range > hi - lo) range = hi - lo + 1;
    long mn = d.coin() && std::numeric_limits<T>::is_signed ? -d.in(0, 500) : d.in(0, 200);
    if (d.coin(8)) mn = hi - range + 1;
    if (d.coin(8)) mn = lo;
    if (mn < lo) mn = lo;
    if (mn + range - 1 > hi) mn = hi - range + 1;
    in.fill([&](int, int) { int k = d.in(0, 5); return (T) (mn + (k == 0 ? 0 : k == 1 ? range - 1 : d.in(0, range - 1))); });
    GrowArray<uint32_t> H(range);
    for (int i = 0; i < range; i++) H.data[i] = d.coin() ? 0 : d.in(0, 1000);
    d.begin(S("histogram<", typeid(T).name(), "> min=", mn, " size=", range, " in=", in.text()));
    ImageStatistics::histogram(*in.g, (T) mn, H);
    in.unchanged(d, "input");
    d.check(H.size == (uint32_t) range, "size changed");
    std::vector<uint32_t> e(range);
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) e[(long) in.ref(x, y) - mn]++;
    for (int i = 0; i < range; i++) d.check(H.data[i] == e[i], S("count of ", mn + i, " is ", H.data[i], " expected ", e[i]));
}

int main() {
    Drv d;
    while (d.more()) {
        one<U8>(d); one<S16>(d); one<U16>(d); one<S32>(d); one<S64>(d); one<F32>(d); one<F64>(d);
        hist<U8>(d); hist<S16>(d); hist<U16>(d); hist<S32>(d);
    }
    return d.finish();
}
