#include "drv.h"
using namespace boofcv;

template<class T> void one(Drv& d) {
    int w = d.dim(), h = d.dim();
    Img<T> a;
    a.make(d, w, h);
    T v = d.value<T>();
    int op = d.in(0, 1);
    uint32_t r = d.in(0, 6);
    if (d.coin(6)) r = d.dim(40);
    d.begin(S(op ? "fill_border<" : "fill<", typeid(T).name(), "> value=", v, " radius=", r, " image=", a.text()));
    if (op) ImageMiscOps::fill_border(*a.g, v, r); else ImageMiscOps::fill(*a.g, v);
    d.check((int) a.g->width == w && (int) a.g->height == h, "shape changed");
    a.outside_unchanged(d, "image");
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            bool in = !op || x < (int) r || y < (int) r || x >= w - (int) r || y >= h - (int) r;
            T e = in ? v : a.ref(x, y);
            d.check(Img<T>::same(a.now(x, y), e), S("pixel ", x, ",", y, " is ", a.now(x, y), " expected ", e));
        }
}

template<class T> void inter(Drv& d) {
    int w = d.dim(), h = d.dim(), nb = d.in(1, 5);
    if (d.coin(10)) nb = d.dim(20, 1);
    IImg<T> a;
    a.make(d, w, h, nb);
    T v = d.value<T>();
    d.begin(S("fill interleaved<", typeid(T).name(), "> value=", v, " image=", a.how));
    ImageMiscOps::fill(*a.g, v);
    d.check((int) a.g->width == w && (int) a.g->height == h && (int) a.g->num_bands == nb, "shape changed");
    a.outside_unchanged(d, "image");
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
            for (int b = 0; b < nb; b++)
                d.check(Img<T>::same(a.now(x, y, b), v), S("pixel ", x, ",", y, " band ", b, " is ", a.now(x, y, b), " expected ", v));
}

template<class T> void uniform(Drv& d, std::mt19937& gen) {
    int w = d.dim(), h = d.dim();
    Img<T> a;
    a.make(d, w, h);
    bool fl = std::is_floating_point<T>::value;
    long lim = std::numeric_limits<T>::is_signed ? 127 : 255;
    T mn = (T) d.in(std::numeric_limits<T>::is_signed ? -128 : 0, lim - 1), mx = (T) d.in((int) mn + 1, lim);
    if (d.coin(5) && !fl) mx = std::numeric_limits<T>::max();
    if (d.coin(4)) mx = (T) (mn + 1);
    a.fill([&](int x, int y) { return (x + y) % 2 ? (T) (mn - 1) : mx; });
    d.begin(S("fill_uniform<", typeid(T).name(), "> ", mn, " ", mx, " image=", a.how));
    ImageMiscOps::fill_uniform(*a.g, mn, mx, gen);
    a.outside_unchanged(d, "image");
    bool allsame = w * h > 200;
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            T p = a.now(x, y);
            d.check(p >= mn && (p < mx || (fl && p <= mx)), S("pixel ", x, ",", y, " is ", p, " out of [", mn, ",", mx, ")"));
            if (p != a.now(0, 0)) allsame = false;
        }
    d.check(!allsame || mx - mn < 5, "all pixels have the same value");
}

int main() {
    Drv d;
    std::mt19937 gen(d.u());
    while (d.more()) {
        one<U8>(d); one<S16>(d); one<U16>(d); one<S32>(d); one<S64>(d); one<F32>(d); one<F64>(d);
        inter<U8>(d); inter<S16>(d); inter<U16>(d); inter<S32>(d); inter<S64>(d); inter<F32>(d); inter<F64>(d);
        uniform<U8>(d, gen); uniform<S16>(d, gen); uniform<U16>(d, gen); uniform<S32>(d, gen); uniform<F32>(d, gen); uniform<F64>(d, gen);
    }
    return d.finish();
}
