#include "drv.h"
using namespace boofcv;

template<class T> void one(Drv& d) {
    typedef typename TypeInfo<T>::sum_type S_;
    int w = d.dim(), h = d.dim(), nb = d.in(1, 6);
    if (d.coin(12)) nb = d.dim(40, 1);
    IImg<T> a;
    a.make(d, w, h, nb);
    int mode = d.in(0, 3);
    for (uint32_t i = 0; i < a.n; i++) a.store[i] = mode == 0 ? (T) d.in(std::numeric_limits<T>::is_signed ? -40 : 0, 40) : d.value<T>();
    if (std::is_floating_point<T>::value) for (uint32_t i = 0; i < a.n; i++) a.store[i] = (T) (d.in(-4000, 4000) / 8.0);
    a.snap();
    Img<T> o;
    bool same = d.coin();
    o.make(d, same ? w : d.dim(), same ? h : d.dim());
    bool refuse = o.g->subimage && ((int) o.g->width != w || (int) o.g->height != h);
    d.begin(S("convert_average<", typeid(T).name(), "> in=", a.how, " out=", o.how));
    bool threw = false;
    try { convert_average(*a.g, *o.g); } catch (std::exception& e) { threw = true; }
    a.unchanged(d, "input");
    d.check(threw == refuse, S("throws ", threw));
    if (threw) { o.unchanged(d, "output"); return; }
    d.check((int) o.g->width == w && (int) o.g->height == h, "output shape");
    o.outside_unchanged(d, "output");
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            typedef typename std::conditional<std::is_floating_point<T>::value, T, __int128>::type W;
            W s = 0;
            for (int b = 0; b < nb; b++) s += (W) a.ref(x, y, b);
            if (!std::is_floating_point<T>::value && (s > (W) std::numeric_limits<S_>::max() || s < (W) std::numeric_limits<S_>::lowest())) continue;
            T e = (T) (s / (W) nb);
            d.check(o.now(x, y) == e, S("pixel ", x, ",", y, " is ", o.now(x, y), " expected ", e));
        }
}

int main() {
    Drv d;
    while (d.more()) { one<U8>(d); one<S16>(d); one<U16>(d); one<S32>(d); one<S64>(d); one<F32>(d); one<F64>(d); }
    return d.finish();
}
