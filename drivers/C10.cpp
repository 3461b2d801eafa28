#include "drv.h"
using namespace boofcv;

template<class T> void one(Drv& d) {
    int w = d.dim(), h = d.dim();
    Img<T> in;
    Img<U8> out;
    in.make(d, w, h);
    T thr = d.value<T>();
    in.fill([&](int, int) { int k = d.in(0, 3); return k == 0 ? thr : k == 1 ? (T) (thr + d.in(-1, 1)) : d.value<T>(); });
    bool same = d.coin();
    if (same) out.make(d, w, h); else out.make(d, d.dim(), d.dim());
    bool down = d.coin();
    bool filter = d.coin(4);
    d.begin(S("threshold<", typeid(T).name(), "> thr=", thr, " down=", down, " filter=", filter, " in=", in.text(), " out=", out.how));
    bool refuse = out.view && ((int) out.g->width != w || (int) out.g->height != h);
    bool threw = false;
    try {
        if (filter) {
            GlobalFixedBinaryFilter<T> f(thr, down);
            f.process(*in.g, *out.g);
        } else
            ThresholdOps::threshold(*in.g, thr, down, *out.g);
    } catch (std::exception&) { threw = true; }
    d.check(threw == refuse, S("throws ", threw, " expected ", refuse));
    in.unchanged(d, "input");
    if (threw) { out.unchanged(d, "output"); return; }
    d.check((int) out.g->width == w && (int) out.g->height == h, "output shape");
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            T p = in.ref(x, y);
            U8 e = down ? (p <= thr) : (p > thr);
            if (out.now(x, y) != e) d.fail(S("pixel ", x, ",", y, " is ", out.now(x, y), " expected ", e));
        }
    out.outside_unchanged(d, "output");
}

int main() {
    Drv d;
    while (d.more()) {
        one<U8>(d);
        one<S16>(d);
        one<U16>(d);
        one<S32>(d);
        one<F32>(d);
        one<F64>(d);
    }
    return d.finish();
}
