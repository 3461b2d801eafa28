#include "drv.h"
using namespace boofcv;

template<class T> void addressing(Drv& d, Gray<T>& g, const std::string& how, T* store, uint32_t off, uint32_t st, uint32_t w, uint32_t h) {
    d.check(g.getWidth() == w && g.getHeight() == h, S("reported shape ", g.getWidth(), "x", g.getHeight()));
    d.check(g.width == w && g.height == h && g.total_pixels() == w * h, "shape");
    for (int k = 0; k < 12; k++) {
        uint32_t x = d.in(0, w + 1), y = d.in(0, h + 1);
        if (d.coin(8)) x = d.coin() ? 0xFFFFFFFFu : w + d.in(0, 1000);
        if (d.coin(8)) y = d.coin() ? 0xFFFFFFFFu : h;
        bool in = x < w && y < h;
        d.check(g.isInBounds(x, y) == in, S("isInBounds ", x, ",", y));
        bool threw = false;
        T* p = nullptr;
        try { p = &g.at(x, y); } catch (std::exception&) { threw = true; }
        d.check(threw == !in, S("at ", x, ",", y, " throws ", threw));
        if (!in) continue;
        uint32_t e = off + y * st + x;
        d.check(p == store + e, S("at ", x, ",", y, " is element ", (long) (p - store), " expected ", e));
        d.check(&g.unsafe_at(x, y) == store + e, S("unsafe_at ", x, ",", y));
        d.check(g.index_of(x, y) == e, S("index_of ", x, ",", y));
    }
}

template<class T> void nest(Drv& d, Gray<T>& g, T* store, uint32_t off, uint32_t st, uint32_t w, uint32_t h, int depth) {
    addressing(d, g, "", store, off, st, w, h);
    if (depth == 0) return;
    for (int k = 0; k < 3; k++) {
        uint32_t x0 = d.in(0, w + (d.coin(6) ? 2 : 0)), y0 = d.in(0, h + (d.coin(6) ? 2 : 0));
        uint32_t x1 = d.in(d.coin(6) ? 0 : std::min(x0, w), w + (d.coin(8) ? 2 : 0)), y1 = d.in(d.coin(6) ? 0 : std::min(y0, h), h + (d.coin(8) ? 2 : 0));
        bool bad = x1 > w || y1 > h || x1 < x0 || y1 < y0;
        d.add(S(" sub ", x0, ",", y0, ",", x1, ",", y1));
        bool threw = false;
        try {
            Gray<T> s = g.makeSubimage(x0, y0, x1, y1);
            if (!bad) {
                d.check(s.subimage && s.data == store && s.data_length == g.data_length, "sub-image does not share the storage");
                nest(d, s, store, off + y0 * st + x0, st, x1 - x0, y1 - y0, depth - 1);
            }
        } catch (std::exception&) { threw = true; }
        d.check(threw == bad, S("makeSubimage throws ", threw));
    }
}

template<class T> void one(Drv& d) {
    int w = d.dim(), h = d.dim();
    Img<T> a;
    a.make(d, w, h);
    d.begin(S("addressing<", typeid(T).name(), "> ", a.how));
    nest(d, *a.g, a.store, a.g->offset, a.g->stride, w, h, 2);
    a.unchanged(d, "image");
    Gray<T> n(w, h);
    d.check(n.width == (uint32_t) w && n.height == (uint32_t) h && n.stride == (uint32_t) w && n.offset == 0 && !n.subimage &&
            n.data_length >= (uint32_t) (w * h), "new image");
    for (int i = 0; i < w * h; i++) d.check(n.data[i] == 0, "new image is not zero");
}

int main() {
    Drv d;
    while (d.more()) { one<U8>(d); one<S16>(d); one<U16>(d); one<S32>(d); one<S64>(d); one<F32>(d); one<F64>(d); }
    return d.finish();
}
