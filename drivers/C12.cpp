#include "drv.h"
using namespace boofcv;

int main() {
    Drv d;
    while (d.more()) {
        bool er = d.coin();
        int w = d.dim(), h = d.dim();
        Img<U8> a, o;
        a.make(d, w, h);
        int k = d.in(0, 5);
        for (uint32_t i = 0; i < a.n; i++) a.store[i] = k == 0 ? 1 : k == 1 ? d.coin(5) : k <= 3 ? !d.coin(8) : d.coin();
        a.snap();
        bool same = d.coin();
        o.make(d, same ? w : d.dim(), same ? h : d.dim());
        bool refuse = o.g->subimage && ((int) o.g->width != w || (int) o.g->height != h);
        d.begin(S(er ? "erode4" : "dilate4", " in=", a.text(), " out=", o.how));
        bool threw = false;
        try {
            if (er) BinaryImageOps::erode4(*a.g, *o.g); else BinaryImageOps::dilate4(*a.g, *o.g);
        } catch (std::exception& e) { threw = true; }
        a.unchanged(d, "input");
        d.check(threw == refuse, S("throws ", threw));
        if (threw) { o.unchanged(d, "output"); continue; }
        d.check((int) o.g->width == w && (int) o.g->height == h, "output shape");
        o.outside_unchanged(d, "output");
        for (int y = 1; y < h - 1; y++)
            for (int x = 1; x < w - 1; x++) {
                int n = a.ref(x, y) + a.ref(x - 1, y) + a.ref(x + 1, y) + a.ref(x, y - 1) + a.ref(x, y + 1);
                U8 e = er ? n == 5 : n > 0;
                d.check(o.now(x, y) == e, S("pixel ", x, ",", y, " is ", o.now(x, y), " expected ", e));
            }
    }
    return d.finish();
}
