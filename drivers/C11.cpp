#include "drv.h"
using namespace boofcv;

static void one(Drv& d) {
    int w = d.dim(), h = d.dim();
    bool op = d.coin();
    bool mismatch = d.coin(6);
    Img<U8> A, B, O;
    A.make(d, w, h);
    if (mismatch) B.make(d, d.dim(), d.dim()); else B.make(d, w, h);
    if (d.coin()) O.make(d, w, h); else O.make(d, d.dim(), d.dim());
    auto gen = [&](int, int) { int k = d.in(0, 3); return (U8) (k < 2 ? k : k == 2 ? d.value<U8>() : 1 << d.in(0, 7)); };
    A.fill(gen);
    B.fill(gen);
    Img<U8>* a = &A; Img<U8>* b = &B; Img<U8>* o = &O;
    int alias = d.in(0, 7);
    if (alias == 1) b = a;
    if (alias == 2 || alias == 1) o = d.coin() ? a : o;
    if (alias == 3) o = b;
    mismatch = (a->g->width != b->g->width || a->g->height != b->g->height);
    bool refuse = o->view && ((int) o->g->width != w || (int) o->g->height != h);
    d.begin(S(op ? "logicAnd" : "logicOr", " alias=", alias, " a=", a->text(), " b=", b->text(), " out=", o->how));
    bool threw = false;
    try {
        if (op) BinaryImageOps::logicAnd(*a->g, *b->g, *o->g); else BinaryImageOps::logicOr(*a->g, *b->g, *o->g);
    } catch (std::exception&) { threw = true; }
    d.check(threw == (mismatch || refuse), S("throws ", threw, " expected ", mismatch || refuse));
    if (threw) { A.unchanged(d, "a"); B.unchanged(d, "b"); O.unchanged(d, "output");
        return; }
    if (a != o) a->unchanged(d, "a");
    if (b != o) b->unchanged(d, "b");
    d.check((int) o->g->width == w && (int) o->g->height == h, "output shape");
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            bool p = a->ref(x, y) != 0, q = b->ref(x, y) != 0;
            U8 e = op ? (p && q) : (p || q);
            if (o->now(x, y) != e) d.fail(S("pixel ", x, ",", y, " is ", o->now(x, y), " expected ", e));
        }
    o->outside_unchanged(d, "output");
}

int main() {
    Drv d;
    while (d.more()) one(d);
    return d.finish();
}
