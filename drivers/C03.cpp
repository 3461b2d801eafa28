#include "drv.h"
using namespace boofcv;

template<class T> void equal(Drv& d, const Interleaved<T>& g, const IImg<T>& s) {
    d.check(g.width == s.g->width && g.height == s.g->height && g.num_bands == s.g->num_bands, "shape");
    for (uint32_t y = 0; y < g.height; y++)
        for (uint32_t x = 0; x < g.width; x++)
            for (uint32_t b = 0; b < g.num_bands; b++)
                d.check(Img<T>::same(g.data[g.offset + y * g.stride + x * g.num_bands + b], s.ref(x, y, b)), S("pixel ", x, ",", y, " band ", b));
}

template<class T> void addressing(Drv& d, Interleaved<T>& g, T* store, uint32_t off, uint32_t st, uint32_t w, uint32_t h, uint32_t nb, int depth) {
    for (int k = 0; k < 12; k++) {
        uint32_t x = d.in(0, w + 1), y = d.in(0, h + 1), b = d.in(0, nb + 1);
        if (d.coin(8)) b = 0xFFFFFFFFu;
        bool in = x < w && y < h && b < nb;
        bool threw = false;
        T* p = nullptr;
        try { p = &g.at(x, y, b); } catch (std::exception&) { threw = true; }
        d.check(threw == !in, S("at ", x, ",", y, ",", b, " throws ", threw));
        if (!in) continue;
        uint32_t e = off + y * st + x * nb + b;
        d.check(p == store + e && &g.unsafe_at(x, y, b) == store + e && g.index_of(x, y, b) == e, S("element at ", x, ",", y, ",", b));
    }
    if (!depth) return;
    for (int k = 0; k < 3; k++) {
        uint32_t x0 = d.in(0, w + (d.coin(6) ? 2 : 0)), y0 = d.in(0, h + (d.coin(6) ? 2 : 0));
        uint32_t x1 = d.in(d.coin(6) ? 0 : std::min(x0, w), w + (d.coin(8) ? 2 : 0)), y1 = d.in(d.coin(6) ? 0 : std::min(y0, h), h + (d.coin(8) ? 2 : 0));
        bool bad = x1 > w || y1 > h || x1 < x0 || y1 < y0, threw = false;
        d.add(S(" sub ", x0, ",", y0, ",", x1, ",", y1));
        try {
            Interleaved<T> s = g.makeSubimage(x0, y0, x1, y1);
            if (!bad) {
                d.check(s.subimage && s.data == store && s.num_bands == nb && s.width == x1 - x0 && s.height == y1 - y0, "sub-image");
                addressing(d, s, store, off + y0 * st + x0 * nb, st, x1 - x0, y1 - y0, nb, depth - 1);
            }
        } catch (std::exception&) { threw = true; }
        d.check(threw == bad, S("makeSubimage throws ", threw));
    }
}

template<class T> void copying(Drv& d) {
    int w = d.dim(), h = d.dim(), nb = d.in(0, 4);
    IImg<T> s, a;
    s.make(d, w, h, nb);
    bool same = d.coin();
    a.make(d, same ? w : d.dim(), same ? h : d.dim(), d.coin() ? nb : d.in(0, 5));
    int op = d.in(0, 3);
    d.begin(S(op == 0 ? "operator=<" : op == 1 ? "copy constructor<" : "setTo<", typeid(T).name(), "> source=", s.how, " dest=", a.how));
    addressing(d, *s.g, s.store, s.g->offset, s.g->stride, w, h, nb, 2);
    if (op == 1) {
        Interleaved<T> c(*s.g);
        equal(d, c, s);
        d.check(c.subimage == s.view, "ownership of the copy");
        if (s.view) d.check(c.data == s.store, "copy of a view is a view"); else d.check(c.data != s.store, "copy is independent");
        s.unchanged(d, "source");
        return;
    }
    if (op == 0 && s.view) {
        if (a.view) {
            *a.g = *s.g;
            d.check(a.g->data == s.store && a.g->subimage && a.g->offset == s.g->offset && a.g->stride == s.g->stride, "assigned view");
            equal(d, *a.g, s);
        }
        return;
    }
    bool refuse = a.view && (a.g->width != s.g->width || a.g->height != s.g->height || a.g->num_bands != s.g->num_bands), threw = false;
    try { if (op == 0) *a.g = *s.g; else a.g->setTo(*s.g); } catch (std::exception&) { threw = true; }
    d.check(threw == refuse, S("throws ", threw));
    s.unchanged(d, "source");
    if (threw) { a.unchanged(d, "dest"); return; }
    equal(d, *a.g, s);
    d.check(a.g->subimage == a.view && a.g->data != s.store, "ownership");
    a.outside_unchanged(d, "dest");
}

template<class T> void history(Drv& d) {
    Interleaved<T> g(d.dim(), d.dim(), d.in(0, 4));
    d.begin(S("reshapes<", typeid(T).name(), "> from ", g.width, "x", g.height, "x", g.num_bands));
    for (int k = 0; k < 6; k++) {
        uint32_t w = d.dim(), h = d.dim(), b = d.in(0, 5);
        int op = d.in(0, 2);
        if (op == 0) b = g.num_bands;
        if (op == 1) w = g.width, h = g.height;
        d.add(S(" ", w, "x", h, "x", b));
        if (op == 0) g.reshape(w, h); else if (op == 1) g.setNumberOfBands(b); else g.reshape(w, h, b);
        d.check(g.width == w && g.height == h && g.num_bands == b && g.stride == w * b && g.offset == 0 && !g.subimage, "layout after reshape");
        d.check(g.data_length >= w * h * b, "storage after reshape");
        for (uint32_t i = 0; i < g.data_length; i++) g.data[i] = (T) i;
    }
    IImg<T> v;
    v.make(d, d.dim(), d.dim(), d.in(1, 4), 1);
    uint32_t w = d.coin() ? v.g->width : d.dim(), h = d.coin() ? v.g->height : d.dim(), b = d.coin() ? v.g->num_bands : d.in(0, 5);
    int op = d.in(0, 2);
    if (op == 0) b = v.g->num_bands;
    if (op == 1) w = v.g->width, h = v.g->height;
    bool refuse = w != v.g->width || h != v.g->height || b != v.g->num_bands, threw = false;
    d.add(S(" view ", v.how, " to ", w, "x", h, "x", b));
    try { if (op == 0) v.g->reshape(w, h); else if (op == 1) v.g->setNumberOfBands(b); else v.g->reshape(w, h, b); } catch (std::exception&) { threw = true; }
    d.check(threw == refuse, S("view throws ", threw));
    v.unchanged(d, "view");
}

int main() {
    Drv d;
    while (d.more()) {
        copying<U8>(d); copying<S16>(d); copying<U16>(d); copying<S32>(d); copying<S64>(d); copying<F32>(d); copying<F64>(d);
        history<U8>(d); history<S16>(d); history<S32>(d); history<F64>(d); history<F32>(d); history<U16>(d); history<S64>(d);
    }
    return d.finish();
}
