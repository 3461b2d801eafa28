#include "drv.h"
using namespace boofcv;

template<class T> void equal(Drv& d, const Gray<T>& g, const Img<T>& s) {
    d.check(g.width == s.g->width && g.height == s.g->height, "shape");
    for (uint32_t y = 0; y < g.height; y++)
        for (uint32_t x = 0; x < g.width; x++)
            d.check(Img<T>::same(g.data[g.offset + y * g.stride + x], s.ref(x, y)), S("pixel ", x, ",", y));
}

template<class T> void copying(Drv& d) {
    int w = d.dim(), h = d.dim();
    Img<T> s, a;
    s.make(d, w, h);
    bool same = d.coin();
    a.make(d, same ? w : d.dim(), same ? h : d.dim());
    int op = d.in(0, 3);
    d.begin(S(op == 0 ? "operator=<" : op == 1 ? "copy constructor<" : "copy<", typeid(T).name(), "> source=", s.text(), " dest=", a.how));
    if (op == 1) {
        Gray<T> c(*s.g);
        equal(d, c, s);
        d.check(c.subimage == s.view, "ownership of the copy");
        if (s.view) d.check(c.data == s.store && c.offset == s.g->offset && c.stride == s.g->stride, "copy of a view is a view");
        else {
            d.check(c.data != s.store && c.offset == 0 && c.stride == c.width && c.data_length >= c.width * c.height, "copy is independent");
            if (c.width * c.height) { c.data[0] = c.data[0] + 1; }
        }
        s.unchanged(d, "source");
        return;
    }
    if (op == 0 && s.view) {
        if (a.view) {
            *a.g = *s.g;
            d.check(a.g->data == s.store && a.g->subimage && a.g->offset == s.g->offset && a.g->stride == s.g->stride, "assigned view");
            s.unchanged(d, "source");
            for (uint32_t i = 0; i < a.n; i++) d.check(Img<T>::same(a.store[i], a.before[i]), "old storage changed");
        }
        return;
    }
    bool refuse = a.view && (a.g->width != s.g->width || a.g->height != s.g->height);
    bool threw = false;
    try { if (op == 0) *a.g = *s.g; else a.g->copy(*s.g); } catch (std::exception&) { threw = true; }
    d.check(threw == refuse, S("throws ", threw));
    s.unchanged(d, "source");
    if (threw) { a.unchanged(d, "dest"); return; }
    equal(d, *a.g, s);
    d.check(a.g->subimage == a.view && a.g->data != s.store, "ownership");
    a.outside_unchanged(d, "dest");
}

template<class T> void history(Drv& d) {
    Gray<T> g(d.dim(), d.dim());
    d.begin(S("reshapes<", typeid(T).name(), "> from ", g.width, "x", g.height));
    for (int k = 0; k < 6; k++) {
        uint32_t w = d.dim(), h = d.dim();
        if (d.coin(5)) w = g.height, h = g.width;
        d.add(S(" ", w, "x", h));
        uint32_t L = g.data_length;
        g.reshape(w, h);
        d.check(g.width == w && g.height == h && g.stride == w && g.offset == 0 && !g.subimage, "shape after reshape");
        d.check(g.data_length >= w * h && g.data_length >= L, "storage after reshape");
        for (uint32_t i = 0; i < g.data_length; i++) g.data[i] = (T) i;
    }
    Img<T> v;
    v.make(d, d.dim(), d.dim(), 2);
    uint32_t w = d.dim(), h = d.dim();
    if (d.coin(4)) w = v.g->width;
    if (d.coin(4)) h = v.g->height;
    bool refuse = w != v.g->width || h != v.g->height, threw = false;
    d.add(S(" view ", v.how, " to ", w, "x", h));
    try { v.g->reshape(w, h); } catch (std::exception&) { threw = true; }
    d.check(threw == refuse, S("reshape of a view throws ", threw));
    v.unchanged(d, "view");
}

int main() {
    Drv d;
    while (d.more()) {
        copying<U8>(d); copying<S16>(d); copying<U16>(d); copying<S32>(d); copying<S64>(d); copying<F32>(d); copying<F64>(d);
        history<U8>(d); history<S16>(d); history<S32>(d); history<F64>(d); history<F32>(d); history<U16>(d); history<S64>(d);
    }
    return d.finish();
}
