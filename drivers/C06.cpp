#include "drv.h"
using namespace boofcv;
static int64_t pos(int64_t a, int64_t n) { a %= n; return a < 0 ? a + n : a; }
static int64_t ref(int pol, int64_t x, int64_t n) {
    if (x >= 0 && x < n) return x;
    if (pol == 1) return x < 0 ? 0 : n - 1;
    if (pol == 3) return pos(x, n);
    if (n == 1) return 0;
    int64_t m = pos(x, 2 * (n - 1));
    return m < n ? m : 2 * (n - 1) - m;
}
static int coord(Drv& d, int n) {
    switch (d.in(0, 6)) {
        case 0: return d.in(-n - 3, -1);
        case 1: return n + d.in(0, n + 3);
        case 2: return d.in(-8 * n - 9, 9 * n + 9);
        case 3: return d.coin() ? INT32_MIN + d.in(0, 4) : INT32_MAX - d.in(0, 4);
        case 4: return (int) d.u();
        default: return d.in(0, n - 1);
    }
}
template<class T> void one(Drv& d) {
    int w = d.dim(9, 1), h = d.dim(9, 1);
    Img<T> in;
    in.make(d, w, h);
    T v = d.value<T>();
    int pol = d.in(0, 3);
    bool fac = d.coin();
    if (fac && pol == 0 && d.coin()) v = 0;
    d.begin(S("border<", typeid(T).name(), "> policy ", pol, " value ", v, " factory ", fac, " in=", in.text()));
    std::shared_ptr<ImageBorder<T>> b;
    if (fac) {
        if (pol == 0 && v == 0) b = FactoryImageBorder::create_SB<T>(ZERO);
        else if (pol == 0) b = FactoryImageBorder::value_SB<T>(v);
        else b = FactoryImageBorder::create_SB<T>(pol == 1 ? EXTENDED : pol == 2 ? REFLECT : WRAP);
    } else {
        if (pol == 0) b.reset(d.coin() ? new ImageBorderValue<T>(v) : new ImageBorderValue<T>(*in.g, v));
        else if (pol == 1) b.reset(new ImageBorderExtend<T>());
        else if (pol == 2) b.reset(new ImageBorderReflect<T>());
        else b.reset(new ImageBorderWrap<T>());
    }
    if (d.coin(5)) { Gray<T> o(3, 2); b->setImage(o); d.check(b->getWidth() == 3 && b->getHeight() == 2, "dimensions"); }
    b->setImage(*in.g);
    d.check((int) b->getWidth() == w && (int) b->getHeight() == h, "dimensions");
    for (int i = 0; i < 60; i++) {
        int x = coord(d, w), y = coord(d, h);
        bool inside = x >= 0 && y >= 0 && x < w && y < h;
        T e = pol == 0 && !inside ? v : in.ref((int) ref(pol, x, w), (int) ref(pol, y, h));
        std::string save = d.desc;
        d.add(S(" at ", x, ",", y));
        T r = !inside && d.coin() ? b->outside_get(x, y) : b->get(x, y);
        if (!Img<T>::same(r, e)) d.fail(S("is ", r, " expected ", e));
        d.desc = save;
    }
    in.unchanged(d, "image");
}
int main() {
    Drv d;
    while (d.more()) { one<U8>(d); one<S16>(d); one<U16>(d); one<S32>(d); one<F32>(d); one<F64>(d); }
    return d.finish();
}
