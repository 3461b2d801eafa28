#include "drv.h"
using namespace boofcv;

double val(Drv& d) {
    switch (d.in(0, 7)) {
        case 0: return 0;
        case 1: return -1;
        case 2: return d.in(-5, 5);
        case 3: return d.in(-4000, 4000) / 8.0;
        case 4: return d.in(0, 1000) / 1000.0;
        case 5: return d.in(0, 1000000) / 7.0;
        case 6: return d.hint();
        default: return d.in(-100, 100) + 0.5;
    }
}

int main() {
    Drv d;
    while (d.more()) {
        double l = val(d), f = val(d), t = val(d);
        ConfigLength c(l, f);
        int how = d.in(0, 3);
        if (how == 0) { c = ConfigLength::fixed(l); f = -1; }
        if (how == 1) { int m = d.in(-10, 200); l = m; c = ConfigLength::relative(f, m); }
        char b[200];
        snprintf(b, sizeof b, "length=%.17g fraction=%.17g total=%.17g how=%d", l, f, t, how);
        d.begin(b);
        double e = f < 0 ? l : f * t < l ? l : f * t;
        double g = c.compute(t);
        d.check(g == e, S("compute gives ", g, " expected ", e));
        int ei = e >= 0 ? (int) (e + 0.5) : -1;
        if (e < 2e9) d.check(c.computeI(t) == ei, S("computeI gives ", c.computeI(t), " expected ", ei));
        d.check(c.isFixed() == (f < 0) && c.isRelative() == (f >= 0), "isFixed/isRelative");
        bool threw = false;
        try { c.checkValidity(); } catch (std::exception&) { threw = true; }
        d.check(threw == (l < 0 && f < 0), "checkValidity");
        d.check(c.getLengthI() == (int) (l + 0.5), "getLengthI");
    }
    return d.finish();
}
