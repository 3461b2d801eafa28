// Replay drivers: run the real code on generated inputs against an independent reference.
#ifndef VC_DRV_H
#define VC_DRV_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <random>
#include <chrono>
#include <stdexcept>
#include <functional>
#include <sstream>
#include <unistd.h>
#include <signal.h>
#include <typeinfo>
#include "all_sources.h"

extern "C" void __asan_set_death_callback(void (*)(void));

struct Drv {
    std::mt19937_64 rng;
    double secs;
    std::chrono::steady_clock::time_point t0;
    std::vector<int> hints;
    long cases;
    std::string desc;
    std::set<std::string> distinct;
    int samples;
    static Drv*& self() { static Drv* s = nullptr; return s; }
    static void death() {
        if (self()) { printf("FAIL crash in case %ld: %s\n", self()->cases, self()->desc.c_str()); fflush(stdout); }
    }
    static void onsig(int s) {
        if (self()) { printf("FAIL signal %d (14: does not terminate) in case %ld: %s\n", s, self()->cases, self()->desc.c_str()); fflush(stdout); }
        _exit(98);
    }
    static void onterm() {
        if (self()) { printf("FAIL uncaught exception in case %ld: %s\n", self()->cases, self()->desc.c_str()); fflush(stdout); }
        _exit(97);
    }
    Drv() : cases(0), samples(0) {
        const char* s = getenv("VC_SECS");
        secs = s ? atof(s) : 5;
        s = getenv("VC_SEED");
        rng.seed(s ? atoll(s) : 1);
        s = getenv("VC_HINTS");
        if (s) {
            std::stringstream ss(s);
            std::string x;
            while (std::getline(ss, x, ',')) if (!x.empty()) hints.push_back(atoi(x.c_str()));
        }
        t0 = std::chrono::steady_clock::now();
        self() = this;
        __asan_set_death_callback(death);
        signal(SIGALRM, onsig);
        signal(SIGABRT, onsig);
        signal(SIGFPE, onsig);
        std::set_terminate(onterm);
    }
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    bool more(double frac = 1.0) { return elapsed() < secs * frac; }
    // starts a case: description of the input that is about to be used
    void begin(const std::string& d) {
        desc = d;
        cases++;
        if (distinct.size() < 200000) distinct.insert(d);
        if (samples < 3) { samples++; printf("SAMPLE %s\n", d.substr(0, 300).c_str()); }
        alarm(30);
    }
    void add(const std::string& d) { desc += d; }
    void fail(const std::string& what) {
        printf("FAIL case %ld: %s\n  input: %s\n", cases, what.c_str(), desc.c_str());
        fflush(stdout);
        _exit(1);
    }
    void check(bool ok, const std::string& what) { if (!ok) fail(what); }
    int finish() {
        alarm(0);
        printf("CASES %ld\nDISTINCT %ld\n", cases, (long) distinct.size());
        fflush(stdout);
        _exit(0);
    }
    // ---- random values
    uint64_t u() { return rng(); }
    int in(int lo, int hi) { return lo + (int) (rng() % (uint64_t) ((int64_t) hi - lo + 1)); }
    bool coin(int n = 2) { return rng() % n == 0; }
    int hint() { return hints.empty() ? 0 : hints[rng() % hints.size()]; }
    // image dimension
    int dim(int maxv = 12, int lo = 0) {
        int k = in(0, 19);
        if (k == 0 && !hints.empty()) {
            int h = std::abs(hint()) + in(-1, 1);
            if (h >= lo && h <= 400) return h;
        }
        if (k == 1) return in(lo, 70 > lo ? 70 : lo);
        if (k < 6) return in(lo, 4 > lo ? 4 : lo);
        return in(lo, maxv);
    }
    template<class T> T value() {
        int k = in(0, 9);
        if (k == 0) return (T) hint();
        if (k == 1) return std::numeric_limits<T>::max();
        if (k == 2) return std::numeric_limits<T>::lowest();
        return any<T>(0);
    }
    template<class T> T any(int) {
        if (std::numeric_limits<T>::is_integer) return (T) rng();
        return (T) ((double) in(-4000, 4000) / 8.0);
    }
    template<class T> T small(int lo, int hi) { return (T) in(lo, hi); }
};

template<class A> std::string S(const A& a) { std::stringstream s; s.precision(17); s << +a; return s.str(); }
inline std::string S(const std::string& a) { return a; }
inline std::string S(const char* a) { return a; }
template<class A, class B, class... C> std::string S(const A& a, const B& b, const C&... c) { return S(a) + S(b, c...); }

// An image, possibly a view into a larger image with guard values around it
template<class T>
struct Img {
    boofcv::Gray<T>* g;
    T* store;
    uint32_t n;
    std::vector<T> before;
    bool view;
    std::string how;
    Img() : g(nullptr), store(nullptr), n(0), view(false) {}
    ~Img() { delete g; if (view) delete[] store; }
    void make(Drv& d, int w, int h, int kind = -1) {
        if (kind < 0) kind = d.in(0, 3);
        view = kind >= 2;
        if (!view) {
            g = new boofcv::Gray<T>(w, h);
            if (kind == 1) {            // reshaped from something larger
                delete g;
                g = new boofcv::Gray<T>(w + d.in(0, 5), h + d.in(0, 5));
                g->reshape(w, h);
            }
            store = g->data;
            n = g->data_length;
        } else {
            uint32_t x0 = d.in(0, 4), y0 = d.in(0, 4), x1 = d.in(0, 4), y1 = d.in(0, 4);
            if (kind == 3 && d.coin()) x0 = 0, x1 = 0;
            uint32_t st = x0 + w + x1;
            n = st * (y0 + h + y1);
            store = new T[n ? n : 1];
            g = new boofcv::Gray<T>(store, n, w, h, y0 * st + x0, st);
        }
        how = S(view ? "view " : "own ", w, "x", h, " off ", g->offset, " stride ", g->stride, " len ", n);
        for (uint32_t i = 0; i < n; i++) store[i] = d.template any<T>(0);
        snap();
    }
    void fill(std::function<T(int, int)> f) {
        for (uint32_t y = 0; y < g->height; y++)
            for (uint32_t x = 0; x < g->width; x++) store[g->offset + y * g->stride + x] = f(x, y);
        snap();
    }
    void snap() { before.assign(store, store + n); }
    T ref(int x, int y) const { return before[g->offset + y * g->stride + x]; }      // content before
    T now(int x, int y) const { return g->data[g->offset + y * g->stride + x]; }
    std::string text() const {
        std::string s = how + " {";
        if (g->width * g->height <= 400)
            for (uint32_t y = 0; y < g->height; y++) {
                for (uint32_t x = 0; x < g->width; x++) s += S(ref(x, y), " ");
                s += "|";
            }
        return s + "}";
    }
    bool inview(uint32_t i) const {
        if (i < g->offset) return false;
        uint32_t r = i - g->offset;
        return g->stride > 0 && r % g->stride < g->width && r / g->stride < g->height;
    }
    void unchanged(Drv& d, const char* name) const {
        d.check(g->data == store, S(name, ": data pointer changed"));
        for (uint32_t i = 0; i < n; i++)
            if (!same(store[i], before[i])) d.fail(S(name, ": element ", i, " changed from ", before[i], " to ", store[i]));
    }
    void outside_unchanged(Drv& d, const char* name) const {
        if (g->data != store) return;      // grown: everything is new
        if (!view) return;
        for (uint32_t i = 0; i < n; i++)
            if (!inview(i) && !same(store[i], before[i])) d.fail(S(name, ": element ", i, " outside of the view changed"));
    }
    void refresh() { }
    static bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }
};

// An interleaved image, possibly a view
template<class T>
struct IImg {
    boofcv::Interleaved<T>* g;
    T* store;
    uint32_t n;
    std::vector<T> before;
    bool view;
    std::string how;
    IImg() : g(nullptr), store(nullptr), n(0), view(false) {}
    ~IImg() { delete g; if (view) delete[] store; }
    void make(Drv& d, int w, int h, int nb, int kind = -1) {
        if (kind < 0) kind = d.in(0, 2);
        view = kind >= 1;
        if (!view) {
            g = new boofcv::Interleaved<T>(w, h, nb);
            store = g->data;
            n = g->data_length;
        } else {
            uint32_t x0 = d.in(0, 3), y0 = d.in(0, 3), x1 = d.in(0, 3), y1 = d.in(0, 3);
            uint32_t st = (x0 + w + x1) * nb;
            n = st * (y0 + h + y1);
            store = new T[n ? n : 1];
            g = new boofcv::Interleaved<T>(store, n, w, h, nb, y0 * st + x0 * nb, st);
        }
        how = S(view ? "view " : "own ", w, "x", h, "x", nb, " off ", g->offset, " stride ", g->stride, " len ", n);
        for (uint32_t i = 0; i < n; i++) store[i] = d.template any<T>(0);
        snap();
    }
    void snap() { before.assign(store, store + n); }
    T ref(int x, int y, int b) const { return before[g->offset + y * g->stride + x * g->num_bands + b]; }
    T now(int x, int y, int b) const { return g->data[g->offset + y * g->stride + x * g->num_bands + b]; }
    bool inview(uint32_t i) const {
        if (i < g->offset) return false;
        uint32_t r = i - g->offset;
        return g->stride > 0 && r % g->stride < g->width * g->num_bands && r / g->stride < g->height;
    }
    void unchanged(Drv& d, const char* name) const {
        d.check(g->data == store, S(name, ": data pointer changed"));
        for (uint32_t i = 0; i < n; i++)
            if (!Img<T>::same(store[i], before[i])) d.fail(S(name, ": element ", i, " changed from ", before[i], " to ", store[i]));
    }
    void outside_unchanged(Drv& d, const char* name) const {
        if (g->data != store || !view) return;
        for (uint32_t i = 0; i < n; i++)
            if (!inview(i) && !Img<T>::same(store[i], before[i])) d.fail(S(name, ": element ", i, " outside of the view changed"));
    }
};
#endif
