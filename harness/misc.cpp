// C20 attributes and parameter sets, C22 circular buffer, against reference models.
#include <deque>
#include <limits>
#include "vf.hpp"
#include "xmm.h"
#include "xmmKMeans.hpp"
using namespace vf;

// ------------------------------------------------------------------ C20
struct Sink {
    std::vector<xmm::AttributeBase*> calls;
    std::function<void()> peek;
    void onChange(xmm::AttributeBase* a) {
        calls.push_back(a);
        if (peek) peek();
    }
};

template <typename T>
struct Dom;  // domain: interesting values, order
template <typename T>
T limitOf(T lo, T hi, Rng& r) {
    switch (r.in(0, 5)) {
        case 0: return lo;
        case 1: return hi;
        default: return T(lo + (double(hi) - double(lo)) * r.unit());
    }
}
template <typename T>
T anyValue(Rng& r, T a, T b) {  // a, b: current limits; values in and around them
    typedef std::numeric_limits<T> L;
    switch (r.in(0, 12)) {
        case 0: return a;
        case 1: return b;
        case 2: return a == L::lowest() ? a : (L::is_integer ? T(a - 1) : T(std::nextafter(double(a), -1e308)));
        case 3: return b == L::max() ? b : (L::is_integer ? T(b + 1) : T(std::nextafter(double(b), 1e308)));
        case 4: return L::lowest();
        case 5: return L::max();
        case 6: return T(0);
        case 7: return T(1);
        case 8: return L::is_signed ? T(-1) : T(2);
        case 9:
            if (!L::is_integer) {
                int k = r.in(0, 2);
                return k == 0 ? L::quiet_NaN() : (k == 1 ? L::infinity() : T(-L::infinity()));
            }
            return T(3);
        default: {
            long double lo = a, hi = b;
            if (hi - lo > 1000) hi = lo + 1000;
            return T(lo + (hi - lo) * r.unit());
        }
    }
}
template <>
bool anyValue<bool>(Rng& r, bool, bool) {
    return r.chance(0.5);
}
template <>
std::string anyValue<std::string>(Rng& r, std::string, std::string) {
    std::string s;
    for (int i = r.in(0, 6); i > 0; i--) s += char('a' + r.in(0, 25));
    return s;
}
template <typename T>
bool inside(T v, T a, T b) {
    return v >= a && v <= b;
}
template <>
bool inside<bool>(bool, bool, bool) {
    return true;
}
template <>
bool inside<std::string>(std::string, std::string, std::string) {
    return true;
}
template <typename T>
bool same(T const& a, T const& b) {
    return a == b;
}
template <typename T>
std::string str(T const& v) {
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str();
}
template <>
std::string str<unsigned char>(unsigned char const& v) {
    return std::to_string(int(v));
}
template <>
std::string str<char>(char const& v) {
    return std::to_string(int(v));
}

template <typename T>
struct Lim {
    static T lo() { return std::numeric_limits<T>::lowest(); }
    static T hi() { return std::numeric_limits<T>::max(); }
};
template <>
struct Lim<std::string> {
    static std::string lo() { return ""; }
    static std::string hi() { return ""; }
};

template <typename T>
void scalarAttribute(Case& c, const char* name) {
    typedef xmm::Attribute<T> A;
    struct Ref {
        T v, lo, hi;
        Sink* sink;
        bool changed;
    };
    Sink sinks[3];
    std::vector<std::unique_ptr<A>> at;
    std::vector<Ref> ref;
    auto construct = [&]() {
        T lo = Lim<T>::lo(), hi = Lim<T>::hi();
        if (c.rng.chance(0.7)) {
            lo = anyValue<T>(c.rng, lo, hi);
            hi = anyValue<T>(c.rng, lo, Lim<T>::hi());
            if (!(lo <= hi)) {
                lo = Lim<T>::lo();
                hi = Lim<T>::hi();
            }
        }
        T v = anyValue<T>(c.rng, lo, hi);
        c.log(fmt("new %s(%s, %s, %s)", name, str(v).c_str(), str(lo).c_str(), str(hi).c_str()));
        try {
            std::unique_ptr<A> a(new A(v, lo, hi));
            c.check(inside(v, lo, hi), "constructed-out-of-range", "constructor accepted a value outside its limits");
            at.push_back(std::move(a));
            ref.push_back({v, lo, hi, nullptr, false});
        } catch (std::domain_error&) {
            c.check(!inside(v, lo, hi), "constructor-refused", "constructor refused a value within its limits");
        }
    };
    construct();
    int n = c.rng.in(5, 40);
    for (int i = 0; i < n; i++) {
        if (at.empty() || (at.size() < 4 && c.rng.chance(0.1))) {
            construct();
            continue;
        }
        size_t k = c.rng.next() % at.size(), j = c.rng.next() % at.size();
        A& a = *at[k];
        Ref& r = ref[k];
        for (auto& s : sinks) s.calls.clear();
        switch (c.rng.in(0, 9)) {
            case 0:
            case 1:
            case 2:
            case 3: {
                T v = anyValue<T>(c.rng, r.lo, r.hi);
                bool silent = c.rng.chance(0.25), ok = inside(v, r.lo, r.hi), threw = false;
                c.log(fmt("#%zu set(%s%s)", k, str(v).c_str(), silent ? ", silently" : ""));
                bool seenBefore = true;
                for (auto& s : sinks) s.peek = [&]() { seenBefore = same(a.get(), v) && a.changed; };
                try {
                    a.set(v, silent);
                } catch (std::domain_error&) {
                    threw = true;
                }
                for (auto& s : sinks) s.peek = nullptr;
                c.check(threw == !ok, ok ? "set-refused" : "set-out-of-range",
                        fmt("%s: set(%s) with limits [%s, %s] %s", name, str(v).c_str(), str(r.lo).c_str(), str(r.hi).c_str(),
                            threw ? "was refused" : "was accepted"));
                if (ok) {
                    r.v = v;
                    r.changed = true;
                }
                for (auto& s : sinks) {
                    size_t want = (ok && !silent && r.sink == &s) ? 1 : 0;
                    c.check(s.calls.size() == want, "notifications",
                            fmt("%s: %zu notifications instead of %zu", name, s.calls.size(), want));
                    if (want) c.check(s.calls[0] == &a && seenBefore, "notification-content", "the notification does not show the new value");
                }
                c.count(ok ? "accepted assignments" : "refused assignments");
                break;
            }
            case 4: {
                T lo = anyValue<T>(c.rng, Lim<T>::lo(), r.hi), hi = r.hi;
                int how = c.rng.in(0, 2);
                if (lo != lo) lo = Lim<T>::lo();
                if (how) hi = anyValue<T>(c.rng, r.lo, Lim<T>::hi());
                if (hi != hi) hi = Lim<T>::hi();
                c.log(fmt("#%zu limits %d %s %s", k, how, str(lo).c_str(), str(hi).c_str()));
                if (how == 0) {
                    a.setLimitMin(lo);
                    r.lo = lo;
                } else if (how == 1) {
                    a.setLimitMax(hi);
                    r.hi = hi;
                } else {
                    a.setLimits(lo, hi);
                    r.lo = lo;
                    r.hi = hi;
                }
                break;
            }
            case 5:
                c.log(fmt("#%zu = #%zu", k, j));
                a = *at[j];
                if (k != j) {
                    Sink* keep = r.sink;
                    r = ref[j];
                    r.sink = keep;
                    r.changed = false;
                }
                break;
            case 6:
                c.log(fmt("new copy of #%zu", k));
                if (at.size() < 5) {
                    at.push_back(std::unique_ptr<A>(new A(a)));
                    Ref q = ref[k];
                    q.sink = nullptr;
                    q.changed = false;
                    ref.push_back(q);
                }
                break;
            case 7: {
                int s = c.rng.in(0, 3);
                c.log(fmt("#%zu listener %d", k, s));
                r.sink = s < 3 ? &sinks[s] : nullptr;
                a.onAttributeChange(r.sink, &Sink::onChange);
                break;
            }
            case 8:
                a.changed = false;
                r.changed = false;
                break;
            default:
                if (at.size() > 1) {
                    c.log(fmt("delete #%zu", k));
                    at.erase(at.begin() + k);
                    ref.erase(ref.begin() + k);
                }
        }
        for (size_t q = 0; q < at.size(); q++) {
            c.check(same(at[q]->get(), ref[q].v), "value",
                    fmt("%s #%zu holds %s instead of %s", name, q, str(at[q]->get()).c_str(), str(ref[q].v).c_str()));
            c.check(at[q]->changed == ref[q].changed, "changed-flag", fmt("%s #%zu changed is %d", name, q, at[q]->changed));
        }
    }
    c.nontrivial = true;
}

template <typename T>
void vectorAttribute(Case& c, const char* name) {
    typedef xmm::Attribute<std::vector<T>> A;
    struct Ref {
        std::vector<T> v;
        T lo, hi;
        unsigned size;
        Sink* sink;
        bool changed;
    };
    Sink sinks[2];
    std::vector<std::unique_ptr<A>> at;
    std::vector<Ref> ref;
    auto vec = [&](unsigned n, T lo, T hi) {
        std::vector<T> v(n);
        bool wild = c.rng.chance(0.4);
        for (auto& x : v) {
            x = anyValue<T>(c.rng, lo, hi);
            if (!wild && !inside(x, lo, hi)) x = lo;
        }
        return v;
    };
    auto ok = [&](std::vector<T> const& v, T lo, T hi, unsigned size) {
        if (size > 0 && v.size() != size) return false;
        for (auto& x : v)
            if (!inside(x, lo, hi)) return false;
        return true;
    };
    auto construct = [&]() {
        T lo = Lim<T>::lo(), hi = Lim<T>::hi();
        if (c.rng.chance(0.6)) {
            lo = anyValue<T>(c.rng, lo, hi);
            hi = anyValue<T>(c.rng, lo, Lim<T>::hi());
            if (!(lo <= hi)) {
                lo = Lim<T>::lo();
                hi = Lim<T>::hi();
            }
        }
        unsigned size = c.rng.chance(0.5) ? 0 : unsigned(c.rng.in(1, 5));
        auto v = vec(c.rng.chance(0.7) && size ? size : unsigned(c.rng.in(0, 6)), lo, hi);
        c.log(fmt("new vector<%s>(%s, size %u)", name, show(v).c_str(), size));
        bool want = ok(v, lo, hi, size), threw = false;
        try {
            std::unique_ptr<A> a(new A(v, lo, hi, size));
            at.push_back(std::move(a));
            ref.push_back({v, lo, hi, size, nullptr, false});
        } catch (std::domain_error&) {
            threw = true;
        }
        c.check(threw == !want, "vector-constructor", "constructor limits");
    };
    construct();
    int n = c.rng.in(5, 40);
    for (int i = 0; i < n; i++) {
        if (at.empty() || (at.size() < 3 && c.rng.chance(0.1))) {
            construct();
            continue;
        }
        size_t k = c.rng.next() % at.size(), j = c.rng.next() % at.size();
        A& a = *at[k];
        Ref& r = ref[k];
        for (auto& s : sinks) s.calls.clear();
        switch (c.rng.in(0, 8)) {
            case 0:
            case 1:
            case 2: {
                auto v = vec(c.rng.chance(0.7) && r.size ? r.size : unsigned(c.rng.in(0, 6)), r.lo, r.hi);
                bool silent = c.rng.chance(0.25), want = ok(v, r.lo, r.hi, r.size), threw = false;
                c.log(fmt("#%zu set(%s%s)", k, show(v).c_str(), silent ? ", silently" : ""));
                bool seen = true;
                for (auto& s : sinks) s.peek = [&]() { seen = a.get() == v; };
                try {
                    a.set(v, silent);
                } catch (std::domain_error&) {
                    threw = true;
                }
                for (auto& s : sinks) s.peek = nullptr;
                c.check(threw == !want, want ? "vector-set-refused" : "vector-set-out-of-range",
                        fmt("vector<%s>: set(%s) size %u %s", name, show(v).c_str(), r.size, threw ? "refused" : "accepted"));
                if (want) {
                    r.v = v;
                    r.changed = true;
                }
                for (auto& s : sinks) {
                    size_t w = (want && !silent && r.sink == &s) ? 1 : 0;
                    c.check(s.calls.size() == w, "vector-notifications", fmt("%zu notifications instead of %zu", s.calls.size(), w));
                    if (w) c.check(s.calls[0] == &a && seen, "notification-content", "the notification does not show the new value");
                }
                c.count(want ? "accepted assignments" : "refused assignments");
                break;
            }
            case 3: {
                T lo = anyValue<T>(c.rng, Lim<T>::lo(), r.hi), hi = anyValue<T>(c.rng, r.lo, Lim<T>::hi());
                if (lo != lo) lo = Lim<T>::lo();
                if (hi != hi) hi = Lim<T>::hi();
                c.log(fmt("#%zu limits", k) + str(lo) + " " + str(hi));
                a.setLimits(lo, hi);
                r.lo = lo;
                r.hi = hi;
                break;
            }
            case 4:
                c.log(fmt("#%zu = #%zu", k, j));
                a = *at[j];
                if (k != j) {
                    Sink* keep = r.sink;
                    r = ref[j];
                    r.sink = keep;
                    r.changed = false;
                }
                break;
            case 5:
                c.log(fmt("copy of #%zu", k));
                if (at.size() < 4) {
                    at.push_back(std::unique_ptr<A>(new A(a)));
                    Ref q = ref[k];
                    q.sink = nullptr;
                    q.changed = false;
                    ref.push_back(q);
                }
                break;
            case 6: {
                unsigned s = unsigned(c.rng.in(0, 6));
                c.log(fmt("#%zu resize(%u)", k, s));
                a.resize(s);
                r.v.resize(s, T());
                r.size = s;
                break;
            }
            case 7: {
                int s = c.rng.in(0, 2);
                c.log(fmt("#%zu listener %d", k, s));
                r.sink = s < 2 ? &sinks[s] : nullptr;
                a.onAttributeChange(r.sink, &Sink::onChange);
                break;
            }
            default: {
                unsigned x = c.rng.chance(0.2) ? 4000000000u : unsigned(c.rng.in(0, 8));
                bool threw = false;
                T v = T();
                try {
                    v = a.at(x);
                } catch (std::out_of_range&) {
                    threw = true;
                }
                c.check(threw == (x >= r.v.size()), "vector-at-bounds", fmt("at(%u) of %zu values", x, r.v.size()));
                if (!threw) c.check(v == r.v[x] || v != v, "vector-at", fmt("at(%u)", x));
            }
        }
        for (size_t q = 0; q < at.size(); q++) {
            c.check(at[q]->get() == ref[q].v, "vector-value",
                    fmt("vector<%s> #%zu holds %s instead of %s", name, q, show(at[q]->get()).c_str(), show(ref[q].v).c_str()));
            c.check(at[q]->size() == ref[q].v.size(), "vector-size", "size()");
            c.check(at[q]->changed == ref[q].changed, "changed-flag", "changed flag");
        }
    }
    c.nontrivial = true;
}

template <typename E>
void enumAttribute(Case& c, xmm::Attribute<E>& a, int count, std::function<void()> reset, std::function<bool()> flag,
                   const char* name) {
    E before = a.get();
    int v = c.rng.in(-3, count + 3);
    bool want = v >= 0 && v < count, threw = false;
    reset();
    c.log(fmt("%s.set(%d)", name, v));
    try {
        a.set(static_cast<E>(v));
    } catch (std::domain_error&) {
        threw = true;
    }
    c.check(threw == !want, "enum-limits", fmt("%s: value %d %s", name, v, threw ? "refused" : "accepted"));
    c.check(a.get() == (want ? static_cast<E>(v) : before), "enum-value", fmt("%s after set(%d)", name, v));
    c.check(flag() == want, "parameters-changed", fmt("%s: changed flag of the parameters is %d", name, flag()));
}

// class parameters: limits, notification of the owner, copies
template <typename M>
struct Fields;
template <>
struct Fields<xmm::GMM> {
    static void poke(Case& c, xmm::ClassParameters<xmm::GMM>& p, std::vector<double>& r, int f);
    static std::vector<double> read(xmm::ClassParameters<xmm::GMM> const& p) {
        return {double(p.gaussians.get()), p.relative_regularization.get(), p.absolute_regularization.get(),
                double(int(p.covariance_mode.get()))};
    }
    static int n() { return 4; }
    static const char* name() { return "GMM"; }
};
template <typename A, typename P>
void pokeNumber(Case& c, P& p, A& a, double& ref, double lo, bool integer, const char* name) {
    double v;
    switch (c.rng.in(0, 6)) {
        case 0: v = 0; break;
        case 1: v = lo; break;
        case 2: v = integer ? 4294967295.0 : -1; break;
        case 3: v = integer ? 2 : lo / 2; break;
        default: v = integer ? c.rng.in(0, 100) : std::exp(c.rng.real(-50, 20));
    }
    if (!integer && c.rng.chance(0.1)) v = std::nan("");
    bool want = v >= lo, threw = false;
    p.changed = false;
    c.log(fmt("%s.set(%.17g)", name, v));
    try {
        a.set(v);
    } catch (std::domain_error&) {
        threw = true;
    }
    c.check(threw == !want, want ? "parameter-refused" : "parameter-out-of-range",
            fmt("%s = %.17g %s", name, v, threw ? "refused" : "accepted"));
    if (want) ref = v;
    c.check(p.changed == want, "parameters-changed", fmt("%s: the parameters' changed flag is %d", name, p.changed));
    c.count(want ? "accepted assignments" : "refused assignments");
}
void Fields<xmm::GMM>::poke(Case& c, xmm::ClassParameters<xmm::GMM>& p, std::vector<double>& r, int f) {
    switch (f) {
        case 0: pokeNumber(c, p, p.gaussians, r[0], 1, true, "gaussians"); break;
        case 1: pokeNumber(c, p, p.relative_regularization, r[1], 1e-20, false, "relative_regularization"); break;
        case 2: pokeNumber(c, p, p.absolute_regularization, r[2], 1e-20, false, "absolute_regularization"); break;
        default:
            enumAttribute<xmm::GaussianDistribution::CovarianceMode>(c, p.covariance_mode, 2, [&] { p.changed = false; },
                                                                     [&] { return p.changed; }, "covariance_mode");
            r[3] = int(p.covariance_mode.get());
    }
}
template <>
struct Fields<xmm::HMM> {
    static void poke(Case& c, xmm::ClassParameters<xmm::HMM>& p, std::vector<double>& r, int f) {
        switch (f) {
            case 0: pokeNumber(c, p, p.gaussians, r[0], 1, true, "gaussians"); break;
            case 1: pokeNumber(c, p, p.relative_regularization, r[1], 1e-20, false, "relative_regularization"); break;
            case 2: pokeNumber(c, p, p.absolute_regularization, r[2], 1e-20, false, "absolute_regularization"); break;
            case 3:
                enumAttribute<xmm::GaussianDistribution::CovarianceMode>(c, p.covariance_mode, 2, [&] { p.changed = false; },
                                                                         [&] { return p.changed; }, "covariance_mode");
                r[3] = int(p.covariance_mode.get());
                break;
            case 4: pokeNumber(c, p, p.states, r[4], 1, true, "states"); break;
            case 5:
                enumAttribute<xmm::HMM::TransitionMode>(c, p.transition_mode, 2, [&] { p.changed = false; },
                                                        [&] { return p.changed; }, "transition_mode");
                r[5] = int(p.transition_mode.get());
                break;
            case 6:
                enumAttribute<xmm::HMM::RegressionEstimator>(c, p.regression_estimator, 3, [&] { p.changed = false; },
                                                             [&] { return p.changed; }, "regression_estimator");
                r[6] = int(p.regression_estimator.get());
                break;
            default: {
                bool v = c.rng.chance(0.5);
                p.changed = false;
                c.log(fmt("hierarchical.set(%d)", v));
                p.hierarchical.set(v);
                c.check(p.changed, "parameters-changed", "hierarchical");
                r[7] = v;
            }
        }
    }
    static std::vector<double> read(xmm::ClassParameters<xmm::HMM> const& p) {
        return {double(p.gaussians.get()), p.relative_regularization.get(), p.absolute_regularization.get(),
                double(int(p.covariance_mode.get())), double(p.states.get()), double(int(p.transition_mode.get())),
                double(int(p.regression_estimator.get())), double(p.hierarchical.get())};
    }
    static int n() { return 8; }
    static const char* name() { return "HMM"; }
};
template <>
struct Fields<xmm::KMeans> {
    static void poke(Case& c, xmm::ClassParameters<xmm::KMeans>& p, std::vector<double>& r, int f) {
        switch (f) {
            case 0: pokeNumber(c, p, p.clusters, r[0], 1, true, "clusters"); break;
            case 1: pokeNumber(c, p, p.max_iterations, r[1], 1, true, "max_iterations"); break;
            default: {
                pokeNumber(c, p, p.relative_distance_threshold, r[2], 0, false, "relative_distance_threshold");
                r[2] = float(r[2]);
            }
        }
    }
    static std::vector<double> read(xmm::ClassParameters<xmm::KMeans> const& p) {
        return {double(p.clusters.get()), double(p.max_iterations.get()), double(p.relative_distance_threshold.get())};
    }
    static int n() { return 3; }
    static const char* name() { return "KMeans"; }
};

template <typename M>
void classParameters(Case& c) {
    typedef xmm::ClassParameters<M> P;
    std::vector<std::unique_ptr<P>> ps;
    std::vector<std::vector<double>> ref;
    ps.emplace_back(new P());
    ref.push_back(Fields<M>::read(*ps[0]));
    c.log(fmt("parameters of %s", Fields<M>::name()));
    int n = c.rng.in(5, 40);
    for (int i = 0; i < n; i++) {
        size_t k = c.rng.next() % ps.size(), j = c.rng.next() % ps.size();
        switch (c.rng.in(0, 8)) {
            case 0:
                if (ps.size() < 4) {
                    c.log(fmt("copy of #%zu", k));
                    ps.emplace_back(new P(*ps[k]));
                    ref.push_back(std::vector<double>(ref[k]));
                }
                break;
            case 1:
                c.log(fmt("#%zu = #%zu", k, j));
                *ps[k] = *ps[j];
                ref[k] = ref[j];
                break;
            case 2:
                if (ps.size() > 1) {
                    c.log(fmt("delete #%zu", k));
                    ps.erase(ps.begin() + k);
                    ref.erase(ref.begin() + k);
                }
                break;
            default: c.log(fmt("#%zu", k)); Fields<M>::poke(c, *ps[k], ref[k], c.rng.in(0, Fields<M>::n() - 1));
        }
        for (size_t q = 0; q < ps.size(); q++) {
            auto got = Fields<M>::read(*ps[q]);
            c.check(got == ref[q], "parameter-value",
                    fmt("%s parameters #%zu hold ", Fields<M>::name(), q) + show(got) + " instead of " + show(ref[q]));
        }
    }
    c.nontrivial = true;
}

// shared parameters: dependent settings stay consistent
void sharedParameters(Case& c) {
    struct Ref {
        bool bimodal = false;
        unsigned dim = 1, din = 0;
        std::vector<std::string> names;
        unsigned mini = 10, maxi = 0, win = 1;
        double pct = 0.01;
        bool sized = false;  // the names are sized on the first change of dimension
    };
    std::vector<std::unique_ptr<xmm::SharedParameters>> ps;
    std::vector<Ref> ref;
    ps.emplace_back(new xmm::SharedParameters());
    ref.emplace_back();
    int n = c.rng.in(5, 40);
    for (int i = 0; i < n; i++) {
        size_t k = c.rng.next() % ps.size(), j = c.rng.next() % ps.size();
        auto& p = *ps[k];
        Ref& r = ref[k];
        bool threw = false, want = true;
        switch (c.rng.in(0, 11)) {
            case 0: {
                bool v = c.rng.chance(0.5);
                c.log(fmt("#%zu bimodal=%d", k, v));
                p.bimodal.set(v);
                if (v) {
                    if (r.dim < 2) {
                        r.dim = 2;
                        r.names.resize(2);
                        r.sized = true;
                    }
                    if (r.din < 1) r.din = 1;
                } else
                    r.din = 0;
                r.bimodal = v;
                break;
            }
            case 1:
            case 2: {
                unsigned v = c.rng.chance(0.1) ? 0 : unsigned(c.rng.in(1, 9));
                want = v >= (r.bimodal ? 2u : 1u);
                c.log(fmt("#%zu dimension=%u", k, v));
                try {
                    p.dimension.set(v);
                } catch (std::domain_error&) {
                    threw = true;
                }
                if (want) {
                    r.dim = v;
                    if (r.din > v - 1) r.din = v - 1;
                    r.names.resize(v);
                    r.sized = true;
                }
                c.check(threw == !want, "shared-dimension", fmt("dimension=%u bimodal=%d %s", v, r.bimodal, threw ? "refused" : "accepted"));
                break;
            }
            case 3:
            case 4: {
                if (!r.bimodal) break;
                unsigned v = unsigned(c.rng.in(0, 10));
                want = v >= 1 && v < r.dim;
                c.log(fmt("#%zu dimension_input=%u", k, v));
                try {
                    p.dimension_input.set(v);
                } catch (std::domain_error&) {
                    threw = true;
                }
                c.check(threw == !want, "shared-dimension-input", fmt("dimension_input=%u of %u %s", v, r.dim, threw ? "refused" : "accepted"));
                if (want) r.din = v;
                break;
            }
            case 5: {
                std::vector<std::string> v(c.rng.chance(0.7) && r.dim ? r.dim : unsigned(c.rng.in(0, 9)));
                for (auto& s : v) s = anyValue<std::string>(c.rng, "", "");
                want = v.size() == r.names.size();
                if (!r.sized) break;
                c.log(fmt("#%zu column_names=%s", k, show(v).c_str()));
                try {
                    p.column_names.set(v);
                } catch (std::domain_error&) {
                    threw = true;
                }
                c.check(threw == !want, "shared-column-names", fmt("%zu names for %u columns %s", v.size(), r.dim, threw ? "refused" : "accepted"));
                if (want) r.names = v;
                break;
            }
            case 6: {
                unsigned v = unsigned(c.rng.in(0, 20));
                want = v >= 1;
                c.log(fmt("#%zu min=%u", k, v));
                try {
                    p.em_algorithm_min_iterations.set(v);
                } catch (std::domain_error&) {
                    threw = true;
                }
                c.check(threw == !want, "shared-min-iterations", "limits");
                if (want) r.mini = v;
                break;
            }
            case 7: {
                unsigned v = unsigned(c.rng.in(0, 20));
                c.log(fmt("#%zu max=%u", k, v));
                p.em_algorithm_max_iterations.set(v);
                r.maxi = v;
                break;
            }
            case 8: {
                double v = c.rng.chance(0.2) ? -c.rng.unit() : c.rng.unit();
                if (c.rng.chance(0.1)) v = std::nan("");
                want = v >= 0;
                c.log(fmt("#%zu pct=%.17g", k, v));
                try {
                    p.em_algorithm_percent_chg.set(v);
                } catch (std::domain_error&) {
                    threw = true;
                }
                c.check(threw == !want, "shared-percent", "limits");
                if (want) r.pct = v;
                break;
            }
            case 9: {
                unsigned v = unsigned(c.rng.in(0, 5));
                want = v >= 1;
                c.log(fmt("#%zu window=%u", k, v));
                try {
                    p.likelihood_window.set(v);
                } catch (std::domain_error&) {
                    threw = true;
                }
                c.check(threw == !want, "shared-window", "limits");
                if (want) r.win = v;
                break;
            }
            case 10:
                c.log(fmt("#%zu = #%zu", k, j));
                p = *ps[j];
                r = ref[j];
                break;
            default:
                if (ps.size() < 4) {
                    c.log(fmt("copy of #%zu", k));
                    ps.emplace_back(new xmm::SharedParameters(p));
                    ref.push_back(Ref(r));
                } else {
                    c.log(fmt("delete #%zu", k));
                    ps.erase(ps.begin() + k);
                    ref.erase(ref.begin() + k);
                }
        }
        for (size_t q = 0; q < ps.size(); q++) {
            auto& s = *ps[q];
            Ref& e = ref[q];
            std::string got = fmt("bimodal %d dimension %u input %u min %u max %u window %u pct %.17g names ", s.bimodal.get(),
                                  s.dimension.get(), s.dimension_input.get(), s.em_algorithm_min_iterations.get(),
                                  s.em_algorithm_max_iterations.get(), s.likelihood_window.get(),
                                  s.em_algorithm_percent_chg.get()) + show(s.column_names.get());
            std::string exp = fmt("bimodal %d dimension %u input %u min %u max %u window %u pct %.17g names ", e.bimodal,
                                  e.dim, e.din, e.mini, e.maxi, e.win, e.pct) + show(e.names);
            c.check(got == exp, "shared-values", fmt("#%zu holds ", q) + got + " instead of " + exp);
        }
    }
    c.nontrivial = true;
}

// dimensions of phrases, sets and Gaussians: their limits depend on one another
template <typename O>
struct Sized {
    std::unique_ptr<O> o;
    bool bimodal;
    unsigned dim, din;
};
template <typename O>
void dimensions(Case& c, const char* name, bool zeroChecked, std::function<O*(Case&, Sized<O>&)> make, std::function<void(Case&, Sized<O>&)> agree) {
    std::vector<Sized<O>> os;
    auto construct = [&]() {
        Sized<O> s;
        s.bimodal = c.rng.chance(0.6);
        s.dim = s.bimodal ? 2 : 1;
        s.din = s.bimodal ? 1 : 0;
        s.o.reset(make(c, s));
        c.log(fmt("#%zu: %s, bimodal %d, %u/%u", os.size(), name, s.bimodal, s.din, s.dim));
        os.push_back(std::move(s));
    };
    construct();
    for (int i = c.rng.in(4, 30); i > 0; i--) {
        size_t k = c.rng.next() % os.size(), j = c.rng.next() % os.size();
        Sized<O>& s = os[k];
        bool threw = false, want;
        unsigned v;
        switch (c.rng.in(0, 9)) {
        case 0:
            if (os.size() < 4) construct();
            break;
        case 1:
            if (os.size() < 4) {
                c.log(fmt("copy of #%zu", k));
                Sized<O> n;
                n.bimodal = s.bimodal;
                n.dim = s.dim;
                n.din = s.din;
                n.o.reset(new O(*s.o));
                os.push_back(std::move(n));
            }
            break;
        case 2:
            c.log(fmt("#%zu = #%zu", k, j));
            *s.o = *os[j].o;
            s.bimodal = os[j].bimodal;
            s.dim = os[j].dim;
            s.din = os[j].din;
            break;
        case 3:
            if (os.size() > 1) {
                c.log(fmt("delete #%zu", k));
                os.erase(os.begin() + long(k));
            }
            break;
        case 4:
        case 5:
        case 6:
            v = unsigned(c.rng.in(0, 7));
            want = v >= (s.bimodal ? 2u : 1u);
            c.log(fmt("#%zu dimension = %u", k, v));
            try {
                s.o->dimension.set(v);
            } catch (std::domain_error&) {
                threw = true;
            }
            c.check(threw == !want, want ? "dimension-refused" : "dimension-out-of-range", fmt("%s: dimension %u %s", name, v, threw ? "refused" : "accepted"));
            if (want) {
                s.dim = v;
                s.din = std::min(s.din, v - 1);
            }
            c.count(want ? "accepted assignments" : "refused assignments");
            break;
        default:
            v = unsigned(c.rng.in(0, 8));
            if (c.rng.chance(0.3)) v = s.dim - unsigned(c.rng.in(0, 1));
            if (s.bimodal && !v && !zeroChecked) v = 1;
            want = s.bimodal ? (v >= 1 && v < s.dim) : v == 0;
            c.log(fmt("#%zu dimension_input = %u", k, v));
            try {
                s.o->dimension_input.set(v);
            } catch (std::domain_error&) {
                threw = true;
            }
            c.check(threw == !want, want ? "input-dimension-refused" : "input-dimension-out-of-range",
                    fmt("%s, bimodal %d: input dimension %u of %u %s", name, s.bimodal, v, s.dim, threw ? "refused" : "accepted"));
            if (want) s.din = v;
            c.count(want ? "accepted assignments" : "refused assignments");
        }
        for (size_t q = 0; q < os.size(); q++) {
            auto& e = os[q];
            c.check(e.o->dimension.get() == e.dim && e.o->dimension_input.get() == e.din, "dimensions",
                    fmt("%s #%zu has dimensions %u/%u instead of %u/%u", name, q, e.o->dimension_input.get(), e.o->dimension.get(), e.din, e.dim));
            agree(c, e);
        }
    }
    c.nontrivial = true;
}
void phraseDimensions(Case& c) {
    typedef xmm::Phrase P;
    dimensions<P>(
        c, "phrase", true,
        [](Case& c, Sized<P>& s) {
            return new P(c.rng.chance(0.7) ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory, s.bimodal ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        },
        [](Case& c, Sized<P>& s) {
            c.check(s.o->bimodal() == s.bimodal, "modality", "of a phrase");
            c.check(s.o->column_names.size() == s.dim, "phrase-column-names", fmt("%zu names for %u columns", size_t(s.o->column_names.size()), s.dim));
        });
}
void setDimensions(Case& c) {
    typedef xmm::TrainingSet T;
    dimensions<T>(
        c, "training set", true,
        [](Case& c, Sized<T>& s) {
            T* t = new T(c.rng.chance(0.7) ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory, s.bimodal ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
            for (int i = c.rng.in(0, 3); i > 0; i--) t->addPhrase(i * 2, i % 2 ? "a" : "b");
            return t;
        },
        [](Case& c, Sized<T>& s) {
            c.check(s.o->bimodal() == s.bimodal && s.o->column_names.size() == s.dim, "set-column-names", fmt("%zu names for %u columns", size_t(s.o->column_names.size()), s.dim));
            for (auto& p : *s.o)
                c.check(p.second->dimension.get() == s.dim && p.second->dimension_input.get() == s.din, "dimensions",
                        fmt("phrase %d of the set has dimensions %u/%u instead of %u/%u", p.first, p.second->dimension_input.get(), p.second->dimension.get(), s.din, s.dim));
            for (auto& l : s.o->labels()) {
                T* q = s.o->getPhrasesOfClass(l);
                c.check(q && q->dimension.get() == s.dim && q->dimension_input.get() == s.din && q->column_names.size() == s.dim, "dimensions", "of the phrases of class '" + l + "'");
            }
        });
}
void gaussDimensions(Case& c) {
    typedef xmm::GaussianDistribution G;
    dimensions<G>(
        c, "Gaussian", false,
        [](Case& c, Sized<G>& s) {
            bool wild = c.rng.chance(0.5);
            if (wild) {
                s.dim = unsigned(c.rng.in(s.bimodal ? 2 : 1, 6));
                s.din = s.bimodal ? unsigned(c.rng.in(1, int(s.dim) - 1)) : 0;
            }
            return new G(s.bimodal, s.dim, s.din, c.rng.chance(0.5) ? G::CovarianceMode::Full : G::CovarianceMode::Diagonal);
        },
        [](Case& c, Sized<G>& s) {
            size_t d = s.dim;
            bool full = s.o->covariance_mode.get() == G::CovarianceMode::Full;
            c.check(s.o->mean.size() == d && s.o->covariance.size() == (full ? d * d : d), "gaussian-sizes", fmt("%zu means, %zu covariances for %zu dimensions", s.o->mean.size(), s.o->covariance.size(), d));
        });
}

static void c20(Case& c) {
    switch (c.index % 21) {
        case 18: phraseDimensions(c); break;
        case 19: setDimensions(c); break;
        case 20: gaussDimensions(c); break;
        case 0: scalarAttribute<unsigned int>(c, "unsigned"); break;
        case 1: scalarAttribute<int>(c, "int"); break;
        case 2: scalarAttribute<long>(c, "long"); break;
        case 3: scalarAttribute<char>(c, "char"); break;
        case 4: scalarAttribute<unsigned char>(c, "unsigned char"); break;
        case 5: scalarAttribute<float>(c, "float"); break;
        case 6: scalarAttribute<double>(c, "double"); break;
        case 7: scalarAttribute<std::string>(c, "string"); break;
        case 8: scalarAttribute<bool>(c, "bool"); break;
        case 9: vectorAttribute<double>(c, "double"); break;
        case 10: vectorAttribute<int>(c, "int"); break;
        case 11: vectorAttribute<std::string>(c, "string"); break;
        case 12: vectorAttribute<float>(c, "float"); break;
        case 13: classParameters<xmm::GMM>(c); break;
        case 14: classParameters<xmm::HMM>(c); break;
        case 15: classParameters<xmm::KMeans>(c); break;
        default: sharedParameters(c);
    }
}

// ------------------------------------------------------------------ C22
template <typename T, unsigned CH>
static void buffer(Case& c) {
    bool wide = c.rng.chance(0.1);
    auto length = [&] { return unsigned(c.rng.chance(0.2) ? 1 : c.rng.in(1, wide ? 300 : 12)); };
    unsigned len = length();
    xmm::CircularBuffer<T, CH> buf(len);
    std::deque<std::vector<T>> last;  // most recent first, since the last clear
    // values kept by a resize: known to come from this history, order unspecified
    bool exact = true;
    unsigned since = 0;  // pushes since the resize
    double serial = 0;
    c.log(fmt("CircularBuffer<%u channels>(%u)", CH, len));
    int n = c.rng.in(3, wide ? 500 : 60);
    for (int i = 0; i < n; i++) {
        switch (c.rng.in(0, wide ? 100 : 14)) {
            case 0:
                c.log("clear");
                buf.clear();
                last.clear();
                exact = true;
                break;
            case 1: {
                unsigned l = length();
                c.log(fmt("resize(%u)", l));
                // nothing moves while all the values ever pushed still fit
                bool trivial = l == len || (exact && last.size() < len && last.size() < l);
                buf.resize(l);
                len = l;
                if (!trivial && !last.empty()) {
                    exact = false;
                    since = 0;
                }
                break;
            }
            default: {
                std::vector<T> v(CH);
                for (auto& x : v) x = T(++serial + c.rng.unit());
                c.log("push");
                int how = c.rng.in(0, 2);
                if (CH == 1 && how == 0)
                    buf.push(v[0]);
                else if (how == 1)
                    buf.push(v.data());
                else
                    buf.push(v);
                last.push_front(v);
                if (!exact && ++since >= len) exact = true;
            }
        }
        if (CH > 1 && c.rng.chance(0.1)) {
            bool threw = false;
            try {
                buf.push(T(1));
            } catch (std::invalid_argument&) {
                threw = true;
            }
            c.check(threw, "push-scalar", "a single value was pushed into a buffer of several channels");
        }
        c.check(buf.size() == len, "length", fmt("size() is %u instead of %u", buf.size(), len));
        unsigned m = buf.size_t();
        if (exact) {
            unsigned w = unsigned(std::min<size_t>(len, last.size()));
            c.check(m == w, "fullness", fmt("holds %u values instead of %u", m, w));
        } else
            c.check(m <= len, "fullness", fmt("holds %u values for a length of %u", m, len));
        std::vector<std::vector<T>> got;
        for (unsigned k = 0; k < m; k++) {
            std::vector<T> v;
            for (unsigned ch = 0; ch < CH; ch++) v.push_back(buf(ch, k));
            got.push_back(v);
        }
        bool oob = false, oob2 = false;
        try {
            buf(0, m + unsigned(c.rng.in(0, 3)));
        } catch (std::out_of_range&) {
            oob = true;
        }
        try {
            buf(CH + unsigned(c.rng.in(0, 1)), 0);
        } catch (std::out_of_range&) {
            oob2 = true;
        }
        c.check(oob && oob2, "bounds", "an index past the content is not refused");
        std::vector<std::vector<T>> held = got;
        std::sort(got.begin(), got.end());
        if (!exact) {
            // after a resize: values of this history, with all those pushed since
            std::vector<std::vector<T>> all(last.begin(), last.end());
            std::vector<std::vector<T>> newer(last.begin(), last.begin() + long(std::min(since, len)));
            std::sort(all.begin(), all.end());
            std::sort(newer.begin(), newer.end());
            c.check(std::includes(all.begin(), all.end(), got.begin(), got.end()), "content", "a resized buffer holds values that were not pushed");
            c.check(std::includes(got.begin(), got.end(), newer.begin(), newer.end()), "content", "a resized buffer does not hold the values pushed since");
        } else {
            std::vector<std::vector<T>> exp(last.begin(), last.begin() + m);
            std::sort(exp.begin(), exp.end());
            c.check(got == exp, "content", fmt("the %u values held are not the last ones pushed", m));
        }
        if (m) {
            auto mean = buf.mean();
            c.check(mean.size() == CH, "mean-size", "mean");
            for (unsigned ch = 0; ch < CH; ch++) {
                long double s = 0;
                for (unsigned k = 0; k < m; k++) s += held[k][ch];
                s /= m;
                c.check(close(mean[ch], double(s), sizeof(T) == 4 ? 1e-5 : 1e-12), "mean",
                        fmt("mean of channel %u is %.17g instead of %.17Lg", ch, double(mean[ch]), s));
            }
        }
        c.count("buffer states compared");
    }
    c.nontrivial = true;
}
static void c22(Case& c) {
    switch (c.index % 5) {
        case 0: buffer<double, 1>(c); break;
        case 1: buffer<double, 2>(c); break;
        case 2: buffer<double, 3>(c); break;
        case 3: buffer<float, 1>(c); break;
        default: buffer<double, 5>(c);
    }
}

int main(int argc, char** argv) {
    return run(argc, argv, {{"C20", 30000, 1500000, c20, 8}, {"C22", 30000, 1500000, c22, 8}});
}
