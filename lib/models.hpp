// Random training data and configurations, and reference (long double)
// versions of the models, shared by the monitors of training and filtering.
#pragma once
#include "linalg.hpp"
#include "vf.hpp"
#include "xmm.h"
#include "xmmKMeans.hpp"
#include "xmmMatrix.hpp"
#include <deque>
#include <memory>

namespace md {
using vf::Case;
using vf::fmt;
using la::R;
using la::V;
using la::M;
typedef std::vector<float> Row;
typedef xmm::GaussianDistribution::CovarianceMode CM;
typedef xmm::HMM::TransitionMode TM;
typedef xmm::HMM::RegressionEstimator RE;
typedef xmm::MultithreadingMode MT;
typedef xmm::MultiClassRegressionEstimator MCE;

const char* const EST[] = {"full", "windowed", "likeliest"};

// ------------------------------------------------------------- training data
struct Ph {
    int index;
    std::string label;
    std::vector<Row> rows;
    std::vector<float> flat, flatIn, flatOut;  // for the shared-memory sets
};
struct Data {
    bool bim = false, shared = false;
    unsigned dim = 1, din = 0;
    std::vector<std::string> cols;
    std::vector<Ph> phrases;
    std::set<std::string> labels() const {
        std::set<std::string> s;
        for (auto const& p : phrases) s.insert(p.label);
        return s;
    }
    size_t frames(std::string const& label) const {
        size_t n = 0;
        for (auto const& p : phrases)
            if (p.label == label) n += p.rows.size();
        return n;
    }
    std::unique_ptr<xmm::TrainingSet> build() {
        std::unique_ptr<xmm::TrainingSet> ts(new xmm::TrainingSet(shared ? xmm::MemoryMode::SharedMemory : xmm::MemoryMode::OwnMemory,
                                                                  bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        ts->dimension.set(dim);
        if (bim) ts->dimension_input.set(din);
        if (!cols.empty()) ts->column_names.set(cols);
        for (auto& p : phrases) add(*ts, p);
        return ts;
    }
    void add(xmm::TrainingSet& ts, Ph& p) {
        ts.addPhrase(p.index, p.label);
        auto q = ts.getPhrase(p.index);
        if (!shared) {
            for (auto const& r : p.rows) q->record(r);
            return;
        }
        p.flat.clear();
        p.flatIn.clear();
        p.flatOut.clear();
        for (auto const& r : p.rows) {
            p.flat.insert(p.flat.end(), r.begin(), r.end());
            p.flatIn.insert(p.flatIn.end(), r.begin(), r.begin() + din);
            p.flatOut.insert(p.flatOut.end(), r.begin() + din, r.end());
        }
        if (p.rows.empty()) return;
        if (bim)
            q->connect(p.flatIn.data(), p.flatOut.data(), unsigned(p.rows.size()));
        else
            q->connect(p.flat.data(), unsigned(p.rows.size()));
    }
    // data of one class only
    Data only(std::string const& label) const {
        Data d = *this;
        d.phrases.clear();
        for (auto const& p : phrases)
            if (p.label == label) d.phrases.push_back(p);
        return d;
    }
};

struct DataSpec {
    int maxDim = 4, maxClasses = 3, minClasses = 1, maxPhrases = 3, minLen = 8, maxLen = 24;
    int bimodal = -1;  // -1 random
    bool benign = false;  // no constant columns, moderate scales
    double emptyPhrase = 0;
    double large = 0;  // how often the set is much larger than the above
};
// number of states or components that the last set of randomData justifies; 0: the usual ones
inline unsigned& sizeLimit() {
    static unsigned n = 0;
    return n;
}

// a noisy trajectory through random points, the same for all phrases of a class
struct Source {
    int kind;
    std::vector<Row> keys;
    float noise;
    Row scale, offset;
    int constant = -1;
    Row at(vf::Rng& r, double u) const {
        size_t dim = scale.size();
        Row x(dim);
        for (size_t d = 0; d < dim; d++) {
            double v;
            if (kind == 1) {
                v = keys[size_t(r.in(0, int(keys.size()) - 1))][d];
            } else {
                double s = u * double(keys.size() - 1);
                size_t i = std::min(size_t(s), keys.size() - 2);
                v = keys[i][d] + (keys[i + 1][d] - keys[i][d]) * (s - double(i));
            }
            v += noise * r.gauss();
            if (int(d) == constant) v = 0.25;
            x[d] = float(offset[d] + scale[d] * v);
        }
        if (kind == 1) {  // same cluster for all dimensions
            size_t k = size_t(r.in(0, int(keys.size()) - 1));
            for (size_t d = 0; d < dim; d++)
                if (int(d) != constant) x[d] = float(offset[d] + scale[d] * (keys[k][d] + noise * r.gauss()));
        }
        return x;
    }
};

inline Data randomData(Case& c, DataSpec const& spec, std::vector<Source>* sources = nullptr) {
    vf::Rng& r = c.rng;
    DataSpec s = spec;
    Data d;
    bool large = s.large > 0 && r.chance(s.large);
    if (large) {
        int kind = r.in(0, 3);
        if (kind == 0) s.maxDim = 9;
        if (kind == 1) s.minClasses = 6, s.maxClasses = 12;
        if (kind == 2) s.minLen = 100, s.maxLen = 300, s.maxClasses = 2;
        if (kind == 3) s.minLen = 30, s.maxLen = 60, s.maxPhrases = 7, s.maxClasses = 2;
    }
    d.bim = s.bimodal < 0 ? r.chance(0.45) : s.bimodal == 1;
    d.shared = r.chance(0.25);
    d.dim = unsigned(r.in(d.bim ? 2 : 1, std::max(d.bim ? 2 : 1, s.maxDim)));
    d.din = d.bim ? unsigned(r.in(1, int(d.dim) - 1)) : 0;
    if (r.chance(0.3)) {
        d.cols.resize(d.dim);
        for (auto& x : d.cols) x = fmt("c%d", r.in(0, 99));
    }
    int classes = r.in(s.minClasses, s.maxClasses), next = r.in(0, 3);
    Row scale(d.dim), offset(d.dim);
    for (unsigned i = 0; i < d.dim; i++) {
        scale[i] = s.benign ? 1.f : float(std::pow(10., r.real(-1, 1)));
        offset[i] = s.benign ? 0.f : float(scale[i] * r.real(-2, 2));
    }
    static const char* names[] = {"a", "b", "zz", "Class 1", "\xc3\xa9t\xc3\xa9", "0"};
    std::vector<std::string> labels;
    for (int k = 0; k < classes; k++) labels.push_back(std::string(names[(k * 5 + int(r.next() % 6)) % 6]) + (r.chance(0.5) ? "" : fmt("%d", k)));
    std::sort(labels.begin(), labels.end());
    labels.erase(std::unique(labels.begin(), labels.end()), labels.end());
    for (auto const& label : labels) {
        Source src;
        src.kind = r.in(0, 2);
        src.keys.resize(size_t(r.in(2, 5)));
        for (auto& k : src.keys) {
            k.resize(d.dim);
            for (auto& v : k) v = float(r.gauss());
        }
        src.noise = float(std::pow(10., r.real(s.benign ? -1 : -1.5, 0)));
        src.scale = scale;
        src.offset = offset;
        if (!s.benign && r.chance(0.08)) src.constant = r.in(0, int(d.dim) - 1);
        int np = r.in(1, s.maxPhrases);
        for (int p = 0; p < np; p++) {
            Ph ph;
            ph.index = next;
            next += r.in(1, 3);
            ph.label = label;
            int T = (s.emptyPhrase > 0 && np > 1 && p > 0 && r.chance(s.emptyPhrase)) ? 0 : r.in(s.minLen, s.maxLen);
            for (int t = 0; t < T; t++) ph.rows.push_back(src.at(r, T > 1 ? double(t) / (T - 1) : 0));
            d.phrases.push_back(ph);
        }
        if (sources) sources->push_back(src);
    }
    // interleave the classes
    for (size_t i = d.phrases.size(); i > 1; i--) {
        size_t j = size_t(r.in(0, int(i) - 1));
        std::swap(d.phrases[i - 1].label, d.phrases[j].label);
        std::swap(d.phrases[i - 1].rows, d.phrases[j].rows);
    }
    sizeLimit() = large ? 1000000 : 0;
    if (large)
        for (auto const& p : d.phrases)
            if (!p.rows.empty()) sizeLimit() = std::min(sizeLimit(), unsigned(p.rows.size()));
    if (large) c.count("large training sets");
    c.sig.add(int(d.bim)).add(d.dim).add(d.din).add(d.phrases.size());
    for (auto const& p : d.phrases) {
        c.sig.add(p.label);
        for (auto const& row : p.rows)
            for (float v : row) c.sig.add(v);
    }
    return d;
}

inline std::string describe(Data const& d) {
    std::string s = fmt("%s set, dim %u/%u, %s memory:", d.bim ? "bimodal" : "unimodal", d.dim, d.din, d.shared ? "shared" : "own");
    for (auto const& p : d.phrases) s += fmt(" #%d '%s' %zu", p.index, p.label.c_str(), p.rows.size());
    return s;
}

// observations to filter: the class trajectories, random places, far outliers
inline std::vector<Row> randomStream(Case& c, Data const& d, int n) {
    vf::Rng& r = c.rng;
    std::vector<Row> out;
    unsigned k = d.bim ? d.din : d.dim;
    std::vector<double> lo(d.dim, 1e30), hi(d.dim, -1e30);
    for (auto const& p : d.phrases)
        for (auto const& row : p.rows)
            for (unsigned i = 0; i < d.dim; i++) {
                lo[i] = std::min(lo[i], double(row[i]));
                hi[i] = std::max(hi[i], double(row[i]));
            }
    size_t at = 0;
    int ph = r.in(0, int(d.phrases.size()) - 1), mode = 0;
    double speed = 1;
    for (int t = 0; t < n; t++) {
        if (t == 0 || r.chance(0.12)) {
            mode = r.in(0, 9);
            ph = r.in(0, int(d.phrases.size()) - 1);
            at = r.chance(0.6) ? 0 : size_t(r.in(0, 20));
            speed = r.chance(0.3) ? 2 : 1;
        }
        Row x(k);
        auto const& rows = d.phrases[size_t(ph)].rows;
        for (unsigned i = 0; i < k; i++) {
            double span = std::max(1e-3, hi[i] - lo[i]);
            if (mode < 7 && !rows.empty())
                x[i] = float(rows[at % rows.size()][i] + span * 0.02 * r.gauss());
            else if (mode < 9)
                x[i] = float(r.real(lo[i] - 0.2 * span, hi[i] + 0.2 * span));
            else
                x[i] = float((lo[i] + hi[i]) / 2 + span * r.real(-30, 30));
        }
        at += size_t(speed);
        out.push_back(x);
    }
    for (auto const& x : out)
        for (float v : x) c.sig.add(v);
    return out;
}

// -------------------------------------------------------------- configuration
inline CM randomCM(vf::Rng& r) { return r.chance(0.65) ? CM::Full : CM::Diagonal; }

inline void randomParams(Case& c, xmm::ClassParameters<xmm::GMM>& p) {
    vf::Rng& r = c.rng;
    p.gaussians.set(sizeLimit() >= 12 && r.chance(0.5) ? unsigned(r.in(5, 12)) : unsigned(r.in(1, 4)));
    p.relative_regularization.set(std::pow(10., r.real(-3, -0.5)));
    p.absolute_regularization.set(std::pow(10., r.real(-4, -1)));
    p.covariance_mode.set(randomCM(r));
}
inline void randomParams(Case& c, xmm::ClassParameters<xmm::HMM>& p) {
    vf::Rng& r = c.rng;
    bool many = sizeLimit() >= 20 && r.chance(0.7);
    p.states.set(many ? unsigned(r.in(7, int(std::min(24u, sizeLimit())))) : unsigned(r.in(1, 6)));
    p.gaussians.set(unsigned(many || r.chance(0.5) ? 1 : r.in(1, 3)));
    p.relative_regularization.set(std::pow(10., r.real(-3, -0.5)));
    p.absolute_regularization.set(std::pow(10., r.real(-4, -1)));
    p.covariance_mode.set(randomCM(r));
    p.transition_mode.set(r.chance(0.55) ? TM::LeftRight : TM::Ergodic);
    p.regression_estimator.set(static_cast<RE>(r.in(0, 2)));
}
inline std::string describe(xmm::ClassParameters<xmm::GMM> const& p) {
    return fmt("gaussians %u reg %.3g/%.3g %s", p.gaussians.get(), p.relative_regularization.get(), p.absolute_regularization.get(), p.covariance_mode.get() == CM::Full ? "full" : "diagonal");
}
inline std::string describe(xmm::ClassParameters<xmm::HMM> const& p) {
    return fmt("states %u gaussians %u reg %.3g/%.3g %s %s %s", p.states.get(), p.gaussians.get(), p.relative_regularization.get(), p.absolute_regularization.get(),
               p.covariance_mode.get() == CM::Full ? "full" : "diagonal", p.transition_mode.get() == TM::Ergodic ? "ergodic" : "left-right",
               EST[int(p.regression_estimator.get())]);
}
inline void setHierarchical(xmm::GMM&, bool) {}
inline void setHierarchical(xmm::HierarchicalHMM& m, bool h) { m.configuration.hierarchical.set(h); }
inline bool isHierarchical(xmm::GMM const&) { return false; }
inline bool isHierarchical(xmm::HierarchicalHMM const& m) { return m.configuration.hierarchical.get(); }

struct ConfigSpec {
    bool own = true;        // class-specific parameters
    bool fewIterations = true;
};
template <typename Mod>
void randomConfig(Case& c, Mod& m, Data const& d, ConfigSpec const& s = ConfigSpec()) {
    vf::Rng& r = c.rng;
    randomParams(c, m.configuration);
    bool hier = r.chance(0.6);
    setHierarchical(m, hier);
    std::string text = std::string(isHierarchical(m) ? "hierarchical " : "") + "default: " + describe(m.configuration);
    if (s.own)
        for (auto const& l : d.labels())
            if (r.chance(0.3)) {
                randomParams(c, m.configuration[l]);
                text += "; '" + l + "': " + describe(m.configuration[l]);
            }
    m.configuration.multithreading = MT::Sequential;
    m.configuration.multiClass_regression_estimator = r.chance(0.5) ? MCE::Likeliest : MCE::Mixture;
    auto& sp = *m.shared_parameters;
    sp.em_algorithm_min_iterations.set(unsigned(r.in(1, 6)));
    sp.em_algorithm_max_iterations.set(r.chance(0.5) ? 0u : unsigned(r.in(1, 8)));
    sp.em_algorithm_percent_chg.set(std::pow(10., r.real(-2, 0.5)));
    sp.likelihood_window.set(unsigned(r.chance(0.4) ? 1 : r.chance(0.03) ? r.in(10, 200) : r.in(1, 9)));
    c.log(text + fmt("; EM min %u max %u chg %.3g window %u, %s", sp.em_algorithm_min_iterations.get(), sp.em_algorithm_max_iterations.get(),
                     sp.em_algorithm_percent_chg.get(), sp.likelihood_window.get(),
                     m.configuration.multiClass_regression_estimator == MCE::Likeliest ? "likeliest" : "mixture"));
}

// ---------------------------------------------------------- reference density
inline M covOf(std::vector<double> const& cov, unsigned n, bool full) {
    M o{int(n), int(n)};
    for (unsigned i = 0; i < n; i++)
        for (unsigned j = 0; j < n; j++) o(int(i), int(j)) = full ? cov[i * n + j] : (i == j ? cov[i] : 0.0);
    return o;
}

struct RGauss {
    la::Normal all, in;
    V mu;
    M cov, ccov;  // covariance; conditional covariance of the output
    unsigned n = 0, k = 0;
    bool full = true;
    double tol(R maha) const { return 1e-11 + 4e-15 * double(std::max(all.cond, in.cond)) * (1 + double(maha)); }
    static R floored(R lp) { return std::max(lp, std::log(1e-180L)); }
    // log density (floored) of the observation, its tolerance added to t
    R logp(float const* x, bool input, double& t) const {
        la::Normal const& N = input ? in : all;
        V v(x, x + (input ? k : n));
        R lp = floored(N.logpdf(v));
        double e = lp <= std::log(1e-180L) ? 0 : tol(N.maha(v));
        // a value on the floor may be slightly above it for the library
        if (e == 0 && N.logpdf(v) > std::log(1e-180L) - 5) e = tol(N.maha(v));
        t = std::max(t, e);
        return lp;
    }
    // conditional expectation; mag bounds the terms of the sums
    void regression(float const* x, V& out, V& mag, V& tolv) const {
        unsigned o = n - k;
        out.assign(o, 0);
        mag.assign(o, 0);
        tolv.assign(o, 0);
        for (unsigned d = 0; d < o; d++) {
            R want = mu[k + d], m = std::fabs(want);
            if (full)
                for (unsigned e = 0; e < k; e++)
                    for (unsigned f = 0; f < k; f++) {
                        R term = cov(int(k + d), int(e)) * in.inv(int(e), int(f)) * (R(x[f]) - mu[f]);
                        want += term;
                        m += std::fabs(term);
                    }
            out[d] = want;
            mag[d] = m;
            tolv[d] = m * (6e-7L * (k + 2) + 1e-14L * std::max(all.cond, in.cond)) + 1e-30L;
        }
    }
};

inline RGauss refGauss(xmm::GaussianDistribution const& g, bool bim) {
    RGauss r;
    r.n = g.dimension.get();
    r.k = bim ? g.dimension_input.get() : 0;
    r.full = g.covariance_mode.get() == CM::Full;
    r.mu.assign(g.mean.begin(), g.mean.end());
    r.cov = covOf(g.covariance, r.n, r.full);
    r.all = la::Normal(r.mu, r.cov);
    if (!r.all.ok || r.all.cond > 1e9L) throw vf::Discard("ill-conditioned trained covariance");
    if (bim) {
        int k = int(r.k), n = int(r.n);
        r.in = la::Normal(V(r.mu.begin(), r.mu.begin() + k), la::sub(r.cov, 0, k, 0, k));
        if (!r.in.ok) throw vf::Discard("ill-conditioned trained covariance");
        M oi = la::sub(r.cov, k, n, 0, k);
        M corr = la::mul(oi, la::mul(r.in.inv, la::tr(oi)));
        r.ccov = la::sub(r.cov, k, n, k, n);
        for (size_t i = 0; i < r.ccov.a.size(); i++) r.ccov.a[i] -= corr.a[i];
    }
    return r;
}

struct RMix {
    std::vector<RGauss> g;
    V w;
    bool bim, full;
    unsigned n, k;
    // densities of the components times their weights; rel is their relative error
    V parts(float const* x, bool input, double& rel) const {
        V p(g.size());
        double t = 0;
        for (size_t i = 0; i < g.size(); i++) p[i] = w[i] * std::exp(g[i].logp(x, input, t));
        rel = std::max(rel, t + 1e-13);
        return p;
    }
    R density(float const* x, bool input, double& rel) const {
        R s = 0;
        for (R v : parts(x, input, rel)) s += v;
        return s;
    }
    // mixture regression for an input; responsibilities are those of the input
    void regression(float const* x, V& out, V& tolv, V& cov, V& ctol) const {
        double rel = 0;
        V p = parts(x, true, rel);
        R s = 0;
        for (R v : p) s += v;
        unsigned o = n - k;
        out.assign(o, 0);
        tolv.assign(o, 0);
        cov.assign(full ? o * o : o, 0);
        ctol.assign(cov.size(), 0);
        for (size_t i = 0; i < g.size(); i++) {
            R b = p[i] / s;
            V e, m, t;
            g[i].regression(x, e, m, t);
            for (unsigned d = 0; d < o; d++) {
                out[d] += b * e[d];
                tolv[d] += b * (t[d] + (1e-6L + 2 * rel) * m[d]);
                for (unsigned d2 = 0; d2 < o; d2++) {
                    if (!full && d != d2) continue;
                    R v = g[i].ccov(int(d), int(d2));
                    R mg = std::fabs(v) + std::sqrt(std::fabs(g[i].cov(int(k + d), int(k + d)) * g[i].cov(int(k + d2), int(k + d2))));
                    size_t at = full ? d * o + d2 : d;
                    cov[at] += b * b * v;
                    ctol[at] += b * b * mg * (1e-6L + 4 * rel + 4e-15L * g[i].all.cond);
                }
            }
        }
    }
};

inline RMix refMix(xmm::SingleClassGMM const& g, bool bim) {
    RMix r;
    r.bim = bim;
    r.full = g.parameters.covariance_mode.get() == CM::Full;
    for (size_t i = 0; i < g.components.size(); i++) {
        r.g.push_back(refGauss(g.components[i], bim));
        r.w.push_back(g.mixture_coeffs[i]);
    }
    r.n = r.g[0].n;
    r.k = r.g[0].k;
    return r;
}
}  // namespace md
