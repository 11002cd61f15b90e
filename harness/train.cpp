// C10 (training is EM / Baum-Welch and gives valid models), C24 (class-specific
// configurations), C25 (training or removing one class leaves the others alone)
#include "models.hpp"

using namespace md;

namespace {
typedef xmm::TrainingEvent TE;
typedef TE::Status ST;

struct Events {
    std::vector<TE> all;
    void on(TE const& e) { all.push_back(e); }
    std::vector<TE> of(std::string const& label) const {
        std::vector<TE> v;
        for (auto const& e : all)
            if (e.label == label && e.status != ST::Alldone) v.push_back(e);
        return v;
    }
    bool failed(std::string const& label) const {
        for (auto const& e : all)
            if (e.label == label && e.status == ST::Error) return true;
        return false;
    }
};

std::string text(Json::Value const& v) { return Json::FastWriter().write(v); }

// ------------------------------------------------------------------ validity
template <typename T>
void simplex(Case& c, std::vector<T> const& v, size_t n, std::string const& what, double tol = 2e-6) {
    c.check(v.size() == n, "validity: size", what + fmt(" has %zu values for %zu", v.size(), n));
    double s = 0;
    for (double x : v) {
        c.checkf(std::isfinite(x) && x >= 0, "validity: negative or not finite", [&] { return what + " = " + vf::show(v); });
        s += x;
    }
    c.checkf(std::fabs(s - 1) <= tol, "validity: sum", [&] { return what + " sums to " + fmt("%.9g: ", s) + vf::show(v); });
}

std::vector<double> offsetOf(xmm::TrainingSet& ts, std::string const& label, double rel, double abs) {
    auto sd = ts.getPhrasesOfClass(label)->standardDeviation();
    std::vector<double> o;
    for (float s : sd) o.push_back(std::max(abs, rel * double(s)));
    return o;
}

// the covariance is symmetric and at least the regularisation
void validGauss(Case& c, xmm::GaussianDistribution const& g, std::vector<double> const& off, unsigned dim, bool full, R range, std::string const& what) {
    c.check(g.dimension.get() == dim && g.mean.size() == dim && g.covariance.size() == (full ? dim * dim : dim), "validity: sizes of a component",
            what + fmt(": dimension %u, %zu means, %zu covariances", g.dimension.get(), g.mean.size(), g.covariance.size()));
    for (double m : g.mean) c.check(std::isfinite(m), "validity: mean not finite", what);
    for (double m : g.covariance) c.check(std::isfinite(m), "validity: covariance not finite", what);
    M a = covOf(g.covariance, dim, full);
    R scale = range * range + la::norm(a);
    for (unsigned i = 0; i < dim; i++) {
        c.check(a(int(i), int(i)) >= off[i] * (1 - 1e-9) - 1e-12 * double(scale), "validity: variance under the regularisation",
                what + fmt(": variance %u is %.9g, regularisation %.9g", i, double(a(int(i), int(i))), off[i]));
        for (unsigned j = 0; j < i; j++)
            c.check(std::fabs(a(int(i), int(j)) - a(int(j), int(i))) <= 1e-12L * scale, "validity: covariance not symmetric", what);
    }
    // Cholesky of covariance - regularisation + tolerance
    for (unsigned i = 0; i < dim; i++) a(int(i), int(i)) += 1e-9L * scale - R(off[i]);
    bool pd = true;
    M L{int(dim), int(dim)};
    for (int i = 0; i < int(dim) && pd; i++)
        for (int j = 0; j <= i; j++) {
            R s = a(i, j);
            for (int k = 0; k < j; k++) s -= L(i, k) * L(j, k);
            if (i == j) {
                if (s <= 0) pd = false;
                L(i, i) = std::sqrt(std::max(s, R(0)));
            } else
                L(i, j) = s / L(j, j);
        }
    c.check(pd, "validity: covariance under the regularisation", what);
}

R rangeOf(Data const& d, std::string const& label) {
    R m = 0;
    for (auto const& p : d.phrases)
        if (p.label == label)
            for (auto const& r : p.rows)
                for (float v : r) m = std::max(m, std::fabs(R(v)));
    return m;
}

void validClass(Case& c, xmm::GMM& m, std::string const& label, xmm::TrainingSet& ts, Data const& d) {
    auto& k = m.models.at(label);
    unsigned G = k.parameters.gaussians.get();
    simplex(c, k.mixture_coeffs, G, "weights of '" + label + "'");
    auto off = offsetOf(ts, label, k.parameters.relative_regularization.get(), k.parameters.absolute_regularization.get());
    c.check(k.components.size() == G, "validity: number of components", label);
    for (auto& g : k.components) validGauss(c, g, off, d.dim, k.parameters.covariance_mode.get() == CM::Full, rangeOf(d, label), "component of '" + label + "'");
}
void validClass(Case& c, xmm::HierarchicalHMM& m, std::string const& label, xmm::TrainingSet& ts, Data const& d) {
    auto& k = m.models.at(label);
    unsigned N = k.parameters.states.get();
    bool erg = k.parameters.transition_mode.get() == TM::Ergodic;
    // without hierarchy the last state loops to the first with probability .05 on top of its row
    bool loop = !isHierarchical(m) && N > 1;
    c.check(k.states.size() == N, "validity: number of states", label);
    if (erg) {
        simplex(c, k.prior, N, "prior of '" + label + "'");
        c.check(k.transition.size() == N * N, "validity: size", "transitions of '" + label + "'");
        for (unsigned i = 0; i < N; i++) {
            std::vector<float> row(k.transition.begin() + i * N, k.transition.begin() + (i + 1) * N);
            if (loop && i == N - 1) {
                double s = 0;
                for (double v : row) {
                    c.check(std::isfinite(v) && v >= 0, "validity: negative or not finite", "last transition row of '" + label + "'");
                    s += v;
                }
                c.check(s <= 1.05 + 2e-6 && s >= 0.05 - 2e-6, "validity: sum", "last transition row of '" + label + "'");
                c.check(row[0] == 0.05f, "validity: cyclic transition", "last transition row of '" + label + "'");
            } else
                simplex(c, row, N, fmt("transitions of state %u of '%s'", i, label.c_str()));
        }
    } else {
        c.check(k.transition.size() == 2 * N, "validity: size", "transitions of '" + label + "'");
        for (unsigned i = 0; i < N; i++) {
            std::vector<float> row(k.transition.begin() + 2 * i, k.transition.begin() + 2 * i + 2);
            if (i == N - 1) {
                c.check(row[1] == (loop ? 0.05f : 0.f), "validity: cyclic transition", "last transition of '" + label + "'");
                row[1] = 0;
            }
            simplex(c, row, 2, fmt("transitions of state %u of '%s'", i, label.c_str()));
        }
    }
    auto off = offsetOf(ts, label, k.parameters.relative_regularization.get(), k.parameters.absolute_regularization.get());
    for (auto& s : k.states) {
        simplex(c, s.mixture_coeffs, k.parameters.gaussians.get(), "weights of a state of '" + label + "'");
        c.check(s.components.size() == k.parameters.gaussians.get(), "validity: number of components", label);
        for (auto& g : s.components) validGauss(c, g, off, d.dim, k.parameters.covariance_mode.get() == CM::Full, rangeOf(d, label), "state of '" + label + "'");
    }
    Json::Value j = k.toJson();
    if (j.isMember("exitProbabilities")) {
        c.check(j["exitProbabilities"].size() == N, "validity: exit probabilities", label);
        for (auto& v : j["exitProbabilities"]) c.check(v.asDouble() >= 0 && v.asDouble() <= 1, "validity: exit probabilities", label);
    }
}
void validTop(Case&, xmm::GMM&) {}
void validTop(Case& c, xmm::HierarchicalHMM& m) {
    size_t n = m.size();
    if (n) simplex(c, m.prior, n, "prior of the classes");
    c.check(m.transition.size() == n && m.exit_transition.size() == n, "validity: size", "transitions between classes");
    for (auto& row : m.transition) simplex(c, row, n, "transitions between classes");
    for (double v : m.exit_transition) c.check(v >= 0 && v <= 1, "validity: exit transition", fmt("%g", v));
}

// the events of one class: iterations are counted one by one and stop where the criterion says
void checkStop(Case& c, Events const& ev, std::string const& label, unsigned mn, unsigned mx, double chg) {
    auto v = ev.of(label);
    double old = -std::numeric_limits<double>::max(), ll = old;
    int n = 0;
    auto converged = [&](int step, bool& sure) {
        sure = true;
        if (step >= 1000) return true;
        if (mx >= mn) return unsigned(step) >= mx;
        if (unsigned(step) < mn) return false;
        double q = 100. * std::fabs((ll - old) / ll);
        sure = !(std::fabs(q - chg) <= 1e-9 * chg);
        return q <= chg;
    };
    for (size_t i = 0; i < v.size(); i++) {
        bool sure;
        if (v[i].status == ST::Run) {
            bool stop = converged(n, sure);
            c.checkf(!stop || !sure, "convergence: iterations after convergence", [&] { return fmt("'%s' goes on after %d iterations (min %u max %u chg %g)", label.c_str(), n, mn, mx, chg); });
            n++;
            c.checkf(v[i].iterations == n, "convergence: iteration count", [&] { return fmt("iteration %d announced as %g", n, v[i].iterations); });
            old = ll;
            ll = v[i].log_likelihood;
        } else if (v[i].status == ST::Done) {
            bool stop = converged(n, sure);
            c.checkf(stop || !sure, "convergence: stops before convergence", [&] {
                return fmt("'%s' stops after %d iterations (min %u max %u chg %g, likelihood %.12g after %.12g)", label.c_str(), n, mn, mx, chg, ll, old);
            });
            c.checkf(v[i].iterations == n && (n == 0 || v[i].log_likelihood == ll), "convergence: final event", [&] { return fmt("%g iterations announced of %d", v[i].iterations, n); });
            c.count("trainings to convergence");
            c.count("EM iterations", uint64_t(n));
        } else if (v[i].status == ST::Error) {
            c.count("trainings that failed");
        }
    }
}

template <typename Mod>
Events trainAndCheck(Case& c, Mod& m, xmm::TrainingSet& ts, Data const& d, bool mayFail) {
    Events ev;
    m.training_events.addListener(&ev, &Events::on);
    m.train(&ts);
    m.training_events.removeListener(&ev, &Events::on);
    c.count("trainings");
    auto& sp = *m.shared_parameters;
    for (auto const& l : d.labels()) {
        checkStop(c, ev, l, sp.em_algorithm_min_iterations.get(), sp.em_algorithm_max_iterations.get(), sp.em_algorithm_percent_chg.get());
        bool failed = ev.failed(l), there = m.models.count(l) > 0;
        c.check(there == !failed, "a class is there if and only if its training succeeded", fmt("'%s' %s after %s", l.c_str(), there ? "is there" : "is missing", failed ? "an error" : "success"));
        c.check(mayFail || !failed, "training fails on ordinary data", "training of '" + l + "' fails");
        if (there) {
            validClass(c, m, l, ts, d);
            c.count("classes checked for validity");
        }
    }
    c.check(m.models.size() <= d.labels().size(), "a class that is not in the training set", fmt("%zu classes", m.models.size()));
    validTop(c, m);
    return ev;
}

// --------------------------------------------------------------- reference EM
struct GP {
    std::vector<V> mu;
    std::vector<M> cov;
    V w;
};
RGauss rg(V const& mu, M const& cov, bool full) {
    RGauss r;
    r.n = unsigned(mu.size());
    r.full = full;
    r.mu = mu;
    r.cov = cov;
    r.all = la::Normal(mu, cov);
    if (!r.all.ok || r.all.cond > 1e9L) throw vf::Discard("ill-conditioned covariance during the training");
    return r;
}
RMix rmix(GP const& p, bool full) {
    RMix r;
    r.bim = false;
    r.full = full;
    for (size_t i = 0; i < p.mu.size(); i++) r.g.push_back(rg(p.mu[i], p.cov[i], full));
    r.w = p.w;
    r.n = r.g[0].n;
    r.k = 0;
    return r;
}
GP params(xmm::SingleClassGMM const& k, unsigned dim) {
    GP p;
    bool full = k.parameters.covariance_mode.get() == CM::Full;
    for (auto& g : k.components) {
        p.mu.push_back(V(g.mean.begin(), g.mean.end()));
        p.cov.push_back(covOf(g.covariance, dim, full));
    }
    p.w.assign(k.mixture_coeffs.begin(), k.mixture_coeffs.end());
    return p;
}
typedef std::vector<std::vector<Row>> Phrases;
Phrases phrasesOf(Data const& d, std::string const& label) {
    std::map<int, std::vector<Row>> m;
    for (auto const& p : d.phrases)
        if (p.label == label) m[p.index] = p.rows;
    Phrases o;
    for (auto& p : m) o.push_back(p.second);
    return o;
}

// one EM iteration; rel bounds the relative error of the responsibilities
GP emStep(Phrases const& ph, GP const& p, std::vector<double> const& off, bool full, R& ll, double& rel) {
    RMix mix = rmix(p, full);
    size_t G = p.mu.size(), n = mix.n, total = 0;
    GP o;
    o.w.assign(G, 0);
    o.mu.assign(G, V(n, 0));
    o.cov.assign(G, M(int(n), int(n)));
    std::vector<V> resp;
    ll = 0;
    for (auto const& q : ph)
        for (auto const& x : q) {
            V r = mix.parts(x.data(), false, rel);
            R s = 0;
            for (R& v : r) {
                if (v == 0) v = 1e-100L;
                if (v < 1e-290L) throw vf::Discard("underflow of the responsibilities");
                s += v;
            }
            for (size_t g = 0; g < G; g++) {
                r[g] /= s;
                o.w[g] += r[g];
                for (size_t i = 0; i < n; i++) o.mu[g][i] += r[g] * x[i];
            }
            ll += std::log(s);
            resp.push_back(r);
            total++;
        }
    for (size_t g = 0; g < G; g++) {
        for (size_t i = 0; i < n; i++) o.mu[g][i] /= o.w[g];
        size_t t = 0;
        for (auto const& q : ph)
            for (auto const& x : q) {
                for (size_t i = 0; i < n; i++)
                    for (size_t j = 0; j < n; j++)
                        if (full || i == j) o.cov[g](int(i), int(j)) += resp[t][g] * (x[i] - o.mu[g][i]) * (x[j] - o.mu[g][j]);
                t++;
            }
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++) {
                o.cov[g](int(i), int(j)) /= o.w[g];
                if (i == j) o.cov[g](int(i), int(j)) += off[i];
            }
        o.w[g] /= R(total);
    }
    return o;
}
// the library's initialisation: k-means, and covariances of the segments of the phrases
GP emInit(xmm::TrainingSet& sub, Phrases const& ph, std::vector<double> const& off, unsigned G, bool full, unsigned n, vf::Rng* perturb) {
    GP p;
    xmm::KMeans km(G);
    km.initialization_mode = xmm::KMeans::InitializationMode::Biased;
    km.train(&sub);
    p.w.assign(G, 1 / R(G));
    for (unsigned g = 0; g < G; g++) {
        p.mu.push_back(V(km.centers.begin() + g * n, km.centers.begin() + (g + 1) * n));
        V m(n, 0);
        M s{int(n), int(n)};
        R count = 0;
        for (auto const& q : ph) {
            size_t step = q.size() / G;
            for (size_t t = g * step; t < (g + 1) * step; t++) {
                count++;
                for (unsigned i = 0; i < n; i++) {
                    m[i] += q[t][i];
                    for (unsigned j = 0; j < n; j++)
                        if (full || i == j) s(int(i), int(j)) += R(q[t][i]) * R(q[t][j]);
                }
            }
        }
        if (count == 0) throw vf::Discard("phrases shorter than the number of components");
        for (unsigned i = 0; i < n; i++)
            for (unsigned j = 0; j < n; j++) {
                if (!full && i != j) continue;
                R v = s(int(i), int(j)) / count;
                // products of floats are rounded by the library
                if (perturb && j <= i) v += 6e-8L * std::fabs(v) * R(perturb->real(-1, 1));
                s(int(i), int(j)) = v - m[i] * m[j] / (count * count);
                if (i == j) s(int(i), int(j)) += off[i];
            }
        if (perturb)
            for (unsigned i = 0; i < n; i++)
                for (unsigned j = i + 1; j < n; j++) s(int(i), int(j)) = s(int(j), int(i));
        p.cov.push_back(s);
    }
    return p;
}
R delta(GP const& a, GP const& b) {
    R d = 0;
    for (size_t g = 0; g < a.mu.size(); g++) {
        d = std::max(d, std::fabs(a.w[g] - b.w[g]));
        for (size_t i = 0; i < a.mu[g].size(); i++) {
            R s = std::sqrt(a.cov[g](int(i), int(i)));
            d = std::max(d, std::fabs(a.mu[g][i] - b.mu[g][i]) / s);
            for (size_t j = 0; j < a.mu[g].size(); j++) {
                R s2 = std::sqrt(a.cov[g](int(j), int(j)));
                d = std::max(d, std::fabs(a.cov[g](int(i), int(j)) - b.cov[g](int(i), int(j))) / (s * s2));
            }
        }
    }
    return d;
}
// got and want agree; extra is relative to the standard deviations
void compareMix(Case& c, GP const& got, GP const& want, double rel, R extra, R range, bool full, std::string const& what) {
    c.check(got.mu.size() == want.mu.size(), "EM: number of components", what);
    for (size_t g = 0; g < want.mu.size(); g++) {
        c.checkf(std::fabs(got.w[g] - want.w[g]) <= 1e-7L + 4 * rel + extra, "EM: weights", [&] { return what + fmt(": weight %zu is %.12g, not %.12g", g, double(got.w[g]), double(want.w[g])); });
        size_t n = want.mu[g].size();
        for (size_t i = 0; i < n; i++) {
            R s = std::sqrt(want.cov[g](int(i), int(i)));
            R tol = (1e-9L + 4 * rel) * range + extra * s;
            c.checkf(std::fabs(got.mu[g][i] - want.mu[g][i]) <= tol, "EM: means",
                     [&] { return what + fmt(": mean %zu of component %zu is %.12g, not %.12g (tolerance %.3g)", i, g, double(got.mu[g][i]), double(want.mu[g][i]), double(tol)); });
            for (size_t j = 0; j < n; j++) {
                R s2 = std::sqrt(want.cov[g](int(j), int(j)));
                tol = ((full ? 1e-9L : 1e-6L) + 8 * rel) * range * range + extra * s * s2;
                c.checkf(std::fabs(got.cov[g](int(i), int(j)) - want.cov[g](int(i), int(j))) <= tol, "EM: covariances", [&] {
                    return what + fmt(": covariance %zu,%zu of component %zu is %.12g, not %.12g (tolerance %.3g)", i, j, g, double(got.cov[g](int(i), int(j))), double(want.cov[g](int(i), int(j))), double(tol));
                });
            }
        }
    }
}

// spread of the data around its middle, the scale of rounding of centred moments
R spreadOf(Phrases const& ph) {
    R lo = 1e30L, hi = -1e30L, best = 0;
    size_t n = 0;
    for (auto const& q : ph)
        for (auto const& r : q) n = r.size();
    for (size_t i = 0; i < n; i++) {
        lo = 1e30L;
        hi = -1e30L;
        for (auto const& q : ph)
            for (auto const& r : q) {
                lo = std::min(lo, R(r[i]));
                hi = std::max(hi, R(r[i]));
            }
        best = std::max(best, hi - lo + 1e-6L * std::max(std::fabs(hi), std::fabs(lo)));
    }
    return best;
}

void gmmReference(Case& c) {
    vf::Rng& r = c.rng;
    DataSpec s;
    s.maxPhrases = 4;
    s.large = 0.02;
    s.maxLen = c.thorough && r.chance(0.2) ? 120 : 30;
    s.maxDim = c.thorough && r.chance(0.2) ? 7 : 4;
    s.emptyPhrase = 0.1;
    Data d = randomData(c, s);
    c.log(describe(d));
    auto ts = d.build();
    unsigned k = r.chance(0.4) ? 0 : unsigned(r.in(1, 12));
    auto make = [&](unsigned iterations, std::unique_ptr<xmm::GMM>& m, xmm::GMM* from) {
        m.reset(new xmm::GMM(d.bim));
        if (from)
            m->configuration = from->configuration;
        else
            randomConfig(c, *m, d);
        m->shared_parameters->em_algorithm_min_iterations.set(1);
        m->shared_parameters->em_algorithm_max_iterations.set(iterations);
    };
    std::unique_ptr<xmm::GMM> m1, m0;
    make(k + 1, m1, nullptr);
    Events ev = trainAndCheck(c, *m1, *ts, d, true);
    if (k) {
        make(k, m0, m1.get());
        m0->train(ts.get());
    }
    c.log(fmt("reference from iteration %u", k));
    for (auto const& l : d.labels()) {
        auto ph = phrasesOf(d, l);
        if (!m1->models.count(l) || (k && !m0->models.count(l))) {
            c.count("classes without reference (training failed)");
            continue;
        }
        auto& kl = m1->models.at(l);
        bool full = kl.parameters.covariance_mode.get() == CM::Full;
        unsigned G = kl.parameters.gaussians.get();
        auto off = offsetOf(*ts, l, kl.parameters.relative_regularization.get(), kl.parameters.absolute_regularization.get());
        double rel = 1e-7;  // the weights are stored in single precision
        R ll = 0, extra = 0, range = spreadOf(ph), llTol = 0;
        GP want;
        try {
            auto sub = ts->getPhrasesOfClass(l);
            if (k) {
                want = emStep(ph, params(m0->models.at(l), d.dim), off, full, ll, rel);
            } else {
                want = emStep(ph, emInit(*sub, ph, off, G, full, d.dim, nullptr), off, full, ll, rel);
                for (int t = 0; t < 5; t++) {
                    R ll2;
                    double rel2 = 1e-7;
                    GP p2 = emStep(ph, emInit(*sub, ph, off, G, full, d.dim, &r), off, full, ll2, rel2);
                    extra = std::max(extra, 20 * delta(want, p2));
                    llTol = std::max(llTol, 50 * std::fabs(ll2 - ll));
                }
                if (extra > 1e-3L) throw vf::Discard("sensitive to rounding");
            }
            if (rel > 1e-4) throw vf::Discard("sensitive to rounding");
        } catch (vf::Discard& e) {
            c.count("classes without reference: " + e.why);
            continue;
        }
        compareMix(c, params(kl, d.dim), want, rel, extra, range, full, fmt("'%s' after %u iterations", l.c_str(), k + 1));
        auto v = ev.of(l);
        double got = 0;
        for (auto& e : v)
            if (e.status == ST::Run && e.iterations == k + 1) got = e.log_likelihood;
        size_t T = 0;
        for (auto const& q : ph) T += q.size();
        c.checkf(std::fabs(got - double(ll)) <= (1e-9 + 2 * rel) * double(T) + double(llTol) + 1e-10 * std::fabs(got), "EM: log-likelihood",
                 [&] { return fmt("likelihood of '%s' at iteration %u is %.12g, not %.12g", l.c_str(), k + 1, got, double(ll)); });
        c.count(k ? "EM iterations compared" : "EM initialisations compared");
        c.nontrivial = true;
    }
}

// -------------------------------------------------------- reference Baum-Welch
struct HPar {
    int N, C;
    bool erg;
    V prior, trans;
    std::vector<GP> st;
};
const R REG = R(1.0e-5f);

HPar bwStep(Phrases const& all, HPar const& p, std::vector<double> const& off, bool full, R& ll, vf::Rng* perturb) {
    int N = p.N, C = p.C;
    Phrases ph;
    for (auto const& q : all)
        if (!q.empty()) ph.push_back(q);
    size_t n = p.st[0].mu[0].size();
    std::vector<RMix> mix;
    for (auto& s : p.st) mix.push_back(rmix(s, full));
    auto A = [&](int i, int j) -> R {
        if (p.erg) return p.trans[size_t(i * N + j)];
        if (j == i) return p.trans[size_t(2 * i)];
        if (j == i + 1) return p.trans[size_t(2 * i + 1)];
        return 0;
    };
    HPar o = p;
    std::vector<std::vector<V>> gm;   // per phrase: gamma of (t, i, c)
    V gsum(size_t(N), 0), prior(size_t(N), 0);
    std::vector<V> gcs(size_t(N), V(size_t(C), 0));
    M eps(N, N);
    ll = 0;
    for (auto const& q : ph) {
        int T = int(q.size());
        if (T == 0) continue;
        std::vector<V> b, al, be, g;
        std::vector<std::vector<V>> bc;
        V ct;
        for (int t = 0; t < T; t++) {
            b.push_back(V(size_t(N), 0));
            bc.push_back({});
            for (int i = 0; i < N; i++) {
                double rel = 0;
                V w = mix[size_t(i)].parts(q[size_t(t)].data(), false, rel);
                if (perturb)
                    for (auto& v : w) v *= 1 + R((rel + 1e-11) * perturb->real(-1, 1));
                bc.back().push_back(w);
                for (R v : w) b.back()[size_t(i)] += v;
            }
        }
        for (int t = 0; t < T; t++) {
            V a(size_t(N), 0);
            R norm = 0;
            for (int j = 0; j < N; j++) {
                if (t == 0)
                    a[size_t(j)] = p.erg ? p.prior[size_t(j)] : (j == 0 ? 1 : 0);
                else
                    for (int i = 0; i < N; i++) a[size_t(j)] += al[size_t(t - 1)][size_t(i)] * A(i, j);
                a[size_t(j)] *= b[size_t(t)][size_t(j)];
                if (a[size_t(j)] > 0 && a[size_t(j)] < 1e-295L) throw vf::Discard("underflow of the forward variables");
                norm += a[size_t(j)];
            }
            if (norm < 1e-280L) throw vf::Discard("underflow of the forward variables");
            for (R& v : a) v /= norm;
            al.push_back(a);
            ct.push_back(1 / norm);
            ll += std::log(norm);
        }
        be.assign(size_t(T), V(size_t(N), 0));
        for (int i = 0; i < N; i++) be[size_t(T - 1)][size_t(i)] = ct[size_t(T - 1)];
        for (int t = T - 2; t >= 0; t--)
            for (int i = 0; i < N; i++) {
                R s = 0;
                for (int j = 0; j < N; j++) s += A(i, j) * b[size_t(t + 1)][size_t(j)] * be[size_t(t + 1)][size_t(j)];
                s *= ct[size_t(t)];
                if (s > 1e290L) throw vf::Discard("overflow of the backward variables");
                be[size_t(t)][size_t(i)] = s;
            }
        std::vector<V> gp;
        for (int t = 0; t < T; t++) {
            V row(size_t(N * C), 0);
            for (int i = 0; i < N; i++) {
                R ga = al[size_t(t)][size_t(i)] * be[size_t(t)][size_t(i)] / ct[size_t(t)];
                gsum[size_t(i)] += ga;
                if (t == 0) prior[size_t(i)] += ga;
                R s = 0;
                for (R v : bc[size_t(t)][size_t(i)]) s += v;
                for (int k = 0; k < C; k++) {
                    R v = s > 0 ? ga * bc[size_t(t)][size_t(i)][size_t(k)] / s : 0;
                    row[size_t(i * C + k)] = v;
                    gcs[size_t(i)][size_t(k)] += v;
                }
                if (t + 1 < T)
                    for (int j = 0; j < N; j++) eps(i, j) += al[size_t(t)][size_t(i)] * A(i, j) * b[size_t(t + 1)][size_t(j)] * be[size_t(t + 1)][size_t(j)];
            }
            gp.push_back(row);
        }
        gm.push_back(gp);
    }
    for (int i = 0; i < N; i++) {
        GP& s = o.st[size_t(i)];
        R tot = 0;
        for (R v : gcs[size_t(i)]) tot += v;
        for (int k = 0; k < C; k++) {
            R gs = gcs[size_t(i)][size_t(k)];
            if (gs < 1e-30L) throw vf::Discard("a component without observations");
            s.w[size_t(k)] = gs / tot;
            V mu(n, 0);
            M cov{int(n), int(n)};
            for (size_t q = 0; q < gm.size(); q++)
                for (size_t t = 0; t < ph[q].size(); t++)
                    for (size_t d = 0; d < n; d++) mu[d] += gm[q][t][size_t(i * C + k)] * ph[q][t][d];
            for (R& v : mu) v /= gs;
            for (size_t q = 0; q < gm.size(); q++)
                for (size_t t = 0; t < ph[q].size(); t++)
                    for (size_t d = 0; d < n; d++)
                        for (size_t e = 0; e < n; e++)
                            if (full || d == e) cov(int(d), int(e)) += gm[q][t][size_t(i * C + k)] * (ph[q][t][d] - mu[d]) * (ph[q][t][e] - mu[e]);
            for (size_t d = 0; d < n; d++)
                for (size_t e = 0; e < n; e++) {
                    R& v = cov(int(d), int(e));
                    v /= gs;
                    if (!full && perturb && d == e) v *= 1 + 2e-7L * R(perturb->real(-1, 1));
                    if (d == e) v += off[d];
                }
            s.mu[size_t(k)] = mu;
            s.cov[size_t(k)] = cov;
        }
    }
    if (perturb)  // stored in single precision by the library
        for (auto& q : o.st)
            for (R& v : q.w) v *= 1 + 6e-8L * R(perturb->real(-1, 1));
    if (p.erg) {
        R s = 0;
        for (R v : prior) s += v;
        for (int i = 0; i < N; i++) o.prior[size_t(i)] = prior[size_t(i)] / s;
    }
    R used = 0;
    for (auto const& q : ph)
        if (!q.empty()) used++;
    for (int i = 0; i < N; i++) {
        R den = gsum[size_t(i)] + 2 * REG;
        if (p.erg)
            for (int j = 0; j < N; j++) o.trans[size_t(i * N + j)] = eps(i, j) / den;
        else {
            bool last = i == N - 1;
            o.trans[size_t(2 * i)] = (eps(i, i) + used * (last ? 2 : 1) * REG) / den;
            o.trans[size_t(2 * i + 1)] = last ? 0 : (eps(i, i + 1) + used * REG) / den;
        }
    }
    if (perturb) {
        for (R& v : o.trans) v *= 1 + 2e-7L * R(perturb->real(-1, 1));
        for (R& v : o.prior) v *= 1 + 1e-7L * R(perturb->real(-1, 1));
    }
    return o;
}
void finish(HPar& p, bool loop) {
    int N = p.N;
    for (int i = 0; i < N; i++) {
        int w = p.erg ? N : 2;
        R s = 0;
        for (int j = 0; j < w; j++) s += p.trans[size_t(i * w + j)];
        for (int j = 0; j < w; j++) p.trans[size_t(i * w + j)] = s > 0 ? p.trans[size_t(i * w + j)] / s : 1 / R(N);
    }
    if (loop && N > 1) p.trans[size_t(p.erg ? (N - 1) * N : 2 * (N - 1) + 1)] = 0.05;
}
R deltaH(HPar const& a, HPar const& b) {
    R d = 0;
    for (size_t i = 0; i < a.st.size(); i++) d = std::max(d, delta(a.st[i], b.st[i]));
    for (size_t i = 0; i < a.trans.size(); i++) d = std::max(d, std::fabs(a.trans[i] - b.trans[i]));
    for (size_t i = 0; i < a.prior.size(); i++) d = std::max(d, std::fabs(a.prior[i] - b.prior[i]));
    return d;
}

void hmmReference(Case& c) {
    vf::Rng& r = c.rng;
    DataSpec s;
    s.maxPhrases = 3;
    s.maxClasses = 2;
    s.large = 0.02;
    s.minLen = 12;
    s.maxLen = c.thorough && r.chance(0.2) ? 80 : 30;
    s.maxDim = 3;
    s.emptyPhrase = 0.1;
    Data d = randomData(c, s);
    c.log(describe(d));
    auto ts = d.build();
    unsigned iterations = unsigned(r.in(1, c.thorough ? 5 : 3));
    xmm::HierarchicalHMM m(d.bim);
    randomConfig(c, m, d);
    auto tame = [&](xmm::ClassParameters<xmm::HMM>& p) {
        if (r.chance(0.7)) p.relative_regularization.set(std::pow(10., r.real(-1.5, 0)));
    };
    tame(m.configuration);
    m.shared_parameters->em_algorithm_min_iterations.set(1);
    m.shared_parameters->em_algorithm_max_iterations.set(iterations);
    c.log(fmt("%u iterations", iterations));
    Events ev = trainAndCheck(c, m, *ts, d, true);
    for (auto const& l : d.labels()) {
        auto ph = phrasesOf(d, l);
        auto const& prm = m.configuration.includes(l) ? m.configuration[l] : static_cast<xmm::ClassParameters<xmm::HMM>&>(m.configuration);
        bool full = prm.covariance_mode.get() == CM::Full;
        auto off = offsetOf(*ts, l, prm.relative_regularization.get(), prm.absolute_regularization.get());
        HPar want;
        R extra = 0;
        V lls;
        try {
            HPar p;
            p.N = int(prm.states.get());
            p.C = int(prm.gaussians.get());
            p.erg = prm.transition_mode.get() == TM::Ergodic;
            for (auto const& q : ph)
                if (!q.empty() && int(q.size()) < p.N * p.C) throw vf::Discard("phrases shorter than the number of components");
            if (p.erg) {
                p.prior.assign(size_t(p.N), 1 / R(float(p.N)));
                p.trans.assign(size_t(p.N * p.N), 1 / R(p.N));
            } else {
                p.trans.assign(size_t(2 * p.N), 0.5);
                p.trans[size_t(2 * p.N - 2)] = 1;
                p.trans[size_t(2 * p.N - 1)] = 0;
            }
            for (int i = 0; i < p.N; i++) {  // the GMM of each segment, by the library (checked above)
                Data seg = d;
                seg.phrases.clear();
                for (auto const& q : d.phrases)
                    if (q.label == l) {
                        size_t step = q.rows.size() / size_t(p.N);
                        if (step == 0) continue;
                        Ph x = q;
                        x.rows.assign(q.rows.begin() + long(size_t(i) * step), q.rows.begin() + long(size_t(i + 1) * step));
                        seg.phrases.push_back(x);
                    }
                xmm::GMM g(d.bim);
                g.configuration.gaussians.set(unsigned(p.C));
                g.configuration.relative_regularization.set(prm.relative_regularization.get());
                g.configuration.absolute_regularization.set(prm.absolute_regularization.get());
                g.configuration.covariance_mode.set(prm.covariance_mode.get());
                g.configuration.multithreading = MT::Sequential;
                g.shared_parameters->em_algorithm_min_iterations.set(1);
                g.shared_parameters->em_algorithm_max_iterations.set(iterations);
                auto gts = seg.build();
                g.train(gts.get());
                if (!g.models.count(l)) throw vf::Discard("initialisation fails");
                GP gp = params(g.models.at(l), d.dim);
                gp.w.assign(size_t(p.C), 1 / R(p.C));
                p.st.push_back(gp);
            }
            auto chain = [&](vf::Rng* perturb, V& ls) {
                HPar q = p;
                for (unsigned i = 0; i < iterations; i++) {
                    R ll;
                    q = bwStep(ph, q, off, full, ll, perturb);
                    ls.push_back(ll);
                }
                finish(q, !isHierarchical(m));
                return q;
            };
            want = chain(nullptr, lls);
            for (int t = 0; t < 3; t++) {
                V ls;
                HPar q = chain(&r, ls);
                extra = std::max(extra, 30 * deltaH(want, q));
                for (size_t i = 0; i < ls.size(); i++) extra = std::max(extra, 30 * std::fabs(ls[i] - lls[i]) / (1 + std::fabs(lls[i])));
            }
            if (extra > 2e-3L) throw vf::Discard("sensitive to rounding");
        } catch (vf::Discard& e) {
            c.count("classes without reference: " + e.why);
            continue;
        }
        c.check(m.models.count(l) > 0, "Baum-Welch: the training fails", "'" + l + "' fails, the reference does not");
        auto& k = m.models.at(l);
        if (getenv("VF_DEBUG")) for (int i = 0; i < want.N; i++) for (int g = 0; g < want.C; g++) fprintf(stderr, "st %d c %d w %Lg (%g) mu %Lg (%g) cov %Lg (%g) extra %Lg\n", i, g, want.st[i].w[g], k.states[i].mixture_coeffs[g], want.st[i].mu[g][0], k.states[i].components[g].mean[0], want.st[i].cov[g](0,0), k.states[i].components[g].covariance[0], extra);
        R range = spreadOf(ph);
        size_t T = 0;
        for (auto const& q : ph) T += q.size();
        extra += 1e-6L;
        for (int i = 0; i < want.N; i++)
            compareMix(c, params(k.states[size_t(i)], d.dim), want.st[size_t(i)], 0, extra, range, full, fmt("state %d of '%s' after %u iterations", i, l.c_str(), iterations));
        if (want.erg)
            for (int i = 0; i < want.N; i++)
                c.checkf(std::fabs(k.prior[size_t(i)] - want.prior[size_t(i)]) <= extra, "Baum-Welch: prior", [&] { return fmt("prior %d of '%s' is %.12g, not %.12g", i, l.c_str(), k.prior[size_t(i)], double(want.prior[size_t(i)])); });
        for (size_t i = 0; i < want.trans.size(); i++)
            c.checkf(std::fabs(k.transition[i] - want.trans[i]) <= extra, "Baum-Welch: transitions", [&] { return fmt("transition %zu of '%s' is %.12g, not %.12g", i, l.c_str(), k.transition[i], double(want.trans[i])); });
        for (auto& e : ev.of(l))
            if (e.status == ST::Run) {
                R w = lls[size_t(e.iterations) - 1];
                // initial weights and priors are rounded to float, the same in every frame
                c.checkf(std::fabs(e.log_likelihood - w) <= extra * (1 + std::fabs(w)) + 2e-7L * R(T), "Baum-Welch: log-likelihood", [&] { return fmt("likelihood of '%s' at iteration %g is %.12g, not %.12g", l.c_str(), e.iterations, e.log_likelihood, double(w)); });
            }
        c.count("Baum-Welch trainings compared");
        c.nontrivial = true;
    }
}

// any data: constant columns, single frames, many components, empty phrases
template <typename Mod>
void anyTraining(Case& c) {
    vf::Rng& r = c.rng;
    DataSpec s;
    bool ordinary = r.chance(0.3);
    s.maxDim = c.thorough ? 6 : 4;
    s.large = 0.02;
    s.maxClasses = 4;
    if (ordinary) {
        s.benign = true;
        s.minLen = 12;
    } else {
        s.minLen = 1;
        s.emptyPhrase = 0.2;
    }
    Data d = randomData(c, s);
    c.log(describe(d));
    Mod m(d.bim);
    randomConfig(c, m, d);
    if (!ordinary && r.chance(0.3)) {
        m.configuration.relative_regularization.set(std::pow(10., r.real(-9, -3)));
        m.configuration.absolute_regularization.set(std::pow(10., r.real(-12, -3)));
    }
    if (r.chance(0.1)) {
        m.shared_parameters->em_algorithm_min_iterations.set(unsigned(r.in(1, 40)));
        m.shared_parameters->em_algorithm_max_iterations.set(0);
        m.shared_parameters->em_algorithm_percent_chg.set(r.chance(0.3) ? 0. : 0.01);
    }
    auto ts = d.build();
    trainAndCheck(c, m, *ts, d, !ordinary || !std::is_same<Mod, xmm::GMM>::value);
    if (r.chance(0.5)) trainAndCheck(c, m, *ts, d, true);
    c.nontrivial = m.size() > 0;
}

void C10(Case& c) {
    double u = c.rng.unit();
    if (u < 0.2)
        anyTraining<xmm::GMM>(c);
    else if (u < 0.4)
        anyTraining<xmm::HierarchicalHMM>(c);
    else if (u < 0.7)
        gmmReference(c);
    else
        hmmReference(c);
}

// ------------------------------------------------------------------------ C24
void switchHierarchy(Case& c, xmm::GMM&) { (void)c; }
void switchHierarchy(Case& c, xmm::HierarchicalHMM& m) { m.configuration.hierarchical.set(c.rng.chance(0.5)); }
void copyHierarchy(xmm::GMM&, xmm::GMM const&) {}
void copyHierarchy(xmm::HierarchicalHMM& to, xmm::HierarchicalHMM const& from) { to.configuration.hierarchical.set(from.configuration.hierarchical.get()); }
unsigned componentsOf(xmm::SingleClassGMM const& k) { return unsigned(k.components.size()); }
unsigned componentsOf(xmm::SingleClassHMM const& k) { return unsigned(k.states.size()); }
unsigned wantedComponents(xmm::ClassParameters<xmm::GMM> const& p) { return p.gaussians.get(); }
unsigned wantedComponents(xmm::ClassParameters<xmm::HMM> const& p) { return p.states.get(); }
xmm::GaussianDistribution const& firstGauss(xmm::SingleClassGMM const& k) { return k.components.at(0); }
xmm::GaussianDistribution const& firstGauss(xmm::SingleClassHMM const& k) { return k.states.at(0).components.at(0); }

template <typename Mod, typename Type>
void configurations(Case& c) {
    vf::Rng& r = c.rng;
    typedef xmm::ClassParameters<Type> P;
    DataSpec s;
    s.maxClasses = 4;
    s.minClasses = 1;
    s.maxLen = 16;
    s.maxDim = 3;
    s.maxPhrases = 2;
    Data d = randomData(c, s);
    c.log(describe(d));
    auto ts = d.build();
    auto labelSet = d.labels();
    std::vector<std::string> labels(labelSet.begin(), labelSet.end()), named = labels;
    named.push_back("absent");
    std::unique_ptr<Mod> m(new Mod(d.bim));
    m->configuration.multithreading = MT::Sequential;
    m->shared_parameters->em_algorithm_min_iterations.set(unsigned(r.in(1, 3)));
    m->shared_parameters->em_algorithm_max_iterations.set(unsigned(r.in(1, 3)));
    switchHierarchy(c, *m);
    std::string deflt = text(m->configuration.P::toJson());
    std::map<std::string, std::string> own, used, content;
    std::map<std::string, Json::Value> usedJson;
    auto checkConfig = [&] {
        c.check(text(m->configuration.P::toJson()) == deflt, "configuration: the default parameters changed", text(m->configuration.P::toJson()) + " instead of " + deflt);
        for (auto const& l : named) {
            c.check(m->configuration.includes(l) == (own.count(l) > 0), "configuration: the set of configured classes", l);
            if (own.count(l)) {
                std::string got = text(m->configuration[l].toJson());
                c.check(got == own[l], "configuration: the parameters of a class changed", "'" + l + "' has " + got + " instead of " + own[l]);
            }
        }
        for (auto& k : m->models) {
            c.check(used.count(k.first) > 0, "configuration: unexpected class", k.first);
            c.checkf(text(k.second.parameters.toJson()) == used[k.first], "configuration: a trained class has other parameters",
                     [&] { return "'" + k.first + "' has " + text(k.second.parameters.toJson()) + " instead of " + used[k.first]; });
            c.check(text(k.second.toJson()) == content[k.first], "configuration: a trained class changed", "'" + k.first + "'");
        }
    };
    // the class is what a model with these default parameters, trained on this class only, gives
    auto checkTrained = [&](std::string const& l) {
        if (!m->models.count(l)) {
            c.count("classes whose training failed");
            used.erase(l);
            return;
        }
        auto& k = m->models.at(l);
        Mod ref(d.bim);
        ref.configuration.multithreading = MT::Sequential;
        ref.configuration.P::fromJson(usedJson[l]);
        copyHierarchy(ref, *m);
        auto& sp = *ref.shared_parameters;
        auto& so = *m->shared_parameters;
        sp.em_algorithm_min_iterations.set(so.em_algorithm_min_iterations.get());
        sp.em_algorithm_max_iterations.set(so.em_algorithm_max_iterations.get());
        sp.likelihood_window.set(so.likelihood_window.get());
        Data one = d.only(l);
        auto ots = one.build();
        ref.train(ots.get());
        c.check(ref.models.count(l) == 1, "configuration: the class cannot be trained alone", l);
        std::string a = text(k.toJson()), b = text(ref.models.at(l).toJson());
        c.checkf(a == b, "configuration: a class is not trained with its own parameters", [&] { return "'" + l + "' is " + a.substr(0, 700) + " instead of " + b.substr(0, 700); });
        content[l] = a;
        auto const& prm = static_cast<P&>(ref.configuration);
        c.check(componentsOf(k) == wantedComponents(prm), "configuration: number of components or states", l);
        auto& g = firstGauss(k);
        c.check(g.covariance_mode.get() == prm.covariance_mode.get() && g.dimension.get() == d.dim && g.toJson()["bimodal"].asBool() == d.bim && (!d.bim || g.dimension_input.get() == d.din),
                "configuration: dimensions of a class", l);
        c.count("trained classes compared");
        // and filters as that one
        if (isHierarchical(*m)) return;
        m->reset();
        ref.reset();
        for (auto const& x : randomStream(c, one, 5)) {
            m->filter(x);
            ref.filter(x);
            auto &p = k.results, &q = ref.models.at(l).results;
            c.check(p.instant_likelihood == q.instant_likelihood || (std::isnan(p.instant_likelihood) && std::isnan(q.instant_likelihood)), "configuration: a class does not filter with its own parameters",
                    fmt("'%s': likelihood %.12g, not %.12g", l.c_str(), p.instant_likelihood, q.instant_likelihood));
            c.check(p.output_values == q.output_values && p.output_covariance == q.output_covariance, "configuration: a class does not regress with its own parameters",
                    "'" + l + "': " + vf::show(p.output_values) + " instead of " + vf::show(q.output_values));
        }
        c.count("filtered classes compared");
        m->reset();
    };
    auto noteUsed = [&](std::string const& l) {
        used[l] = own.count(l) ? own[l] : deflt;
        usedJson[l] = own.count(l) ? m->configuration[l].toJson() : m->configuration.P::toJson();
    };
    struct Saved {
        std::shared_ptr<typename std::decay<decltype(m->configuration)>::type> conf;
        std::map<std::string, std::string> own;
        std::string deflt;
    };
    std::vector<Saved> saved;
    int ops = r.in(5, 14), trained = 0;
    for (int o = 0; o < ops; o++) {
        int op = o == ops - 1 ? 5 : r.in(0, 12);
        if (op == 12) op = 10;
        std::string l = r.pick(named), t = r.pick(labels);
        for (auto const& x : named) c.check(m->configuration.includes(x) == (own.count(x) > 0), "configuration: includes", "includes('" + x + "')");
        if (op <= 1) {
            randomParams(c, m->configuration);
            deflt = text(m->configuration.P::toJson());
            c.log("default: " + deflt);
        } else if (op == 2) {
            randomParams(c, m->configuration[l]);
            own[l] = text(m->configuration[l].toJson());
            c.log("configure '" + l + "': " + own[l]);
        } else if (op == 3) {  // one parameter only: the others are the defaults of that moment
            bool had = own.count(l) > 0;
            auto& p = m->configuration[l];
            if (!had) c.check(text(p.toJson()) == deflt, "configuration: first access does not give the defaults", text(p.toJson()) + " instead of " + deflt);
            p.relative_regularization.set(std::pow(10., r.real(-3, -0.5)));
            own[l] = text(p.toJson());
            c.log("regularisation of '" + l + "'");
        } else if (op == 4) {
            if (r.chance(0.3)) {
                m->configuration.reset();
                own.clear();
                c.log("reset all");
            } else {
                m->configuration.reset(l);
                own.erase(l);
                c.log("reset '" + l + "'");
            }
        } else if (op <= 6) {
            m->train(ts.get());
            c.log("train");
            used.clear();
            for (auto const& x : labels) noteUsed(x);
            for (auto const& x : labels) checkTrained(x);
            trained++;
        } else if (op == 7) {
            m->train(ts.get(), t);
            c.log("train '" + t + "'");
            noteUsed(t);
            checkTrained(t);
            trained++;
        } else if (op == 8) {
            std::unique_ptr<Mod> n(new Mod(*m));
            if (r.chance(0.5))
                m.swap(n);
            else {
                n.reset(new Mod(r.chance(0.5)));
                *n = *m;
                m.swap(n);
            }
            c.log("continue with a copy");
        } else if (op == 9) {
            Json::Value j = m->toJson();
            m->fromJson(j);
            c.log("through JSON");
        } else if (op == 10) {
            // kept aside, and put back later, over one with other classes
            typedef typename std::decay<decltype(m->configuration)>::type Conf;
            if (saved.empty() || r.chance(0.4)) {
                Saved s;
                if (r.chance(0.5))
                    s.conf.reset(new Conf(m->configuration));
                else {
                    s.conf.reset(new Conf);
                    if (r.chance(0.5)) randomParams(c, (*s.conf)[r.pick(named)]);
                    *s.conf = m->configuration;
                }
                s.own = own;
                s.deflt = deflt;
                if (r.chance(0.3)) m->configuration = *s.conf;
                saved.push_back(std::move(s));
                c.log("keep the configuration");
            } else {
                Saved& s = saved[size_t(r.in(0, int(saved.size()) - 1))];
                MT mt = m->configuration.multithreading;
                if (r.chance(0.5))
                    m->configuration = *s.conf;
                else
                    m->configuration.fromJson(s.conf->toJson());
                m->configuration.multithreading = mt;
                own = s.own;
                deflt = s.deflt;
                c.log("assign a configuration kept before");
            }
        } else {
            m->reset();
        }
        checkConfig();
        if (trained && m->size() > 0) {
            auto& sp = *m->shared_parameters;
            c.check(sp.dimension.get() == d.dim && sp.bimodal.get() == d.bim && (!d.bim || sp.dimension_input.get() == d.din), "configuration: dimensions of the model", fmt("%u/%u", sp.dimension.get(), sp.dimension_input.get()));
            c.check(sp.column_names.get() == ts->column_names.get(), "configuration: column names of the model", vf::show(sp.column_names.get()));
        }
    }
    c.nontrivial = trained > 0;
}
void C24(Case& c) {
    if (c.rng.chance(0.5))
        configurations<xmm::GMM, xmm::GMM>(c);
    else
        configurations<xmm::HierarchicalHMM, xmm::HMM>(c);
}

// ------------------------------------------------------------------------ C25
void topCheck(Case&, xmm::GMM&) {}
void topCheck(Case& c, xmm::HierarchicalHMM& m) {
    if (m.size() > 0)
        validTop(c, m);
    else
        c.check(m.prior.empty() && m.transition.empty() && m.exit_transition.empty(), "classes: the empty model has class parameters", fmt("%zu", m.prior.size()));
}
template <typename Res>
void resultSizes(Case& c, Res const& res, size_t n) {
    c.check(res.instant_likelihoods.size() == n && res.instant_normalized_likelihoods.size() == n && res.smoothed_likelihoods.size() == n &&
                res.smoothed_normalized_likelihoods.size() == n && res.smoothed_log_likelihoods.size() == n,
            "classes: size of the results", fmt("%zu likelihoods for %zu classes", res.instant_likelihoods.size(), n));
}
std::string withoutExit(Json::Value v) {
    v.removeMember("exitProbabilities");
    return text(v);
}
void addExit(Case&, xmm::GMM&, std::map<std::string, std::string>&, std::set<std::string>&) {}
void addExit(Case& c, xmm::HierarchicalHMM& m, std::map<std::string, std::string>& content, std::set<std::string>& custom) {
    if (m.size() == 0 || !isHierarchical(m)) return;
    auto it = m.models.begin();
    std::advance(it, c.rng.in(0, int(m.size()) - 1));
    int N = int(it->second.parameters.states.get()), s = c.rng.chance(0.5) ? N - 1 : c.rng.in(0, N - 1);
    float p = float(c.rng.real(0.01, 0.7));
    it->second.addExitPoint(s, p);
    custom.insert(it->first);
    Json::Value j = it->second.toJson();
    c.check(j["exitProbabilities"][s].asFloat() == p, "classes: exit point", it->first);
    content[it->first] = text(j);
    c.log(fmt("exit point %d of '%s': %g", s, it->first.c_str(), p));
}

template <typename Mod>
void classHistory(Case& c) {
    vf::Rng& r = c.rng;
    DataSpec s;
    s.maxClasses = 4;
    s.minClasses = 2;
    s.maxLen = 16;
    s.maxDim = 3;
    s.maxPhrases = 2;
    std::vector<Data> sets;
    std::vector<std::unique_ptr<xmm::TrainingSet>> ts;
    sets.push_back(randomData(c, s));
    Data const base = sets[0];
    auto labelSet = base.labels();
    std::vector<std::string> labels(labelSet.begin(), labelSet.end());
    // other sets of the same dimensions: other data for some classes, a new class, unusable data
    for (int i = 0; i < 2; i++) {
        Data x = base;
        for (auto& p : x.phrases) {
            float k = float(r.real(0.5, 1.5));
            for (auto& row : p.rows)
                for (auto& v : row) v = float(v * k + 0.01 * r.gauss());
        }
        if (r.chance(0.6)) {
            std::string n = r.chance(0.5) ? "A first" : "\xff last";
            std::string o = r.pick(labels);
            for (auto& p : x.phrases)
                if (p.label == o) p.label = n;
            labels.push_back(n);
        }
        if (r.chance(0.3)) {
            std::string o = r.pick(labels);
            for (auto& p : x.phrases)
                if (p.label == o)
                    for (auto& row : p.rows) row[0] = std::nanf("");
        }
        sets.push_back(x);
    }
    for (auto& d : sets) {
        ts.push_back(d.build());
        c.log(describe(d));
    }
    Mod m(base.bim);
    randomConfig(c, m, base);
    if (r.chance(0.3)) m.configuration.multithreading = r.chance(0.5) ? MT::Parallel : MT::Background;
    std::map<std::string, std::string> content;
    std::set<std::string> custom;
    auto wait = [&] {
        for (int i = 0; m.training(); i++) {
            usleep(500);
            if (i > 60000) c.fail("classes: training does not end", "training() remains true");
        }
    };
    // what training the whole set gives
    auto whole = [&](size_t i, std::string const& l) {
        Mod ref(base.bim);
        ref.configuration = m.configuration;
        ref.configuration.multithreading = MT::Sequential;
        *ref.shared_parameters = *m.shared_parameters;
        ref.train(ts[i].get());
        return ref.models.count(l) ? withoutExit(ref.models.at(l).toJson()) : std::string();
    };
    auto verify = [&](std::string const& what) {
        c.check(m.size() == content.size(), "classes: number of classes", fmt("%u classes instead of %zu after %s", m.size(), content.size(), what.c_str()));
        int i = 0;
        for (auto& k : m.models) {
            c.check(content.count(k.first) > 0, "classes: unexpected class", "'" + k.first + "' after " + what);
            c.check(k.second.label == k.first, "classes: label", k.second.label);
            std::string got = text(k.second.toJson());
            c.checkf(got == content[k.first], "classes: another class changed", [&] { return "'" + k.first + "' changes with " + what + ": " + got.substr(0, 800) + " instead of " + content[k.first].substr(0, 800); });
            c.check(m.hasClass(k.first) && m.getIndex(k.first) == i, "classes: index", fmt("index of '%s' is %d, not %d", k.first.c_str(), m.getIndex(k.first), i));
            i++;
        }
        c.check(!m.hasClass("absent") && m.getIndex("absent") == -1, "classes: index", "a class that does not exist");
        c.check(m.trained() == (m.size() > 0), "classes: trained()", what);
        topCheck(c, m);
        resultSizes(c, m.results, m.size());
    };
    int ops = r.in(4, 14), changes = 0;
    for (int o = 0; o < ops; o++) {
        int op = o == 0 ? r.in(0, 3) : r.in(0, 12);
        size_t i = size_t(r.in(0, 2));
        std::string l = r.pick(labels), what;
        bool inSet = sets[i].labels().count(l) > 0;
        if (op == 0) {
            what = fmt("train(set %zu)", i);
            c.log(what);
            m.train(ts[i].get());
            wait();
            content.clear();
            custom.clear();
            for (auto const& x : sets[i].labels()) {
                std::string w = whole(i, x);
                c.check(w.empty() == (m.models.count(x) == 0), "classes: trained classes", x);
                if (w.empty()) continue;
                content[x] = text(m.models.at(x).toJson());
                c.check(withoutExit(m.models.at(x).toJson()) == w, "classes: training is not reproducible", x);
            }
            changes++;
        } else if (op <= 4) {
            what = fmt("train(set %zu, '%s')", i, l.c_str());
            c.log(what);
            bool thrown = false;
            try {
                m.train(ts[i].get(), l);
            } catch (std::out_of_range&) {
                thrown = true;
            }
            wait();
            c.check(thrown == !inSet, "classes: training of an unknown class", what);
            if (inSet) {
                std::string w = whole(i, l);
                c.check(w.empty() == (m.models.count(l) == 0), "classes: trained classes", what);
                content.erase(l);
                if (!w.empty()) {
                    content[l] = text(m.models.at(l).toJson());
                    c.checkf(withoutExit(m.models.at(l).toJson()) == w, "classes: training one class is not training the whole set", [&] { return what + ": " + content[l].substr(0, 800) + " instead of " + w.substr(0, 800); });
                } else
                    c.count("classes lost in failed trainings");
                c.count("single-class trainings");
                changes++;
            }
        } else if (op <= 7) {
            what = "removeClass('" + l + "')";
            c.log(what);
            bool thrown = false;
            try {
                m.removeClass(l);
            } catch (std::out_of_range&) {
                thrown = true;
            }
            c.check(thrown == (content.count(l) == 0), "classes: removal of an unknown class", what);
            content.erase(l);
            if (!thrown) c.count("classes removed");
            changes++;
        } else if (op == 8) {
            if (r.chance(0.7)) continue;
            what = "clear";
            c.log(what);
            m.clear();
            content.clear();
        } else if (op == 9) {
            what = "reset";
            m.reset();
        } else if (op == 10) {
            addExit(c, m, content, custom);
            what = "exit point";
        } else if (op == 11 && base.dim < 6 && m.size() > 0) {
            what = "train with other dimensions";
            c.log(what);
            Data x = base;
            x.dim++;
            x.cols.clear();
            for (auto& p : x.phrases)
                for (auto& row : p.rows) row.push_back(1);
            auto xs = x.build();
            bool thrown = false;
            std::string any = x.phrases[0].label;
            try {
                m.train(xs.get(), any);
            } catch (std::runtime_error&) {
                thrown = true;
            }
            wait();
            c.check(thrown, "classes: a class with other dimensions is accepted", what);
        } else {
            what = "filter";
        }
        verify(what);
        // the model still filters
        if (m.size() > 0 && r.chance(0.7)) {
            m.reset();
            for (auto const& x : randomStream(c, base, r.in(1, 6))) {
                m.filter(x);
                resultSizes(c, m.results, m.size());
                double sum = 0, sum2 = 0;
                for (double v : m.results.instant_normalized_likelihoods) sum += v;
                for (double v : m.results.smoothed_normalized_likelihoods) sum2 += v;
                c.check(std::isnan(sum) || std::fabs(sum - 1) < 1e-6, "classes: normalised likelihoods", fmt("sum %g", sum));
                c.check(std::isnan(sum2) || std::fabs(sum2 - 1) < 1e-6, "classes: normalised likelihoods", fmt("sum %g", sum2));
                c.check(content.count(m.results.likeliest) > 0, "classes: likeliest class", m.results.likeliest);
                if (m.shared_parameters->bimodal.get()) c.check(m.results.output_values.size() == base.dim - base.din, "classes: output size", fmt("%zu", m.results.output_values.size()));
                if (std::isnan(sum)) c.count("streams with no likely class");
            }
            c.count("streams filtered");
            verify("filtering");
        }
    }
    c.nontrivial = changes > 1;
}
void C25(Case& c) {
    if (c.rng.chance(0.4))
        classHistory<xmm::GMM>(c);
    else
        classHistory<xmm::HierarchicalHMM>(c);
}
}  // namespace

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"C10", 12000, 150000, C10}, {"C24", 5000, 60000, C24}, {"C25", 5000, 60000, C25}});
}
