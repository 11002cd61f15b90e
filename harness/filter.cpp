// C11 (GMM filtering), C12 (HMM filtering), C13 (regression) against
// independent references, and C14 (filtering is a function of model and frames)
#include "models.hpp"
#include "snap.hpp"

using namespace md;

namespace {

// ------------------------------------------------------------ model building
template <typename Mod>
struct Trained {
    Data data;
    std::unique_ptr<Mod> m;
};

DataSpec dataSpec(Case& c, int bimodal) {
    DataSpec s;
    s.bimodal = bimodal;
    s.large = 0.02;
    if (c.thorough && c.rng.chance(0.3)) {
        s.maxDim = 6;
        s.maxClasses = 5;
        s.maxLen = 60;
    }
    return s;
}

// random stochastic vector, with zeros
Json::Value stochastic(vf::Rng& r, int n, double zero) {
    std::vector<double> v{};
    double s = 0;
    for (int i = 0; i < n; i++) {
        v.push_back(r.chance(zero) ? 0 : r.real(0.02, 1));
        s += v.back();
    }
    if (s == 0) {
        v[size_t(r.in(0, n - 1))] = 1;
        s = 1;
    }
    Json::Value o(Json::arrayValue);
    for (double x : v) o.append(float(x / s));
    return o;
}

void edit(Case&, xmm::GMM& m, Json::Value& root) {
    (void)m;
    (void)root;
}
// other parameters than those of a training: any transitions, priors and exit points
void edit(Case& c, xmm::HierarchicalHMM& m, Json::Value& root) {
    vf::Rng& r = c.rng;
    int n = int(m.size());
    if (r.chance(0.5)) root["prior"] = stochastic(r, n, 0);
    if (r.chance(0.5))
        for (int i = 0; i < n; i++) root["transition"][i] = stochastic(r, n, 0.1);
    if (r.chance(0.5))
        for (int i = 0; i < n; i++) root["exit_transition"][i] = r.chance(0.2) ? 0. : r.chance(0.2) ? 1. : r.unit();
    for (int i = 0; i < n; i++) {
        Json::Value& k = root["models"][i];
        int N = k["parameters"]["states"].asInt();
        bool erg = k["parameters"]["transition_mode"].asInt() == int(TM::Ergodic);
        if (r.chance(0.5)) {
            if (erg) {
                k["prior"] = stochastic(r, N, 0.2);
                Json::Value t(Json::arrayValue);
                for (int a = 0; a < N; a++) {
                    Json::Value row = stochastic(r, N, 0.2);
                    for (int b = 0; b < N; b++) t.append(row[b]);
                }
                k["transition"] = t;
            } else {
                Json::Value t(Json::arrayValue);
                for (int a = 0; a < N; a++) {
                    double p = r.real(0.05, 0.95);
                    t.append(a + 1 < N ? float(p) : 1.f);
                    t.append(a + 1 < N ? float(1 - p) : 0.f);
                }
                k["transition"] = t;
            }
        }
        if (r.chance(0.5))
            for (int a = 0; a < N; a++) k["exitProbabilities"][a] = r.chance(0.3) ? 0.f : float(r.real(0, 0.9));
    }
}

template <typename Mod>
Trained<Mod> build(Case& c, int bimodal) {
    Trained<Mod> t;
    t.data = randomData(c, dataSpec(c, bimodal));
    c.log(describe(t.data));
    t.m.reset(new Mod(t.data.bim));
    randomConfig(c, *t.m, t.data);
    auto ts = t.data.build();
    t.m->train(ts.get());
    if (t.m->size() == 0) throw vf::Discard("no class could be trained");
    if (c.rng.chance(0.4)) {
        Json::Value root = t.m->toJson();
        edit(c, *t.m, root);
        t.m->fromJson(root);
        c.log("parameters edited through JSON");
    }
    c.count("models trained");
    return t;
}
void exitPoints(Case&, xmm::GMM&) {}
void exitPoints(Case& c, xmm::HierarchicalHMM& m) {
    if (!m.configuration.hierarchical.get()) return;
    for (auto& k : m.models) {
        if (c.rng.chance(0.05)) {
            // no such state
            int n = int(k.second.parameters.states.get()), s = c.rng.chance(0.5) ? n : c.rng.chance(0.3) ? -1 : c.rng.in(n, n + 100);
            bool threw = false;
            try {
                k.second.addExitPoint(s, 0.5f);
            } catch (std::exception&) {
                threw = true;
            }
            c.check(threw, "exit-point-range", fmt("addExitPoint('%s', %d) accepted for %d states", k.first.c_str(), s, n));
            c.count("exit points out of range");
        }
        if (c.rng.chance(0.2)) {
            int s = c.rng.in(0, int(k.second.parameters.states.get()) - 1);
            float p = float(c.rng.real(0.01, 0.8));
            k.second.addExitPoint(s, p);
            c.log(fmt("addExitPoint('%s', %d, %.9g)", k.first.c_str(), s, p));
        }
    }
}

// ----------------------------------------------- model results (GMM and HMM)
// The model's results follow from those of the classes.
template <typename Mod>
void checkModelResults(Case& c, Mod& m, std::map<std::string, std::deque<double>>& hist, unsigned window, int frame) {
    auto& res = m.results;
    size_t n = m.models.size();
    auto at = [&] { return fmt("frame %d: ", frame); };
    c.checkf(res.instant_likelihoods.size() == n && res.instant_normalized_likelihoods.size() == n && res.smoothed_likelihoods.size() == n &&
                 res.smoothed_normalized_likelihoods.size() == n && res.smoothed_log_likelihoods.size() == n,
             "result-size", [&] { return at() + "results are not sized as the number of classes"; });
    double sumI = 0, sumS = 0, best = 0;
    std::string likeliest;
    size_t i = 0;
    std::vector<double> logs;
    bool first = true;
    for (auto& k : m.models) {
        double l = k.second.results.instant_likelihood;
        auto& h = hist[k.first];
        // a likelihood may underflow; its logarithm stays finite
        h.push_back(l > 1e-290 ? std::log(l) : -1e9);
        while (h.size() > window) h.pop_front();
        double mean = 0;
        bool under = false;
        for (double v : h) {
            mean += v;
            under = under || v == -1e9;
        }
        mean /= double(h.size());
        if (under) {
            c.count("likelihoods smoothed over an underflow");
            c.checkf(std::isfinite(k.second.results.log_likelihood) && k.second.results.log_likelihood >= mean, "smoothing",
                     [&] { return at() + fmt("class '%s': log-likelihood %.12g after an underflow", k.first.c_str(), k.second.results.log_likelihood); });
            mean = k.second.results.log_likelihood;
        } else
            c.checkf(vf::close(k.second.results.log_likelihood, mean, 1e-10, 1e-10), "smoothing",
                 [&] { return at() + fmt("class '%s': log-likelihood %.12g, mean over the last %zu frames (window %u) %.12g", k.first.c_str(), k.second.results.log_likelihood, h.size(), window, mean); });
        c.checkf(res.instant_likelihoods[i] == l && res.smoothed_log_likelihoods[i] == k.second.results.log_likelihood, "class-order",
                 [&] { return at() + fmt("results of index %zu are not those of class '%s'", i, k.first.c_str()); });
        c.checkf(vf::close(res.smoothed_likelihoods[i], std::exp(mean), 1e-8, 1e-300), "smoothed-likelihood", [&] { return at() + fmt("smoothed likelihood %.12g, exp(mean) %.12g", res.smoothed_likelihoods[i], std::exp(mean)); });
        sumI += l;
        sumS += res.smoothed_likelihoods[i];
        logs.push_back(res.smoothed_log_likelihoods[i]);
        if (first || logs[i] > best) {
            best = logs[i];
            likeliest = k.first;
            first = false;
        }
        i++;
        if (h.size() == window) c.count("frames with a full window");
    }
    double ni = 0, ns = 0;
    i = 0;
    for (auto& k : m.models) {
        if (sumI > 1e-290) {
            c.checkf(vf::close(res.instant_normalized_likelihoods[i], k.second.results.instant_likelihood / sumI, 1e-12, 1e-300), "normalisation",
                     [&] { return at() + fmt("class '%s': instantaneous normalised likelihood %.12g, expected %.12g", k.first.c_str(), res.instant_normalized_likelihoods[i], k.second.results.instant_likelihood / sumI); });
            ni += res.instant_normalized_likelihoods[i];
        }
        if (sumS > 1e-290) {
            c.checkf(vf::close(res.smoothed_normalized_likelihoods[i], res.smoothed_likelihoods[i] / sumS, 1e-12, 1e-300), "normalisation",
                     [&] { return at() + fmt("class '%s': smoothed normalised likelihood %.12g, expected %.12g", k.first.c_str(), res.smoothed_normalized_likelihoods[i], res.smoothed_likelihoods[i] / sumS); });
            ns += res.smoothed_normalized_likelihoods[i];
        }
        i++;
    }
    for (double v : res.instant_normalized_likelihoods) c.checkf(v >= 0 && v <= 1 + 1e-9, "normalisation", [&] { return at() + fmt("an instantaneous normalised likelihood is %.12g", v); });
    for (double v : res.smoothed_normalized_likelihoods) c.checkf(v >= 0 && v <= 1 + 1e-9, "normalisation", [&] { return at() + fmt("a smoothed normalised likelihood is %.12g", v); });
    if (sumI > 1e-290) c.checkf(vf::close(ni, 1, 1e-9), "normalisation", [&] { return at() + fmt("instantaneous normalised likelihoods sum to %.12g", ni); });
    if (sumS > 1e-290) c.checkf(vf::close(ns, 1, 1e-9), "normalisation", [&] { return at() + fmt("smoothed normalised likelihoods sum to %.12g", ns); });
    c.checkf(m.models.count(res.likeliest) == 1, "likeliest", [&] { return at() + "likeliest is not a class"; });
    size_t li = size_t(m.getIndex(res.likeliest));
    c.checkf(res.likeliest == likeliest || logs[li] >= best - 1e-12 * std::fabs(best), "likeliest",
             [&] { return at() + fmt("likeliest is '%s' (%.12g), the greatest smoothed likelihood is that of '%s' (%.12g)", res.likeliest.c_str(), logs[li], likeliest.c_str(), best); });
    c.count("frames compared");
}

// The outputs of the model follow from those of the classes.
template <typename Mod>
void checkModelOutputs(Case& c, Mod& m, int frame) {
    auto& res = m.results;
    unsigned o = m.shared_parameters->dimension.get() - m.shared_parameters->dimension_input.get();
    auto at = [&] { return fmt("frame %d: ", frame); };
    auto fullOf = [](decltype(m.models.begin()->second)& k) { return k.parameters.covariance_mode.get() == CM::Full; };
    c.checkf(res.output_values.size() == o, "output-size", [&] { return at() + "size of the output"; });
    for (float v : res.output_values) c.checkf(std::isfinite(v), "output-finite", [&] { return at() + "an output is not finite"; });
    for (float v : res.output_covariance) c.checkf(std::isfinite(v), "output-finite", [&] { return at() + "an output covariance is not finite"; });
    if (m.configuration.multiClass_regression_estimator == MCE::Likeliest) {
        auto& k = m.models.at(res.likeliest);
        c.checkf(res.output_values == k.results.output_values, "likeliest-output", [&] { return at() + "the output is not that of the likeliest class " + res.likeliest; });
        c.checkf(res.output_covariance == k.results.output_covariance, "likeliest-output", [&] { return at() + "the output covariance is not that of the likeliest class " + res.likeliest; });
        return;
    }
    bool full = m.configuration.covariance_mode.get() == CM::Full;
    std::vector<double> v(o, 0), mag(o, 0), cv(full ? o * o : o, 0), cm(cv.size(), 0);
    size_t i = 0;
    for (auto& k : m.models) {
        double w = res.smoothed_normalized_likelihoods[i++];
        bool kf = fullOf(k.second);
        for (unsigned d = 0; d < o; d++) {
            v[d] += w * k.second.results.output_values[d];
            mag[d] += w * std::fabs(k.second.results.output_values[d]);
            for (unsigned e = 0; e < o; e++) {
                if (!full && d != e) continue;
                double x = kf ? k.second.results.output_covariance[d * o + e] : d == e ? k.second.results.output_covariance[d] : 0;
                cv[full ? d * o + e : d] += w * x;
                cm[full ? d * o + e : d] += w * std::fabs(x);
            }
        }
    }
    c.checkf(res.output_covariance.size() == cv.size(), "output-size", [&] { return at() + "size of the output covariance"; });
    for (unsigned d = 0; d < o; d++)
        c.checkf(std::fabs(res.output_values[d] - v[d]) <= 2e-6 * mag[d] + 1e-30, "mixture-output",
                 [&] { return at() + fmt("output %u is %.9g, the mixture of the classes %.9g", d, res.output_values[d], v[d]); });
    for (size_t d = 0; d < cv.size(); d++)
        c.checkf(std::fabs(res.output_covariance[d] - cv[d]) <= 2e-6 * cm[d] + 1e-30, "mixture-output",
                 [&] { return at() + fmt("output covariance %zu is %.9g, the mixture of the classes %.9g", d, res.output_covariance[d], cv[d]); });
    c.count("mixtures of classes compared");
}

// ---------------------------------------------------------------------- GMM
typedef std::map<std::string, RMix> GRef;
GRef reference(xmm::GMM& m) {
    GRef r;
    for (auto& k : m.models) r[k.first] = refMix(k.second, m.shared_parameters->bimodal.get());
    return r;
}

void checkGmmLikelihoods(Case& c, xmm::GMM& m, GRef& ref, Row const& x, int frame) {
    bool bim = m.shared_parameters->bimodal.get();
    for (auto& k : m.models) {
        RMix& q = ref[k.first];
        double rel = 0;
        V p = q.parts(x.data(), bim, rel);
        R s = 0;
        for (R v : p) s += v;
        double got = k.second.results.instant_likelihood;
        c.checkf(std::fabs(got - double(s)) <= rel * double(s) * 2, "gmm-likelihood",
                 [&] { return fmt("frame %d, class '%s': likelihood %.12g, mixture density %.12Lg (tolerance %.3g)", frame, k.first.c_str(), got, s, rel); });
        c.checkf(k.second.beta.size() == p.size(), "responsibilities", [&] { return fmt("frame %d: number of responsibilities", frame); });
        double sum = 0;
        for (size_t i = 0; i < p.size(); i++) {
            sum += k.second.beta[i];
            c.checkf(std::fabs(k.second.beta[i] - double(p[i] / s)) <= 4 * rel * double(p[i] / s) + 1e-14, "responsibilities",
                     [&] { return fmt("frame %d, class '%s': responsibility %zu is %.12g, expected %.12Lg", frame, k.first.c_str(), i, k.second.beta[i], p[i] / s); });
        }
        c.checkf(vf::close(sum, 1, 1e-9), "responsibilities", [&] { return fmt("frame %d, class '%s': responsibilities sum to %.12g", frame, k.first.c_str(), sum); });
        if (s > 2e-180L) c.count("likelihoods above the floor");
    }
}

void checkClassOutput(Case& c, std::string const& label, std::vector<float> const& v, std::vector<float> const& cov, V const& e, V const& t, V const& ec, V const& ct, int frame) {
    c.checkf(v.size() == e.size() && cov.size() == ec.size(), "output-size", [&] { return fmt("frame %d, class '%s': size of the output (%zu) or of its covariance (%zu)", frame, label.c_str(), v.size(), cov.size()); });
    for (size_t d = 0; d < v.size(); d++)
        c.checkf(std::isfinite(v[d]) && std::fabs(v[d] - double(e[d])) <= double(t[d]) + 1e-30, "class-output",
                 [&] { return fmt("frame %d, class '%s': output %zu is %.9g, reference %.9Lg (tolerance %.3Lg)", frame, label.c_str(), d, v[d], e[d], t[d]); });
    for (size_t d = 0; d < cov.size(); d++)
        c.checkf(std::isfinite(cov[d]) && std::fabs(cov[d] - double(ec[d])) <= double(ct[d]) + 1e-30, "class-covariance",
                 [&] { return fmt("frame %d, class '%s': output covariance %zu is %.9g, reference %.9Lg (tolerance %.3Lg)", frame, label.c_str(), d, cov[d], ec[d], ct[d]); });
    c.count("class outputs compared");
}

void checkGmmOutputs(Case& c, xmm::GMM& m, GRef& ref, Row const& x, int frame) {
    for (auto& k : m.models) {
        V e, t, ec, ct;
        ref[k.first].regression(x.data(), e, t, ec, ct);
        checkClassOutput(c, k.first, k.second.results.output_values, k.second.results.output_covariance, e, t, ec, ct, frame);
    }
}

void C11(Case& c) {
    auto t = build<xmm::GMM>(c, -1);
    xmm::GMM& m = *t.m;
    GRef ref = reference(m);
    int rounds = c.rng.in(1, 3);
    for (int r = 0; r < rounds; r++) {
        if (r > 0 && c.rng.chance(0.6)) {
            unsigned w = unsigned(c.rng.in(1, 12));
            m.shared_parameters->likelihood_window.set(w);
            c.log(fmt("likelihood window %u", w));
        }
        if (r > 0 || c.rng.chance(0.5)) {  // a trained or read model is ready to filter
            m.reset();
            c.log("reset");
        }
        unsigned window = m.shared_parameters->likelihood_window.get();
        std::map<std::string, std::deque<double>> hist;
        auto stream = randomStream(c, t.data, c.rng.in(3, c.thorough ? 60 : 25));
        for (size_t f = 0; f < stream.size(); f++) {
            m.filter(stream[f]);
            checkGmmLikelihoods(c, m, ref, stream[f], int(f));
            checkModelResults(c, m, hist, window, int(f));
        }
        if (stream.size() > window) c.nontrivial = true;
    }
}

// ---------------------------------------------------------------------- HMM
struct RHmm {
    std::string label;
    unsigned N;
    bool erg;
    RE est;
    std::vector<RMix> st;
    V prior, trans, exit;  // trans: N*N or 2*N
    V a[3], e[3];          // forward variables and a bound of their absolute error (underflow)
    V p;
    R inst, instErr, exitL;
};
struct HRef {
    bool hier, bim, started = false;
    double rel = 0;        // relative error of a step
    V prior, exitT;
    std::vector<V> trans;
    std::vector<RHmm> k;
};

HRef reference(xmm::HierarchicalHMM& m) {
    HRef r;
    r.hier = m.configuration.hierarchical.get();
    r.bim = m.shared_parameters->bimodal.get();
    if (r.hier) {
        r.prior.assign(m.prior.begin(), m.prior.end());
        r.exitT.assign(m.exit_transition.begin(), m.exit_transition.end());
        for (auto const& t : m.transition) r.trans.push_back(V(t.begin(), t.end()));
    }
    for (auto& k : m.models) {
        RHmm q;
        q.label = k.first;
        q.N = k.second.parameters.states.get();
        q.erg = k.second.parameters.transition_mode.get() == TM::Ergodic;
        q.est = k.second.parameters.regression_estimator.get();
        for (auto& s : k.second.states) q.st.push_back(refMix(s, r.bim));
        q.trans.assign(k.second.transition.begin(), k.second.transition.end());
        q.prior.assign(k.second.prior.begin(), k.second.prior.end());
        Json::Value j = k.second.toJson();
        for (auto& v : j["exitProbabilities"]) q.exit.push_back(v.asFloat());
        r.k.push_back(q);
    }
    return r;
}

// one step of the (two-level) forward recursion
void step(HRef& h, Row const& x) {
    double rel = 0;
    for (auto& q : h.k) {
        q.p.assign(q.N, 0);
        for (unsigned i = 0; i < q.N; i++) q.p[i] = q.st[i].density(x.data(), h.bim, rel);
    }
    h.rel = 2 * rel + 1e-12 + (h.hier ? 5e-7 : 1e-7);
    const R tiny = 1e-305L;
    if (!h.hier) {
        for (auto& q : h.k) {
            V a(q.N, 0), e(q.N, 0);
            for (unsigned j = 0; j < q.N; j++) {
                if (!h.started) {
                    a[j] = q.erg ? q.prior[j] : (j == 0 ? 1 : 0);
                } else if (q.erg) {
                    for (unsigned i = 0; i < q.N; i++) {
                        a[j] += q.a[0][i] * q.trans[i * q.N + j];
                        e[j] += q.e[0][i] * q.trans[i * q.N + j];
                    }
                } else {
                    unsigned b = j > 0 ? j - 1 : q.N - 1;  // the last state may lead to the first one
                    a[j] = q.a[0][j] * q.trans[2 * j] + q.a[0][b] * q.trans[2 * b + 1];
                    e[j] = q.e[0][j] * q.trans[2 * j] + q.e[0][b] * q.trans[2 * b + 1];
                }
                a[j] *= q.p[j];
                e[j] *= q.p[j];
            }
            R s = 0, se = 0;
            for (unsigned j = 0; j < q.N; j++) {
                s += a[j];
                se += e[j];
            }
            q.inst = s;
            q.instErr = se + tiny;
            for (unsigned j = 0; j < q.N; j++) {
                a[j] /= s;
                e[j] = e[j] / s + a[j] * se / s + tiny / s;
            }
            q.a[0] = a;
            q.e[0] = e;
        }
        h.started = true;
        return;
    }
    size_t n = h.k.size();
    R total = 0, totalErr = 0;
    V v1(n, 0), v2(n, 0), e1(n, 0), e2(n, 0);
    if (h.started)
        for (size_t c = 0; c < n; c++)
            for (unsigned k = 0; k < h.k[c].N; k++) {
                v1[c] += h.k[c].a[1][k];
                v2[c] += h.k[c].a[2][k];
                e1[c] += h.k[c].e[1][k];
                e2[c] += h.k[c].e[2][k];
            }
    for (size_t c = 0; c < n; c++) {
        RHmm& q = h.k[c];
        V f(q.N, 0), fe(q.N, 0);
        if (!h.started) {
            for (unsigned k = 0; k < q.N; k++) f[k] = h.prior[c] * (q.erg ? q.prior[k] : (k == 0 ? 1 : 0));
        } else {
            R enter = 0, enterE = 0;  // probability to enter the class
            for (size_t s = 0; s < n; s++) {
                enter += v1[s] * h.trans[s][c] + h.prior[c] * v2[s];
                enterE += e1[s] * h.trans[s][c] + h.prior[c] * e2[s];
            }
            for (unsigned k = 0; k < q.N; k++) {
                auto from = [&](unsigned j, R t) {
                    f[k] += t * q.a[0][j];
                    fe[k] += t * q.e[0][j] + 3e-45L * q.a[0][j];  // quotients of denormal floats
                };
                if (q.erg) {
                    for (unsigned j = 0; j < q.N; j++) from(j, q.trans[j * q.N + k] / (1 - q.exit[j]));
                    f[k] += q.prior[k] * enter;
                    fe[k] += q.prior[k] * enterE;
                } else if (k == 0) {
                    from(0, q.trans[0]);
                    f[0] += enter;
                    fe[0] += enterE;
                } else {
                    from(k, q.trans[2 * k] / (1 - q.exit[k]));
                    from(k - 1, q.trans[2 * (k - 1) + 1] / (1 - q.exit[k - 1]));
                }
            }
        }
        q.inst = q.instErr = q.exitL = 0;
        for (int i = 0; i < 3; i++) {
            q.a[i].assign(q.N, 0);
            q.e[i].assign(q.N, 0);
        }
        for (unsigned k = 0; k < q.N; k++) {
            R t = f[k] * q.p[k], te = fe[k] * q.p[k] + tiny;
            R w[3] = {1, 0, 0};
            if (h.started) {
                w[0] = 1 - q.exit[k];
                w[1] = (1 - h.exitT[c]) * q.exit[k];
                w[2] = h.exitT[c] * q.exit[k];
            }
            for (int i = 0; i < 3; i++) {
                q.a[i][k] = t * w[i];
                q.e[i][k] = te * w[i] + tiny;
            }
            q.exitL += t * (w[1] + w[2]);
            q.inst += t;
            q.instErr += te;
        }
        total += q.inst;
        totalErr += q.instErr;
    }
    for (auto& q : h.k)
        for (int i = 0; i < 3; i++)
            for (unsigned k = 0; k < q.N; k++) {
                q.a[i][k] /= total;
                q.e[i][k] = q.e[i][k] / total + q.a[i][k] * totalErr / total;
            }
    h.started = true;
}

void checkForward(Case& c, xmm::HierarchicalHMM& m, HRef& h, int frame) {
    size_t i = 0;
    R post = 0;
    for (auto& k : m.models) {
        RHmm& q = h.k[i++];
        auto& res = k.second.results;
        R own = 0;
        for (int e = 0; e < (h.hier ? 3 : 1); e++) {
            std::vector<double>& got = h.hier ? k.second.alpha_h[e] : k.second.alpha;
            c.checkf(got.size() == q.N, "forward-size", [&] { return fmt("frame %d, class '%s': %zu forward variables for %u states", frame, q.label.c_str(), got.size(), q.N); });
            for (unsigned s = 0; s < q.N; s++) {
                own += got[s];
                c.checkf(std::isfinite(got[s]) && std::fabs(got[s] - double(q.a[e][s])) <= h.rel * double(q.a[e][s]) * 2 + double(q.e[e][s]) * 4 + 1e-300, "forward",
                         [&] { return fmt("frame %d, class '%s': forward variable %d of state %u is %.12g, reference %.12Lg (relative tolerance %.3g)", frame, q.label.c_str(), e, s, got[s], q.a[e][s], h.rel); });
                if (q.a[e][s] > 1e-3L && q.a[e][s] < 0.999L) c.count("forward variables inside (0.001,0.999)");
            }
        }
        post += own;
        if (!h.hier) c.checkf(vf::close(double(own), 1, 1e-9), "posterior-sum", [&] { return fmt("frame %d, class '%s': forward variables sum to %.12Lg", frame, q.label.c_str(), own); });
        c.checkf(std::fabs(res.instant_likelihood - double(q.inst)) <= h.rel * 2 * double(q.inst) + double(q.instErr) * 4, "hmm-likelihood",
                 [&] { return fmt("frame %d, class '%s': likelihood %.12g, forward recursion %.12Lg (relative tolerance %.3g)", frame, q.label.c_str(), res.instant_likelihood, q.inst, h.rel); });
        if (h.hier && res.instant_likelihood > 1e-280) {
            double l = res.exit_likelihood;
            c.checkf(std::fabs(l - double(q.exitL)) <= h.rel * 2 * double(q.exitL) + double(q.instErr) * 4, "exit-likelihood",
                     [&] { return fmt("frame %d, class '%s': exit likelihood %.12g, reference %.12Lg", frame, q.label.c_str(), l, q.exitL); });
            c.checkf(vf::close(res.exit_ratio, l / res.instant_likelihood, 1e-9, 1e-300) && res.exit_ratio <= 1 + 1e-9, "exit-ratio",
                     [&] { return fmt("frame %d, class '%s': exit ratio %.12g, expected %.12g", frame, q.label.c_str(), res.exit_ratio, l / res.instant_likelihood); });
        }
        // likeliest state and progress, from the model's own forward variables
        auto w2 = [&](unsigned s) { return h.hier ? k.second.alpha_h[0][s] + k.second.alpha_h[1][s] : k.second.alpha[s]; };
        auto w3 = [&](unsigned s) { return h.hier ? k.second.alpha_h[0][s] + k.second.alpha_h[1][s] + k.second.alpha_h[2][s] : k.second.alpha[s]; };
        double best = 0;
        for (unsigned s = 0; s < q.N; s++) best = std::max(best, w2(s));
        c.checkf(res.likeliest_state < q.N && w2(res.likeliest_state) >= best * (1 - 1e-9), "likeliest-state",
                 [&] { return fmt("frame %d, class '%s': likeliest state %u", frame, q.label.c_str(), res.likeliest_state); });
        int lo = std::max(0, int(res.likeliest_state) - int(q.N) / 2), hi = std::min(int(q.N), int(res.likeliest_state) + int(q.N) / 2);
        hi = std::max(hi, int(res.likeliest_state) + 1);
        double num = 0, den = 0;
        for (int s = lo; s < hi; s++) {
            num += s * w3(unsigned(s));
            den += w3(unsigned(s));
        }
        double want = den > 0 ? num / den / std::max(1u, q.N - 1) : 0;
        if (den == 0 || den > 1e-290)
            c.checkf(vf::close(res.progress, want, 1e-9, 1e-12), "progress", [&] { return fmt("frame %d, class '%s': progress %.12g, centroid of the window %.12g", frame, q.label.c_str(), res.progress, want); });
        c.checkf(res.progress >= 0 && res.progress <= 1 + 1e-9, "progress", [&] { return fmt("frame %d, class '%s': progress %.12g", frame, q.label.c_str(), res.progress); });
        if (want > 0.1 && want < 0.9) c.count("progress inside (0.1,0.9)");
    }
    if (h.hier) c.checkf(vf::close(double(post), 1, 1e-6), "posterior-sum", [&] { return fmt("frame %d: posteriors sum to %.12Lg", frame, post); });
    // the next step is compared from the model's own variables, so that rounding does not accumulate
    i = 0;
    for (auto& k : m.models) {
        RHmm& q = h.k[i++];
        for (int e = 0; e < (h.hier ? 3 : 1); e++) {
            std::vector<double>& got = h.hier ? k.second.alpha_h[e] : k.second.alpha;
            q.a[e].assign(got.begin(), got.end());
            q.e[e].assign(q.N, 0);
        }
    }
    c.count("forward steps compared");
}

void checkHmmOutputs(Case& c, xmm::HierarchicalHMM& m, HRef& h, Row const& x, int frame) {
    size_t i = 0;
    for (auto& k : m.models) {
        RHmm& q = h.k[i++];
        auto w = [&](unsigned s) { return h.hier ? R(k.second.alpha_h[0][s]) + k.second.alpha_h[1][s] : R(k.second.alpha[s]); };
        unsigned lik = k.second.results.likeliest_state;
        unsigned lo = 0, hi = q.N;
        R norm = 1;
        if (q.est == RE::Windowed) {
            lo = unsigned(std::max(0, int(lik) - int(q.N) / 2));
            hi = unsigned(std::max(std::min(int(q.N), int(lik) + int(q.N) / 2), int(lik) + 1));
            norm = 0;
            for (unsigned s = lo; s < hi; s++) norm += w(s);
            if (norm < 1e-290L) {  // underflow: the class has no weight
                for (float v : k.second.results.output_values) c.checkf(std::isfinite(v), "output-finite", [&] { return fmt("frame %d, class '%s': an output is not finite", frame, q.label.c_str()); });
                continue;
            }
        } else if (q.est == RE::Likeliest) {
            lo = lik;
            hi = lik + 1;
        }
        V e, t, ec, ct;
        for (unsigned s = lo; s < hi; s++) {
            V e1, t1, c1, u1;
            q.st[s].regression(x.data(), e1, t1, c1, u1);
            R a = q.est == RE::Likeliest ? R(1) : w(s), b = q.est == RE::Likeliest ? R(1) : a * a / norm;
            a = q.est == RE::Likeliest ? R(1) : a / norm;
            if (e.empty()) {
                e.assign(e1.size(), 0);
                t = e;
                ec.assign(c1.size(), 0);
                ct = ec;
            }
            for (size_t d = 0; d < e1.size(); d++) {
                e[d] += a * e1[d];
                t[d] += a * (t1[d] + 1e-6L * std::fabs(e1[d]));
            }
            for (size_t d = 0; d < c1.size(); d++) {
                ec[d] += b * c1[d];
                ct[d] += b * (u1[d] + 1e-6L * std::fabs(c1[d]));
            }
        }
        checkClassOutput(c, q.label, k.second.results.output_values, k.second.results.output_covariance, e, t, ec, ct, frame);
        c.count(std::string("estimator ") + EST[int(q.est)]);
    }
}

void C12(Case& c) {
    auto t = build<xmm::HierarchicalHMM>(c, -1);
    xmm::HierarchicalHMM& m = *t.m;
    int rounds = c.rng.in(1, 3);
    for (int r = 0; r < rounds; r++) {
        if (r > 0 && c.rng.chance(0.4)) {
            unsigned w = unsigned(c.rng.in(1, 12));
            m.shared_parameters->likelihood_window.set(w);
            c.log(fmt("likelihood window %u", w));
        }
        exitPoints(c, m);
        if (r > 0 || c.rng.chance(0.5)) {
            m.reset();
            c.log("reset");
        }
        HRef h = reference(m);
        unsigned window = m.shared_parameters->likelihood_window.get();
        std::map<std::string, std::deque<double>> hist;
        auto stream = randomStream(c, t.data, c.rng.in(3, c.thorough ? 80 : 25));
        for (size_t f = 0; f < stream.size(); f++) {
            m.filter(stream[f]);
            step(h, stream[f]);
            checkForward(c, m, h, int(f));
            checkModelResults(c, m, hist, window, int(f));
        }
        c.count(h.hier ? "hierarchical streams" : "non-hierarchical streams");
        if (stream.size() > window) c.nontrivial = true;
    }
}

void C13(Case& c) {
    if (c.rng.chance(0.4)) {
        auto t = build<xmm::GMM>(c, 1);
        GRef ref = reference(*t.m);
        for (int r = 0; r < 2; r++) {
            t.m->reset();
            auto stream = randomStream(c, t.data, c.rng.in(2, 15));
            for (size_t f = 0; f < stream.size(); f++) {
                t.m->filter(stream[f]);
                checkGmmOutputs(c, *t.m, ref, stream[f], int(f));
                checkModelOutputs(c, *t.m, int(f));
            }
            t.m->configuration.multiClass_regression_estimator = c.rng.chance(0.5) ? MCE::Likeliest : MCE::Mixture;
        }
        c.count("GMM cases");
    } else {
        auto t = build<xmm::HierarchicalHMM>(c, 1);
        for (int r = 0; r < 2; r++) {
            exitPoints(c, *t.m);
            t.m->reset();
            HRef h = reference(*t.m);
            auto stream = randomStream(c, t.data, c.rng.in(2, 15));
            for (size_t f = 0; f < stream.size(); f++) {
                t.m->filter(stream[f]);
                checkHmmOutputs(c, *t.m, h, stream[f], int(f));
                checkModelOutputs(c, *t.m, int(f));
            }
            t.m->configuration.multiClass_regression_estimator = c.rng.chance(0.5) ? MCE::Likeliest : MCE::Mixture;
            for (auto& k : t.m->models) k.second.parameters.regression_estimator.set(static_cast<RE>(c.rng.in(0, 2)));
        }
        c.count("HMM cases");
    }
    c.nontrivial = true;
}

// ---------------------------------------------------------------------- C14
template <typename Mod>
std::vector<std::vector<double>> play(Case& c, Mod& m, std::vector<Row> const& s, bool observe) {
    std::vector<std::vector<double>> o;
    m.reset();
    for (auto const& x : s) {
        m.filter(x);
        o.push_back(snapshot(m));
        if (observe && c.rng.chance(0.3)) {  // reading must not disturb
            m.toJson();
            m.getIndex("a");
            m.hasClass("b");
            m.size();
            Mod other(m);
            if (other.size() && c.rng.chance(0.5)) {
                other.reset();
                other.filter(x);
            }
        }
    }
    c.count("streams filtered");
    return o;
}
template <typename Mod>
void C14model(Case& c) {
    auto t = build<Mod>(c, -1);
    Mod& m = *t.m;
    std::string before = m.toJson().toStyledString();
    auto s = randomStream(c, t.data, c.rng.in(2, c.thorough ? 50 : 20));
    auto want = play(c, m, s, false);
    auto agree = [&](std::vector<std::vector<double>> const& got, const char* what) {
        for (size_t f = 0; f < s.size(); f++)
            c.checkf(same(got[f], want[f]), "replay", [&] {
                size_t i = 0;
                while (i < got[f].size() && i < want[f].size() && (got[f][i] == want[f][i] || got[f][i] != got[f][i])) i++;
                return fmt("%s: results of frame %zu differ from the first pass (value %zu of %zu: %.17g, was %.17g)", what, f, i, want[f].size(), i < got[f].size() ? got[f][i] : 0., i < want[f].size() ? want[f][i] : 0.);
            });
        c.count("replays compared");
    };
    auto untouched = [&](const char* what) { c.checkf(m.toJson().toStyledString() == before, "parameters-changed", [&] { return fmt("the model's parameters changed after %s", what); }); };
    untouched("filtering");
    Mod early(m);  // in the middle of a stream
    int rounds = c.rng.in(1, 3);
    for (int r = 0; r < rounds; r++) {
        switch (c.rng.in(0, 5)) {
        case 0:
            agree(play(c, m, s, true), "with observers");
            break;
        case 1: {
            auto other = randomStream(c, t.data, c.rng.in(1, 15));
            play(c, m, other, false);
            agree(play(c, m, s, false), "after another stream");
            break;
        }
        case 2: {
            for (int i = c.rng.in(1, 4); i > 0; i--) m.reset();
            agree(play(c, m, s, false), "after several resets");
            break;
        }
        case 3: {
            Mod copy(m);
            agree(play(c, copy, s, false), "on a copy");
            break;
        }
        case 4: {
            Mod other(t.data.bim);
            if (c.rng.chance(0.5)) {
                other = early;
            } else {
                other = m;
            }
            agree(play(c, other, s, false), "on an assigned model");
            break;
        }
        default: {  // stop in the middle of the stream
            m.reset();
            size_t n = size_t(c.rng.in(0, int(s.size())));
            for (size_t i = 0; i < n; i++) m.filter(s[i]);
            agree(play(c, m, s, false), "after a partial stream");
        }
        }
        untouched("filtering and resetting");
    }
    // the same training gives the same model
    Mod again(t.data.bim), twice(t.data.bim);
    again.configuration = m.configuration;
    *again.shared_parameters = *m.shared_parameters;
    auto ts = t.data.build();
    again.train(ts.get());
    std::string first = again.toJson().toStyledString();
    if (c.rng.chance(0.5) && again.size()) play(c, again, s, false);
    again.train(ts.get());
    c.check(again.toJson().toStyledString() == first, "retraining", "training twice with the same data and configuration gives different models");
    twice.configuration = m.configuration;
    *twice.shared_parameters = *m.shared_parameters;
    auto ts2 = t.data.build();
    twice.train(ts2.get());
    c.check(twice.toJson().toStyledString() == first, "retraining", "two models trained with the same data and configuration differ");
    c.count("trainings compared", 2);
    c.nontrivial = s.size() > 2;
}
void C14(Case& c) {
    if (c.rng.chance(0.4))
        C14model<xmm::GMM>(c);
    else
        C14model<xmm::HierarchicalHMM>(c);
}
}  // namespace

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"C11", 20000, 300000, C11}, {"C12", 12000, 150000, C12}, {"C13", 15000, 200000, C13}, {"C14", 5000, 60000, C14}});
}
