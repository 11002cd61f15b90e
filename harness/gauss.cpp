// C08 (gaussian likelihood, regression, conditional covariance, matrix algebra
// against an independent extended precision reference) and C09 (ellipses)
#include "linalg.hpp"
#include "vf.hpp"
#include "xmm.h"
#include "xmmMatrix.hpp"
#include <memory>

using la::M;
using la::R;
using la::V;
using vf::Case;
using vf::fmt;
typedef xmm::GaussianDistribution G;
typedef G::CovarianceMode CM;

namespace {
const double FLOOR = 1e-180;

M randomSPD(Case& c, int n) {
    M a(n, n);
    for (auto& x : a.a) x = c.rng.gauss();
    M s = la::mul(a, la::tr(a));
    R eps = std::pow(10.L, R(c.rng.real(-3, 0)));
    for (int i = 0; i < n; i++) s(i, i) += eps;
    V d(n);
    for (auto& x : d) x = std::pow(10.L, R(c.rng.real(-1, 1)));
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) s(i, j) *= d[i] * d[j];
    // what the library is given is in double precision, and symmetric
    for (int i = 0; i < n; i++)
        for (int j = 0; j <= i; j++) s(i, j) = s(j, i) = R(double(s(i, j)));
    return s;
}

struct Model {
    bool bim;
    unsigned dim, din;
    CM mode;
    V mu;
    M cov;  // always square here
};

void install(G& g, Model const& m) {
    for (unsigned i = 0; i < m.dim; i++) g.mean[i] = double(m.mu[i]);
    if (m.mode == CM::Full)
        for (unsigned i = 0; i < m.dim * m.dim; i++) g.covariance[i] = double(m.cov.a[i]);
    else
        for (unsigned i = 0; i < m.dim; i++) g.covariance[i] = double(m.cov(i, i));
    g.updateInverseCovariance();
}
// a bound of the smallest pivot of an elimination
R leastPivot(M const& cov) {
    M inv;
    R det, least = 0;
    if (!la::inverse(cov, inv, det)) return 0;
    for (int i = 0; i < cov.r; i++) least = i ? std::min(least, 1 / inv(i, i)) : 1 / inv(i, i);
    return least;
}
void randomise(Case& c, Model& m) {
    m.mu.resize(m.dim);
    for (auto& x : m.mu) x = R(double(c.rng.gauss() * 3));
    m.cov = randomSPD(c, m.dim);
    if (m.mode == CM::Diagonal)
        for (unsigned i = 0; i < m.dim; i++)
            for (unsigned j = 0; j < m.dim; j++)
                if (i != j) m.cov(i, j) = 0;
    if (!c.rng.chance(0.3)) return;
    // any scale: the smallest pivot of a full covariance must stay above 1e-9
    if (m.mode == CM::Full) {
        R least = leastPivot(m.cov);
        int lo = int(std::ceil(std::log2(4e-9L / least)));
        R k = std::ldexp(R(1), c.rng.in(std::min(lo, 0), 30));
        for (auto& v : m.cov.a) v *= k;
    } else {
        double base = c.rng.real(-10, 8);
        for (unsigned i = 0; i < m.dim; i++) m.cov(i, i) = R(std::pow(10., base + c.rng.real(-2, 2)));
    }
    c.count("covariances of unusual scale");
}

template <typename F>
bool throws(F f) {
    try {
        f();
    } catch (std::runtime_error&) {
        return true;
    }
    return false;
}

void verify(Case& c, G const& g, Model const& m, const char* when) {
    unsigned n = m.dim, k = m.din, o = n - k;
    auto ctx = [&] { return fmt("%s (dim %u/%u %s): ", when, n, k, m.mode == CM::Full ? "full" : "diagonal"); };
    c.checkf(g.dimension.get() == n && g.covariance_mode.get() == m.mode, "shape", [&] { return ctx() + "dimension or covariance mode"; });
    c.checkf(g.mean.size() == n && g.covariance.size() == (m.mode == CM::Full ? n * n : n), "shape", [&] { return ctx() + "size of mean or covariance"; });
    for (unsigned i = 0; i < n; i++)
        for (unsigned j = 0; j < n; j++) {
            if (m.mode == CM::Diagonal && i != j) continue;
            double got = m.mode == CM::Full ? g.covariance[i * n + j] : g.covariance[i];
            c.checkf(vf::close(got, double(m.cov(i, j)), 1e-12), "covariance", [&] { return ctx() + fmt("covariance(%u,%u)=%.12g, expected %.12Lg", i, j, got, m.cov(i, j)); });
        }
    la::Normal N(m.mu, m.cov), NI;
    // the inverse of a diagonal covariance is exact whatever its condition
    if (m.mode == CM::Diagonal) N.cond = std::min(N.cond, R(100));
    if (!N.ok || N.cond > 1e9L) throw vf::Discard("ill-conditioned covariance");
    if (m.bim) {
        NI = la::Normal(V(m.mu.begin(), m.mu.begin() + k), la::sub(m.cov, 0, k, 0, k));
        if (!NI.ok) throw vf::Discard("ill-conditioned input covariance");
    }
    double cond = double(N.cond);
    for (int t = 0; t < 6; t++) {
        std::vector<float> x(n);
        V xr(n);
        double spread = t == 0 ? 0 : t == 5 ? 40 : c.rng.real(0.2, 4);
        for (unsigned i = 0; i < n; i++) {
            x[i] = float(m.mu[i] + spread * std::sqrt(double(m.cov(i, i))) * c.rng.gauss());
            xr[i] = x[i];
        }
        auto compare = [&](double got, la::Normal const& nn, V const& v, const char* what) {
            R lp = nn.logpdf(v), d2 = nn.maha(v);
            double tol = 1e-11 + 3e-15 * cond * (1 + double(d2));
            c.checkf(got >= FLOOR && std::isfinite(got), "likelihood-range", [&] { return ctx() + fmt("%s=%.9g", what, got); });
            if (lp < std::log(1e-180L)) {
                if (lp < std::log(1e-180L) - 1 - tol * 10) c.checkf(got == FLOOR, "likelihood-floor", [&] { return ctx() + fmt("%s=%.9g, the reference is below the floor (log %.9Lg)", what, got, lp); });
                return;
            }
            c.checkf(std::fabs(std::log(got) - double(lp)) <= tol + 1e-12 * std::fabs(double(lp)), "likelihood",
                     [&] { return ctx() + fmt("%s: log likelihood %.15g, reference %.15Lg (tolerance %.3g)", what, std::log(got), lp, tol); });
            c.count("likelihoods compared");
        };
        double l = g.likelihood(x.data());
        compare(l, N, xr, "likelihood");
        if (m.bim) {
            compare(g.likelihood_bimodal(x.data(), x.data() + k), N, xr, "bimodal likelihood");
            std::vector<float> xi(x.begin(), x.begin() + k);  // exactly the input: reading further is an error
            compare(g.likelihood_input(xi.data()), NI, V(xr.begin(), xr.begin() + k), "input likelihood");
            // E[output | input] and its covariance
            std::vector<float> pred(c.rng.in(0, 5), 7.f);
            g.regression(xi, pred);
            c.checkf(pred.size() == o, "regression-size", [&] { return ctx() + fmt("prediction of size %zu", pred.size()); });
            for (unsigned d = 0; d < o; d++) {
                R want = m.mu[k + d], mag = std::fabs(want);
                for (unsigned e = 0; e < k; e++)
                    for (unsigned f = 0; f < k; f++) {
                        R term = m.cov(k + d, e) * NI.inv(e, f) * (xr[f] - m.mu[f]);
                        want += term;
                        mag += std::fabs(term);
                    }
                double tol = double(mag) * (4e-7 * (k + 2) + 1e-14 * cond) + 1e-30;
                c.checkf(std::fabs(pred[d] - double(want)) <= tol, "regression", [&] { return ctx() + fmt("prediction[%u]=%.9g, reference %.9Lg (tolerance %.3g)", d, pred[d], want, tol); });
                c.count("regressions compared");
            }
        }
    }
    if (m.bim) {
        M ii = NI.inv, oi = la::sub(m.cov, k, n, 0, k), oo = la::sub(m.cov, k, n, k, n);
        M corr = la::mul(oi, la::mul(ii, la::tr(oi)));
        bool full = m.mode == CM::Full;
        c.checkf(g.output_covariance.size() == (full ? o * o : o), "output-covariance", [&] { return ctx() + "size of the conditional covariance"; });
        for (unsigned i = 0; i < o; i++)
            for (unsigned j = 0; j < o; j++) {
                if (!full && i != j) continue;
                double got = g.output_covariance[full ? i * o + j : i];
                R want = oo(i, j) - corr(i, j);
                R mag = std::fabs(oo(i, j)) + std::sqrt(oo(i, i) * oo(j, j));
                c.checkf(std::fabs(got - double(want)) <= double(mag) * (1e-13 + 2e-15 * cond), "output-covariance",
                         [&] { return ctx() + fmt("conditional covariance(%u,%u)=%.12g, reference %.12Lg", i, j, got, want); });
            }
        c.count("conditional covariances compared");
    } else {
        std::vector<float> v(n, 0.f), p;
        c.check(throws([&] { g.likelihood_input(v.data()); }) && throws([&] { g.likelihood_bimodal(v.data(), v.data()); }) && throws([&] { g.regression(v, p); }),
                "missing-exception", ctx() + "a bimodal query on a unimodal gaussian was accepted");
    }
    c.nontrivial = n > 1;
}

G* scratchGaussian(Case& c) {
    bool bim = c.rng.chance(0.5);
    return new G(bim, 3, bim ? 1 : 0, CM::Diagonal);
}

void gaussianHistory(Case& c) {
    Model m;
    m.bim = c.rng.chance(0.6);
    m.dim = c.rng.in(m.bim ? 2 : 1, c.rng.chance(0.1) ? 12 : 6);
    m.din = m.bim ? c.rng.in(1, m.dim - 1) : 0;
    m.mode = c.rng.chance(0.6) ? CM::Full : CM::Diagonal;
    std::unique_ptr<G> g(new G(m.bim, m.dim, m.din, m.mode));
    c.log(fmt("%s gaussian dim=%u din=%u %s", m.bim ? "bimodal" : "unimodal", m.dim, m.din, m.mode == CM::Full ? "full" : "diagonal"));
    {
        std::vector<float> v(m.dim, 0.f);
        c.check(throws([&] { g->likelihood(v.data()); }), "missing-exception", "likelihood of an unset gaussian was accepted");
        c.check(throws([&] { g->updateInverseCovariance(); }), "missing-exception", "inverting a null covariance was accepted");
    }
    randomise(c, m);
    install(*g, m);
    verify(c, *g, m, "set");
    int steps = c.rng.in(1, 6);
    for (int i = 0; i < steps; i++) {
        const char* what = "";
        switch (c.rng.in(0, 7)) {
            case 0:
                what = "new parameters";
                randomise(c, m);
                install(*g, m);
                break;
            case 1: {
                CM to = c.rng.chance(0.5) ? CM::Full : CM::Diagonal;
                if (to == CM::Full && leastPivot(m.cov) < 4e-9L) to = m.mode;
                what = to == m.mode ? "same covariance mode" : "other covariance mode";
                g->covariance_mode.set(to);
                if (to == CM::Diagonal)
                    for (unsigned a = 0; a < m.dim; a++)
                        for (unsigned b = 0; b < m.dim; b++)
                            if (a != b) m.cov(a, b) = 0;
                m.mode = to;
                break;
            }
            case 2: {
                what = "regularisation";
                std::vector<double> r(m.dim);
                for (unsigned a = 0; a < m.dim; a++) {
                    r[a] = c.rng.real(0, 2);
                    m.cov(a, a) = R(double(m.cov(a, a)) + r[a]);
                }
                g->regularize(r);
                g->updateInverseCovariance();
                break;
            }
            case 3: {
                what = "copy";
                std::unique_ptr<G> h(new G(*g));
                if (c.rng.chance(0.5)) {  // the source changes, then dies
                    Model other = m;
                    randomise(c, other);
                    install(*g, other);
                }
                g = std::move(h);
                break;
            }
            case 4: {
                what = "assignment";
                std::unique_ptr<G> h(scratchGaussian(c));
                *h = *g;
                g = std::move(h);
                break;
            }
            case 5: {
                what = "JSON";
                Json::Value j = g->toJson();
                if (c.rng.chance(0.5))
                    g.reset(new G(j));
                else {
                    g.reset(scratchGaussian(c));
                    g->fromJson(j);
                }
                c.check(g->toJson() == j, "json", "JSON of the restored gaussian differs");
                break;
            }
            case 6: {
                what = "other dimension";
                m.dim = c.rng.in(m.bim ? 2 : 1, c.rng.chance(0.1) ? 12 : 6);
                g->dimension.set(m.dim);
                if (m.bim) {
                    m.din = c.rng.in(1, m.dim - 1);
                    g->dimension_input.set(m.din);
                }
                randomise(c, m);
                install(*g, m);
                break;
            }
            case 7: {
                what = "rejected singular covariance, then new parameters";
                if (m.mode == CM::Full) {
                    unsigned z = c.rng.in(0, m.dim - 1);
                    for (unsigned a = 0; a < m.dim; a++) g->covariance[z * m.dim + a] = g->covariance[a * m.dim + z] = 0;
                } else
                    g->covariance[c.rng.in(0, m.dim - 1)] = c.rng.chance(0.5) ? 0 : -1;
                c.check(throws([&] { g->updateInverseCovariance(); }), "missing-exception", "inverting a singular covariance was accepted");
                randomise(c, m);
                install(*g, m);
                break;
            }
        }
        c.log(what);
        c.count("operations");
        verify(c, *g, m, what);
    }
}

// sums, exchanges of lines and columns, copies, data shared with a vector, resizing
void matrixUse(Case& c, xmm::Matrix<double> const& a) {
    typedef xmm::Matrix<double> X;
    unsigned r = a.nrows, k = a.ncols;
    auto same = [&](X const& m, std::vector<double> const& v, const char* key) {
        c.check(m.nrows * m.ncols == v.size(), key, "shape of the matrix");
        long double sum = 0, abs = 0;
        for (size_t i = 0; i < v.size(); i++) {
            c.check(m.data[long(i)] == v[i], key, "element of the matrix");
            sum += v[i];
            abs += std::fabs(v[i]);
        }
        // the sum is single precision
        c.checkf(std::fabs(m.sum() - double(sum)) <= 1e-7 * double(v.size() + 1) * double(abs), "sum", [&] { return fmt("%s: sum %.9g, reference %.9Lg", key, m.sum(), sum); });
        c.count("matrices compared");
    };
    std::vector<double> v = a._data;
    same(a, v, "matrix");
    std::unique_ptr<X> src(new X(a)), copy;
    std::unique_ptr<X> target(new X((unsigned)c.rng.in(1, 6), (unsigned)c.rng.in(1, 6)));
    if (c.rng.chance(0.5))
        copy.reset(new X(*src));
    else {
        *target = *src;
        copy = std::move(target);
    }
    for (auto& x : src->_data) x += 1;  // the source changes
    same(*copy, v, "copy");
    if (c.rng.chance(0.5)) src.reset();
    same(*copy, v, "copy");
    std::vector<double> w = v;
    X shared(r, k, w.begin());
    unsigned i = unsigned(c.rng.in(0, int(r) - 1)), j = unsigned(c.rng.in(0, int(r) - 1));
    copy->swap_lines(i, j);
    shared.swap_lines(i, j);
    for (unsigned q = 0; q < k; q++) std::swap(v[i * k + q], v[j * k + q]);
    same(*copy, v, "exchanged-lines");
    i = unsigned(c.rng.in(0, int(k) - 1));
    j = unsigned(c.rng.in(0, int(k) - 1));
    copy->swap_columns(i, j);
    shared.swap_columns(i, j);
    for (unsigned q = 0; q < r; q++) std::swap(v[q * k + i], v[q * k + j]);
    same(*copy, v, "exchanged-columns");
    same(shared, v, "shared");
    c.check(w == v, "shared", "the vector a matrix shares is not the matrix");
    X alias(shared);
    alias.data[0] = 17;
    c.check(w[0] == 17, "shared", "a copy of a matrix with shared data does not share them");
    // a new size, also from nothing
    X empty;
    X& z = c.rng.chance(0.5) ? *copy : empty;
    unsigned nr = unsigned(c.rng.in(1, 8)), nc = unsigned(c.rng.in(1, 8));
    if (z.nrows == z.ncols && c.rng.chance(0.5)) {
        nc = nr;
        z.resize(nr);
    } else
        z.resize(nr, nc);
    c.check(z.nrows == nr && z.ncols == nc && z._data.size() == nr * nc, "resize", "size of a resized matrix");
    std::vector<double> n(nr * nc);
    for (auto& x : n) x = c.rng.in(-4, 4);
    for (size_t q = 0; q < n.size(); q++) z._data[q] = n[q];
    same(z, n, "resize");
    std::unique_ptr<X> t(z.transpose());
    for (unsigned p = 0; p < nr; p++)
        for (unsigned q = 0; q < nc; q++) c.check(t->_data[q * nr + p] == n[p * nc + q], "resize", "transposed element of a resized matrix");
    if (nr != nc) c.check(throws([&] { z.resize(3); }), "missing-exception", "one size for a matrix that is not square was accepted");
}

void matrixCase(Case& c) {
    typedef xmm::Matrix<double> X;
    int r = c.rng.in(1, 6), k = c.rng.chance(0.6) ? r : c.rng.in(1, 6);
    bool integers = c.rng.chance(0.6);
    X a((unsigned) r, (unsigned) k);
    M ar(r, k);
    for (int i = 0; i < r * k; i++) {
        double v = integers ? c.rng.in(-3, 3) : c.rng.gauss();
        if (c.rng.chance(0.2)) v = 0;
        a._data[i] = v;
        ar.a[i] = v;
    }
    if (r == k && r > 1 && c.rng.chance(0.15)) {  // duplicated line: singular
        int p = c.rng.in(0, r - 1), q = (p + 1) % r;
        for (int j = 0; j < k; j++) {
            a._data[q * k + j] = a._data[p * k + j];
            ar(q, j) = ar(p, j);
        }
    }
    c.log(fmt("matrix %dx%d %s", r, k, vf::show(a._data).c_str()));
    c.nontrivial = r > 1 && k > 1;
    matrixUse(c, a);
    std::unique_ptr<X> t(a.transpose());
    c.check(t->nrows == unsigned(k) && t->ncols == unsigned(r), "transpose", "shape of the transpose");
    for (int i = 0; i < r; i++)
        for (int j = 0; j < k; j++) c.check(t->_data[j * r + i] == a._data[i * k + j], "transpose", "transposed element");
    std::unique_ptr<X> p(t->product(&a));
    M pr = la::mul(la::tr(ar), ar);
    for (size_t i = 0; i < pr.a.size(); i++) c.checkf(vf::close(p->_data[i], double(pr.a[i]), 1e-12, 1e-12 * double(la::norm(ar) * la::norm(ar) * r)), "product", [&] { return fmt("product element %zu: %.12g, reference %.12Lg", i, p->_data[i], pr.a[i]); });
    if (r != k) c.check(throws([&] { std::unique_ptr<X> z(a.product(&a)); }), "missing-exception", "product of incompatible matrices was accepted");
    // inverse: skip inputs the elimination order makes inaccurate
    bool sq = r == k;
    M target = sq ? ar : (r >= k ? la::mul(la::tr(ar), ar) : la::mul(ar, la::tr(ar)));
    {
        M e = target;
        int n = e.r;
        for (int q = 0; q < n; q++) {
            int s = q;
            while (s < n && std::fabs(e(s, q)) < 1e-9L) {
                if (std::fabs(e(s, q)) > 1e-14L) throw vf::Discard("pivot near the singularity threshold");
                s++;
            }
            if (s == n) {
                double det;
                c.check(throws([&] { std::unique_ptr<X> z(a.pinv(&det)); }), "missing-exception", "inverting a singular matrix was accepted");
                c.count("singular matrices rejected");
                return;
            }
            if (std::fabs(e(s, q)) < 0.02L) throw vf::Discard("small pivot");
            for (int j = 0; j < n; j++) std::swap(e(s, j), e(q, j));
            if (s != q) c.count("inversions that exchange lines");
            for (int i = q + 1; i < n; i++) {
                R f = e(i, q) / e(q, q);
                for (int j = q; j < n; j++) {
                    e(i, j) -= f * e(q, j);
                    if (std::fabs(e(i, j)) < 1e-13L * la::norm(target)) e(i, j) = 0;
                }
            }
        }
    }
    M inv;
    R det;
    if (!la::inverse(target, inv, det)) throw vf::Discard("singular by the reference only");
    R cond = la::norm(target) * la::norm(inv) * target.r;
    if (cond > 1e7L) throw vf::Discard("ill-conditioned matrix");
    double d = 12345;
    std::unique_ptr<X> got(a.pinv(&d));
    M want = sq ? inv : (r >= k ? la::mul(inv, la::tr(ar)) : la::mul(la::tr(ar), inv));
    c.check(got->nrows == unsigned(k) && got->ncols == unsigned(r), "inverse", "shape of the inverse");
    double tol = double(la::norm(want)) * double(cond) * 1e-12;
    for (size_t i = 0; i < want.a.size(); i++) c.checkf(std::fabs(got->_data[i] - double(want.a[i])) <= tol, "inverse", [&] { return fmt("inverse element %zu: %.12g, reference %.12Lg", i, got->_data[i], want.a[i]); });
    if (sq) c.checkf(vf::close(d, double(det), 1e-9), "determinant", [&] { return fmt("determinant %.12g, reference %.12Lg", d, det); });
    c.count("inverses compared");
}

void C08(Case& c) {
    if (c.rng.chance(0.3))
        matrixCase(c);
    else
        gaussianHistory(c);
}

void C09(Case& c) {
    unsigned n = c.rng.in(2, 5);
    CM mode = c.rng.chance(0.7) ? CM::Full : CM::Diagonal;
    bool bim = c.rng.chance(0.3);
    G g(bim, n, bim ? 1 : 0, mode);
    Model m;
    m.bim = bim;
    m.dim = n;
    m.din = bim ? 1 : 0;
    m.mode = mode;
    randomise(c, m);
    // well inside what single precision ellipses can carry
    unsigned a = c.rng.in(0, n - 1), b = c.rng.in(0, n - 2);
    if (b >= a) b++;
    int kind = c.rng.in(0, 5);
    if (kind < 3 && mode == CM::Full) {  // exact special shapes: axis aligned, isotropic, correlated
        double va = c.rng.real(0.5, 4), vb = kind == 0 ? va : c.rng.real(0.5, 4);
        for (unsigned i = 0; i < n; i++)
            for (unsigned j = 0; j < n; j++)
                if (i != j) m.cov(i, j) = 0;
        m.cov(a, a) = va;
        m.cov(b, b) = vb;
        if (kind == 2) {
            double rho = c.rng.real(-0.95, 0.95) * std::sqrt(va * vb);
            m.cov(a, b) = m.cov(b, a) = rho;
        }
    }
    install(g, m);
    R A = m.cov(a, a), B = m.cov(a, b), C = m.cov(b, b);
    R disc = std::sqrt((A - C) * (A - C) + 4 * B * B);
    R e1 = 0.5L * (A + C + disc), e2 = 0.5L * (A + C - disc);
    if (e2 < 1e-4L * e1) throw vf::Discard("degenerate ellipse");
    c.log(fmt("dim %u axes %u,%u %s cov [%.6Lg %.6Lg; %.6Lg]", n, a, b, mode == CM::Full ? "full" : "diagonal", A, B, C));
    c.nontrivial = true;
    auto checkEllipse = [&](xmm::Ellipse e, double x, double y, const char* what) {
        c.checkf(vf::close(e.x, x, 1e-6, 1e-6) && vf::close(e.y, y, 1e-6, 1e-6), "center", [&] { return fmt("%s: center (%g,%g), expected (%g,%g)", what, e.x, e.y, x, y); });
        double k1 = double(e.width) * e.width / 5.991, k2 = double(e.height) * e.height / 5.991;
        c.checkf(vf::close(k1, double(e1), 2e-6) && vf::close(k2, double(e2), 2e-6, 1e-12 * double(e1)), "axes",
                 [&] { return fmt("%s: squared axes (%g,%g), eigenvalues (%Lg,%Lg)", what, k1, k2, e1, e2); });
        c.checkf(std::isfinite(e.angle), "angle", [&] { return fmt("%s: angle is not finite", what); });
        // the covariance described by the ellipse is the covariance
        double co = std::cos(e.angle), si = std::sin(e.angle);
        double ra = k1 * co * co + k2 * si * si, rb = (k1 - k2) * co * si, rc = k1 * si * si + k2 * co * co;
        double tol = 5e-6 * double(e1);
        c.checkf(std::fabs(ra - double(A)) <= tol && std::fabs(rb - double(B)) <= tol && std::fabs(rc - double(C)) <= tol, "orientation",
                 [&] { return fmt("%s: ellipse (%g,%g,%g) describes [%g %g; %g], expected [%Lg %Lg; %Lg]", what, e.width, e.height, e.angle, ra, rb, rc, A, B, C); });
        c.count("ellipses compared");
    };
    xmm::Ellipse e = g.toEllipse(a, b);
    checkEllipse(e, double(m.mu[a]), double(m.mu[b]), "toEllipse");
    checkEllipse(xmm::covariance2ellipse(double(A), double(B), double(C)), 0, 0, "covariance2ellipse");
    // an ellipse put into another gaussian is read back, and its density follows
    G h(bim, n, m.din, mode);
    Model m2 = m;
    for (unsigned i = 0; i < n; i++) {
        m2.mu[i] = R(double(c.rng.gauss()));
        for (unsigned j = 0; j < n; j++) m2.cov(i, j) = i == j ? 1 : 0;
    }
    install(h, m2);
    h.fromEllipse(e, a, b);
    checkEllipse(h.toEllipse(a, b), double(m.mu[a]), double(m.mu[b]), "fromEllipse then toEllipse");
    m2.mu[a] = m.mu[a];
    m2.mu[b] = m.mu[b];
    m2.cov(a, a) = A;
    m2.cov(b, b) = C;
    m2.cov(a, b) = m2.cov(b, a) = B;
    for (unsigned i = 0; i < n; i++) {
        c.checkf(vf::close(h.mean[i], double(m2.mu[i]), 1e-6, 1e-6), "mean", [&] { return fmt("mean[%u]=%g, expected %Lg", i, h.mean[i], m2.mu[i]); });
        for (unsigned j = 0; j < n; j++) {
            if (mode == CM::Diagonal && i != j) continue;
            double got = mode == CM::Full ? h.covariance[i * n + j] : h.covariance[i];
            c.checkf(vf::close(got, double(m2.cov(i, j)), 1e-5, 1e-5 * double(e1)), "covariance", [&] { return fmt("covariance(%u,%u)=%g, expected %Lg", i, j, got, m2.cov(i, j)); });
        }
    }
    la::Normal N(m2.mu, m2.cov);
    for (int t = 0; t < 4; t++) {
        std::vector<float> x(n);
        V xr(n);
        for (unsigned i = 0; i < n; i++) xr[i] = x[i] = float(m2.mu[i] + std::sqrt(double(m2.cov(i, i))) * c.rng.gauss());
        double l = std::log(h.likelihood(x.data()));
        if (N.logpdf(xr) < std::log(1e-180L) * 0.9L) continue;  // near the floor of the densities: C08's
        // the centre of an ellipse is single precision: off by this many standard deviations
        double shift = 1.2e-7 * double(std::max(std::fabs(m.mu[a]), std::fabs(m.mu[b]))) / std::sqrt(double(e2));
        double slack = 2 * shift * (std::sqrt(double(N.maha(xr))) + shift);
        c.checkf(std::fabs(l - double(N.logpdf(xr))) <= slack + 1e-4 * double(e1 / e2) * (1 + double(N.maha(xr))), "likelihood", [&] { return fmt("log likelihood after fromEllipse %.9g, reference %.9Lg", l, N.logpdf(xr)); });
    }
    for (int t = 0; t < 2; t++) {
        bool thrown = false;
        try {
            t ? (void)g.toEllipse(t == 1 ? n : a, n + 1) : g.fromEllipse(e, a, n);
        } catch (std::out_of_range&) {
            thrown = true;
        }
        c.check(thrown, "bounds", "an axis beyond the dimension was accepted");
    }
}
}  // namespace

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"C08", 12000, 600000, C08, 10}, {"C09", 20000, 600000, C09, 0}});
}
