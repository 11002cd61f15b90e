// C21: k-means against an independent Lloyd in long double
#include "models.hpp"
#include <cfloat>

using namespace md;
typedef xmm::KMeans::InitializationMode Init;

namespace {
typedef std::vector<V> Centers;

R dist(V const& a, V const& b) {
    R s = 0;
    for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]);
    return std::sqrt(s);
}
struct Ref {
    std::vector<V> frames;   // all frames, in the order of the phrases
    std::vector<V> first;    // those of the first phrase
    size_t dim = 0;
    R scale = 0;             // largest coordinate, for the tolerances
    std::vector<R> stddev;
};
Ref refData(Data const& d) {
    Ref r;
    r.dim = d.dim;
    std::map<int, Ph const*> order;
    for (auto const& p : d.phrases) order[p.index] = &p;
    bool first = true;
    for (auto const& p : order) {
        for (auto const& row : p.second->rows) {
            V v(row.begin(), row.end());
            r.frames.push_back(v);
            if (first) r.first.push_back(v);
            for (R x : v) r.scale = std::max(r.scale, std::fabs(x));
        }
        first = false;
    }
    return r;
}
Centers biased(Ref const& r, size_t k) {
    Centers c(k, V(r.dim, 0));
    size_t step = r.first.size() / k;
    for (size_t i = 0; i < k; i++)
        for (size_t t = 0; t < step; t++)
            for (size_t d = 0; d < r.dim; d++) c[i][d] += r.first[i * step + t][d] / R(step);
    return c;
}
// membership; near is set when rounding could decide otherwise
std::vector<size_t> assign(Ref const& r, Centers const& c, bool& near) {
    std::vector<size_t> m;
    R tol = 1e-4L * r.scale;
    for (auto const& f : r.frames) {
        size_t best = 0;
        R d0 = dist(f, c[0]);
        for (size_t k = 1; k < c.size(); k++) {
            R d = dist(f, c[k]);
            if (d < d0) {
                d0 = d;
                best = k;
            }
        }
        for (size_t k = 0; k < c.size(); k++)
            if (k != best && c[k] != c[best] && dist(f, c[k]) < d0 + tol * 0.02L + 1e-6L * d0) near = true;
        // centres that coincide exactly: the first one wins in any arithmetic
        m.push_back(best);
    }
    return m;
}
Centers means(Ref const& r, std::vector<size_t> const& m, size_t k) {
    Centers c(k, V(r.dim, 0));
    std::vector<size_t> n(k, 0);
    for (size_t i = 0; i < m.size(); i++) {
        n[m[i]]++;
        for (size_t d = 0; d < r.dim; d++) c[m[i]][d] += r.frames[i][d];
    }
    for (size_t i = 0; i < k; i++)
        if (n[i])
            for (size_t d = 0; d < r.dim; d++) c[i][d] /= R(n[i]);
    return c;
}
// Lloyd with the library's stopping rule; throws Discard where rounding decides
Centers lloyd(Ref const& r, Centers c, unsigned iterations, R threshold, unsigned& used) {
    size_t k = c.size();
    used = 0;
    for (unsigned it = 0; it < iterations; it++) {
        bool near = false;
        auto m = assign(r, c, near);
        if (near) throw vf::Discard("a frame is nearly as close to two centres");
        Centers prev = c;
        c = means(r, m, k);
        used++;
        R pair = 0, var = 0;
        for (size_t a = 0; a < k; a++) {
            for (size_t b = 0; b < k; b++)
                if (a != b) pair += dist(c[a], c[b]);
            var = std::max(var, dist(prev[a], c[a]));
        }
        pair /= R(k * (k - 1));
        if (k > 1 && pair > 0) {
            R v = var / R(k) / pair;
            // rounding alone may move a centre, or not
            if (var > 0 && var < 1e-5L * r.scale) throw vf::Discard("movement of the size of the rounding");
            if (threshold > 1e-12L && v > 0 && std::fabs(v / threshold - 1) < 1e-3L) throw vf::Discard("movement at the threshold");
            if (v < threshold) break;
        }
    }
    return c;
}
R distortion(Ref const& r, Centers const& c) {
    R s = 0;
    for (auto const& f : r.frames) {
        R b = dist(f, c[0]);
        for (auto const& k : c) b = std::min(b, dist(f, k));
        s += b * b;
    }
    return s;
}
Centers centersOf(xmm::KMeans const& k, size_t dim) {
    Centers c;
    for (size_t i = 0; i + dim <= k.centers.size(); i += dim) c.push_back(V(k.centers.begin() + long(i), k.centers.begin() + long(i + dim)));
    return c;
}
void compare(Case& c, Centers const& got, Centers const& want, Ref const& r, std::string const& what) {
    c.checkf(got.size() == want.size(), "centres-count", [&] { return what + fmt(": %zu centres, expected %zu", got.size(), want.size()); });
    for (size_t k = 0; k < want.size(); k++)
        for (size_t d = 0; d < r.dim; d++)
            c.checkf(std::fabs(got[k][d] - want[k][d]) <= 2e-5L * r.scale + 1e-6L * R(r.frames.size()) * r.scale * 0.02L, "centres",
                     [&] { return what + fmt(": centre %zu is %.9g in dimension %zu, expected %.9g", k, double(got[k][d]), d, double(want[k][d])); });
}

void filtering(Case& c, xmm::KMeans& k, Data const& d, Ref const& r) {
    Centers cs = centersOf(k, d.dim);
    k.reset();
    int n = c.rng.in(1, 12);
    for (int i = 0; i < n; i++) {
        Row x(d.dim);
        int kind = c.rng.in(0, 5);
        if (kind < 3 && !r.frames.empty()) {
            V const& f = r.frames[size_t(c.rng.in(0, int(r.frames.size()) - 1))];
            for (unsigned j = 0; j < d.dim; j++) x[j] = float(f[j] + R(c.rng.gauss()) * r.scale * 0.05L);
        } else if (kind == 3) {
            V const& f = cs[size_t(c.rng.in(0, int(cs.size()) - 1))];
            for (unsigned j = 0; j < d.dim; j++) x[j] = float(f[j]);
        } else {
            // up to where the squared distance is still a float
            double far = kind == 4 ? double(r.scale) : std::min(double(r.scale) * std::pow(10., c.rng.chance(0.5) ? 3. : c.rng.real(3, 15)), 1e18);
            for (auto& v : x) v = float(c.rng.gauss() * far);
        }
        k.filter(x);
        c.checkf(k.results.distances.size() == cs.size(), "distances-size", [&] { return fmt("%zu distances for %zu centres", k.results.distances.size(), cs.size()); });
        V v(x.begin(), x.end());
        R mag = r.scale;
        for (R q : v) mag = std::max(mag, std::fabs(q));
        size_t best = 0;
        for (size_t j = 0; j < cs.size(); j++) {
            R want = dist(v, cs[j]);
            c.checkf(std::fabs(R(k.results.distances[j]) - want) <= 1e-5L * want + 1e-6L * mag, "distances", [&] { return fmt("distance to centre %zu is %.9g, expected %.9g", j, k.results.distances[j], double(want)); });
            if (want < dist(v, cs[best])) best = j;
        }
        unsigned l = k.results.likeliest;
        c.checkf(l < cs.size(), "nearest", [&] { return fmt("nearest centre %u of %zu", l, cs.size()); });
        c.checkf(l == best || dist(v, cs[l]) <= dist(v, cs[best]) * (1 + 1e-5L) + 2e-6L * mag, "nearest", [&] { return fmt("nearest centre is %u at %.9g, expected %zu at %.9g", l, double(dist(v, cs[l])), best, double(dist(v, cs[best]))); });
        // among equal distances, and when it is reported smaller, the index agrees with the distances
        for (float q : k.results.distances) c.check(k.results.distances[l] <= q, "nearest", "the nearest centre does not have the smallest reported distance");
        c.count("observations filtered");
    }
}
template <typename F>
bool throws(F&& f) {
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}

void C21(Case& c) {
    vf::Rng& r = c.rng;
    xmm::KMeans k(unsigned(r.in(1, 5)));
    c.check(throws([&] { k.filter(Row(k.shared_parameters->dimension.get(), 0.f)); }), "untrained", "filtering with an untrained k-means does not throw");
    {
        xmm::TrainingSet none;
        auto before = k.centers;
        k.train(&none);
        k.train(nullptr);
        c.check(k.centers == before, "empty-set", "training with an empty set changed the centres");
    }
    int rounds = r.in(1, 3);
    for (int round = 0; round < rounds; round++) {
        DataSpec s;
        s.maxDim = 5;
        s.maxLen = r.chance(0.2) ? 60 : 18;
        s.minLen = 1;
        s.large = 0.04;
        s.emptyPhrase = 0.1;
        Data d = randomData(c, s);
        auto ts = d.build();
        Ref ref = refData(d);
        k.configuration.clusters.set(unsigned(r.chance(0.04) ? r.in(10, 40) : r.chance(0.2) ? r.in(5, 9) : r.in(1, 4)));
        k.configuration.max_iterations.set(unsigned(r.chance(0.3) ? r.in(1, 3) : r.in(4, 60)));
        static const float thresholds[] = {0, 1e-20f, 1e-3f, 0.01f, 0.05f, 0.3f};
        k.configuration.relative_distance_threshold.set(thresholds[r.in(0, 5)]);
        k.initialization_mode = r.chance(0.6) ? Init::Biased : Init::Random;
        unsigned n = k.configuration.clusters.get(), iterations = k.configuration.max_iterations.get();
        R threshold = k.configuration.relative_distance_threshold.get();
        c.log(describe(d) + fmt("; %u clusters, at most %u iterations, threshold %g, %s", n, iterations, double(threshold), k.initialization_mode == Init::Biased ? "first phrase" : "random"));
        Centers start;
        if (k.initialization_mode == Init::Biased) {
            start = biased(ref, n);
        } else {
            unsigned seed = unsigned(r.next());
            auto sd = ts->standardDeviation();
            srandom(seed);
            for (unsigned i = 0; i < n; i++) {
                V v;
                for (unsigned j = 0; j < d.dim; j++) v.push_back(R(float(sd[j] * (2. * random() / float(RAND_MAX) - 1.))));
                start.push_back(v);
            }
            srandom(seed);
        }
        k.train(ts.get());
        c.count("trainings");
        c.check(k.shared_parameters->dimension.get() == d.dim, "dimension", "the model does not have the dimension of the set");
        Centers got = centersOf(k, d.dim);
        c.checkf(k.centers.size() == n * d.dim, "centres-count", [&] { return fmt("%zu coordinates for %u clusters in dimension %u", k.centers.size(), n, d.dim); });
        for (float v : k.centers) c.check(std::isfinite(v), "centres-finite", "a centre is not finite");
        try {
            unsigned used = 0;
            Centers want = lloyd(ref, start, iterations, threshold, used);
            compare(c, got, want, ref, k.initialization_mode == Init::Biased ? "first-phrase initialisation" : "random initialisation");
            c.count("centres compared with the reference");
            c.count("iterations of the reference", used);
            if (used > 1) c.nontrivial = true;
            if (used < iterations) c.count("trainings stopped by the threshold or by convergence");
        } catch (vf::Discard& e) {
            c.count("not compared: " + e.why);
        }
        filtering(c, k, d, ref);
        // whatever the start, many iterations end in a fixed point
        if (r.chance(0.3)) {
            xmm::KMeans m(n);
            m.configuration.max_iterations.set(400);
            m.configuration.relative_distance_threshold.set(0);
            m.initialization_mode = r.chance(0.7) ? Init::Random : Init::Biased;
            m.train(ts.get());
            Centers fix = centersOf(m, d.dim);
            bool near = false;
            auto mem = assign(ref, fix, near);
            if (!near) {
                compare(c, fix, means(ref, mem, n), ref, "fixed point");
                c.count("fixed points");
            }
        }
        // more iterations never increase the distortion
        if (r.chance(0.4)) {
            R last = -1;
            R slack = 1e-5L * ref.scale * ref.scale * R(ref.frames.size() + 1) * R(d.dim);
            for (unsigned i = 1; i <= 8; i++) {
                xmm::KMeans m(n);
                m.configuration.max_iterations.set(i);
                m.configuration.relative_distance_threshold.set(0);
                m.initialization_mode = Init::Biased;
                m.train(ts.get());
                R now = distortion(ref, centersOf(m, d.dim));
                c.checkf(last < 0 || now <= last + slack, "distortion", [&] { return fmt("distortion %.9g after %u iterations, %.9g after %u", double(now), i, double(last), i - 1); });
                last = now;
            }
            c.count("distortion sequences");
        }
        c.check(throws([&] { k.filter(Row(d.dim + 1, 0.f)); }) && throws([&] { k.filter(Row()); }), "wrong-size", "an observation of the wrong size is accepted");
        if (r.chance(0.3)) {
            unsigned was = k.configuration.clusters.get();
            k.configuration.clusters.set(was + 1);
            c.check(throws([&] { k.filter(Row(d.dim, 0.f)); }), "stale", "filtering after a change of the number of clusters does not throw");
            k.configuration.clusters.set(was);
            filtering(c, k, d, ref);
        }
        if (r.chance(0.3)) {
            xmm::KMeans copy(k);
            c.check(copy.centers == k.centers && copy.configuration.clusters.get() == n, "copy", "a copy has other centres");
            filtering(c, copy, d, ref);
        }
    }
}
}  // namespace

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"C21", 13000, 300000, C21, 50}});
}
