// C07: malformed documents against every readable type
#include "jsonio.hpp"
#include <new>

// An allocation no reasonable document needs fails as it would on a machine
// without that much memory, instead of ending the process.
static const size_t TooMuch = size_t(64) << 20;
static void* get(size_t n) {
    void* p = n > TooMuch ? nullptr : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

using namespace md;
using namespace jio;
typedef std::vector<std::string> Strings;

namespace {

// ----------------------------------------------------------------- mutation
void collect(Json::Value& v, std::string const& path, std::vector<std::pair<Json::Value*, std::string>>& out) {
    out.push_back({&v, path});
    if (v.isArray())
        for (Json::ArrayIndex i = 0; i < v.size(); i++) collect(v[i], path + fmt("[%u]", i), out);
    else if (v.isObject())
        for (auto const& k : v.getMemberNames()) collect(v[k], path + "." + k, out);
}
Json::Value badNumber(vf::Rng& r, Json::Value const& old) {
    double o = old.isNumeric() ? old.asDouble() : 1;
    switch (r.in(0, 17)) {
    case 0: return -1;
    case 1: return 0;
    case 2: return 1;
    case 3: return Json::Value(Json::Int64(std::max(-1e15, std::min(1e15, o)) + 1));
    case 4: return Json::Value(Json::Int64(std::max(-1e15, std::min(1e15, o)) - 1));
    case 5: return Json::Value(Json::Int64(2147483647));
    case 6: return Json::Value(Json::Int64(2147483648LL));
    case 7: return Json::Value(Json::Int64(4294967295LL));
    case 8: return Json::Value(Json::Int64(4294967296LL));
    case 9: return Json::Value(Json::Int64(1000000000));
    case 10: return 1e18;
    case 11: return o + 0.5;
    case 12: return 1e300;
    case 13: return -1e300;
    case 14: return -o;
    case 15: return Json::Value(Json::Int64(65536));
    case 16: return r.in(2, 12);
    default: return 1e-300;
    }
}
Json::Value badValue(Case& c, Json::Value const& old) {
    vf::Rng& r = c.rng;
    switch (r.in(0, 9)) {
    case 0: return Json::Value();
    case 1: return r.chance(0.5);
    case 2: return awkward(r);
    case 3: return Json::Value(Json::arrayValue);
    case 4: return Json::Value(Json::objectValue);
    case 5: {
        Json::Value v(Json::arrayValue);
        for (int i = r.in(1, 5); i > 0; i--) v.append(r.gauss());
        return v;
    }
    case 6: {
        Json::Value v(Json::objectValue);
        for (int i = r.in(1, 4); i > 0; i--) v[fmt("m%d", i)] = r.gauss();
        return v;
    }
    default: return badNumber(r, old);
    }
}
std::string brief(Json::Value const& v) {
    std::string s = text(v);
    while (!s.empty() && s.back() == '\n') s.pop_back();
    return s.size() > 60 ? s.substr(0, 60) + "..." : s;
}
// products of sizes that vanish in 32-bit arithmetic
bool overflow(Case& c, Json::Value& root) {
    std::vector<std::pair<Json::Value*, std::string>> nodes;
    collect(root, "", nodes);
    std::vector<std::pair<Json::Value*, std::string>> fit;
    for (auto& n : nodes)
        if (n.first->isObject() && (n.first->isMember("length") || n.first->isMember("covariance") || n.first->isMember("transition"))) fit.push_back(n);
    if (fit.empty()) return false;
    auto at = fit[c.rng.next() % fit.size()];
    Json::Value& v = *at.first;
    if (v.isMember("length")) {
        v["dimension"] = 65536;
        v["length"] = 65536;
        if (v["bimodal"].asBool()) {
            v["dimension_input"] = 32768;
            v["length"] = 131072;
            v["data_input"] = Json::Value(Json::arrayValue);
            v["data_output"] = Json::Value(Json::arrayValue);
        } else
            v["data"] = Json::Value(Json::arrayValue);
    } else if (v.isMember("covariance")) {
        v["dimension"] = 65536;
        Json::Value zeros(Json::arrayValue);
        zeros.resize(65536);
        for (Json::ArrayIndex i = 0; i < 65536; i++) zeros[i] = 0.0;
        v["mean"] = zeros;
        v["covariance"] = Json::Value(Json::arrayValue);
        v["inverse_covariance"] = Json::Value(Json::arrayValue);
        v["output_covariance"] = Json::Value(Json::arrayValue);
    } else
        return false;
    c.log("sizes that overflow at " + at.second);
    return true;
}
// the role of a node: its member name, or that of the array it is in
std::string role(std::string const& path) {
    size_t end = path.size();
    bool element = false;
    if (end && path[end - 1] == ']') {
        element = true;
        end = path.rfind('[');
    }
    size_t dot = end ? path.rfind('.', end - 1) : std::string::npos;
    std::string key = dot == std::string::npos ? std::string() : path.substr(dot + 1, end - dot - 1);
    // the classes of a model, the phrases of a set...
    return element ? key + "[]" : key;
}
// a part of another document, valid by itself
bool graft(Case& c, Json::Value& root, Json::Value& donor) {
    std::vector<std::pair<Json::Value*, std::string>> nodes, from, fit;
    collect(root, "", nodes);
    collect(donor, "", from);
    for (int tries = 0; tries < 20; tries++) {
        auto& at = nodes[c.rng.next() % nodes.size()];
        if (!(at.first->isObject() || (at.first->isArray() && c.rng.chance(0.5)) || c.rng.chance(0.05)) || at.second.empty()) continue;
        fit.clear();
        for (auto& f : from)
            if (role(f.second) == role(at.second) && f.first->type() == at.first->type() && *f.first != *at.first) fit.push_back(f);
        if (fit.empty()) continue;
        auto& f = fit[c.rng.next() % fit.size()];
        Json::Value v = *f.first;
        *at.first = v;
        c.log(at.second + " = " + f.second + " of another document");
        c.count("mutation: part of another document");
        return true;
    }
    return false;
}
void mutate(Case& c, Json::Value& root, Json::Value* donor) {
    vf::Rng& r = c.rng;
    if (r.chance(0.03) && overflow(c, root)) return;
    if (donor && graft(c, root, *donor) && r.chance(0.8)) return;
    int n = r.chance(0.7) ? 1 : r.in(2, 4);
    for (int k = 0; k < n; k++) {
        std::vector<std::pair<Json::Value*, std::string>> nodes;
        collect(root, "", nodes);
        // prefer members of objects to the numbers in the arrays
        auto* at = &nodes[r.next() % nodes.size()];
        for (int tries = 0; tries < 3 && at->second.size() && at->second.back() == ']' && at->first->isNumeric(); tries++) at = &nodes[r.next() % nodes.size()];
        Json::Value& v = *at->first;
        std::string const& path = at->second;
        int kind = r.in(0, 9);
        if (v.isObject() && kind < 4 && v.size()) {
            auto m = v.getMemberNames();
            std::string key = r.pick(m);
            if (r.chance(0.6)) {
                v.removeMember(key);
                c.log("remove " + path + "." + key);
                c.count("mutation: member removed");
            } else {
                std::string other = r.chance(0.7) ? r.pick(m) : awkward(r);
                Json::Value a = v[key];
                v[key] = v[other];
                v[other] = a;
                c.log("swap " + path + "." + key + " with " + other);
                c.count("mutation: members swapped");
            }
        } else if (v.isArray() && kind < 7) {
            switch (r.in(0, 4)) {
            case 0:
                v.append(v.size() && r.chance(0.7) ? v[Json::ArrayIndex(r.in(0, int(v.size()) - 1))] : Json::Value(r.gauss()));
                c.log("append to " + path);
                c.count("mutation: array longer");
                break;
            case 1:
                if (v.size()) v.resize(v.size() - 1);
                c.log("shorten " + path);
                c.count("mutation: array shorter");
                break;
            case 2:
                v.resize(Json::ArrayIndex(r.in(0, 2 * int(v.size()) + 3)));
                c.log(fmt("resize %s to %u", path.c_str(), v.size()));
                c.count("mutation: array resized");
                break;
            case 3:
                if (v.size()) {
                    auto i = Json::ArrayIndex(r.in(0, int(v.size()) - 1));
                    v[i] = badValue(c, v[i]);
                    c.log(fmt("%s[%u] = ", path.c_str(), i) + brief(v[i]));
                    c.count("mutation: element replaced");
                }
                break;
            default:
                if (v.size() > 1) {
                    auto i = Json::ArrayIndex(r.in(0, int(v.size()) - 1)), j = Json::ArrayIndex(r.in(0, int(v.size()) - 1));
                    v[i] = Json::Value(v[j]);
                    c.log(fmt("%s[%u] = copy of [%u]", path.c_str(), i, j));
                    c.count("mutation: element duplicated");
                }
            }
        } else if (kind == 9) {
            auto& from = nodes[r.next() % nodes.size()];
            Json::Value copy = *from.first;
            v = copy;
            c.log(path + " = copy of " + from.second);
            c.count("mutation: subtree copied");
        } else if (v.isNumeric() && kind < 8) {
            v = badNumber(r, v);
            c.log(path + " = " + brief(v));
            c.count("mutation: number replaced");
        } else {
            v = badValue(c, v);
            c.log(path + " = " + brief(v));
            c.count("mutation: node retyped");
        }
    }
}

// --------------------------------------------------------------- consistency
void consistent(Case& c, xmm::Phrase& p, std::string const& ctx) {
    unsigned dim = p.dimension.get(), din = p.dimension_input.get();
    c.checkf(p.bimodal() ? dim >= 2 && din >= 1 && din < dim : dim >= 1 && din == 0, "phrase-dimensions", [&] { return ctx + fmt("dimensions %u/%u of a %s phrase", dim, din, p.bimodal() ? "bimodal" : "unimodal"); });
    c.checkf(p.column_names.size() == dim, "phrase-columns", [&] { return ctx + fmt("%zu column names for %u dimensions", p.column_names.size(), dim); });
    c.checkf(p.empty() == (p.size() == 0), "phrase-empty", [&] { return ctx + "emptiness and size disagree"; });
    if (p.bimodal()) c.check(p.inputSize() == p.size() && p.outputSize() == p.size(), "phrase-sizes", ctx + "sizes of the modalities disagree");
    // every value can be read
    double sum = 0;
    unsigned frames = p.size();
    for (unsigned t = 0; t < frames; t++) {
        for (unsigned d = 0; d < dim; d++) sum += p.getValue(t, d);
        if (p.bimodal()) sum += p.getPointer_input(t)[din - 1] + p.getPointer_output(t)[dim - din - 1];
        else sum += p.getPointer(t)[dim - 1];
    }
    c.count("values read after an accepted document", frames * dim);
    if (p.size()) {
        p.mean();
        p.standardDeviation();
        p.minmax();
    }
    c.count("consistency checks");
    (void)sum;
}
void useIt(Case& c, xmm::Phrase& p, vf::Rng& r) {
    consistent(c, p, "");
    if (p.dimension.get() > 4096) return;
    Row x(p.dimension.get(), 0.5f);
    unsigned before = p.size();
    p.record(x);
    c.check(p.size() == before + 1 && p.getValue(before, p.dimension.get() - 1) == 0.5f, "phrase-use", "recording after an accepted document fails");
    xmm::Phrase copy(p);
    consistent(c, copy, "copy: ");
    if (r.chance(0.5)) p.clear();
}
void consistent(Case& c, xmm::TrainingSet& ts, std::string const& ctx) {
    unsigned dim = ts.dimension.get(), din = ts.dimension_input.get();
    c.checkf(ts.bimodal() ? dim >= 2 && din >= 1 && din < dim : dim >= 1 && din == 0, "set-dimensions", [&] { return ctx + fmt("dimensions %u/%u of a %s set", dim, din, ts.bimodal() ? "bimodal" : "unimodal"); });
    c.checkf(ts.column_names.size() == dim, "set-columns", [&] { return ctx + fmt("%u column names for %u dimensions", unsigned(ts.column_names.size()), dim); });
    std::set<std::string> labels;
    size_t n = 0;
    for (auto it = ts.begin(); it != ts.end(); ++it, ++n) {
        xmm::Phrase& p = *it->second;
        labels.insert(p.label.get());
        c.checkf(p.dimension.get() == dim && p.dimension_input.get() == din && p.bimodal() == ts.bimodal(), "set-phrases",
                 [&] { return ctx + fmt("phrase %d has dimensions %u/%u in a set of %u/%u", it->first, p.dimension.get(), p.dimension_input.get(), dim, din); });
        consistent(c, p, ctx + fmt("[%d] ", it->first));
    }
    c.check(n == ts.size(), "set-size", ctx + "size");
    c.check(labels == ts.labels(), "set-labels", ctx + "labels " + vf::show(ts.labels()) + ", expected " + vf::show(labels));
    for (auto const& l : labels) {
        auto sub = ts.getPhrasesOfClass(l);
        c.check(sub && sub->size() > 0, "set-subsets", ctx + "no phrases of class '" + l + "'");
        for (auto it = sub->begin(); it != sub->end(); ++it) c.check(it->second->label.get() == l && it->second == ts.getPhrase(it->first), "set-subsets", ctx + "subset of class '" + l + "'");
    }
}
void useIt(Case& c, xmm::TrainingSet& ts, vf::Rng& r) {
    consistent(c, ts, "");
    if (ts.dimension.get() > 4096) return;
    ts.addPhrase(77, "added");
    ts.getPhrase(77)->record(Row(ts.dimension.get(), 1.f));
    consistent(c, ts, "after an addition: ");
    if (r.chance(0.3)) ts.begin()->second->label.set("edited");
    consistent(c, ts, "after an edit: ");
    if (r.chance(0.3)) ts.removePhrase(ts.begin()->first);
    if (r.chance(0.2)) ts.clear();
    consistent(c, ts, "after more edits: ");
}
void consistent(Case& c, xmm::GaussianDistribution& g, std::string const& ctx) {
    size_t dim = g.dimension.get(), din = g.dimension_input.get();
    Json::Value j = g.toJson();
    bool bim = j["bimodal"].asBool(), full = g.covariance_mode.get() == CM::Full;
    c.checkf(dim >= (bim ? 2u : 1u) && din < dim && (bim || din == 0), "gaussian-dimensions", [&] { return ctx + fmt("dimensions %zu/%zu, bimodal %d", dim, din, bim); });
    c.check(g.covariance_mode.get() == CM::Full || g.covariance_mode.get() == CM::Diagonal, "gaussian-mode", ctx + "covariance mode");
    c.checkf(g.mean.size() == dim && g.covariance.size() == (full ? dim * dim : dim), "gaussian-sizes", [&] { return ctx + fmt("mean of %zu, covariance of %zu values for dimension %zu", g.mean.size(), g.covariance.size(), dim); });
    c.checkf(j["inverse_covariance"].size() == (full ? dim * dim : dim), "gaussian-sizes", [&] { return ctx + fmt("inverse of %u values for dimension %zu", j["inverse_covariance"].size(), dim); });
    if (bim) c.checkf(j["inverse_covariance_input"].size() == (full ? din * din : din), "gaussian-sizes", [&] { return ctx + fmt("input inverse of %u values for dimension %zu", j["inverse_covariance_input"].size(), din); });
    c.count("consistency checks");
}
// what may end in an exception on odd but well-formed numbers
template <typename F>
void attempt(Case& c, F&& f) {
    try {
        f();
        c.count("uses that succeeded");
    } catch (std::exception& e) {
        c.count("uses that threw");
    }
}
void useIt(Case& c, xmm::GaussianDistribution& g, vf::Rng& r) {
    consistent(c, g, "");
    unsigned dim = g.dimension.get();
    if (dim > 64) return;
    bool bim = g.toJson()["bimodal"].asBool();
    Row x(dim, 0.3f), out(dim);
    attempt(c, [&] { g.likelihood(x.data()); });
    if (bim && g.dimension_input.get() > 0) {
        attempt(c, [&] { g.likelihood_input(x.data()); });
        attempt(c, [&] { g.likelihood_bimodal(x.data(), x.data() + g.dimension_input.get()); });
        attempt(c, [&] {
            Row o(dim - g.dimension_input.get());
            g.regression(Row(g.dimension_input.get(), 0.1f), o);
        });
    }
    attempt(c, [&] { g.updateInverseCovariance(); });
    attempt(c, [&] { g.covariance_mode.set(r.chance(0.5) ? CM::Full : CM::Diagonal); });
    consistent(c, g, "after a change of mode: ");
    attempt(c, [&] { g.dimension.set(dim + 1); });
    consistent(c, g, "after a change of dimension: ");
}
void consistent(Case& c, xmm::SharedParameters& s, std::string const& ctx) {
    unsigned dim = s.dimension.get(), din = s.dimension_input.get();
    c.checkf(s.bimodal.get() ? dim >= 2 && din >= 1 && din < dim : dim >= 1 && din == 0, "shared-dimensions", [&] { return ctx + fmt("dimensions %u/%u, bimodal %d", dim, din, s.bimodal.get()); });
    c.checkf(s.column_names.size() == dim, "shared-columns", [&] { return ctx + fmt("%u column names for %u dimensions", unsigned(s.column_names.size()), dim); });
    c.check(s.em_algorithm_min_iterations.get() >= 1 && s.em_algorithm_percent_chg.get() >= 0 && s.likelihood_window.get() >= 1, "shared-limits", ctx + "a value is outside its limits");
    c.count("consistency checks");
}
void useIt(Case& c, xmm::SharedParameters& s, vf::Rng& r) {
    consistent(c, s, "");
    s.bimodal.set(r.chance(0.5));
    consistent(c, s, "after a change of mode: ");
    s.dimension.set(6);
    consistent(c, s, "after a change of dimension: ");
    s.likelihood_window.set(3);
}
void inLimits(Case& c, xmm::ClassParameters<xmm::GMM> const& p) {
    c.check(p.gaussians.get() >= 1 && p.relative_regularization.get() > 0 && p.absolute_regularization.get() > 0 && int(p.covariance_mode.get()) >= 0 && int(p.covariance_mode.get()) <= 1, "parameter-limits", "a class parameter is outside its limits: " + describe(p));
}
void inLimits(Case& c, xmm::ClassParameters<xmm::HMM> const& p) {
    c.check(p.states.get() >= 1 && p.gaussians.get() >= 1 && p.relative_regularization.get() > 0 && p.absolute_regularization.get() > 0 && int(p.covariance_mode.get()) >= 0 &&
                int(p.covariance_mode.get()) <= 1 && int(p.transition_mode.get()) >= 0 && int(p.transition_mode.get()) <= 1 && int(p.regression_estimator.get()) >= 0 && int(p.regression_estimator.get()) <= 2,
            "parameter-limits", "a class parameter is outside its limits");
}
void useIt(Case& c, xmm::ClassParameters<xmm::KMeans>& p, vf::Rng&) {
    c.check(p.clusters.get() >= 1 && p.max_iterations.get() >= 1 && p.relative_distance_threshold.get() >= 0, "parameter-limits", "a k-means parameter is outside its limits");
    p.clusters.set(2);
    c.count("consistency checks");
}
template <typename K>
void useParams(Case& c, xmm::ClassParameters<K>& p) {
    inLimits(c, p);
    p.gaussians.set(3);
    p.relative_regularization.set(0.5);
    xmm::ClassParameters<K> copy(p);
    inLimits(c, copy);
    c.count("consistency checks");
}
void useIt(Case& c, xmm::ClassParameters<xmm::GMM>& p, vf::Rng&) { useParams(c, p); }
void useIt(Case& c, xmm::ClassParameters<xmm::HMM>& p, vf::Rng&) { useParams(c, p); }
template <typename K>
void useConfig(Case& c, xmm::Configuration<K>& k) {
    useParams(c, static_cast<xmm::ClassParameters<K>&>(k));
    for (auto const& l : k.toJson()["class_parameters"].getMemberNames()) inLimits(c, k[l]);
    k["new class"].gaussians.set(2);
    k.reset();
}
void useIt(Case& c, xmm::Configuration<xmm::GMM>& p, vf::Rng&) { useConfig(c, p); }
void useIt(Case& c, xmm::Configuration<xmm::HMM>& p, vf::Rng&) { useConfig(c, p); }

void gmmClass(Case& c, xmm::SingleClassGMM& k, xmm::SharedParameters& s, xmm::ClassParameters<xmm::GMM> const& p, std::string const& ctx) {
    c.checkf(k.components.size() == p.gaussians.get() && k.mixture_coeffs.size() == p.gaussians.get(), "class-components",
             [&] { return ctx + fmt("%zu components, %zu weights for %u gaussians", k.components.size(), k.mixture_coeffs.size(), p.gaussians.get()); });
    for (auto& g : k.components) {
        consistent(c, g, ctx);
        c.check(g.dimension.get() == s.dimension.get() && (!s.bimodal.get() || g.dimension_input.get() == s.dimension_input.get()) && g.covariance_mode.get() == p.covariance_mode.get(), "class-dimensions",
                ctx + "a component has other dimensions or another mode than the model");
    }
}
void consistent(Case& c, xmm::SingleClassGMM& k, xmm::SharedParameters& s, std::string const& ctx) {
    inLimits(c, k.parameters);
    gmmClass(c, k, s, k.parameters, ctx);
}
void consistent(Case& c, xmm::SingleClassHMM& k, xmm::SharedParameters& s, std::string const& ctx) {
    inLimits(c, k.parameters);
    size_t n = k.parameters.states.get();
    bool ergodic = k.parameters.transition_mode.get() == TM::Ergodic;
    c.checkf(k.states.size() == n && k.transition.size() == (ergodic ? n * n : 2 * n), "class-states", [&] { return ctx + fmt("%zu states, %zu transitions for %zu states", k.states.size(), k.transition.size(), n); });
    if (ergodic) c.check(k.prior.size() == n, "class-states", ctx + "size of the prior");
    for (auto& st : k.states) {
        c.check(st.parameters.gaussians.get() == k.parameters.gaussians.get() && st.parameters.covariance_mode.get() == k.parameters.covariance_mode.get(), "state-parameters", ctx + "a state has other parameters than its class");
        gmmClass(c, st, s, st.parameters, ctx);
    }
}
void topConsistent(Case&, xmm::GMM&) {}
void topConsistent(Case& c, xmm::HierarchicalHMM& m) {
    size_t n = m.size();
    c.check(m.prior.size() == n && m.transition.size() == n && m.exit_transition.size() == n, "model-sizes", "class priors and transitions do not match the number of classes");
    for (auto& t : m.transition) c.check(t.size() == n, "model-sizes", "a row of class transitions does not match the number of classes");
}
template <typename Mod>
void useModel(Case& c, Mod& m, vf::Rng& r) {
    consistent(c, *m.shared_parameters, "shared parameters: ");
    inLimits(c, m.configuration);
    c.check(m.size() == m.models.size() && !m.training(), "model-size", "size or training state");
    for (auto& k : m.models) {
        c.check(k.first == k.second.label, "model-labels", "class '" + k.first + "' says it is '" + k.second.label + "'");
        consistent(c, k.second, *m.shared_parameters, "class '" + k.first + "': ");
    }
    topConsistent(c, m);
    c.count("models accepted");
    unsigned dim = m.shared_parameters->bimodal.get() ? m.shared_parameters->dimension_input.get() : m.shared_parameters->dimension.get();
    if (dim > 4096 || !m.size()) return;
    Mod copy(m);
    attempt(c, [&] {
        if (r.chance(0.5)) m.reset();
        for (int i = 0; i < 4; i++) {
            Row x(dim);
            for (auto& v : x) v = float(r.gauss());
            m.filter(x);
            c.check(m.results.instant_likelihoods.size() == m.size() && m.results.smoothed_log_likelihoods.size() == m.size(), "results-size", "the results do not cover the classes");
        }
    });
    attempt(c, [&] {
        copy.reset();
        copy.filter(Row(dim, 0.25f));
    });
    if (r.chance(0.4)) attempt(c, [&] {
            m.removeClass(m.models.begin()->first);
            topConsistent(c, m);
            m.reset();
            if (m.size()) m.filter(Row(dim, 0.25f));
        });
    if (r.chance(0.2)) m.clear();
}
void useIt(Case& c, xmm::GMM& m, vf::Rng& r) { useModel(c, m, r); }
void useIt(Case& c, xmm::HierarchicalHMM& m, vf::Rng& r) { useModel(c, m, r); }

// ------------------------------------------------------------------ the case
// Make() builds a random object of the type
template <typename T>
auto readFrom(T& t, char* name, int) -> decltype(t.readFile(name)) {
    t.readFile(name);
}
template <typename T>
void readFrom(T& t, char* name, long) {
    Document d;
    d.readFile(name);
    t.fromJson(d.value);
}
template <typename T, typename Make>
void reading(Case& c, const char* name, Make make) {
    c.log(name);
    vf::Rng& r = c.rng;
    auto source = make();
    Json::Value valid = source->toJson();
    auto target = r.chance(0.3) ? std::unique_ptr<T>(new T()) : make();
    int rounds = r.in(1, 4);
    for (int k = 0; k < rounds; k++) {
        Json::Value doc = valid;
        if (r.chance(0.25)) {
            auto other = make();
            Json::Value donor = other->toJson();
            mutate(c, doc, &donor);
        } else
            mutate(c, doc, nullptr);
        if (r.chance(0.3)) {  // as text, where it can be written
            Json::Value again;
            if (Json::Reader().parse(text(doc), again)) doc = again;
        }
        std::string before = text(target->toJson());
        bool accepted = false, memory = false;
        if (r.chance(0.12)) {  // a damaged or missing file
            static TempFile file;
            std::string bytes;
            std::string path = file.path;
            int kind = r.in(0, 9);
            if (kind == 0) path += ".missing";
            else if (kind == 1) path = "/tmp/";
            else {
                Json::Value const& from = r.chance(0.4) ? valid : doc;
                bytes = r.chance(0.5) ? text(from) : from.toStyledString();
                if (r.chance(0.5)) bytes.resize(size_t(r.in(0, int(bytes.size()))));
                int hits = r.in(bytes.empty() ? 0 : 0, 3);
                for (int h = 0; h < hits && !bytes.empty(); h++) {
                    size_t at = size_t(r.in(0, int(bytes.size()) - 1));
                    switch (r.in(0, 3)) {
                    case 0: bytes[at] = char(r.in(0, 255)); break;
                    case 1: bytes.erase(at, size_t(r.in(1, 8))); break;
                    case 2: bytes.insert(at, size_t(r.chance(0.02) ? 1500 : r.in(1, 4)), r.pick(std::vector<char>{'[', '{', '"', '\\', ',', ':', '-', '.', 'e', '0', '9', 'u', '/', '*', ']', '}'})); break;
                    default: bytes.insert(at, r.chance(0.5) ? "\\ud8" : r.chance(0.5) ? "1e999" : "/*"); break;
                    }
                }
                file.put(bytes);
            }
            c.log(fmt("file %s of %zu bytes", kind == 0 ? "missing" : kind == 1 ? "is a directory" : "damaged", bytes.size()));
            try {
                readFrom(*target, &path[0], 0);
                c.count("damaged files accepted");
                c.check(kind > 1, "unreadable-accepted", "a file that cannot be read was accepted");
                useIt(c, *target, r);
            } catch (vf::Failure&) {
                throw;
            } catch (std::bad_alloc&) {
                target->fromJson(valid);
            } catch (std::exception&) {
                c.count("damaged files refused");
                c.checkf(text(target->toJson()) == before, "refused-changes", [&] { return "a refused file changed the object from\n" + before.substr(0, 700) + "to\n" + text(target->toJson()).substr(0, 700); });
            }
            continue;
        }
        try {
            if (r.chance(0.15)) {
                T fresh(doc);
                c.count("constructors that accepted");
                useIt(c, fresh, r);
            }
        } catch (vf::Failure&) {
            throw;
        } catch (std::exception&) {
            c.count("constructors that threw");
        }
        try {
            target->fromJson(doc);
            accepted = true;
        } catch (std::bad_alloc&) {
            memory = true;
            c.count("documents that need too much memory");
            c.log("not enough memory");
        } catch (std::exception& e) {
            c.count("documents refused");
            c.log(std::string("refused: ") + std::string(e.what()).substr(0, 80));
        }
        if (accepted) {
            c.count("documents accepted");
            c.log("accepted");
            // what was read can be written and read again
            try {
                Json::Value d2 = target->toJson();
                T copy;
                copy.fromJson(d2);
                c.check(text(copy.toJson()) == text(d2), "rewritten", "the accepted document is written and read back differently");
            } catch (vf::Failure&) {
                throw;
            } catch (std::exception& e) {
                c.fail("rewritten", std::string("the object of an accepted document cannot be written and read again: ") + e.what());
            }
            useIt(c, *target, r);
        } else if (memory) {
            target->fromJson(valid);
            c.check(text(target->toJson()) == text(valid), "reread", "the valid document is no longer read correctly when memory ran out");
        } else {
            c.checkf(text(target->toJson()) == before, "refused-changes", [&] { return "a refused document changed the object from\n" + before.substr(0, 700) + "to\n" + text(target->toJson()).substr(0, 700); });
            if (r.chance(0.3)) {
                auto user = make();
                user->fromJson(target->toJson());
                useIt(c, *user, r);
            }
        }
        if (r.chance(0.5)) {
            target->fromJson(valid);
            c.check(text(target->toJson()) == text(valid), "reread", "the valid document is no longer read correctly");
        }
    }
    if (r.chance(0.5)) useIt(c, *target, r);
    c.nontrivial = true;
    c.count(std::string("reading into ") + name);
}
std::unique_ptr<xmm::TrainingSet> smallSet(Case& c) {
    DataSpec s;
    s.minLen = 0;
    s.maxLen = 6;
    Data d = randomData(c, s);
    d.shared = false;
    return d.build();
}
template <typename Mod>
std::unique_ptr<Mod> smallModel(Case& c) {
    DataSpec s;
    s.maxDim = 3;
    s.maxLen = 12;
    s.maxPhrases = 2;
    Data d = randomData(c, s);
    d.shared = false;
    std::unique_ptr<Mod> m(new Mod(d.bim));
    randomConfig(c, *m, d);
    m->shared_parameters->em_algorithm_max_iterations.set(2);
    m->shared_parameters->em_algorithm_min_iterations.set(1);
    auto ts = d.build();
    if (c.rng.chance(0.95)) m->train(ts.get());
    m->reset();
    return m;
}
template <typename K>
std::unique_ptr<xmm::Configuration<K>> smallConfig(Case& c) {
    std::unique_ptr<xmm::Configuration<K>> k(new xmm::Configuration<K>());
    randomParams(c, *k);
    for (int i = c.rng.in(0, 3); i > 0; i--) randomParams(c, (*k)[fmt("c%d", i)]);
    return k;
}
void C07(Case& c) {
    vf::Rng& r = c.rng;
    if (r.chance(0.02)) {
        arrayCase(c);
        return;
    }
    switch (r.in(0, 10)) {
    case 0:
    case 1:
        reading<xmm::Phrase>(c, "phrase", [&] {
            auto ts = smallSet(c);
            return std::unique_ptr<xmm::Phrase>(new xmm::Phrase(*ts->begin()->second));
        });
        break;
    case 2:
    case 3:
        reading<xmm::TrainingSet>(c, "training set", [&] { return smallSet(c); });
        break;
    case 4:
        reading<xmm::GaussianDistribution>(c, "Gaussian", [&] {
            auto m = smallModel<xmm::GMM>(c);
            return std::unique_ptr<xmm::GaussianDistribution>(m->size() ? new xmm::GaussianDistribution(m->models.begin()->second.components[0]) : new xmm::GaussianDistribution(true, 3, 1));
        });
        break;
    case 5:
        reading<xmm::SharedParameters>(c, "shared parameters", [&] {
            auto m = smallModel<xmm::GMM>(c);
            return std::unique_ptr<xmm::SharedParameters>(new xmm::SharedParameters(*m->shared_parameters));
        });
        break;
    case 6:
        if (r.chance(0.5)) reading<xmm::Configuration<xmm::GMM>>(c, "GMM configuration", [&] { return smallConfig<xmm::GMM>(c); });
        else reading<xmm::Configuration<xmm::HMM>>(c, "HMM configuration", [&] { return smallConfig<xmm::HMM>(c); });
        break;
    case 7:
        if (r.chance(0.2)) reading<xmm::ClassParameters<xmm::KMeans>>(c, "k-means parameters", [&] {
                std::unique_ptr<xmm::ClassParameters<xmm::KMeans>> p(new xmm::ClassParameters<xmm::KMeans>());
                p->clusters.set(unsigned(r.in(1, 9)));
                p->max_iterations.set(unsigned(r.in(1, 99)));
                p->relative_distance_threshold.set(float(r.unit()));
                return p;
            });
        else if (r.chance(0.5)) reading<xmm::ClassParameters<xmm::GMM>>(c, "GMM parameters", [&] {
                std::unique_ptr<xmm::ClassParameters<xmm::GMM>> p(new xmm::ClassParameters<xmm::GMM>());
                randomParams(c, *p);
                return p;
            });
        else reading<xmm::ClassParameters<xmm::HMM>>(c, "HMM parameters", [&] {
                std::unique_ptr<xmm::ClassParameters<xmm::HMM>> p(new xmm::ClassParameters<xmm::HMM>());
                randomParams(c, *p);
                return p;
            });
        break;
    case 8:
        reading<xmm::GMM>(c, "GMM", [&] { return smallModel<xmm::GMM>(c); });
        break;
    default:
        reading<xmm::HierarchicalHMM>(c, "HMM", [&] { return smallModel<xmm::HierarchicalHMM>(c); });
    }
}
}  // namespace

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"C07", 15000, 400000, C07, 10}});
}
