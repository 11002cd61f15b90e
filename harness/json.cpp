// C05 (phrases and training sets through JSON) and C06 (models through JSON)
#include "jsonio.hpp"

using namespace md;
using namespace jio;
typedef std::vector<std::string> Strings;

namespace {

// ---------------------------------------------------------------- phrases
struct PD {  // what a phrase must hold
    bool bim = false;
    unsigned dim = 1, din = 0;
    std::string label;
    Strings cols;
    std::vector<Row> rows;
    std::vector<float> flat, flatIn, flatOut;
};
PD randomPhrase(Case& c, bool bim, unsigned dim, unsigned din, std::string label) {
    vf::Rng& r = c.rng;
    PD d;
    d.bim = bim;
    d.dim = dim;
    d.din = din;
    d.label = label;
    d.cols.resize(dim);
    if (r.chance(0.7))
        for (auto& s : d.cols) s = awkward(r);
    int T = r.chance(0.15) ? 0 : r.chance(0.06) ? r.in(250, 300) : r.in(1, 9);
    bool odd = r.chance(0.5);
    for (int t = 0; t < T; t++) {
        Row x(dim);
        for (auto& v : x) v = odd ? awkwardFloat(r) : float(r.gauss());
        d.rows.push_back(x);
    }
    return d;
}
// fills a phrase that already has the right mode; the source must outlive a shared phrase
void fill(Case& c, xmm::Phrase& p, PD& d, bool shared, bool whole = false) {
    if (d.dim != p.dimension.get()) p.dimension.set(d.dim);
    if (d.bim) p.dimension_input.set(d.din);
    if (d.cols != Strings(d.dim) || c.rng.chance(0.5)) p.column_names = d.cols;
    p.label.set(d.label);
    if (shared) {
        for (auto const& r : d.rows) {
            d.flat.insert(d.flat.end(), r.begin(), r.end());
            d.flatIn.insert(d.flatIn.end(), r.begin(), r.begin() + d.din);
            d.flatOut.insert(d.flatOut.end(), r.begin() + d.din, r.end());
        }
        if (d.rows.empty()) return;
        if (d.bim)
            p.connect(d.flatIn.data(), d.flatOut.data(), unsigned(d.rows.size()));
        else
            p.connect(d.flat.data(), unsigned(d.rows.size()));
        return;
    }
    bool split = d.bim && c.rng.chance(0.4);
    for (auto const& r : d.rows) {
        if (split) {
            p.record_input(Row(r.begin(), r.begin() + d.din));
            p.record_output(Row(r.begin() + d.din, r.end()));
        } else {
            p.record(r);
        }
    }
    // an unfinished frame of one modality is not a frame
    if (split && !whole && c.rng.chance(0.3) && !d.rows.empty()) {
        p.record_input(Row(d.din, 7.f));
        c.count("phrases with an unfinished frame");
    }
}
void verifyPhrase(Case& c, xmm::Phrase& p, PD const& d, std::string const& ctx) {
    c.checkf(p.bimodal() == d.bim && p.dimension.get() == d.dim && p.dimension_input.get() == d.din, "phrase-dimension",
             [&] { return ctx + fmt("mode/dimensions %d %u/%u, expected %d %u/%u", p.bimodal(), p.dimension.get(), p.dimension_input.get(), d.bim, d.dim, d.din); });
    c.checkf(p.label.get() == d.label, "phrase-label", [&] { return ctx + "label '" + p.label.get() + "', expected '" + d.label + "'"; });
    c.checkf(p.column_names == d.cols, "phrase-columns", [&] { return ctx + "columns " + vf::show(p.column_names) + ", expected " + vf::show(d.cols); });
    c.checkf(p.size() == d.rows.size(), "phrase-length", [&] { return ctx + fmt("%u frames, expected %zu", p.size(), d.rows.size()); });
    c.checkf(p.empty() == d.rows.empty(), "phrase-empty", [&] { return ctx + fmt("empty() is %d with %zu frames", p.empty(), d.rows.size()); });
    if (d.bim)
        c.checkf(p.inputSize() == d.rows.size() && p.outputSize() == d.rows.size(), "phrase-length",
                 [&] { return ctx + fmt("input/output sizes %u/%u, expected %zu", p.inputSize(), p.outputSize(), d.rows.size()); });
    c.check(p.ownMemory(), "phrase-memory", ctx + "a phrase read from JSON does not own its memory");
    for (unsigned t = 0; t < d.rows.size(); t++)
        for (unsigned k = 0; k < d.dim; k++)
            c.checkf(p.getValue(t, k) == d.rows[t][k], "phrase-value", [&] { return ctx + fmt("value(%u,%u) is %.9g, expected %.9g", t, k, p.getValue(t, k), d.rows[t][k]); });
    c.count("values compared", d.rows.size() * d.dim);
}
// a phrase read from JSON can be recorded into as usual
void goOn(Case& c, xmm::Phrase& p, PD& d) {
    int n = c.rng.chance(0.2) ? c.rng.in(200, 300) : c.rng.in(1, 4);
    for (int i = 0; i < n; i++) {
        Row x(d.dim);
        for (auto& v : x) v = float(c.rng.gauss());
        p.record(x);
        d.rows.push_back(x);
    }
}

struct Shape {
    bool bim;
    unsigned dim, din;
};
Shape shape(vf::Rng& r) {
    Shape s;
    s.bim = r.chance(0.5);
    s.dim = unsigned(r.in(s.bim ? 2 : 1, r.chance(0.1) ? 12 : 4));
    s.din = s.bim ? unsigned(r.in(1, int(s.dim) - 1)) : 0;
    return s;
}

void phraseCase(Case& c) {
    vf::Rng& r = c.rng;
    Shape s = shape(r);
    PD d = randomPhrase(c, s.bim, s.dim, s.din, awkward(r));
    bool shared = r.chance(0.3);
    xmm::Phrase src(shared ? xmm::MemoryMode::SharedMemory : xmm::MemoryMode::OwnMemory, s.bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    fill(c, src, d, shared);
    c.log(fmt("%s %s phrase %u/%u, %zu frames, label '%s'", shared ? "shared" : "own", s.bim ? "bimodal" : "unimodal", s.dim, s.din, d.rows.size(), d.label.c_str()));
    Json::Value doc = throughText(c, src.toJson());

    Shape o = shape(r);
    bool oshared = r.chance(0.3);
    PD od = randomPhrase(c, o.bim, o.dim, o.din, awkward(r));
    std::unique_ptr<xmm::Phrase> target;
    switch (r.in(0, 3)) {
    case 0:
        target.reset(new xmm::Phrase());
        c.log("into a fresh phrase");
        break;
    case 1:
        target.reset(new xmm::Phrase(doc));
        c.log("constructor");
        break;
    case 2:
        target.reset(new xmm::Phrase(oshared ? xmm::MemoryMode::SharedMemory : xmm::MemoryMode::OwnMemory, o.bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        fill(c, *target, od, oshared);
        c.log(fmt("into a %s %s phrase %u/%u, %zu frames", oshared ? "shared" : "own", o.bim ? "bimodal" : "unimodal", o.dim, o.din, od.rows.size()));
        break;
    default:
        target.reset(new xmm::Phrase(src));
        c.log("into a copy");
    }
    target->fromJson(doc);
    verifyPhrase(c, *target, d, "restored phrase: ");
    c.checkf(text(target->toJson()) == text(src.toJson()), "rewritten", [&] { return "the restored phrase writes another document:\n" + text(target->toJson()).substr(0, 600) + text(src.toJson()).substr(0, 600); });
    if (r.chance(0.5)) {
        goOn(c, *target, d);
        verifyPhrase(c, *target, d, "restored phrase after more recording: ");
    }
    if (!d.rows.empty()) c.nontrivial = true;
    c.count("phrases restored");
}

// -------------------------------------------------------------- training sets
struct SD {
    Shape s;
    bool shared;
    Strings cols;
    std::map<int, PD> phrases;
    std::set<std::string> labels() const {
        std::set<std::string> l;
        for (auto const& p : phrases) l.insert(p.second.label);
        return l;
    }
};
std::unique_ptr<xmm::TrainingSet> randomSet(Case& c, SD& d) {
    vf::Rng& r = c.rng;
    d.s = shape(r);
    d.shared = r.chance(0.3);
    std::unique_ptr<xmm::TrainingSet> ts(new xmm::TrainingSet(d.shared ? xmm::MemoryMode::SharedMemory : xmm::MemoryMode::OwnMemory, d.s.bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
    ts->dimension.set(d.s.dim);
    if (d.s.bim) ts->dimension_input.set(d.s.din);
    d.cols.resize(d.s.dim);
    if (r.chance(0.7))
        for (auto& s : d.cols) s = awkward(r);
    if (d.cols != Strings(d.s.dim) || r.chance(0.5)) ts->column_names.set(d.cols);
    int n = r.chance(0.1) ? 0 : r.in(1, 5), index = r.chance(0.2) ? -r.in(0, 5) : r.in(0, 3);
    Strings labels;
    for (int i = 0; i < 3; i++) labels.push_back(awkward(r));
    for (int i = 0; i < n; i++) {
        PD p = randomPhrase(c, d.s.bim, d.s.dim, d.s.din, r.pick(labels));
        p.cols = d.cols;
        d.phrases[index] = p;
        PD& q = d.phrases[index];
        ts->addPhrase(index, q.label);
        fill(c, *ts->getPhrase(index), q, d.shared);
        index += r.chance(0.1) ? r.in(1, 100000) : r.in(1, 3);
    }
    c.log(fmt("%s %s set %u/%u, %d phrases, labels ", d.shared ? "shared" : "own", d.s.bim ? "bimodal" : "unimodal", d.s.dim, d.s.din, n) + vf::show(d.labels()));
    return ts;
}
void verifySet(Case& c, xmm::TrainingSet& ts, SD& d, std::string const& ctx) {
    c.checkf(ts.bimodal() == d.s.bim && ts.dimension.get() == d.s.dim && ts.dimension_input.get() == d.s.din, "set-dimension",
             [&] { return ctx + fmt("mode/dimensions %d %u/%u, expected %d %u/%u", ts.bimodal(), ts.dimension.get(), ts.dimension_input.get(), d.s.bim, d.s.dim, d.s.din); });
    c.checkf(ts.column_names.get() == d.cols, "set-columns", [&] { return ctx + "columns " + vf::show(ts.column_names.get()) + ", expected " + vf::show(d.cols); });
    c.checkf(ts.size() == d.phrases.size(), "set-size", [&] { return ctx + fmt("%u phrases, expected %zu", ts.size(), d.phrases.size()); });
    c.checkf(ts.labels() == d.labels(), "set-labels", [&] { return ctx + "labels " + vf::show(ts.labels()) + ", expected " + vf::show(d.labels()); });
    auto it = ts.begin();
    for (auto& p : d.phrases) {
        c.checkf(it != ts.end() && it->first == p.first, "set-index", [&] { return ctx + fmt("phrase index %d, expected %d", it->first, p.first); });
        verifyPhrase(c, *it->second, p.second, ctx + fmt("[%d] ", p.first));
        ++it;
    }
    for (auto const& l : d.labels()) {
        xmm::TrainingSet* sub = ts.getPhrasesOfClass(l);
        std::set<int> want, got;
        for (auto const& p : d.phrases)
            if (p.second.label == l) want.insert(p.first);
        if (sub)
            for (auto i = sub->begin(); i != sub->end(); ++i) got.insert(i->first);
        c.checkf(want == got, "set-subset", [&] { return ctx + "class '" + l + "' has phrases " + vf::show(got) + ", expected " + vf::show(want); });
    }
}
void setCase(Case& c) {
    vf::Rng& r = c.rng;
    SD d, od;
    auto src = randomSet(c, d);
    Json::Value doc = throughText(c, src->toJson());
    std::unique_ptr<xmm::TrainingSet> target;
    std::shared_ptr<xmm::Phrase> kept;
    PD keptData;
    switch (r.in(0, 3)) {
    case 0:
        target.reset(new xmm::TrainingSet());
        c.log("into a fresh set");
        break;
    case 1:
        target.reset(new xmm::TrainingSet(doc));
        c.log("constructor");
        break;
    case 2: {
        c.log("into another set");
        target = randomSet(c, od);
        if (!od.phrases.empty()) kept = target->begin()->second;
        break;
    }
    default:
        target.reset(new xmm::TrainingSet(*src));
        c.log("into a copy");
    }
    target->fromJson(doc);
    verifySet(c, *target, d, "restored set: ");
    c.checkf(text(target->toJson()) == text(src->toJson()), "rewritten", [&] { return "the restored set writes another document:\n" + text(target->toJson()).substr(0, 600) + text(src->toJson()).substr(0, 600); });
    // a phrase of the previous content no longer belongs to the set
    if (kept && kept.use_count() > 0) {
        kept->label.set("somewhere else");
        verifySet(c, *target, d, "restored set after an old phrase was edited: ");
    }
    // and the new ones do
    if (!d.phrases.empty() && r.chance(0.6)) {
        auto it = d.phrases.begin();
        std::advance(it, r.in(0, int(d.phrases.size()) - 1));
        auto p = target->getPhrase(it->first);
        it->second.label = awkward(r);
        p->label.set(it->second.label);
        goOn(c, *p, it->second);
        verifySet(c, *target, d, "restored set after an edit: ");
    }
    if (r.chance(0.4)) {
        int at = r.in(-200, 200);
        if (!d.phrases.count(at)) {
            PD p = randomPhrase(c, d.s.bim, d.s.dim, d.s.din, awkward(r));
            p.cols = d.cols;
            target->addPhrase(at, p.label);
            PD& q = d.phrases[at] = p;
            if (target->ownMemory()) fill(c, *target->getPhrase(at), q, false, true);
            else q.rows.clear();
            if (target->ownMemory()) verifySet(c, *target, d, "restored set after an addition: ");
        }
    }
    if (!d.phrases.empty()) c.nontrivial = true;
    c.count("sets restored");
}
void C05(Case& c) {
    if (c.rng.chance(0.04))
        arrayCase(c);
    else if (c.rng.chance(0.4))
        phraseCase(c);
    else
        setCase(c);
}

// ------------------------------------------------------------------- C06
void gaussianCase(Case& c) {
    vf::Rng& r = c.rng;
    auto make = [&]() {
        bool bim = r.chance(0.5);
        unsigned dim = unsigned(r.in(bim ? 2 : 1, 6)), din = bim ? unsigned(r.in(1, int(dim) - 1)) : 0;
        CM mode = randomCM(r);
        std::unique_ptr<xmm::GaussianDistribution> g(new xmm::GaussianDistribution(bim, dim, din, mode));
        M a{int(dim), int(dim)};
        for (auto& v : a.a) v = r.gauss();
        M cov = la::mul(a, la::tr(a));
        for (unsigned i = 0; i < dim; i++) {
            g->mean[i] = r.gauss() * 10;
            if (mode == CM::Diagonal) g->covariance[i] = double(cov(int(i), int(i))) + 0.1;
            else
                for (unsigned j = 0; j < dim; j++) g->covariance[i * dim + j] = double(cov(int(i), int(j))) + (i == j ? 0.1 : 0);
        }
        g->updateInverseCovariance();
        c.log(fmt("Gaussian bimodal %d %u/%u %s", bim, dim, din, mode == CM::Full ? "full" : "diagonal"));
        return g;
    };
    auto g = make();
    Json::Value doc = throughText(c, g->toJson());
    std::unique_ptr<xmm::GaussianDistribution> t;
    if (r.chance(0.3)) t.reset(new xmm::GaussianDistribution(doc));
    else {
        t = r.chance(0.3) ? std::unique_ptr<xmm::GaussianDistribution>(new xmm::GaussianDistribution()) : make();
        t->fromJson(doc);
    }
    c.check(text(t->toJson()) == text(g->toJson()), "gaussian-rewritten", "the restored Gaussian writes another document: " + text(t->toJson()) + text(g->toJson()));
    c.check(t->mean == g->mean && t->covariance == g->covariance && t->output_covariance == g->output_covariance && t->dimension.get() == g->dimension.get() &&
                t->dimension_input.get() == g->dimension_input.get() && t->covariance_mode.get() == g->covariance_mode.get(),
            "gaussian-content", "the restored Gaussian has other parameters");
    unsigned dim = g->dimension.get(), din = g->dimension_input.get();
    bool bim = doc["bimodal"].asBool();
    for (int i = 0; i < 4; i++) {
        Row x(dim);
        for (auto& v : x) v = float(r.gauss() * 8);
        c.check(t->likelihood(x.data()) == g->likelihood(x.data()), "gaussian-likelihood", "the restored Gaussian has another likelihood");
        if (bim) {
            Row in(x.begin(), x.begin() + din), out(x.begin() + din, x.end());
            c.check(t->likelihood_input(in.data()) == g->likelihood_input(in.data()), "gaussian-likelihood", "the restored Gaussian has another input likelihood");
            c.check(t->likelihood_bimodal(in.data(), out.data()) == g->likelihood_bimodal(in.data(), out.data()), "gaussian-likelihood", "the restored Gaussian has another joint likelihood");
            Row a(dim - din), b(dim - din);
            t->regression(in, a);
            g->regression(in, b);
            c.check(a == b, "gaussian-regression", "the restored Gaussian predicts other outputs");
        }
    }
    // and goes on the same
    CM mode = g->covariance_mode.get() == CM::Full ? CM::Diagonal : CM::Full;
    for (auto p : {g.get(), t.get()}) {
        p->covariance_mode.set(mode);
        p->updateInverseCovariance();
    }
    c.check(text(t->toJson()) == text(g->toJson()), "gaussian-afterwards", "the restored Gaussian changes mode differently");
    c.nontrivial = true;
    c.count("Gaussians restored");
}

template <typename Mod> struct Kind;
template <> struct Kind<xmm::GMM> { typedef xmm::GMM M; };
template <> struct Kind<xmm::HierarchicalHMM> { typedef xmm::HMM M; };

// a configuration compared member by member
void sameParams(Case& c, xmm::ClassParameters<xmm::GMM> const& a, xmm::ClassParameters<xmm::GMM> const& b, std::string const& what) {
    c.check(a.gaussians.get() == b.gaussians.get() && a.relative_regularization.get() == b.relative_regularization.get() && a.absolute_regularization.get() == b.absolute_regularization.get() &&
                a.covariance_mode.get() == b.covariance_mode.get(),
            "parameters", what + ": " + describe(a) + " instead of " + describe(b));
}
void sameParams(Case& c, xmm::ClassParameters<xmm::HMM> const& a, xmm::ClassParameters<xmm::HMM> const& b, std::string const& what) {
    c.check(a.states.get() == b.states.get() && a.gaussians.get() == b.gaussians.get() && a.relative_regularization.get() == b.relative_regularization.get() &&
                a.absolute_regularization.get() == b.absolute_regularization.get() && a.covariance_mode.get() == b.covariance_mode.get() && a.transition_mode.get() == b.transition_mode.get() &&
                a.regression_estimator.get() == b.regression_estimator.get() && a.hierarchical.get() == b.hierarchical.get(),
            "parameters", what + ": " + describe(a) + " instead of " + describe(b));
}
template <typename Mod>
void sameConfig(Case& c, Mod& a, Mod& b, std::set<std::string> labels, std::string const& what) {
    sameParams(c, a.configuration, b.configuration, what + " default parameters");
    c.check(a.configuration.multithreading == b.configuration.multithreading && a.configuration.multiClass_regression_estimator == b.configuration.multiClass_regression_estimator, "parameters",
            what + ": another threading mode or estimator");
    for (auto const& l : labels) {
        c.check(a.configuration.includes(l) == b.configuration.includes(l), "parameters", what + ": class '" + l + "' gained or lost its own parameters");
        if (a.configuration.includes(l) && b.configuration.includes(l)) sameParams(c, a.configuration[l], b.configuration[l], what + " parameters of '" + l + "'");
    }
    auto &x = *a.shared_parameters, &y = *b.shared_parameters;
    c.check(x.bimodal.get() == y.bimodal.get() && x.dimension.get() == y.dimension.get() && x.dimension_input.get() == y.dimension_input.get() && x.column_names.get() == y.column_names.get() &&
                x.em_algorithm_min_iterations.get() == y.em_algorithm_min_iterations.get() && x.em_algorithm_max_iterations.get() == y.em_algorithm_max_iterations.get() &&
                x.em_algorithm_percent_chg.get() == y.em_algorithm_percent_chg.get() && x.likelihood_window.get() == y.likelihood_window.get(),
            "shared-parameters", what + ": other shared parameters");
}

void sameGaussian(Case& c, xmm::GaussianDistribution const& a, xmm::GaussianDistribution const& b, std::string const& what) {
    c.check(a.mean == b.mean && a.covariance == b.covariance && a.dimension.get() == b.dimension.get() && a.dimension_input.get() == b.dimension_input.get() && a.covariance_mode.get() == b.covariance_mode.get(), "component", what + ": another Gaussian");
}
void sameClass(Case& c, xmm::SingleClassGMM& a, xmm::SingleClassGMM& b, std::string const& what) {
    c.check(a.label == b.label, "class-label", what + ": label '" + a.label + "', expected '" + b.label + "'");
    sameParams(c, a.parameters, b.parameters, what);
    c.check(a.mixture_coeffs == b.mixture_coeffs, "weights", what + ": mixture weights " + vf::show(a.mixture_coeffs) + ", expected " + vf::show(b.mixture_coeffs));
    c.check(a.components.size() == b.components.size(), "components", what + ": number of components");
    for (size_t i = 0; i < a.components.size(); i++) sameGaussian(c, a.components[i], b.components[i], what);
}
void sameClass(Case& c, xmm::SingleClassHMM& a, xmm::SingleClassHMM& b, std::string const& what) {
    c.check(a.label == b.label, "class-label", what + ": label '" + a.label + "', expected '" + b.label + "'");
    sameParams(c, a.parameters, b.parameters, what);
    if (b.parameters.transition_mode.get() == TM::Ergodic) c.check(a.prior == b.prior, "state-prior", what + ": prior " + vf::show(a.prior) + ", expected " + vf::show(b.prior));
    c.check(a.transition == b.transition, "state-transition", what + ": transitions " + vf::show(a.transition) + ", expected " + vf::show(b.transition));
    c.check(a.states.size() == b.states.size(), "states", what + ": number of states");
    for (size_t s = 0; s < a.states.size(); s++) {
        c.check(a.states[s].mixture_coeffs == b.states[s].mixture_coeffs, "weights", what + fmt(" state %zu: weights", s));
        c.check(a.states[s].components.size() == b.states[s].components.size(), "components", what + fmt(" state %zu: number of components", s));
        for (size_t i = 0; i < a.states[s].components.size(); i++) sameGaussian(c, a.states[s].components[i], b.states[s].components[i], what + fmt(" state %zu", s));
    }
}
void sameTop(Case&, xmm::GMM&, xmm::GMM&) {}
void sameTop(Case& c, xmm::HierarchicalHMM& a, xmm::HierarchicalHMM& b) {
    c.check(a.prior == b.prior && a.transition == b.transition && a.exit_transition == b.exit_transition, "class-transitions", "the restored model has other class priors or transitions");
}
template <typename Mod>
void sameModel(Case& c, Mod& a, Mod& b, std::set<std::string> const& labels, std::string const& what) {
    sameConfig(c, a, b, labels, what);
    c.check(a.size() == b.size(), "classes", what + fmt(": %u classes, expected %u", a.size(), b.size()));
    auto i = a.models.begin();
    for (auto& k : b.models) {
        c.check(i->first == k.first, "classes", what + ": class '" + i->first + "', expected '" + k.first + "'");
        sameClass(c, i->second, k.second, what + " class '" + k.first + "'");
        ++i;
    }
    sameTop(c, a, b);
}

void editTop(Case&, xmm::GMM&) {}
void editTop(Case& c, xmm::HierarchicalHMM& m) {
    if (!m.size()) return;
    if (isHierarchical(m) && c.rng.chance(0.3)) {
        m.reset();
        unsigned least = 1000;
        for (auto& k : m.models) least = std::min(least, k.second.parameters.states.get());
        m.addExitPoint(c.rng.in(0, int(least) - 1), float(c.rng.real(0.05, 0.6)));
        c.log("exit point");
    }
    if (c.rng.chance(0.3)) {
        for (auto& v : m.prior) v = c.rng.real(0.1, 1);
        for (auto& row : m.transition)
            for (auto& v : row) v = c.rng.real(0.1, 1);
        for (auto& v : m.exit_transition) v = c.rng.real(0.05, 0.4);
        c.log("class transitions edited");
    }
}

template <typename Mod>
struct Made {
    Data data;
    std::unique_ptr<Mod> m;
    std::unique_ptr<xmm::TrainingSet> ts;
};
template <typename Mod>
Made<Mod> make(Case& c, bool anyState) {
    vf::Rng& r = c.rng;
    Made<Mod> t;
    DataSpec s;
    s.maxLen = 14;
    s.maxPhrases = 2;
    s.large = 0.02;
    t.data = randomData(c, s);
    c.log(describe(t.data));
    t.m.reset(new Mod(t.data.bim));
    t.ts = t.data.build();
    randomConfig(c, *t.m, t.data);
    if (r.chance(0.3)) t.m->configuration.multithreading = r.chance(0.5) ? MT::Parallel : MT::Background;
    MT mode = t.m->configuration.multithreading;
    int state = anyState ? r.in(0, 9) : 9;
    if (state == 0) {
        c.log("untrained");
        return t;
    }
    t.m->configuration.multithreading = MT::Sequential;
    t.m->train(t.ts.get());
    if (state == 1) {
        t.m->clear();
        c.log("cleared");
    } else if (state == 2 && t.m->size() > 1) {
        t.m->removeClass(t.m->models.begin()->first);
        c.log("first class removed");
    } else if (state == 3) {
        randomConfig(c, *t.m, t.data);
        t.m->reset();
        c.log("reconfigured after training");
    } else if (state == 4 && t.m->size()) {
        auto x = randomStream(c, t.data, 5);
        t.m->reset();
        for (auto& o : x) t.m->filter(o);
        c.log("in the middle of a stream");
    }
    t.m->configuration.multithreading = mode;
    editTop(c, *t.m);
    return t;
}
struct Count {
    int n = 0;
    void on(xmm::TrainingEvent const&) { n++; }
};
template <typename Mod>
void modelCase(Case& c) {
    vf::Rng& r = c.rng;
    auto t = make<Mod>(c, true);
    Mod& m = *t.m;
    Json::Value doc = throughText(c, m.toJson());
    c.log("target:");
    std::unique_ptr<Mod> o;
    std::set<std::string> labels = t.data.labels();
    int how = r.in(0, 4);
    Count heard;
    switch (how) {
    case 0:
        o.reset(new Mod(doc));
        break;
    case 1:
        o.reset(new Mod(r.chance(0.5)));
        break;
    case 2:
        o.reset(new Mod(m));
        break;
    default: {
        auto other = make<Mod>(c, true);
        o = std::move(other.m);
        for (auto const& l : other.data.labels()) labels.insert(l);
        if (o->size() && r.chance(0.5)) {
            o->reset();
            auto x = randomStream(c, other.data, 4);
            for (auto& v : x) o->filter(v);
        }
    }
    }
    bool listening = r.chance(0.5);
    if (listening) o->training_events.addListener(&heard, &Count::on);

    if (how != 0 || r.chance(0.3)) o->fromJson(doc);
    sameModel(c, *o, m, labels, "restored model");
    c.checkf(text(o->toJson()) == text(m.toJson()), "model-rewritten", [&] { return "the restored model writes another document:\n" + text(o->toJson()).substr(0, 1000) + text(m.toJson()).substr(0, 1000); });
    c.check(!o->training() && o->trained() == m.trained(), "trained", "the restored model says it is training, or is trained when the original is not");
    if (m.size()) {
        auto s = randomStream(c, t.data, r.in(1, 15));
        bool first = r.chance(0.5);  // the restored one is also usable without an explicit reset
        auto want = filterAll(m, s);
        std::vector<std::vector<double>> got;
        if (first) {
            for (auto const& x : s) {
                o->filter(x);
                got.push_back(snapshot(*o));
            }
        } else
            got = filterAll(*o, s);
        c.checkf(sameAll(got, want), "filtering", [&] { return "the restored model filters differently: " + firstDifference(got, want); });
        got = filterAll(*o, s);
        c.checkf(sameAll(got, want), "filtering", [&] { return "the restored model filters differently after a reset: " + firstDifference(got, want); });
        c.count("streams compared");
        c.nontrivial = true;
    }
    // a restored class replaces a class
    if (m.size() && r.chance(0.4)) {
        auto& k = m.models.begin()->second;
        Json::Value kd = throughText(c, k.toJson());
        auto& into = o->models[r.chance(0.5) ? o->models.begin()->first : o->models.rbegin()->first];
        into.fromJson(kd);
        sameClass(c, into, k, "restored class");
        c.check(text(into.toJson()) == text(k.toJson()), "class-rewritten", "a restored class writes another document");
        o->fromJson(doc);
        c.count("classes restored");
    }
    // training goes on from the same point
    if (r.chance(0.3)) {
        m.configuration.multithreading = o->configuration.multithreading = MT::Sequential;
        heard.n = 0;
        m.train(t.ts.get());
        o->train(t.ts.get());
        c.checkf(text(o->toJson()) == text(m.toJson()), "retraining", [&] { return "training the restored model gives another model:\n" + text(o->toJson()).substr(0, 1000) + text(m.toJson()).substr(0, 1000); });
        c.check((heard.n > 0) == (listening && !t.data.phrases.empty()), "listeners", fmt("the listener of the restored model heard %d events", heard.n));
        c.count("trainings compared");
    }
    c.count("models restored");
}
template <typename K>
void configCase(Case& c) {
    vf::Rng& r = c.rng;
    typedef xmm::ClassParameters<K> P;
    auto make = [&](std::set<std::string>& labels) {
        std::unique_ptr<xmm::Configuration<K>> k(new xmm::Configuration<K>());
        randomParams(c, *k);
        for (int i = r.in(0, 4); i > 0; i--) {
            std::string l = awkward(r);
            labels.insert(l);
            randomParams(c, (*k)[l]);
        }
        k->multithreading = static_cast<MT>(r.in(0, 2));
        k->multiClass_regression_estimator = static_cast<MCE>(r.in(0, 1));
        c.log("configuration " + describe(static_cast<P&>(*k)) + ", own: " + vf::show(labels));
        return k;
    };
    std::set<std::string> la, lb;
    auto a = make(la), b = make(lb);
    Json::Value doc = throughText(c, a->toJson());
    b->fromJson(doc);
    sameParams(c, *b, *a, "default parameters");
    c.check(b->multithreading == a->multithreading && b->multiClass_regression_estimator == a->multiClass_regression_estimator, "parameters", "another threading mode or estimator");
    for (auto const& l : la) {
        c.check(b->includes(l), "parameters", "class '" + l + "' lost its parameters");
        sameParams(c, (*b)[l], (*a)[l], "class '" + l + "'");
    }
    for (auto const& l : lb)
        if (!la.count(l)) c.check(!b->includes(l), "parameters", "class '" + l + "' of the previous content kept its parameters");
    c.check(text(b->toJson()) == text(a->toJson()), "configuration-rewritten", "the restored configuration writes another document");
    P p;
    randomParams(c, p);
    P q(throughText(c, p.P::toJson()));
    sameParams(c, q, p, "class parameters");
    p.gaussians.set(p.gaussians.get() + 1);
    q.P::fromJson(throughText(c, p.P::toJson()));
    sameParams(c, q, p, "class parameters");
    c.nontrivial = true;
    c.count("configurations restored");
}
void kmeansConfigCase(Case& c) {
    typedef xmm::ClassParameters<xmm::KMeans> P;
    vf::Rng& r = c.rng;
    auto some = [&](P& p) {
        p.clusters.set(unsigned(r.chance(0.1) ? 2147483647 : r.in(1, 50)));
        p.max_iterations.set(unsigned(r.chance(0.1) ? 2147483647 : r.in(1, 500)));
        p.relative_distance_threshold.set(float(r.chance(0.2) ? 0 : std::pow(10., r.real(-30, 20))));
        c.log(fmt("k-means parameters %u %u %.9g", p.clusters.get(), p.max_iterations.get(), double(p.relative_distance_threshold.get())));
    };
    auto same = [&](P& a, P& b, const char* how) {
        c.check(a.clusters.get() == b.clusters.get() && a.max_iterations.get() == b.max_iterations.get() && a.relative_distance_threshold.get() == b.relative_distance_threshold.get(), "kmeans-parameters",
                fmt("%s: %u %u %.9g", how, a.clusters.get(), a.max_iterations.get(), double(a.relative_distance_threshold.get())));
        c.check(text(a.P::toJson()) == text(b.P::toJson()), "configuration-rewritten", how);
    };
    P p, q;
    some(p);
    some(q);
    Json::Value doc = throughText(c, p.P::toJson());
    P n(doc);
    same(n, p, "constructed");
    q.P::fromJson(doc);
    same(q, p, "read");
    // and as the configuration of a clustering
    xmm::Configuration<xmm::KMeans> k;
    some(k);
    k.P::fromJson(doc);
    same(k, p, "read into a configuration");
    c.nontrivial = true;
    c.count("configurations restored");
}
void sharedCase(Case& c) {
    vf::Rng& r = c.rng;
    auto make = [&]() {
        std::unique_ptr<xmm::SharedParameters> s(new xmm::SharedParameters());
        s->bimodal.set(r.chance(0.5));
        s->dimension.set(unsigned(r.in(s->bimodal.get() ? 2 : 1, 7)));
        if (s->bimodal.get()) s->dimension_input.set(unsigned(r.in(1, int(s->dimension.get()) - 1)));
        std::vector<std::string> n(s->dimension.get());
        for (auto& x : n) x = awkward(r);
        if (r.chance(0.7)) s->column_names.set(n);
        s->em_algorithm_min_iterations.set(unsigned(r.in(1, 100)));
        s->em_algorithm_max_iterations.set(unsigned(r.chance(0.5) ? 0 : r.in(1, 1000000)));
        s->em_algorithm_percent_chg.set(std::pow(10., r.real(-12, 2)));
        s->likelihood_window.set(unsigned(r.in(1, 1000)));
        c.log(fmt("shared parameters bimodal %d %u/%u", s->bimodal.get(), s->dimension.get(), s->dimension_input.get()));
        return s;
    };
    auto a = make(), b = make();
    Json::Value doc = throughText(c, a->toJson());
    if (r.chance(0.3)) b.reset(new xmm::SharedParameters(doc));
    else b->fromJson(doc);
    c.check(text(b->toJson()) == text(a->toJson()), "shared-rewritten", "restored shared parameters write another document: " + text(b->toJson()) + text(a->toJson()));
    auto &x = *a, &y = *b;
    c.check(x.bimodal.get() == y.bimodal.get() && x.dimension.get() == y.dimension.get() && x.dimension_input.get() == y.dimension_input.get() && x.column_names.get() == y.column_names.get() &&
                x.em_algorithm_min_iterations.get() == y.em_algorithm_min_iterations.get() && x.em_algorithm_max_iterations.get() == y.em_algorithm_max_iterations.get() &&
                x.em_algorithm_percent_chg.get() == y.em_algorithm_percent_chg.get() && x.likelihood_window.get() == y.likelihood_window.get(),
            "shared-parameters", "restored shared parameters differ");
    // still usable: every valid value of the restored mode is accepted
    if (y.bimodal.get()) {
        y.dimension.set(9);
        y.dimension_input.set(8);
        y.bimodal.set(false);
        y.dimension.set(1);
    } else {
        y.bimodal.set(true);
        y.dimension.set(5);
        y.dimension_input.set(4);
    }
    c.nontrivial = true;
    c.count("shared parameters restored");
}
void C06(Case& c) {
    switch (c.rng.in(0, 9)) {
    case 0:
    case 1:
        gaussianCase(c);
        break;
    case 2:
        if (c.rng.chance(0.1)) kmeansConfigCase(c);
        else if (c.rng.chance(0.5)) configCase<xmm::GMM>(c);
        else configCase<xmm::HMM>(c);
        break;
    case 3:
        sharedCase(c);
        break;
    case 4:
    case 5:
        modelCase<xmm::GMM>(c);
        break;
    default:
        modelCase<xmm::HierarchicalHMM>(c);
    }
}
}  // namespace

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"C05", 30000, 400000, C05, 40}, {"C06", 12000, 150000, C06, 40}});
}
