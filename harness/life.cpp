// C15: copies and assignments of models, classes, configurations, parameters,
// distributions and clusterings are equal to their source and independent of it.
#include "snap.hpp"
#include "xmmJson.hpp"

using namespace md;
typedef xmm::KMeans::InitializationMode Init;

namespace {

std::string text(Json::Value const& v) { return Json::FastWriter().write(v); }
std::string cut(std::string const& a, std::string const& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t from = i > 60 ? i - 60 : 0;
    return "..." + a.substr(from, 140) + "... instead of ..." + b.substr(from, 140) + "...";
}

// -------------------------------------------------- whole models, one pool
typedef std::vector<std::vector<double>> Frames;
template <typename Mod>
struct Slot {
    std::unique_ptr<Mod> m;
    int id = 0;
    Data* data = nullptr;           // what it was trained with
    std::string json;               // everything its document says
    std::vector<double> live;       // its results
    std::vector<Row> stream;        // being filtered, and the results to come
    Frames want;
    size_t at = 0;
};

template <typename Mod>
struct Pool {
    Case& c;
    bool bim;
    std::deque<Data> datas;
    std::vector<std::unique_ptr<xmm::TrainingSet>> sets;
    std::vector<std::unique_ptr<Slot<Mod>>> slots;
    int nextId = 0;
    std::vector<std::string> steps;
    explicit Pool(Case& c_) : c(c_), bim(c_.rng.chance(0.45)) {}

    Data& data() { return datas[size_t(c.rng.in(0, int(datas.size()) - 1))]; }
    xmm::TrainingSet* setOf(Data* d) {
        for (size_t i = 0; i < datas.size(); i++)
            if (&datas[i] == d) return sets[i].get();
        return nullptr;
    }
    Slot<Mod>& any() { return *slots[size_t(c.rng.in(0, int(slots.size()) - 1))]; }
    std::string name(Slot<Mod>& s) { return fmt("M%d", s.id); }
    void say(std::string const& s) {
        c.log(s);
        steps.push_back(s);
        c.sig.add(s);
    }

    // its own doing: what is known of it is renewed
    void renew(Slot<Mod>& s, bool stopped = true) {
        s.json = text(s.m->toJson());
        s.live = snapshot(*s.m);
        if (stopped) s.stream.clear();
    }
    // nobody touched it
    void unchanged(Slot<Mod>& s, std::string const& why) {
        std::string now = text(s.m->toJson());
        c.checkf(now == s.json, "independence", [&] { return name(s) + " changed after: " + why + ": " + cut(now, s.json); });
        std::vector<double> live = snapshot(*s.m);
        c.checkf(same(live, s.live), "independence-results", [&] { return "results of " + name(s) + " changed after: " + why; });
    }
    // b (a copy of a) says the same and filters the same
    void equal(Slot<Mod>& a, Slot<Mod>& b, std::string const& how) {
        std::string ja = text(a.m->toJson()), jb = text(b.m->toJson());
        c.checkf(ja == jb, "copy-content", [&] { return how + ": " + cut(jb, ja); });
        c.checkf(a.m->configuration.multithreading == b.m->configuration.multithreading &&
                     a.m->configuration.multiClass_regression_estimator == b.m->configuration.multiClass_regression_estimator,
                 "copy-content", [&] { return how + ": another multithreading or multi-class regression mode"; });
        c.checkf(a.m->size() == b.m->size() && a.m->trained() == b.m->trained() && !b.m->training(), "copy-content",
                 [&] { return how + fmt(": %u classes, expected %u", b.m->size(), a.m->size()); });
        for (auto& k : a.m->models) {
            auto it = b.m->models.find(k.first);
            c.checkf(it != b.m->models.end() && it->second.label == k.first, "copy-content", [&] { return how + ": class '" + k.first + "' is missing"; });
            c.check(&it->second != &k.second, "copy-content", how + ": same object");
        }
        c.check(a.m->shared_parameters != b.m->shared_parameters, "copy-content", how + ": same shared parameters");
        c.count("copies compared");
    }
    Frames future(Slot<Mod>& s, std::vector<Row> const& stream) {
        s.stream.clear();
        Frames f = filterAll(*s.m, stream);
        return f;
    }
    std::vector<Row> newStream(Slot<Mod>& s, int n) { return randomStream(c, *s.data, n); }
    bool usable(Slot<Mod>& s) { return s.m->size() > 0 && s.data; }
    // the copy filters what the source filters
    void filtersAlike(Slot<Mod>& a, Slot<Mod>& b, std::string const& how) {
        if (!usable(a)) return;
        std::vector<Row> st = newStream(a, c.rng.in(2, 8));
        Frames fa, fb;
        if (c.rng.chance(0.5)) {
            fa = future(a, st);
            fb = future(b, st);
        } else {
            // side by side, frame by frame
            a.stream.clear();
            b.stream.clear();
            a.m->reset();
            b.m->reset();
            for (auto const& x : st) {
                a.m->filter(x);
                b.m->filter(x);
                fa.push_back(snapshot(*a.m));
                fb.push_back(snapshot(*b.m));
            }
        }
        c.checkf(sameAll(fb, fa), "copy-filtering", [&] { return how + ": " + firstDifference(fb, fa); });
        c.count("copied frames compared", fa.size());
        c.nontrivial = true;
        a.live = snapshot(*a.m);
        b.live = snapshot(*b.m);
    }
    void alike(Slot<Mod>& a, Slot<Mod>& b, std::string const& how) {
        equal(a, b, how);
        // the source is not disturbed by being copied
        std::vector<double> live = snapshot(*a.m);
        c.checkf(same(live, a.live), "copy-disturbs", [&] { return how + ": results of the source changed"; });
        if (c.rng.chance(0.7)) filtersAlike(a, b, how);
        renew(b);
        a.json = text(a.m->toJson());
    }

    Slot<Mod>& add(Mod* m, Data* d) {
        std::unique_ptr<Slot<Mod>> s(new Slot<Mod>());
        s->m.reset(m);
        s->id = nextId++;
        s->data = d;
        slots.push_back(std::move(s));
        return *slots.back();
    }
    void create() {
        Slot<Mod>& s = add(new Mod(bim), nullptr);
        Data& d = data();
        randomConfig(c, *s.m, d);
        if (c.rng.chance(0.2)) s.m->configuration.multithreading = MT::Parallel;
        say("new " + name(s));
        renew(s);
    }
    bool fits(Slot<Mod>& s, Data& d) {
        return s.m->size() == 0 || (s.m->shared_parameters->dimension.get() == d.dim && (!bim || s.m->shared_parameters->dimension_input.get() == d.din));
    }
    void trainAll(Slot<Mod>& s, Data& d) {
        s.m->train(setOf(&d));
        s.data = &d;
        renew(s);
    }

    // what happens to the class-level copy when its model changes, and conversely
    void classes(Slot<Mod>& s) {
        if (!usable(s)) return;
        typedef typename std::decay<decltype(s.m->models.begin()->second)>::type Class;
        std::vector<std::string> labels;
        for (auto& k : s.m->models) labels.push_back(k.first);
        std::string l = c.rng.pick(labels), l2 = c.rng.pick(labels);
        // a model of its own, which the history does not depend on
        std::unique_ptr<Mod> own(new Mod(*s.m));
        std::unique_ptr<Class> k;
        std::string how;
        if (c.rng.chance(0.5)) {
            k.reset(new Class(own->models[l]));
            how = "copy of class '" + l + "'";
        } else {
            // over a class with exit points and parameters of its own
            Mod alt(*s.m);
            exitPoint(alt);
            if (c.rng.chance(0.5)) spoil(alt.models[l2]);
            k.reset(new Class(alt.models[l2]));
            *k = own->models[l];
            if (c.rng.chance(0.3)) {
                Class& self = *k;
                *k = self;
            }
            how = "assignment of class '" + l + "' over '" + l2 + "'";
        }
        say(how + " of " + name(s));
        std::vector<Row> st = newStream(s, c.rng.in(2, 6));
        auto run = [&](Class& x) {
            Frames f;
            x.reset();
            for (auto const& o : st) {
                std::vector<double> v;
                v.push_back(x.filter(o));
                v.push_back(x.results.instant_likelihood);
                if (bim) {
                    put(v, x.results.output_values);
                    put(v, x.results.output_covariance);
                }
                f.push_back(v);
            }
            return f;
        };
        std::string jm = text(own->toJson()), jk = text(own->models[l].toJson());
        c.checkf(text(k->toJson()) == jk, "class-content", [&] { return how + ": " + cut(text(k->toJson()), jk); });
        // a class of a hierarchical model is filtered by its model
        bool alone = !isHierarchical(*own);
        Frames fm, fk;
        if (alone) {
            fm = run(own->models[l]);
            fk = run(*k);
        }
        c.checkf(sameAll(fk, fm), "class-filtering", [&] { return how + ": " + firstDifference(fk, fm); });
        std::string what;
        switch (c.rng.in(0, 5)) {
            case 0:
                own->clear();
                what = "clearing the model";
                break;
            case 1:
                own.reset();
                what = "destroying the model";
                break;
            case 2:
                own->removeClass(l);
                what = "removing the class from the model";
                break;
            case 3:
                own->train(setOf(s.data));
                what = "retraining the model";
                break;
            case 4: {
                randomParams(c, own->models[l].parameters);
                what = "changing the parameters of the model's class";
                break;
            }
            default: {
                Class& x = own->models[l];
                spoil(x);
                what = "writing into the model's class";
            }
        }
        std::string now = text(k->toJson());
        c.checkf(now == jk, "class-independence", [&] { return how + " after " + what + ": " + cut(now, jk); });
        Frames f2;
        if (alone) f2 = run(*k);
        c.checkf(sameAll(f2, fm), "class-independence", [&] { return how + " filtering after " + what + ": " + firstDifference(f2, fm); });
        // and conversely
        std::unique_ptr<Mod> other(new Mod(*s.m));
        Class k2(other->models[l]);
        switch (c.rng.in(0, 2)) {
            case 0:
                spoil(k2);
                what = "writing into the class";
                break;
            case 1: {
                auto p = setOf(s.data)->getPhrasesOfClass(l);
                if (!p) break;
                k2.train(p);
                what = "training the class";
                c.count("class copies trained");
                break;
            }
            default: {
                randomParams(c, k2.parameters);
                what = "changing the parameters of the class";
            }
        }
        std::string jn = text(other->toJson());
        c.checkf(jn == jm, "class-independence", [&] { return "model after " + what + " copied from '" + l + "': " + cut(jn, jm); });
        // the first copy in a model again, which then filters as before
        Mod back(*s.m), untouched(*s.m);
        spoil(back.models[l]);
        back.models[l] = *k;
        Frames fb = filterAll(back, st), fu = filterAll(untouched, st);
        c.checkf(sameAll(fb, fu), "class-filtering", [&] { return how + ", put back in a model: " + firstDifference(fb, fu); });
        c.count("class copies compared");
    }
    static void spoilGauss(xmm::GaussianDistribution& g) {
        for (auto& v : g.mean) v += 0.125;
        for (auto& v : g.covariance) v *= 1.5;
        g.updateInverseCovariance();
    }
    void spoil(xmm::SingleClassGMM& k) {
        for (auto& g : k.components) spoilGauss(g);
        for (auto& w : k.mixture_coeffs) w = 1.f / float(k.mixture_coeffs.size());
    }
    void spoil(xmm::SingleClassHMM& k) {
        for (auto& st : k.states) spoil(st);
        for (auto& v : k.prior) v = 1.f / float(k.prior.size());
        size_t n = k.states.size();
        if (k.parameters.transition_mode.get() == TM::Ergodic)
            for (auto& v : k.transition) v = 1.f / float(n);
        else
            for (size_t i = 0; i + 1 < n; i++) k.transition[2 * i] = k.transition[2 * i + 1] = 0.5f;
    }
    void exitPoint(xmm::GMM&) {}
    void exitPoint(xmm::HierarchicalHMM& m) {
        if (!m.configuration.hierarchical.get()) return;
        unsigned least = 1000;
        for (auto& k : m.models) least = std::min(least, k.second.parameters.states.get());
        if (m.size()) m.addExitPoint(c.rng.in(0, int(least) - 1), float(c.rng.real(0.05, 0.6)));
        // class-level parameters are public: any values travel with a copy
        if (!c.rng.chance(0.6)) return;
        auto row = [&](std::vector<double>& v) {
            double s = 0;
            for (auto& x : v) s += x = c.rng.real(0.05, 1);
            for (auto& x : v) x /= s;
        };
        row(m.prior);
        for (auto& v : m.transition) row(v);
        for (auto& v : m.exit_transition) v = c.rng.real(0.05, 0.9);
        c.log("class priors, transitions and exits " + vf::show(m.prior) + vf::show(m.exit_transition));
    }

    void step() {
        vf::Rng& r = c.rng;
        std::string before;
        Slot<Mod>& s = any();
        Slot<Mod>* touched = &s;
        int op = r.in(0, 99);
        size_t said = steps.size();
        if (op < 14) {
            Data& d = data();
            say("train " + name(s) + fmt(" with set %d", int(&d == &datas[0] ? 0 : 1)));
            trainAll(s, d);
        } else if (op < 20) {
            Data& d = data();
            auto ls = d.labels();
            std::vector<std::string> v(ls.begin(), ls.end());
            std::string l = r.pick(v);
            if (!fits(s, d)) return;
            say("train '" + l + "' of " + name(s));
            s.m->train(setOf(&d), l);
            if (!s.data || s.data->dim != d.dim || s.data->din != d.din) s.data = &d;
            renew(s);
        } else if (op < 36 && slots.size() < 6) {
            Slot<Mod>& b = add(new Mod(*s.m), s.data);
            say(name(b) + " copied from " + name(s));
            alike(s, b, name(b) + " copied from " + name(s));
            c.count("model copies");
            touched = &b;
        } else if (op < 50) {
            Slot<Mod>& b = any();
            say(name(b) + " = " + name(s));
            if (&b == &s) {
                std::string j = s.json;
                Mod& self = *s.m;
                *s.m = self;
                c.count("self assignments");
                unchanged(s, "self assignment");
                return;
            }
            *b.m = *s.m;
            b.data = s.data;
            alike(s, b, name(b) + " assigned from " + name(s));
            c.count("model assignments");
            touched = &b;
        } else if (op < 55) {
            if (slots.size() < 2) return;
            say("destroy " + name(s));
            size_t i = 0;
            while (slots[i].get() != &s) i++;
            slots.erase(slots.begin() + long(i));
            touched = nullptr;
            c.count("models destroyed");
        } else if (op < 59) {
            say("clear " + name(s));
            s.m->clear();
            renew(s);
        } else if (op < 63) {
            if (s.m->size() == 0) return;
            std::vector<std::string> ls;
            for (auto& k : s.m->models) ls.push_back(k.first);
            std::string l = r.pick(ls);
            say("remove '" + l + "' from " + name(s));
            s.m->removeClass(l);
            renew(s);
        } else if (op < 70) {
            say("configure " + name(s));
            bool h = isHierarchical(*s.m);
            randomConfig(c, *s.m, data());
            if (r.chance(0.6)) setHierarchical(*s.m, h);
            if (r.chance(0.3)) s.m->configuration.reset();
            s.m->reset();
            renew(s);
        } else if (op < 74) {
            if (s.m->size() == 0) return;
            say("write into " + name(s));
            for (auto& k : s.m->models)
                if (r.chance(0.7)) spoil(k.second);
            s.m->reset();
            renew(s);
        } else if (op < 77) {
            say("exit points of " + name(s));
            exitPoint(*s.m);
            s.m->reset();
            renew(s);
        } else if (op < 82) {
            classes(s);
            touched = nullptr;
        } else if (op < 86) {
            // copies learn like their source
            Data& d = data();
            Mod copy(*s.m);
            Mod assigned(!bim);
            assigned = *s.m;
            say("train " + name(s) + " and its copies");
            trainAll(s, d);
            copy.train(setOf(&d));
            assigned.train(setOf(&d));
            std::string j = text(copy.toJson()), k = text(assigned.toJson());
            c.checkf(j == s.json, "copy-training", [&] { return "a copy of " + name(s) + " learns: " + cut(j, s.json); });
            c.checkf(k == s.json, "copy-training", [&] { return "a model assigned from " + name(s) + " learns: " + cut(k, s.json); });
            c.count("trained copies compared");
        } else {
            // filter a few frames of a stream
            if (!usable(s)) return;
            if (s.stream.empty() || s.at == s.stream.size()) {
                std::vector<Row> st = newStream(s, r.in(3, 9));
                Mod copy(*s.m);
                Frames f = filterAll(copy, st);
                s.stream = st;
                s.want = f;
                s.at = 0;
                s.m->reset();
            }
            int n = r.in(1, 4);
            say(fmt("filter %d frames with ", n) + name(s));
            for (int i = 0; i < n && s.at < s.stream.size(); i++) {
                s.m->filter(s.stream[s.at]);
                std::vector<double> o = snapshot(*s.m);
                c.checkf(same(o, s.want[s.at]), "stream", [&] { return fmt("frame %zu of ", s.at) + name(s) + " differs from that of its copy: " + firstDifference({o}, {s.want[s.at]}); });
                s.at++;
                c.count("interleaved frames compared");
            }
            c.nontrivial = true;
            renew(s, false);
        }
        if (steps.size() == said) return;
        for (auto& o : slots)
            if (o.get() != touched) unchanged(*o, steps.back());
        c.count("history steps");
    }

    void run() {
        DataSpec ds;
        ds.bimodal = bim;
        ds.maxClasses = 3;
        ds.maxPhrases = 2;
        ds.minLen = 6;
        ds.maxLen = 12;
        for (int i = 0; i < 2; i++) {
            datas.push_back(randomData(c, ds));
            c.log(describe(datas.back()));
        }
        for (auto& d : datas) sets.push_back(d.build());
        create();
        if (c.rng.chance(0.8)) {
            say("train " + name(*slots[0]));
            trainAll(*slots[0], data());
        }
        if (c.rng.chance(0.4)) create();
        int n = c.rng.in(4, 12);
        for (int i = 0; i < n; i++) {
            if (slots.empty()) create();
            step();
        }
        // everything still stands without the training sets, in any order
        sets.clear();
        while (!slots.empty()) {
            size_t i = size_t(c.rng.in(0, int(slots.size()) - 1));
            slots.erase(slots.begin() + long(i));
            for (auto& o : slots) unchanged(*o, "destruction of another model");
            if (!slots.empty() && usable(any()) && c.rng.chance(0.5)) {
                Slot<Mod>& s = any();
                if (usable(s)) future(s, newStream(s, 2));
                renew(s);
            }
        }
    }
};

// ------------------------------------------ configurations and parameters
std::string textOf(xmm::SharedParameters const& p) { return text(p.toJson()); }
template <typename T>
std::string confText(xmm::Configuration<T>& cf) {
    return text(cf.toJson()) + text(cf.xmm::template ClassParameters<T>::toJson());
}
template <typename T>
void randomConf(Case& c, xmm::Configuration<T>& cf, std::vector<std::string> const& labels) {
    randomParams(c, cf);
    for (auto const& l : labels)
        if (c.rng.chance(0.4)) randomParams(c, cf[l]);
    cf.multithreading = static_cast<MT>(c.rng.in(0, 2));
    cf.multiClass_regression_estimator = static_cast<MCE>(c.rng.in(0, 1));
}
void extraConf(Case&, xmm::Configuration<xmm::GMM>&) {}
void extraConf(Case& c, xmm::Configuration<xmm::HMM>& cf) { cf.hierarchical.set(c.rng.chance(0.5)); }

template <typename T>
void configurations(Case& c) {
    vf::Rng& r = c.rng;
    const std::vector<std::string> labels{"a", "b", "x y", ""};
    std::vector<std::unique_ptr<xmm::Configuration<T>>> v;
    std::vector<std::string> want;
    auto put = [&](std::unique_ptr<xmm::Configuration<T>> p) {
        want.push_back(confText(*p));
        v.push_back(std::move(p));
    };
    for (int i = 0; i < 2; i++) {
        std::unique_ptr<xmm::Configuration<T>> p(new xmm::Configuration<T>());
        if (r.chance(0.8)) {
            randomConf(c, *p, labels);
            extraConf(c, *p);
        }
        put(std::move(p));
    }
    int n = r.in(4, 14);
    for (int i = 0; i < n; i++) {
        size_t a = size_t(r.in(0, int(v.size()) - 1)), b = size_t(r.in(0, int(v.size()) - 1));
        std::string what;
        switch (r.in(0, 8)) {
            case 0: {
                std::unique_ptr<xmm::Configuration<T>> p(new xmm::Configuration<T>(*v[a]));
                what = fmt("copy of %zu", a);
                c.checkf(confText(*p) == want[a], "configuration-copy", [&] { return what + ": " + cut(confText(*p), want[a]); });
                for (auto const& l : labels) c.check(p->includes(l) == v[a]->includes(l), "configuration-copy", what + ": other class-specific parameters");
                put(std::move(p));
                break;
            }
            case 1:
                *v[b] = *v[a];
                want[b] = want[a];
                what = fmt("%zu = %zu", b, a);
                break;
            case 2:
                randomConf(c, *v[a], labels);
                extraConf(c, *v[a]);
                want[a] = confText(*v[a]);
                what = fmt("random %zu", a);
                break;
            case 3:
                v[a]->reset();
                want[a] = confText(*v[a]);
                for (auto const& l : labels) c.check(!v[a]->includes(l), "configuration-reset", "class-specific parameters remain");
                what = fmt("reset of %zu", a);
                break;
            case 4: {
                std::string l = r.pick(labels);
                // from now on, as the default parameters
                bool had = v[a]->includes(l);
                std::string d = text(v[a]->xmm::template ClassParameters<T>::toJson());
                auto& p = (*v[a])[l];
                if (!had) c.checkf(text(p.toJson()) == d, "configuration-default", [&] { return "new class parameters " + cut(text(p.toJson()), d); });
                c.check(v[a]->includes(l), "configuration-default", "class-specific parameters are not included");
                want[a] = confText(*v[a]);
                what = fmt("access to '%s' in %zu", l.c_str(), a);
                break;
            }
            case 5: {
                std::string l = r.pick(labels);
                v[a]->reset(l);
                c.check(!v[a]->includes(l), "configuration-reset", "class-specific parameters remain");
                want[a] = confText(*v[a]);
                what = fmt("reset of '%s' in %zu", l.c_str(), a);
                break;
            }
            case 6: {  // parameters alone
                std::unique_ptr<xmm::ClassParameters<T>> q(new xmm::ClassParameters<T>(*v[a]));
                xmm::ClassParameters<T> w;
                w = *q;
                std::string t = text(q->toJson());
                c.checkf(t == text(v[a]->xmm::template ClassParameters<T>::toJson()) && t == text(w.toJson()), "parameters-copy", [&] { return "class parameters " + t; });
                randomParams(c, *q);
                q.reset();
                c.checkf(t == text(w.toJson()), "parameters-independence", [&] { return "class parameters " + text(w.toJson()) + ", expected " + t; });
                randomParams(c, w);  // its listeners are its own
                c.check(w.changed, "parameters-changed", "no change flag on a copy");
                what = fmt("class parameters from %zu", a);
                break;
            }
            case 7:
                // assignment to the default parameters only: class-specific ones stay
                if (v.size() < 2) break;
                v.erase(v.begin() + long(a));
                want.erase(want.begin() + long(a));
                what = fmt("destruction of %zu", a);
                break;
            default: {
                xmm::Configuration<T>& self = *v[a];
                *v[a] = self;
                what = fmt("self assignment of %zu", a);
            }
        }
        c.log(what);
        for (size_t k = 0; k < v.size(); k++) {
            std::string now = confText(*v[k]);
            c.checkf(now == want[k], "configuration-independence", [&] { return fmt("configuration %zu after: ", k) + what + ": " + cut(now, want[k]); });
        }
        c.count("configuration steps");
    }
    c.nontrivial = true;
}

void sharedParameters(Case& c) {
    vf::Rng& r = c.rng;
    auto change = [&](xmm::SharedParameters& p) {
        if (r.chance(0.5)) {
            bool b = r.chance(0.5);
            unsigned dim = unsigned(r.in(2, 6));
            p.bimodal.set(b);
            p.dimension.set(dim);
            if (b) p.dimension_input.set(unsigned(r.in(1, int(dim) - 1)));
            std::vector<std::string> cols(dim);
            for (auto& x : cols) x = fmt("c%d", r.in(0, 99));
            p.column_names.set(cols);
        }
        p.em_algorithm_min_iterations.set(unsigned(r.in(1, 30)));
        p.em_algorithm_max_iterations.set(unsigned(r.in(0, 30)));
        p.em_algorithm_percent_chg.set(r.real(0, 1));
        p.likelihood_window.set(unsigned(r.in(1, 30)));
    };
    std::vector<std::unique_ptr<xmm::SharedParameters>> v;
    std::vector<std::string> want;
    v.emplace_back(new xmm::SharedParameters());
    change(*v[0]);
    want.push_back(textOf(*v[0]));
    int n = r.in(4, 12);
    for (int i = 0; i < n; i++) {
        size_t a = size_t(r.in(0, int(v.size()) - 1)), b = size_t(r.in(0, int(v.size()) - 1));
        std::string what;
        switch (r.in(0, 3)) {
            case 0:
                v.emplace_back(new xmm::SharedParameters(*v[a]));
                want.push_back(want[a]);
                what = fmt("copy of %zu", a);
                break;
            case 1:
                *v[b] = *v[a];
                want[b] = want[a];
                what = fmt("%zu = %zu", b, a);
                break;
            case 2:
                change(*v[a]);
                want[a] = textOf(*v[a]);
                what = fmt("change of %zu", a);
                break;
            default:
                if (v.size() < 2) break;
                v.erase(v.begin() + long(a));
                want.erase(want.begin() + long(a));
                what = fmt("destruction of %zu", a);
        }
        c.log(what);
        for (size_t k = 0; k < v.size(); k++) {
            std::string now = textOf(*v[k]);
            c.checkf(now == want[k], "parameters-independence", [&] { return fmt("shared parameters %zu after: ", k) + what + ": " + cut(now, want[k]); });
        }
    }
    // the limits follow the copy: an input dimension below the dimension
    for (auto& p : v) {
        if (!p->bimodal.get()) continue;
        unsigned dim = p->dimension.get();
        bool refused = false;
        try {
            p->dimension_input.set(dim);
        } catch (std::domain_error const&) {
            refused = true;
        }
        c.checkf(refused, "parameters-limits", [&] { return fmt("input dimension %u accepted for dimension %u", dim, dim); });
    }
    c.nontrivial = true;
}

// ------------------------------------------------------------ distributions
void gaussians(Case& c) {
    vf::Rng& r = c.rng;
    struct G {
        std::unique_ptr<xmm::GaussianDistribution> g;
        std::string want;
        std::vector<double> lik;
    };
    std::vector<Row> obs;
    for (int i = 0; i < 3; i++) {
        Row x(6);
        for (auto& v : x) v = float(r.gauss());
        obs.push_back(x);
    }
    auto use = [&](xmm::GaussianDistribution& g) {
        std::vector<double> o;
        for (auto const& x : obs) {
            Row y(x.begin(), x.begin() + g.dimension.get());
            o.push_back(g.likelihood(y.data()));
            if ((g.dimension_input.get() > 0)) {
                std::vector<float> p(g.dimension.get() - g.dimension_input.get());
                Row in(x.begin(), x.begin() + g.dimension_input.get());
                o.push_back(g.likelihood_input(in.data()));
                o.push_back(g.likelihood_bimodal(in.data(), y.data() + g.dimension_input.get()));
                g.regression(in, p);
                put(o, p);
                put(o, g.output_covariance);
            }
        }
        return o;
    };
    auto randomize = [&](xmm::GaussianDistribution& g) {
        unsigned n = g.dimension.get();
        // the mode of an invertible covariance can be changed
        bool full = g.covariance_mode.get() == CM::Full;
        for (unsigned i = 0; i < n; i++)
            for (unsigned j = 0; j < n; j++)
                if (full || i == j) g.covariance[full ? i * n + j : i] = i == j ? 1 : 0;
        g.covariance_mode.set(r.chance(0.5) ? CM::Full : CM::Diagonal);
        for (auto& v : g.mean) v = float(r.gauss());
        if (g.covariance_mode.get() == CM::Diagonal) {
            for (auto& v : g.covariance) v = float(r.real(0.2, 2));
        } else {
            std::vector<double> a(n * n);
            for (auto& v : a) v = r.gauss() * 0.4;
            for (unsigned i = 0; i < n; i++)
                for (unsigned j = 0; j < n; j++) {
                    double s = i == j ? 0.5 : 0;
                    for (unsigned k = 0; k < n; k++) s += a[i * n + k] * a[j * n + k];
                    g.covariance[i * n + j] = float(s);
                }
        }
        g.updateInverseCovariance();
    };
    std::vector<G> v;
    auto note = [&](G& g) {
        g.want = text(g.g->toJson());
        g.lik = use(*g.g);
    };
    for (int i = 0; i < 2; i++) {
        bool bim = r.chance(0.5);
        unsigned n = unsigned(r.in(bim ? 2 : 1, 5));
        G g;
        g.g.reset(new xmm::GaussianDistribution(bim, n, bim ? unsigned(r.in(1, int(n) - 1)) : 0));
        randomize(*g.g);
        note(g);
        v.push_back(std::move(g));
    }
    int n = r.in(4, 12);
    for (int i = 0; i < n; i++) {
        size_t a = size_t(r.in(0, int(v.size()) - 1)), b = size_t(r.in(0, int(v.size()) - 1));
        std::string what;
        switch (r.in(0, 4)) {
            case 0: {
                G g;
                g.g.reset(new xmm::GaussianDistribution(*v[a].g));
                g.want = v[a].want;
                g.lik = v[a].lik;
                v.push_back(std::move(g));
                what = fmt("copy of %zu", a);
                break;
            }
            case 1:
                *v[b].g = *v[a].g;
                v[b].want = v[a].want;
                v[b].lik = v[a].lik;
                what = fmt("%zu = %zu", b, a);
                break;
            case 2:
                randomize(*v[a].g);
                note(v[a]);
                what = fmt("new content of %zu", a);
                break;
            case 3: {
                unsigned d = unsigned(r.in(v[a].g->dimension_input.get() > 0 ? int(v[a].g->dimension_input.get()) + 1 : 1, 6));
                v[a].g->dimension.set(d);
                randomize(*v[a].g);
                note(v[a]);
                what = fmt("new dimension of %zu: %u", a, d);
                break;
            }
            default:
                if (v.size() < 2) break;
                v.erase(v.begin() + long(a));
                what = fmt("destruction of %zu", a);
        }
        c.log(what);
        for (size_t k = 0; k < v.size(); k++) {
            std::string now = text(v[k].g->toJson());
            c.checkf(now == v[k].want, "gaussian-independence", [&] { return fmt("gaussian %zu after: ", k) + what + ": " + cut(now, v[k].want); });
            std::vector<double> l = use(*v[k].g);
            c.checkf(same(l, v[k].lik), "gaussian-independence", [&] { return fmt("likelihood or regression of gaussian %zu after: ", k) + what + ": " + vf::show(l) + ", expected " + vf::show(v[k].lik); });
        }
        c.count("gaussian steps");
    }
    c.nontrivial = true;
}

// --------------------------------------------------------------- clustering
void clusterings(Case& c) {
    vf::Rng& r = c.rng;
    DataSpec ds;
    ds.bimodal = 0;
    ds.maxLen = 12;
    std::deque<Data> datas;
    std::vector<std::unique_ptr<xmm::TrainingSet>> sets;
    for (int i = 0; i < 2; i++) datas.push_back(randomData(c, ds));
    for (auto& d : datas) sets.push_back(d.build());
    struct K {
        std::unique_ptr<xmm::KMeans> k;
        size_t set = 0;
        bool trained = false;
        std::vector<float> centers;
        std::string conf;
        std::vector<double> res;
    };
    auto resultsOf = [&](xmm::KMeans& k) {
        std::vector<double> o{double(k.results.likeliest)};
        put(o, k.results.distances);
        return o;
    };
    auto confOf = [&](xmm::KMeans& k) { return fmt("%u %u %.9g %u %d ", k.configuration.clusters.get(), k.configuration.max_iterations.get(), double(k.configuration.relative_distance_threshold.get()), k.shared_parameters->dimension.get(), int(k.initialization_mode)) + textOf(*k.shared_parameters); };
    auto note = [&](K& k) {
        k.centers = k.k->centers;
        k.conf = confOf(*k.k);
        k.res = resultsOf(*k.k);
    };
    std::vector<K> v;
    v.emplace_back();
    v[0].k.reset(new xmm::KMeans(unsigned(r.in(1, 4))));
    v[0].k->initialization_mode = Init::Biased;
    note(v[0]);
    int n = r.in(5, 12);
    for (int i = 0; i < n; i++) {
        size_t a = size_t(r.in(0, int(v.size()) - 1)), b = size_t(r.in(0, int(v.size()) - 1));
        std::string what;
        switch (i == 0 ? 0 : r.in(0, 6)) {
            case 0:
                v[a].set = size_t(r.in(0, 1));
                v[a].k->train(sets[v[a].set].get());
                v[a].trained = true;
                v[a].k->reset();
                note(v[a]);
                what = fmt("train %zu", a);
                break;
            case 1:
                v.emplace_back();
                v.back().k.reset(new xmm::KMeans(*v[a].k));
                v.back().set = v[a].set;
                v.back().trained = v[a].trained;
                v.back().centers = v[a].centers;
                v.back().conf = v[a].conf;
                v.back().res = v[a].res;
                what = fmt("copy of %zu", a);
                break;
            case 2:
                *v[b].k = *v[a].k;
                v[b].set = v[a].set;
                v[b].trained = v[a].trained;
                v[b].centers = v[a].centers;
                v[b].conf = v[a].conf;
                v[b].res = v[a].res;
                what = fmt("%zu = %zu", b, a);
                break;
            case 3:
                v[a].k->configuration.clusters.set(unsigned(r.in(1, 5)));
                v[a].k->configuration.max_iterations.set(unsigned(r.in(1, 9)));
                v[a].k->initialization_mode = Init::Biased;
                v[a].trained = false;  // to be trained again
                note(v[a]);
                what = fmt("configure %zu", a);
                break;
            case 4: {
                if (!v[a].trained) break;
                std::vector<Row> st = randomStream(c, datas[v[a].set], 3);
                xmm::KMeans copy(*v[a].k);
                v[a].k->reset();
                copy.reset();
                for (auto const& x : st) {
                    v[a].k->filter(x);
                    copy.filter(x);
                    c.check(same(resultsOf(*v[a].k), resultsOf(copy)), "clustering-filtering", "a copy associates other clusters");
                }
                note(v[a]);
                what = fmt("filter with %zu", a);
                break;
            }
            case 5:
                if (v.size() < 2) break;
                v.erase(v.begin() + long(a));
                what = fmt("destruction of %zu", a);
                break;
            default: {
                // a copy learns the same
                xmm::KMeans copy(*v[a].k);
                v[a].set = size_t(r.in(0, 1));
                v[a].k->train(sets[v[a].set].get());
                copy.train(sets[v[a].set].get());
                v[a].trained = true;
                v[a].k->reset();
                note(v[a]);
                bool eq = copy.centers.size() == v[a].centers.size();
                for (size_t k = 0; eq && k < copy.centers.size(); k++) eq = same({double(copy.centers[k])}, {double(v[a].centers[k])});
                c.checkf(eq, "clustering-training", [&] { return "centres of a copy " + vf::show(copy.centers) + ", expected " + vf::show(v[a].centers); });
                what = fmt("train %zu and a copy", a);
            }
        }
        c.log(what);
        for (size_t k = 0; k < v.size(); k++) {
            std::vector<double> x(v[k].k->centers.begin(), v[k].k->centers.end()), y(v[k].centers.begin(), v[k].centers.end());
            c.checkf(same(x, y), "clustering-independence", [&] { return fmt("centres of %zu after: ", k) + what + ": " + vf::show(x) + ", expected " + vf::show(y); });
            std::string cf = confOf(*v[k].k);
            c.checkf(cf == v[k].conf, "clustering-independence", [&] { return fmt("configuration of %zu after: ", k) + what + ": " + cf + ", expected " + v[k].conf; });
            c.checkf(same(resultsOf(*v[k].k), v[k].res), "clustering-independence", [&] { return fmt("results of %zu after: ", k) + what; });
        }
        c.count("clustering steps");
    }
    c.nontrivial = true;
}

void C15(Case& c) {
    int k = c.rng.in(0, 19);
    c.sig.add(k);
    if (k < 6) {
        c.count("GMM histories");
        Pool<xmm::GMM>(c).run();
    } else if (k < 13) {
        c.count("HMM histories");
        Pool<xmm::HierarchicalHMM>(c).run();
    } else if (k < 14) {
        configurations<xmm::GMM>(c);
    } else if (k < 15) {
        configurations<xmm::HMM>(c);
    } else if (k < 16) {
        sharedParameters(c);
    } else if (k < 18) {
        gaussians(c);
    } else {
        clusterings(c);
    }
}
}  // namespace

int main(int argc, char** argv) { return vf::run(argc, argv, {{"C15", 15000, 300000, C15, 25}}); }
