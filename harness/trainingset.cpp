// C03 (training set consistency over any history of edits) and
// C04 (statistics, rescaling and normalisation against an exact reference)
#include "vf.hpp"
#include "xmm.h"
#include <memory>

using vf::Case;
using vf::fmt;
typedef std::vector<float> Row;
typedef std::shared_ptr<xmm::Phrase> PhraseP;

namespace {

struct PM {  // model of one phrase; shared between the sets that share the phrase
    PhraseP p;
    std::string label;
    unsigned dim, din;
    bool bim;
    std::vector<Row> rows;
    std::vector<std::string> cols;
};
typedef std::shared_ptr<PM> PMP;

struct SM {
    std::unique_ptr<xmm::TrainingSet> ts;
    std::string name;
    bool bim;
    unsigned dim, din;
    std::vector<std::string> cols;
    std::map<int, PMP> phrases;
};

struct Engine {
    Case& c;
    std::vector<SM> sets;
    std::vector<PMP> pool;  // phrases the user keeps a pointer to
    int serial = 0;
    std::vector<int> slots;           // indices phrases are stored under
    std::vector<std::string> names;   // class labels in use
    unsigned maxDim = 5;
    explicit Engine(Case& c_) : c(c_) {
        int n = c.rng.chance(0.7) ? 7 : c.rng.in(8, 40);
        std::set<int> all;
        bool wild = c.rng.chance(0.3);
        while (int(all.size()) < n)
            all.insert(!wild ? int(all.size()) : c.rng.chance(0.2) ? c.rng.pick(std::vector<int>{-1, -7, 255, 256, 65536, 1 << 24, 2147483647, -2147483647 - 1}) : c.rng.in(-100, 100000));
        slots.assign(all.begin(), all.end());
        int m = c.rng.chance(0.7) ? 4 : c.rng.in(1, 20);
        bool long_ = c.rng.chance(0.25), odd = c.rng.chance(0.25);
        for (int i = 0; i < m; i++) names.push_back((long_ ? std::string(c.rng.in(8, 60), 'x') : "") + fmt("l%d", i));
        if (odd) {
            names.push_back("");
            names.push_back(" ");
            names.push_back("L0");
            names.push_back("l0 ");
        }
        if (c.rng.chance(0.15)) maxDim = 20;
        if (n > 7 || m > 4) c.count("histories over many phrases or classes");
    }

    std::string lab() { return c.rng.pick(names); }
    PMP newPhrase(bool bim, unsigned dim, unsigned din, std::string label) {
        PMP m = std::make_shared<PM>();
        m->p = std::make_shared<xmm::Phrase>(xmm::MemoryMode::OwnMemory, bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        m->p->dimension.set(dim);
        if (bim) m->p->dimension_input.set(din);
        m->p->label.set(label);
        m->bim = bim;
        m->dim = dim;
        m->din = din;
        m->label = label;
        m->cols.resize(dim);
        for (auto& s : m->cols) s = fmt("k%d", c.rng.in(0, 9));
        m->p->column_names = m->cols;
        record(*m, c.rng.in(0, 5));
        return m;
    }
    void record(PM& m, int n) {
        for (int i = 0; i < n; i++) {
            Row r(m.dim);
            for (auto& x : r) x = float(c.rng.gauss());
            m.p->record(r);
            m.rows.push_back(r);
        }
    }

    void verifyPhrase(PM& m, xmm::Phrase const& p, std::string const& ctx) {
        c.checkf(p.label.get() == m.label, "phrase-label", [&] { return ctx + "phrase label '" + p.label.get() + "', expected '" + m.label + "'"; });
        c.checkf(p.dimension.get() == m.dim && (!m.bim || p.dimension_input.get() == m.din) && p.bimodal() == m.bim, "phrase-dim",
                 [&] { return ctx + fmt("phrase dimensions %u/%u, expected %u/%u", p.dimension.get(), p.dimension_input.get(), m.dim, m.din); });
        c.checkf(p.size() == m.rows.size(), "phrase-size", [&] { return ctx + fmt("phrase has %u frames, expected %zu", p.size(), m.rows.size()); });
        c.checkf(p.column_names == m.cols, "phrase-columns", [&] { return ctx + "phrase columns " + vf::show(p.column_names) + ", expected " + vf::show(m.cols); });
        for (unsigned t = 0; t < m.rows.size(); t++)
            for (unsigned d = 0; d < m.dim; d++)
                c.checkf(p.getValue(t, d) == m.rows[t][d], "phrase-value", [&] { return ctx + fmt("value(%u,%u) differs", t, d); });
    }

    void verify(SM& s, std::string const& when) {
        xmm::TrainingSet& ts = *s.ts;
        std::string ctx = s.name + " after " + when + ": ";
        c.checkf(ts.size() == s.phrases.size() && ts.empty() == s.phrases.empty(), "size", [&] { return ctx + fmt("size %u, expected %zu", ts.size(), s.phrases.size()); });
        c.checkf(ts.bimodal() == s.bim && ts.ownMemory(), "mode", [&] { return ctx + "mode"; });
        c.checkf(ts.dimension.get() == s.dim && (!s.bim || ts.dimension_input.get() == s.din), "dim",
                 [&] { return ctx + fmt("dimensions %u/%u, expected %u/%u", ts.dimension.get(), ts.dimension_input.get(), s.dim, s.din); });
        c.checkf(ts.column_names.get() == s.cols, "columns", [&] { return ctx + "columns " + vf::show(ts.column_names.get()) + ", expected " + vf::show(s.cols); });
        std::set<std::string> labels;
        for (auto& p : s.phrases) labels.insert(p.second->label);
        c.checkf(ts.labels() == labels, "labels", [&] { return ctx + "labels " + vf::show(ts.labels()) + ", expected " + vf::show(labels); });
        std::vector<int> probe = slots;
        for (int i : {-1, 7, 8, slots.back() == 2147483647 ? 0 : slots.back() + 1}) probe.push_back(i);
        for (int i : probe) {
            auto it = s.phrases.find(i);
            PhraseP p = ts.getPhrase(i);
            if (it == s.phrases.end()) {
                c.checkf(!p, "ghost", [&] { return ctx + fmt("phrase %d should not exist", i); });
                continue;
            }
            c.checkf(p != nullptr, "lost", [&] { return ctx + fmt("phrase %d is missing", i); });
            c.checkf(p == it->second->p, "identity", [&] { return ctx + fmt("phrase %d is not the object that was added", i); });
            verifyPhrase(*it->second, *p, ctx + fmt("[%d] ", i));
        }
        // iteration, forwards and backwards
        auto mi = s.phrases.begin();
        for (auto it = ts.begin(); it != ts.end(); ++it, ++mi)
            c.checkf(mi != s.phrases.end() && it->first == mi->first && it->second == mi->second->p, "iteration", [&] { return ctx + "iteration order"; });
        auto mr = s.phrases.rbegin();
        for (auto it = ts.crbegin(); it != ts.crend(); ++it, ++mr)
            c.checkf(mr != s.phrases.rend() && it->first == mr->first && it->second == mr->second->p, "iteration", [&] { return ctx + "reverse iteration"; });
        // class subsets
        std::vector<std::string> ask = names;
        ask.push_back("");
        ask.push_back("l");
        ask.push_back("absent");
        for (auto& label : ask) {
            xmm::TrainingSet* sub = ts.getPhrasesOfClass(label);
            if (!labels.count(label)) {
                c.checkf(sub == nullptr, "subset", [&] { return ctx + "subset of absent class '" + label + "' exists"; });
                continue;
            }
            c.checkf(sub != nullptr, "subset", [&] { return ctx + "no subset for class '" + label + "'"; });
            std::map<int, PhraseP> want, got;
            for (auto& p : s.phrases)
                if (p.second->label == label) want[p.first] = p.second->p;
            for (auto it = sub->cbegin(); it != sub->cend(); ++it) got[it->first] = it->second;
            c.checkf(got == want, "subset", [&] { return ctx + fmt("subset '%s' has %zu phrases, expected %zu (or different ones)", label.c_str(), got.size(), want.size()); });
            c.checkf(sub->dimension.get() == s.dim && (!s.bim || sub->dimension_input.get() == s.din) && sub->bimodal() == s.bim, "subset-dim",
                     [&] { return ctx + fmt("subset '%s' has dimensions %u/%u, expected %u/%u", label.c_str(), sub->dimension.get(), sub->dimension_input.get(), s.dim, s.din); });
            c.checkf(sub->column_names.get() == s.cols, "subset-columns", [&] { return ctx + "subset columns " + vf::show(sub->column_names.get()) + ", expected " + vf::show(s.cols); });
            c.count("class subsets compared");
        }
        if (labels.size() > 1) c.nontrivial = true;
        c.count("training set states compared");
    }
    void verifyAll(std::string const& when) {
        for (auto& s : sets) verify(s, when);
        for (auto& m : pool) verifyPhrase(*m, *m->p, "kept phrase after " + when + ": ");
    }
    int owners(PMP const& m) {
        int n = 0;
        for (auto& s : sets)
            for (auto& p : s.phrases)
                if (p.second == m) {
                    n++;
                    break;
                }
        return n;
    }
    SM make() {
        SM s;
        s.name = fmt("T%d", serial++);
        s.bim = c.rng.chance(0.5);
        s.ts.reset(new xmm::TrainingSet(xmm::MemoryMode::OwnMemory, s.bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        s.dim = s.bim ? 2 : 1;
        s.din = s.bim ? 1 : 0;
        s.cols.resize(s.dim);
        c.log("new " + s.name + (s.bim ? " bimodal" : " unimodal"));
        if (c.rng.chance(0.7)) setDim(s, c.rng.in(2, maxDim));
        return s;
    }
    void setDim(SM& s, unsigned d) {
        c.log(fmt("%s.dimension=%u", s.name.c_str(), d));
        s.ts->dimension.set(d);
        s.dim = d;
        if (s.bim && s.din > d - 1) s.din = d - 1;
        s.cols.resize(d);
        for (auto& p : s.phrases) {
            p.second->dim = d;
            p.second->rows.clear();
            p.second->cols.resize(d);
            if (s.bim && p.second->din > d - 1) p.second->din = d - 1;
        }
    }
    std::map<int, PMP> cloned(xmm::TrainingSet& ts, std::map<int, PMP> const& src) {
        // a phrase listed twice in the source may be copied once or twice: only content counts
        std::map<int, PMP> out;
        for (auto& p : src) {
            PMP m = std::make_shared<PM>(*p.second);
            m->p = ts.getPhrase(p.first);
            c.checkf(m->p && m->p != p.second->p, "aliased-copy", [&] { return fmt("phrase %d of the copy is the phrase of the source", p.first); });
            out[p.first] = m;
        }
        return out;
    }
    void step() {
        if (sets.empty()) sets.push_back(make());
        SM& s = sets[c.rng.in(0, int(sets.size()) - 1)];
        int idx = c.rng.pick(slots);
        std::string what;
        auto random = [&]() -> PMP {
            if (s.phrases.empty()) return nullptr;
            auto it = s.phrases.begin();
            std::advance(it, c.rng.in(0, int(s.phrases.size()) - 1));
            return it->second;
        };
        switch (c.rng.in(0, 19)) {
            case 0: case 1: case 2: {
                std::string l = lab();
                what = fmt("%s.addPhrase(%d,%s)", s.name.c_str(), idx, l.c_str());
                c.log(what);
                s.ts->addPhrase(idx, l);
                PMP m = std::make_shared<PM>();
                m->p = s.ts->getPhrase(idx);
                if (!m->p) c.fail("lost", "phrase just added is missing");
                m->label = l;
                m->bim = s.bim;
                m->dim = s.dim;
                m->din = s.din;
                m->cols = s.cols;
                s.phrases[idx] = m;
                record(*m, c.rng.chance(0.02) ? c.rng.in(250, 600) : c.rng.in(0, 6));
                break;
            }
            case 3: case 4: {  // a copy of a phrase
                PMP src = c.rng.chance(0.4) ? random() : nullptr;
                if (!src) src = newPhrase(s.bim, s.dim, s.din, lab());
                what = fmt("%s.addPhrase(%d, copy of a phrase '%s')", s.name.c_str(), idx, src->label.c_str());
                c.log(what);
                s.ts->addPhrase(idx, *src->p);
                PMP m = std::make_shared<PM>(*src);
                m->p = s.ts->getPhrase(idx);
                c.checkf(m->p && m->p != src->p, "aliased-copy", [&] { return "the phrase added by value is the argument itself"; });
                s.phrases[idx] = m;
                break;
            }
            case 5: case 6: {  // a phrase the user keeps, or one of another set
                PMP m;
                for (auto& q : pool)
                    if (q->bim == s.bim && q->dim == s.dim && (!s.bim || q->din == s.din) && c.rng.chance(0.5)) m = q;
                if (!m) {
                    m = newPhrase(s.bim, s.dim, s.din, lab());
                    pool.push_back(m);
                }
                what = fmt("%s.addPhrase(%d, shared phrase '%s')", s.name.c_str(), idx, m->label.c_str());
                c.log(what);
                s.ts->addPhrase(idx, m->p);
                s.phrases[idx] = m;
                c.count("phrases shared by pointer");
                break;
            }
            case 7: {
                what = fmt("%s.removePhrase(%d)", s.name.c_str(), idx);
                c.log(what);
                if (c.rng.chance(0.3) && s.phrases.count(idx)) pool.push_back(s.phrases[idx]);
                s.ts->removePhrase(idx);
                s.phrases.erase(idx);
                break;
            }
            case 8: {
                std::string l = lab();
                bool alias = s.ts->labels().count(l) && c.rng.chance(0.5);
                what = fmt("%s.removePhrasesOfClass(%s)%s", s.name.c_str(), l.c_str(), alias ? " by reference into labels()" : "");
                c.log(what);
                s.ts->removePhrasesOfClass(alias ? *s.ts->labels().find(l) : l);
                for (auto it = s.phrases.begin(); it != s.phrases.end();)
                    it = it->second->label == l ? s.phrases.erase(it) : std::next(it);
                break;
            }
            case 9:
                if (!c.rng.chance(0.3)) return;
                what = s.name + ".clear";
                c.log(what);
                if (auto m = random()) pool.push_back(m);
                s.ts->clear();
                s.phrases.clear();
                break;
            case 10: case 11: case 12: {  // relabel, through any pointer to the phrase
                PMP m = !pool.empty() && c.rng.chance(0.4) ? c.rng.pick(pool) : random();
                if (!m) return;
                std::string l = lab();
                what = fmt("relabel a phrase from '%s' to '%s' (in %d sets)", m->label.c_str(), l.c_str(), owners(m));
                c.log(what);
                m->p->label.set(l);
                m->label = l;
                c.count("relabellings");
                break;
            }
            case 13: {
                PMP m = random();
                if (!m) return;
                what = "record in a phrase";
                c.log(what);
                record(*m, c.rng.in(1, 5));
                break;
            }
            case 14: {
                for (auto& p : s.phrases)
                    if (owners(p.second) > 1) return;
                unsigned d = c.rng.in(s.bim ? 2 : 1, maxDim);
                what = fmt("%s.dimension=%u", s.name.c_str(), d);
                setDim(s, d);
                break;
            }
            case 15: {
                if (!s.bim || s.dim <= 2) return;
                for (auto& p : s.phrases)
                    if (owners(p.second) > 1 || p.second->dim != s.dim) return;
                unsigned d = c.rng.in(1, s.dim - 1);
                what = fmt("%s.dimension_input=%u", s.name.c_str(), d);
                c.log(what);
                s.ts->dimension_input.set(d);
                s.din = d;
                for (auto& p : s.phrases) {
                    p.second->din = d;
                    p.second->rows.clear();
                }
                break;
            }
            case 16: {
                for (auto& n : s.cols) n = fmt("n%d", c.rng.in(0, 9));
                what = s.name + ".column_names=" + vf::show(s.cols);
                c.log(what);
                s.ts->column_names.set(s.cols);
                for (auto& p : s.phrases) p.second->cols = s.cols;
                break;
            }
            case 17: {
                if (sets.size() >= 5) return;
                SM t;
                t.name = fmt("T%d", serial++);
                what = t.name + "(copy of " + s.name + ")";
                c.log(what);
                t.ts.reset(new xmm::TrainingSet(*s.ts));
                t.bim = s.bim;
                t.dim = s.dim;
                t.din = s.din;
                t.cols = s.cols;
                t.phrases = cloned(*t.ts, s.phrases);
                sets.push_back(std::move(t));
                c.count("copies");
                break;
            }
            case 18: {
                SM& t = sets[c.rng.in(0, int(sets.size()) - 1)];
                what = s.name + " = " + t.name;
                c.log(what);
                if (c.rng.chance(0.3))
                    if (auto m = random()) pool.push_back(m);
                *s.ts = *t.ts;
                if (&s != &t) {
                    s.bim = t.bim;
                    s.dim = t.dim;
                    s.din = t.din;
                    s.cols = t.cols;
                    s.phrases = cloned(*s.ts, t.phrases);
                }
                c.count("assignments");
                break;
            }
            case 19: {
                if (c.rng.chance(0.5)) {  // content replaced through the phrase itself
                    PMP m = random();
                    if (!m) return;
                    PMP src = newPhrase(m->bim, m->dim, m->din, lab());
                    bool json = c.rng.chance(0.5);
                    what = fmt("phrase '%s' %s '%s'", m->label.c_str(), json ? "reads JSON of" : "is assigned", src->label.c_str());
                    c.log(what);
                    if (json)
                        m->p->fromJson(src->p->toJson());
                    else
                        *m->p = *src->p;
                    m->label = src->label;
                    m->rows = src->rows;
                    m->cols = src->cols;
                    break;
                }
                what = "destroy " + s.name;
                c.log(what);
                if (auto m = random()) pool.push_back(m);
                sets.erase(sets.begin() + (&s - &sets[0]));
                c.count("sets destroyed");
                break;
            }
        }
        c.count("operations");
        verifyAll(what);
    }
    void go() {
        int n = c.rng.in(1, 3);
        for (int i = 0; i < n; i++) sets.push_back(make());
        verifyAll("construction");
        int steps = c.rng.in(6, c.thorough ? 60 : 35);
        for (int i = 0; i < steps; i++) step();
        while (!sets.empty()) {
            sets.erase(sets.begin() + c.rng.in(0, int(sets.size()) - 1));
            // phrases that outlive their sets keep working
            for (auto& m : pool) {
                m->label = lab();
                m->p->label.set(m->label);
            }
            verifyAll("destruction");
        }
    }
};

void C03(Case& c) { Engine(c).go(); }

// ------------------------------------------------------------------ C04
struct Ref {
    std::vector<long double> mean, sd;
    std::vector<std::pair<float, float>> mm;
    std::vector<double> tolMean, tolSd;
    size_t n = 0;
};
Ref reference(std::vector<std::vector<Row>> const& phrases, unsigned dim) {
    Ref r;
    r.mean.assign(dim, 0);
    r.sd.assign(dim, 0);
    r.mm.assign(dim, {std::numeric_limits<float>::max(), std::numeric_limits<float>::lowest()});
    std::vector<long double> abs(dim, 0), sq(dim, 0);
    for (auto& p : phrases)
        for (auto& row : p) {
            r.n++;
            for (unsigned d = 0; d < dim; d++) {
                r.mean[d] += row[d];
                abs[d] += std::fabs(row[d]);
                r.mm[d].first = std::min(r.mm[d].first, row[d]);
                r.mm[d].second = std::max(r.mm[d].second, row[d]);
            }
        }
    const double u = 6e-8;
    for (unsigned d = 0; d < dim; d++) {
        r.mean[d] /= r.n;
        for (auto& p : phrases)
            for (auto& row : p) r.sd[d] += (row[d] - r.mean[d]) * (row[d] - r.mean[d]);
        long double var = r.sd[d] / r.n;
        r.sd[d] = sqrtl(var);
        // rounding of a single precision accumulation of n terms
        r.tolMean.push_back(double(abs[d] / r.n) * u * (r.n + 4));
        double dm = r.tolMean[d];
        double tolVar = double(var) * u * (r.n + 8) + 2 * dm * dm + 4 * double(r.sd[d]) * dm * 0.1 +
                        4 * double(r.sd[d]) * u * (std::fabs(double(r.mean[d])) + double(r.sd[d]) * 4);
        double v = double(var);
        r.tolSd.push_back(std::sqrt(v + tolVar) - std::sqrt(std::max(0., v - tolVar)) + 1e-30);
    }
    return r;
}
typedef std::vector<std::pair<float, float>> Range;
// extra: values of the frames one modality has beyond the other, which a range
// may or may not count
template <typename O>
void compareStats(Case& c, O& o, Ref const& r, unsigned dim, std::string const& ctx, std::vector<std::vector<float>> const* extra = nullptr, bool moved = false) {
    std::vector<float> m = o.mean(), s = o.standardDeviation();
    auto mm = o.minmax();
    c.checkf(m.size() == dim && s.size() == dim && mm.size() == dim, "stat-size", [&] { return ctx + "wrong number of columns"; });
    for (unsigned d = 0; d < dim; d++) {
        c.checkf(std::fabs(double(m[d] - r.mean[d])) <= r.tolMean[d] + 1e-37, "mean", [&] { return ctx + fmt("mean[%u]=%.9g, reference %.9Lg (tolerance %.3g)", d, m[d], r.mean[d], r.tolMean[d]); });
        c.checkf(std::fabs(double(s[d] - r.sd[d])) <= r.tolSd[d], "stddev", [&] { return ctx + fmt("standard deviation[%u]=%.9g, reference %.9Lg (tolerance %.3g)", d, s[d], r.sd[d], r.tolSd[d]); });
        bool in_range = mm[d] == r.mm[d];
        if (!in_range && extra && !(*extra)[d].empty()) {
            auto all = r.mm[d];
            for (float v : (*extra)[d]) {
                all.first = std::min(all.first, v);
                all.second = std::max(all.second, v);
            }
            in_range = moved ? mm[d].first <= r.mm[d].first && mm[d].second >= r.mm[d].second : mm[d] == all;
            c.count("ranges over unmatched frames");
        }
        c.checkf(in_range, "minmax", [&] { return ctx + fmt("minmax[%u]=(%.9g,%.9g), reference (%.9g,%.9g)", d, mm[d].first, mm[d].second, r.mm[d].first, r.mm[d].second); });
    }
    c.count("statistics compared", 3 * dim);
}

void C04(Case& c) {
    bool bim = c.rng.chance(0.5), own = c.rng.chance(0.7);
    unsigned dim = c.rng.in(bim ? 2 : 1, c.rng.chance(0.1) ? 24 : 6), din = bim ? c.rng.in(1, dim - 1) : 0;
    xmm::TrainingSet ts(own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory, bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    ts.dimension.set(dim);
    if (bim) ts.dimension_input.set(din);
    int np = c.rng.in(1, c.rng.chance(0.1) ? 20 : 5);
    std::vector<float> center(dim), spread(dim);
    for (unsigned d = 0; d < dim; d++) {
        center[d] = float(c.rng.real(-3, 3) * std::pow(10., c.rng.in(-2, 2)));
        spread[d] = float(std::fabs(center[d]) * c.rng.real(0.05, 3) + 1e-3);
    }
    std::vector<std::vector<Row>> all;
    std::vector<std::string> labels;
    std::vector<std::unique_ptr<std::vector<float>>> mem;
    std::vector<int> indices;
    std::vector<std::vector<std::vector<float>>> extras;  // phrase, dimension
    bool moved = false;
    // columns of a few integers: exact sums, ties, zeros
    std::vector<bool> grid(dim);
    for (unsigned d = 0; d < dim; d++) grid[d] = c.rng.chance(0.15);
    for (int i = 0; i < np; i++) {
        int idx = i * 3 + c.rng.in(0, 2) - 2;
        std::string l = fmt("l%d", c.rng.in(0, np > 8 ? 5 : 1));
        ts.addPhrase(idx, l);
        int n = c.rng.chance(0.1) ? c.rng.in(257, 400) : c.rng.chance(0.01) ? c.rng.in(1000, 5000) : c.rng.in(1, 60);
        if (np > 1 && c.rng.chance(0.1)) n = 0;
        std::vector<Row> rows;
        for (int t = 0; t < n; t++) {
            Row r(dim);
            for (unsigned d = 0; d < dim; d++) r[d] = grid[d] ? float(c.rng.in(-2, 2)) : float(center[d] + spread[d] * c.rng.gauss());
            rows.push_back(r);
        }
        std::vector<std::vector<float>> extra(dim);
        int tail = bim && c.rng.chance(0.35) ? c.rng.in(1, 6) : 0;
        bool tailIn = c.rng.chance(0.5);
        std::vector<float> tailRows;
        for (int t = 0; t < tail; t++)
            for (unsigned d = tailIn ? 0 : din; d < (tailIn ? din : dim); d++) {
                float v = float(center[d] + 4 * spread[d] * c.rng.gauss());
                extra[d].push_back(v);
                tailRows.push_back(v);
            }
        extras.push_back(extra);
        if (tail) c.log(fmt("phrase %d: %d unmatched %s frames", i, tail, tailIn ? "input" : "output"));
        PhraseP p = ts.getPhrase(idx);
        if (own)
            for (auto& r : rows) {
                if (bim && i % 2) {
                    p->record_input(Row(r.begin(), r.begin() + din));
                    p->record_output(Row(r.begin() + din, r.end()));
                } else
                    p->record(r);
            }
        if (own)
            for (int t = 0; t < tail; t++) {
                size_t w = tailIn ? din : dim - din;
                Row r(tailRows.begin() + t * w, tailRows.begin() + (t + 1) * w);
                if (tailIn)
                    p->record_input(r);
                else
                    p->record_output(r);
            }
        else {
            std::unique_ptr<std::vector<float>> a(new std::vector<float>), b(new std::vector<float>);
            for (auto& r : rows) {
                a->insert(a->end(), r.begin(), r.begin() + (bim ? din : dim));
                b->insert(b->end(), r.begin() + (bim ? din : dim), r.end());
            }
            if (tail) {
                (tailIn ? a : b)->insert((tailIn ? a : b)->end(), tailRows.begin(), tailRows.end());
                p->connect_input(a->data(), n + (tailIn ? tail : 0));
                p->connect_output(b->data(), n + (tailIn ? 0 : tail));
            } else if (bim)
                p->connect(a->data(), b->data(), n);
            else
                p->connect(a->data(), n);
            mem.push_back(std::move(a));
            mem.push_back(std::move(b));
        }
        all.push_back(rows);
        labels.push_back(l);
        indices.push_back(idx);
    }
    size_t total = 0;
    for (auto& p : all) total += p.size();
    if (total < 2) throw vf::Discard("fewer than two frames");
    c.log(fmt("%s %s dim=%u din=%u phrases=%d frames=%zu", own ? "own" : "shared", bim ? "bimodal" : "unimodal", dim, din, np, total));
    c.sig.add(all[0].empty() ? 0.f : all[0][0][0]);
    c.nontrivial = total > 3;

    std::vector<std::vector<Row>> tol = all;  // what rounding may add to each value
    for (auto& p : tol)
        for (auto& r : p) std::fill(r.begin(), r.end(), 0.f);
    auto verify = [&](std::string const& when) {
        auto gather = [&](std::function<bool(int)> in) {
            std::vector<std::vector<float>> e(dim);
            for (int i = 0; i < np; i++)
                for (unsigned d = 0; in(i) && d < dim; d++) e[d].insert(e[d].end(), extras[i][d].begin(), extras[i][d].end());
            return e;
        };
        auto every = gather([](int) { return true; });
        compareStats(c, ts, reference(all, dim), dim, "training set " + when + ": ", &every, moved);
        std::map<std::string, std::vector<std::vector<Row>>> by;
        for (int i = 0; i < np; i++) {
            by[labels[i]].push_back(all[i]);
            if (all[i].size()) compareStats(c, *ts.getPhrase(indices[i]), reference({all[i]}, dim), dim, "phrase " + when + ": ", &extras[i], moved);
        }
        for (auto& g : by) {
            size_t n = 0;
            for (auto& p : g.second) n += p.size();
            auto some = gather([&](int i) { return labels[i] == g.first; });
            if (n) compareStats(c, *ts.getPhrasesOfClass(g.first), reference(g.second, dim), dim, "class " + when + ": ", &some, moved);
        }
        for (int i = 0; i < np; i++)
            for (unsigned t = 0; t < all[i].size(); t++)
                for (unsigned d = 0; d < dim; d++) {
                    float v = ts.getPhrase(indices[i])->getValue(t, d);
                    c.checkf(std::fabs(double(v) - all[i][t][d]) <= tol[i][t][d], "rescaled-value",
                             [&] { return fmt("%s: phrase %d value(%u,%u)=%.9g, expected %.9g", when.c_str(), i, t, d, v, all[i][t][d]); });
                    all[i][t][d] = v;
                    tol[i][t][d] = 0;
                }
    };
    verify("as recorded");
    int ops = c.rng.in(1, 3);
    for (int k = 0; k < ops; k++) {
        if (c.rng.chance(0.6)) {
            std::vector<float> off(dim), gain(dim);
            for (unsigned d = 0; d < dim; d++) {
                off[d] = c.rng.chance(0.2) ? float(c.rng.in(-2, 2)) : float(c.rng.gauss());
                gain[d] = c.rng.chance(0.1) ? 0.f : c.rng.chance(0.1) ? 1.f : float(c.rng.real(0.3, 3) * (c.rng.chance(0.2) ? -1 : 1) * std::pow(10., c.rng.chance(0.2) ? c.rng.in(-4, 4) : 0));
            }
            int which = c.rng.in(-1, np - 1);
            c.log(fmt("rescale %d", which));
            if (which < 0)
                ts.rescale(off, gain);
            else
                ts.getPhrase(indices[which])->rescale(off, gain);
            for (int i = 0; i < np; i++)
                if (which < 0 || which == i)
                    for (auto& r : all[i])
                        for (unsigned d = 0; d < dim; d++) {
                            tol[i][&r - &all[i][0]][d] = 1e-6f * (std::fabs(r[d]) + std::fabs(off[d])) * std::fabs(gain[d]);
                            float diff = r[d] - off[d];
                            r[d] = diff * gain[d];
                        }
            moved = true;
            c.count("rescalings");
            verify("rescaled");
        } else {
            Ref r = reference(all, dim);
            bool flat = false;
            for (unsigned d = 0; d < dim; d++)
                if (!(r.sd[d] > 100 * r.tolMean[d]) || r.tolSd[d] > 1e-3 * r.sd[d]) flat = true;
            if (flat) continue;
            c.log("normalize");
            ts.normalize();
            moved = true;
            c.count("normalisations");
            for (int i = 0; i < np; i++)
                for (unsigned t = 0; t < all[i].size(); t++)
                    for (unsigned d = 0; d < dim; d++) {
                        double want = double((all[i][t][d] - r.mean[d]) / r.sd[d]);
                        double tol = (r.tolMean[d] + std::fabs(all[i][t][d]) * 1e-6) / double(r.sd[d]) + std::fabs(want) * (r.tolSd[d] / double(r.sd[d]) + 1e-6) * 2;
                        float v = ts.getPhrase(indices[i])->getValue(t, d);
                        c.checkf(std::fabs(v - want) <= tol, "normalized-value", [&] { return fmt("phrase %d value(%u,%u)=%.9g, expected %.9g (tolerance %.3g)", i, t, d, v, want, tol); });
                        all[i][t][d] = v;
                    }
            verify("normalised");
        }
    }
}
}  // namespace

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"C03", 4000, 200000, C03, 0}, {"C04", 4000, 200000, C04, 0}});
}
