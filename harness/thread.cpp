// C16 (training events), C17 (data races, under ThreadSanitizer), C18 (threading
// modes give the same models) and C19 (cancellation and restart at any moment).
//
// Delays are injected at the library's synchronisation points: the harness is
// linked with --wrap for the mutex and yield functions.
#include "snap.hpp"
#include "xmmJson.hpp"
#include <atomic>
#include <dirent.h>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <time.h>

using namespace md;
typedef xmm::TrainingEvent TE;
const char* const STATUS[] = {"run", "error", "cancel", "done", "alldone"};

// ------------------------------------------------------------ delay injection
namespace delays {
std::atomic<bool> on(false);
std::atomic<uint64_t> threads(0), points(0);
uint64_t seed = 1;              // set while no other thread runs
uint32_t yieldRate = 0, spinRate = 0, sleepRate = 0;  // per 65536
uint64_t strike[3] = {0, 0, 0};  // points where a thread is held for long
uint64_t epoch = 0;
std::atomic<uint64_t> epochNow(0);

void nap(long us) {
    timespec t{us / 1000000, (us % 1000000) * 1000};
    nanosleep(&t, nullptr);
}
struct Local {
    uint64_t epoch = ~0ull;
    vf::Rng rng{0};
};
thread_local Local local;
void point() {
    if (!on.load(std::memory_order_relaxed)) return;
    uint64_t e = epochNow.load(std::memory_order_relaxed);
    if (local.epoch != e) {
        local.epoch = e;
        local.rng = vf::Rng(vf::mix(seed, threads.fetch_add(1, std::memory_order_relaxed)));
    }
    uint64_t n = points.fetch_add(1, std::memory_order_relaxed);
    if (n == strike[0] || n == strike[1] || n == strike[2]) {
        nap(3000);
        return;
    }
    uint32_t x = uint32_t(local.rng.next() & 65535);
    if (x < sleepRate)
        nap(long(local.rng.next() % 300));
    else if (x < sleepRate + spinRate) {
        volatile unsigned k = unsigned(local.rng.next() % 3000);
        while (k) k = k - 1;
    } else if (x < sleepRate + spinRate + yieldRate)
        syscall(24);  // sched_yield
}
void start(vf::Rng& r) {
    seed = r.next();
    threads.store(0, std::memory_order_relaxed);
    points.store(0, std::memory_order_relaxed);
    epochNow.store(++epoch, std::memory_order_relaxed);
    static const uint32_t rates[] = {0, 600, 3000, 12000, 30000};
    yieldRate = rates[r.next() % 5];
    spinRate = rates[r.next() % 4];
    sleepRate = rates[r.next() % 4] / 3;
    for (auto& s : strike) s = r.chance(0.5) ? uint64_t(r.in(1, 20)) : r.chance(0.7) ? uint64_t(r.in(1, 120)) : ~0ull;
    on.store(true, std::memory_order_relaxed);
}
void stop() { on.store(false, std::memory_order_relaxed); }
}  // namespace delays

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_sched_yield();
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    delays::point();
    int r = __real_pthread_mutex_lock(m);
    delays::point();
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    delays::point();
    int r = __real_pthread_mutex_unlock(m);
    delays::point();
    return r;
}
int __wrap_sched_yield() { return __real_sched_yield(); }
}

namespace {
std::string text(Json::Value const& v) { return Json::FastWriter().write(v); }
std::string cut(std::string const& a, std::string const& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t from = i > 60 ? i - 60 : 0;
    return "..." + a.substr(from, 140) + "... instead of ..." + b.substr(from, 140) + "...";
}
uint64_t micros() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return uint64_t(t.tv_sec) * 1000000 + uint64_t(t.tv_nsec) / 1000;
}
int threadsNow() {
    int n = 0;
    if (DIR* d = opendir("/proc/self/task")) {
        while (dirent* e = readdir(d))
            if (e->d_name[0] != '.') n++;
        closedir(d);
    }
    return n;
}
bool noMoreThreadsThan(int n) {
    for (int i = 0; i < 200; i++) {
        if (threadsNow() <= n) return true;
        delays::nap(5000);
    }
    return false;
}

// ------------------------------------------------------------- event recorder
struct Ev {
    std::string label;
    int status;
    float progression;
    double ll, iterations;
    bool rightModel;
    // at completion
    bool training = false;
    std::set<std::string> keys;
};
// The log is written without a lock: the library promises not to call a
// listener from two threads at once.
template <typename Mod>
struct Recorder {
    Mod* m = nullptr;
    std::vector<Ev> log;
    std::atomic<int> inside{0}, count{0}, alldone{0}, overlaps{0};
    vf::Rng rng{1};
    int pause = 0;  // probability in %, of a pause in the listener
    std::map<std::string, std::atomic<int>> ended;  // for the labels it was given
    void on(TE const& e) {
        if (inside.fetch_add(1, std::memory_order_relaxed) != 0) overlaps.fetch_add(1, std::memory_order_relaxed);
        Ev v;
        v.label = e.label;
        v.status = e.status;
        v.progression = e.progression;
        v.ll = e.log_likelihood;
        v.iterations = e.iterations;
        typedef decltype(m->models) Map;
        v.rightModel = e.model == static_cast<void*>(static_cast<xmm::Model<typename Map::mapped_type, typename ModelTypeOf<Mod>::type>*>(m));
        if (e.status == TE::Alldone) {
            v.training = m->training();
            for (auto& k : m->models) v.keys.insert(k.first);
        }
        log.push_back(v);
        if (e.status != TE::Run && e.status != TE::Alldone && ended.count(e.label)) ended[e.label].fetch_add(1, std::memory_order_relaxed);
        count.fetch_add(1, std::memory_order_relaxed);
        if (int(rng.next() % 100) < pause) delays::nap(long(rng.next() % 400));
        if (e.status == TE::Alldone) alldone.fetch_add(1, std::memory_order_relaxed);
        inside.fetch_sub(1, std::memory_order_relaxed);
    }
    template <typename M>
    struct ModelTypeOf {
        typedef M type;
    };
    void attach(Mod& model) {
        m = &model;
        model.training_events.addListener(this, &Recorder::on);
    }
};
template <>
template <>
struct Recorder<xmm::HierarchicalHMM>::ModelTypeOf<xmm::HierarchicalHMM> {
    typedef xmm::HMM type;
};

// Checks a complete log.  started: how often each class was trained.
struct Outcome {
    std::map<std::string, int> ends;                     // trainings that ended
    std::map<std::string, int> last;                     // status of the last end
    std::map<std::string, std::vector<Ev>> perClass;     // all events of the class
    std::vector<std::pair<bool, std::set<std::string>>> completions;
    int alldone = 0;
};
template <typename Mod>
Outcome checkLog(Case& c, Recorder<Mod>& r, std::map<std::string, int> const& started, int minDone, int maxDone) {
    struct St {
        int n = 0;
        float prog = 0;
        double ll = 0;
        bool open = false;
    };
    std::map<std::string, St> st;
    Outcome o;
    auto history = [&](size_t i) {
        std::string s;
        for (size_t k = i > 25 ? i - 25 : 0; k <= i && k < r.log.size(); k++) s += fmt("\n  %zu: '%s' %s iterations %g progression %g", k, r.log[k].label.c_str(), STATUS[r.log[k].status], r.log[k].iterations, double(r.log[k].progression));
        return s;
    };
    c.checkf(r.overlaps.load() == 0, "overlap", [&] { return fmt("the listener was called %d times while it was running", r.overlaps.load()); });
    for (size_t i = 0; i < r.log.size(); i++) {
        Ev const& e = r.log[i];
        c.checkf(e.rightModel, "event-model", [&] { return "event from another model:" + history(i); });
        c.checkf(e.status >= 0 && e.status <= 4, "event-status", [&] { return fmt("status %d", e.status); });
        if (e.status == TE::Alldone) {
            c.checkf(e.label.empty(), "completion-label", [&] { return "completion with a label:" + history(i); });
            for (auto const& s : st) c.checkf(!s.second.open, "completion-early", [&] { return "completion before the end of class '" + s.first + "':" + history(i); });
            o.completions.push_back({e.training, e.keys});
            o.alldone++;
            continue;
        }
        c.checkf(started.count(e.label) > 0, "event-label", [&] { return "event of class '" + e.label + "' which is not trained:" + history(i); });
        St& s = st[e.label];
        o.perClass[e.label].push_back(e);
        if (e.status == TE::Run) {
            if (!s.open) s = St();
            s.open = true;
            s.n++;
            c.checkf(e.iterations == s.n, "event-iterations", [&] { return fmt("iteration %g announced, expected %d:", e.iterations, s.n) + history(i); });
            c.checkf(e.progression >= s.prog && e.progression <= 1, "event-progression", [&] { return fmt("progression %g after %g:", double(e.progression), double(s.prog)) + history(i); });
            c.checkf(!std::isnan(e.ll) || e.iterations <= 2, "event-likelihood", [&] { return "likelihood NaN:" + history(i); });
            s.prog = e.progression;
            s.ll = e.ll;
        } else {
            if (!s.open) s = St();
            if (e.status == TE::Done) {
                c.checkf(s.open && e.iterations == s.n && e.progression >= s.prog && e.progression <= 1, "event-done",
                         [&] { return fmt("end of training with %g iterations, %d announced:", e.iterations, s.n) + history(i); });
                c.checkf(e.ll == s.ll, "event-likelihood", [&] { return fmt("final likelihood %.17g, last announced %.17g", e.ll, s.ll); });
            }
            s.open = false;
            o.ends[e.label]++;
            o.last[e.label] = e.status;
        }
    }
    for (auto const& s : started) {
        int n = o.ends.count(s.first) ? o.ends[s.first] : 0;
        c.checkf(n == s.second, "event-ends", [&] { return fmt("class '%s' was trained %d times and ended %d times:", s.first.c_str(), s.second, n) + history(r.log.size() - 1); });
    }
    c.checkf(o.alldone >= minDone && o.alldone <= maxDone, "completion-count", [&] { return fmt("%d completions, expected %d to %d:", o.alldone, minDone, maxDone) + history(r.log.size() - 1); });
    c.checkf(r.log.empty() || r.log.back().status == TE::Alldone, "completion-last", [&] { return "the last event is not the completion:" + history(r.log.size() - 1); });
    for (size_t i = 0; i < o.completions.size(); i++) c.checkf(!o.completions[i].first, "completion-training", [&] { return fmt("training() is true in completion %zu", i); });
    c.count("training events checked", r.log.size());
    for (auto const& e : r.log) c.sig.add(e.label).add(e.status);
    return o;
}

// ------------------------------------------------------------------- workload
template <typename Mod>
struct Lab {
    Case& c;
    vf::Rng& r;
    std::deque<Data> datas;
    std::vector<std::unique_ptr<xmm::TrainingSet>> sets;
    std::unique_ptr<Mod> proto;
    std::vector<std::map<std::string, std::string>> reference;  // class documents per set
    explicit Lab(Case& c_) : c(c_), r(c_.rng) {}

    // several sets of the same dimensions and overlapping labels
    void prepare(int nsets, double badClass) {
        DataSpec ds;
        ds.maxDim = 3;
        ds.maxClasses = r.chance(0.3) ? 5 : 3;
        ds.maxPhrases = 2;
        ds.minLen = 6;
        ds.maxLen = 10;
        ds.large = 0.03;
        datas.push_back(randomData(c, ds));
        for (int i = 1; i < nsets; i++) {
            Data d = datas[0];
            for (auto& p : d.phrases) {
                if (r.chance(0.15)) p.label += "+";
                for (auto& row : p.rows)
                    for (auto& v : row) v += float(0.05 * (std::fabs(v) + 0.1) * r.gauss());
            }
            datas.push_back(d);
        }
        for (auto& d : datas) {
            for (auto const& l : d.labels())
                if (r.chance(badClass)) {
                    bool nan = r.chance(0.6);
                    for (auto& p : d.phrases)
                        if (p.label == l) {
                            if (nan && !p.rows.empty())
                                p.rows[size_t(r.in(0, int(p.rows.size()) - 1))][0] = NAN;
                            else
                                p.rows.clear();
                        }
                    c.log("class '" + l + "' cannot be trained");
                }
            c.log(describe(d));
            sets.push_back(d.build());
        }
        proto.reset(new Mod(datas[0].bim));
        randomConfig(c, *proto, datas[0]);
        if (r.chance(0.3)) {
            proto->shared_parameters->em_algorithm_max_iterations.set(unsigned(r.in(6, 25)));
            c.log("more iterations");
        }
        reference.resize(sets.size());
        for (size_t i = 0; i < sets.size(); i++) {
            Mod s(*proto);
            s.train(sets[i].get());
            for (auto& k : s.models) reference[i][k.first] = text(k.second.toJson());
        }
    }
    std::unique_ptr<Mod> make(MT mode) {
        std::unique_ptr<Mod> m(new Mod(*proto));
        m->configuration.multithreading = mode;
        return m;
    }
    void listen(Recorder<Mod>& rec, Mod& m) {
        rec.rng = vf::Rng(r.next());
        static const int pauses[] = {0, 0, 10, 40};
        rec.pause = pauses[r.next() % 4];
        rec.attach(m);
    }
    // until the background training is over and its last event is delivered
    void finish(Mod& m) {
        while (m.training()) delays::nap(50);
        m.cancelTraining();
    }
    std::string pickLabel(size_t set) {
        auto ls = datas[set].labels();
        std::vector<std::string> v(ls.begin(), ls.end());
        return r.pick(v);
    }
};
const char* modeName(MT m) { return m == MT::Sequential ? "sequential" : m == MT::Parallel ? "parallel" : "background"; }

struct DelayScope {
    explicit DelayScope(vf::Rng& r, double p = 0.85) {
        if (r.chance(p)) delays::start(r);
    }
    ~DelayScope() { delays::stop(); }
};

// ------------------------------------------------------------------------ C16
template <typename Mod>
void events(Case& c) {
    Lab<Mod> lab(c);
    vf::Rng& r = c.rng;
    lab.prepare(r.in(1, 2), 0.2);
    MT mode = static_cast<MT>(r.chance(0.55) ? 2 : r.in(0, 1));
    auto m = lab.make(mode);
    Recorder<Mod> rec;
    lab.listen(rec, *m);
    c.log(modeName(mode));
    std::map<std::string, int> started, expectedStatus;
    std::set<std::string> present;
    int trainings = 0;
    DelayScope ds(r);
    int n = r.in(1, 3);
    for (int i = 0; i < n; i++) {
        size_t set = size_t(r.in(0, int(lab.sets.size()) - 1));
        bool whole = i == 0 ? r.chance(0.7) : r.chance(0.4);
        size_t before = rec.log.size();
        std::set<std::string> labels;
        size_t had = 0;
        if (whole) {
            labels = lab.datas[set].labels();
            present.clear();
            c.log(fmt("train set %zu", set));
            m->train(lab.sets[set].get());
        } else {
            labels = {lab.pickLabel(set)};
            c.log(fmt("train '%s' of set %zu", labels.begin()->c_str(), set));
            had = present.count(*labels.begin());
            m->train(lab.sets[set].get(), *labels.begin());
        }
        (void)had;
        bool cancelled = mode == MT::Background && r.chance(0.25);
        if (cancelled) {
            int k = int(before) + r.in(0, 6);
            uint64_t t0 = micros();
            while (rec.count.load(std::memory_order_relaxed) < k && m->training() && micros() - t0 < 3000000) delays::nap(20);
            c.log(fmt("cancel after %d events", k - int(before)));
            m->cancelTraining();
        } else if (mode == MT::Background) {
            lab.finish(*m);
        }
        trainings++;
        for (auto const& l : labels) started[l]++;
        c.check(!m->training(), "training-flag", "training() is true after the end of the training");
        Outcome o = checkLog(c, rec, started, trainings, trainings);
        for (auto const& l : labels) {
            int s = o.last[l];
            if (s == TE::Done)
                present.insert(l);
            else
                present.erase(l);
            bool can = lab.reference[set].count(l) > 0;
            if (!cancelled) c.checkf(s == (can ? TE::Done : TE::Error), "event-end", [&] { return fmt("class '%s' ended with '%s', expected '%s'", l.c_str(), STATUS[s], can ? "done" : "error"); });
            if (cancelled) c.checkf(s != TE::Done || can, "event-end", [&] { return fmt("class '%s' which cannot be trained is done", l.c_str()); });
            c.count(fmt("classes ended with '%s'", STATUS[s]));
        }
        std::set<std::string> keys;
        for (auto& k : m->models) keys.insert(k.first);
        c.checkf(keys == present, "completion-classes", [&] { return "classes " + vf::show(keys) + ", expected " + vf::show(present); });
        c.checkf(o.completions.back().second == present, "completion-classes", [&] { return "classes at completion " + vf::show(o.completions.back().second) + ", expected " + vf::show(present); });
        c.checkf(m->trained() == !present.empty(), "trained-flag", [&] { return fmt("trained() is %d with %zu classes", m->trained(), present.size()); });
        c.count(std::string(modeName(mode)) + " trainings");
    }
    c.nontrivial = true;
}

// ------------------------------------------------------------------------ C18
template <typename Mod>
void modes(Case& c) {
    Lab<Mod> lab(c);
    vf::Rng& r = c.rng;
    lab.prepare(2, 0.1);
    const int N = 5;  // sequential, parallel, background twice, background without waiting
    static const MT mt[N] = {MT::Sequential, MT::Parallel, MT::Background, MT::Background, MT::Background};
    std::unique_ptr<Mod> m[N];
    Recorder<Mod> rec[N];
    for (int i = 0; i < N; i++) {
        m[i] = lab.make(mt[i]);
        lab.listen(rec[i], *m[i]);
    }
    struct Op {
        int kind;  // 0 whole set, 1 one class, 2 remove a class
        size_t set;
        std::string label;
    };
    std::vector<Op> ops;
    int n = r.in(1, 4);
    for (int i = 0; i < n; i++) {
        Op o;
        o.kind = i == 0 ? r.in(0, 1) : r.chance(0.25) ? 0 : r.chance(0.15) ? 2 : 1;
        o.set = size_t(r.in(0, 1));
        o.label = lab.pickLabel(o.set);
        ops.push_back(o);
        c.log(o.kind == 0 ? fmt("train set %zu", o.set) : fmt(o.kind == 1 ? "train '%s' of set %zu" : "remove '%s' (%zu)", o.label.c_str(), o.set));
    }
    bool hurry = true;  // without waiting: only defined when no training is cancelled by the next one
    for (size_t i = 1; i < ops.size(); i++) {
        if (ops[i].kind != 1) hurry = false;
        for (size_t j = 0; j < i; j++)
            if (ops[j].kind != 1 || ops[j].label == ops[i].label) hurry = false;
    }
    if (ops.size() == 1) hurry = false;
    std::map<std::string, int> started;
    auto apply = [&](Op const& o, Mod& x) {
        if (o.kind == 0) x.train(lab.sets[o.set].get());
        if (o.kind == 1) x.train(lab.sets[o.set].get(), o.label);
        if (o.kind == 2) {
            bool has = x.hasClass(o.label), thrown = false;
            try {
                x.removeClass(o.label);
            } catch (std::out_of_range const&) {
                thrown = true;
            }
            c.check(has != thrown, "remove", "removeClass throws or not as the class exists");
        }
    };
    auto docs = [&](Mod& x) {
        Json::Value v = x.toJson();
        v["configuration"]["multithreading"] = 0;
        return text(v);
    };
    DelayScope ds(r);
    int done = 0;
    auto compare = [&](int i, size_t step) {
        std::string a = docs(*m[0]), b = docs(*m[i]);
        c.checkf(a == b, "model", [&] { return fmt("after step %zu, %s training gives ", step, modeName(mt[i])) + cut(b, a); });
        Outcome x = checkLog(c, rec[0], started, done, done), y = checkLog(c, rec[i], started, i == 4 ? std::min(done, 1) : done, done);
        for (auto const& s : started) {
            auto &u = x.perClass[s.first], &v = y.perClass[s.first];
            c.checkf(u.size() == v.size(), "class-events", [&] { return fmt("class '%s' has %zu events in %s mode, %zu sequentially", s.first.c_str(), v.size(), modeName(mt[i]), u.size()); });
            for (size_t k = 0; k < u.size(); k++)
                c.checkf(u[k].status == v[k].status && u[k].iterations == v[k].iterations && same({double(u[k].progression)}, {double(v[k].progression)}) && same({u[k].ll}, {v[k].ll}),
                         "class-events", [&] {
                             return fmt("event %zu of class '%s' in %s mode: %s %g %.9g %.17g, sequentially %s %g %.9g %.17g", k, s.first.c_str(), modeName(mt[i]), STATUS[v[k].status], v[k].iterations, double(v[k].progression), v[k].ll, STATUS[u[k].status], u[k].iterations, double(u[k].progression), u[k].ll);
                         });
        }
        c.count("models compared");
    };
    for (size_t s = 0; s < ops.size(); s++) {
        if (ops[s].kind == 0) {
            for (auto const& l : lab.datas[ops[s].set].labels()) started[l]++;
            done++;
        } else if (ops[s].kind == 1) {
            started[ops[s].label]++;
            done++;
        }
        for (int i = 0; i < 4; i++) {
            apply(ops[s], *m[i]);
            if (mt[i] == MT::Background) lab.finish(*m[i]);
        }
        for (int i = 1; i < 4; i++) compare(i, s);
    }
    if (hurry) {
        for (auto const& o : ops) apply(o, *m[4]);
        lab.finish(*m[4]);
        compare(4, ops.size());
        c.count("overlapping single-class trainings");
    }
    delays::stop();
    if (m[0]->size() > 0) {
        std::vector<Row> st = randomStream(c, lab.datas[0], 5);
        auto want = filterAll(*m[0], st);
        for (int i = 1; i < N; i++) {
            if (i == 4 && !hurry) continue;
            auto got = filterAll(*m[i], st);
            c.checkf(sameAll(got, want), "filtering", [&] { return fmt("%s: ", modeName(mt[i])) + firstDifference(got, want); });
        }
    }
    c.nontrivial = true;
}

// ------------------------------------------------------------------------ C19
template <typename Mod>
void interrupted(Case& c) {
    Lab<Mod> lab(c);
    vf::Rng& r = c.rng;
    lab.prepare(2, r.chance(0.25) ? 0.4 : 0.08);
    int base = threadsNow();
    auto m = lab.make(MT::Background);
    Recorder<Mod> rec;
    lab.listen(rec, *m);
    std::map<std::string, int> started;
    std::map<std::string, size_t> last;   // the set each class was last trained with
    std::set<std::string> mayLack, gone;  // cancelled; removed
    std::set<std::string> inFlight;  // classes whose training may not have ended
    int trainings = 0;
    auto startWhole = [&](size_t set) {
        last.clear();
        mayLack.clear();
        gone.clear();
        inFlight.clear();
        for (auto const& l : lab.datas[set].labels()) {
            last[l] = set;
            started[l]++;
            inFlight.insert(l);
        }
        trainings++;
    };
    auto startOne = [&](size_t set, std::string const& l) {
        last[l] = set;
        inFlight.insert(l);
        mayLack.erase(l);
        gone.erase(l);
        started[l]++;
        trainings++;
    };
    auto mayCancel = [&] {
        for (auto const& l : last) mayLack.insert(l.first);
    };
    DelayScope ds(r);
    // another thread that looks at the model and may cancel too
    std::atomic<bool> stop(false);
    std::unique_ptr<std::thread> helper;
    bool helperCancels = false;
    auto endHelper = [&] {
        stop.store(true);
        if (helper) helper->join();
        helper.reset();
        stop.store(false);
    };
    struct Guard {
        std::function<void()> f;
        ~Guard() { f(); }
    } guard{endHelper};
    auto settle = [&](std::string const& why) {
        // cancelTraining has returned and the other thread is gone
        c.checkf(!m->training(), "training-flag", [&] { return "training() is true after " + why; });
        c.checkf(noMoreThreadsThan(base), "threads", [&] { return fmt("%d threads remain after ", threadsNow() - base) + why; });
        inFlight.clear();
        checkLog(c, rec, started, trainings ? 1 : 0, trainings);
        std::set<std::string> keys;
        for (auto& k : m->models) keys.insert(k.first);
        for (auto const& l : last) {
            bool can = lab.reference[l.second].count(l.first) > 0, has = keys.count(l.first) > 0;
            if (gone.count(l.first)) {
                c.checkf(!has, "removed-class", [&] { return "class '" + l.first + "' exists after its removal and " + why; });
                continue;
            }
            if (!can) {
                c.checkf(!has, "failed-class", [&] { return "class '" + l.first + "' cannot be trained but exists after " + why; });
                continue;
            }
            if (!mayLack.count(l.first)) c.checkf(has, "lost-class", [&] { return "class '" + l.first + "' which was not cancelled is missing after " + why; });
            if (!has) {
                c.count("classes interrupted");
                continue;
            }
            std::string j = text(m->models[l.first].toJson());
            c.checkf(j == lab.reference[l.second][l.first], "class-content", [&] { return "class '" + l.first + "' after " + why + ": " + cut(j, lab.reference[l.second][l.first]); });
            c.count("classes complete");
        }
        for (auto const& k : keys) c.checkf(last.count(k) > 0, "unknown-class", [&] { return "class '" + k + "' exists after " + why; });
        c.checkf(m->trained() == !keys.empty(), "trained-flag", [&] { return fmt("trained() is %d with %zu classes", m->trained(), keys.size()); });
        if (!keys.empty() && r.chance(0.3)) {
            for (auto const& x : randomStream(c, lab.datas[0], 2)) m->filter(x);
        }
    };
    size_t first = size_t(r.in(0, 1));
    c.log(fmt("train set %zu in background", first));
    startWhole(first);
    m->train(lab.sets[first].get());
    int n = r.in(1, 4);
    bool dead = false;
    for (int i = 0; i < n && !dead; i++) {
        if (!helper && r.chance(0.35)) {
            helperCancels = r.chance(0.6);
            int times = r.in(1, 3);
            long wait = r.in(0, 1500);
            bool one = r.chance(0.5);
            std::string l = lab.pickLabel(0);
            if (helperCancels) {
                if (one) {
                    if (last.count(l)) mayLack.insert(l);
                } else {
                    mayCancel();
                }
            }
            c.log(helperCancels ? (one ? "a thread cancels '" + l + "'" : std::string("a thread cancels all")) : std::string("a thread polls"));
            bool hc = helperCancels;
            Mod* p = m.get();
            helper.reset(new std::thread([p, &stop, hc, times, wait, one, l] {
                if (hc) {
                    for (int k = 0; k < times; k++) {
                        delays::nap(wait / times);
                        if (one)
                            p->cancelTraining(l);
                        else
                            p->cancelTraining();
                    }
                } else {
                    while (!stop.load()) {
                        p->training();
                        delays::nap(30);
                    }
                }
            }));
        }
        // wait for the moment
        uint64_t t0 = micros();
        if (r.chance(0.5)) {
            int k = rec.count.load(std::memory_order_relaxed) + r.in(1, 8);
            while (rec.count.load(std::memory_order_relaxed) < k && m->training() && micros() - t0 < 3000000) {
                if (r.chance(0.3)) delays::nap(10);
            }
        } else if (r.chance(0.55)) {
            delays::nap(r.in(0, 2500));
        } else if (r.chance(0.6)) {
            // the training ends unobserved: nothing orders it before what comes next
            delays::nap(r.in(4000, 40000));
        }
        std::string why;
        switch (r.in(0, 7)) {
            case 0:
                why = "cancelTraining()";
                c.log(why);
                mayCancel();
                m->cancelTraining();
                c.check(!m->training(), "training-flag", "training() is true when cancelTraining() returns");
                endHelper();
                settle(why);
                break;
            case 1: {
                std::string l = lab.pickLabel(size_t(r.in(0, 1)));
                why = "cancelTraining('" + l + "')";
                c.log(why);
                if (last.count(l)) mayLack.insert(l);
                m->cancelTraining(l);
                inFlight.erase(l);
                // the last class of the training: it is over
                if (inFlight.empty() && !(helper && helperCancels)) {
                    c.check(!m->training(), "training-flag", "training() is true when the cancellation of the last class returns");
                    c.count("cancellations of the last class");
                }
                break;
            }
            case 2: {
                endHelper();
                size_t set = size_t(r.in(0, 1));
                why = fmt("train set %zu", set);
                c.log(why);
                startWhole(set);
                m->train(lab.sets[set].get());
                break;
            }
            case 3:
            case 4: {
                endHelper();
                size_t set = size_t(r.in(0, 1));
                std::string l = lab.pickLabel(set);
                why = fmt("train '%s' of set %zu", l.c_str(), set);
                c.log(why);
                startOne(set, l);
                m->train(lab.sets[set].get(), l);
                break;
            }
            case 5:
                endHelper();
                why = "clear()";
                c.log(why);
                m->clear();
                last.clear();
                mayLack.clear();
                gone.clear();
                settle(why);
                break;
            case 6: {
                endHelper();
                std::string l = lab.pickLabel(size_t(r.in(0, 1)));
                why = "removeClass('" + l + "')";
                c.log(why);
                bool thrown = false;
                try {
                    m->removeClass(l);
                } catch (std::out_of_range const&) {
                    thrown = true;
                }
                bool could = last.count(l) && !gone.count(l) && !mayLack.count(l) && lab.reference[last[l]].count(l);
                c.checkf(!(thrown && could), "remove", [&] { return why + " refused although the class exists"; });
                c.checkf(thrown || last.count(l), "remove", [&] { return why + " accepted although the class does not exist"; });
                if (last.count(l)) gone.insert(l);
                break;
            }
            default:
                endHelper();
                c.log("destroy");
                m.reset();
                c.checkf(noMoreThreadsThan(base), "threads", [&] { return fmt("%d threads remain after the model is destroyed", threadsNow() - base); });
                checkLog(c, rec, started, trainings ? 1 : 0, trainings);
                dead = true;
                c.count("models destroyed");
        }
        c.count("interruptions");
    }
    endHelper();
    if (!dead) {
        if (r.chance(0.5)) {
            lab.finish(*m);
            settle("the end of the training");
        } else {
            mayCancel();
            m->cancelTraining();
            settle("a last cancelTraining()");
        }
        // and trains as usual
        size_t set = size_t(r.in(0, 1));
        c.log(fmt("train set %zu again", set));
        if (r.chance(0.5)) m->configuration.multithreading = static_cast<MT>(r.in(0, 2));
        startWhole(set);
        m->train(lab.sets[set].get());
        lab.finish(*m);
        settle("a last training");
    }
    c.nontrivial = true;
}

// a training that blocks its thread, cancelled from others
template <typename Mod>
void blocking(Case& c) {
    Lab<Mod> lab(c);
    vf::Rng& r = c.rng;
    lab.prepare(2, 0.08);
    int base = threadsNow();
    auto m = lab.make(r.chance(0.6) ? MT::Sequential : MT::Parallel);
    c.log(modeName(m->configuration.multithreading));
    Recorder<Mod> rec;
    for (auto const& d : lab.datas)
        for (auto const& l : d.labels()) rec.ended[l] = 0;
    lab.listen(rec, *m);
    std::map<std::string, int> started;
    std::map<std::string, size_t> last;
    std::set<std::string> mayLack;
    DelayScope ds(r);
    int rounds = r.in(1, 3);
    for (int round = 0; round < rounds; round++) {
        size_t set = size_t(r.in(0, 1));
        std::set<std::string> now;
        std::string only;
        if (r.chance(0.3))
            now.insert(only = lab.pickLabel(set));
        else {
            now = lab.datas[set].labels();
            last.clear();
            mayLack.clear();
        }
        for (auto const& l : now) {
            last[l] = set;
            started[l]++;
            mayLack.erase(l);
        }
        std::atomic<bool> over(false);
        std::atomic<int> late(0), lateClass(0);
        std::vector<std::thread> others;
        int n = r.in(1, 2);
        for (int i = 0; i < n; i++) {
            int op = r.in(0, 4), times = r.in(1, 2);
            long wait = r.chance(0.3) ? 0 : r.in(0, 1500);
            std::string l = lab.pickLabel(set);
            if (op < 2) mayLack.insert(now.begin(), now.end());
            if (op == 2 || op == 3)
                if (now.count(l)) mayLack.insert(l);
            c.log(op < 2 ? "a thread cancels all" : op < 4 ? "a thread cancels '" + l + "'" : std::string("a thread polls"));
            bool in = now.count(l) > 0;
            int ends = started[l];
            Mod* p = m.get();
            others.emplace_back([&rec, &over, &late, &lateClass, p, op, times, wait, l, in, ends] {
                bool was = false;
                while (!(was = p->training()) && !over.load()) delays::nap(5);
                for (int k = 0; k < times; k++) {
                    delays::nap(wait);
                    if (op < 2) {
                        p->cancelTraining();
                        if (p->training()) late.fetch_add(1);
                    } else if (op < 4) {
                        p->cancelTraining(l);
                        if (was && in && rec.ended.at(l).load() < ends) lateClass.fetch_add(1);
                    } else
                        while (!over.load()) p->training();
                }
            });
        }
        c.log(only.empty() ? fmt("train set %zu", set) : fmt("train '%s' of set %zu", only.c_str(), set));
        if (only.empty())
            m->train(lab.sets[set].get());
        else
            m->train(lab.sets[set].get(), only);
        bool still = m->training();
        over.store(true);
        for (auto& t : others) t.join();
        c.check(!still, "training-flag", "training() is true when train() returns");
        c.check(late.load() == 0, "training-flag", "training() is true when cancelTraining() returns in another thread");
        c.check(lateClass.load() == 0, "class-cancel", "a class is still training when its cancelTraining() returns in another thread");
        c.checkf(noMoreThreadsThan(base), "threads", [&] { return fmt("%d threads remain after train()", threadsNow() - base); });
        checkLog(c, rec, started, round + 1, round + 1);
        std::set<std::string> keys;
        for (auto& k : m->models) keys.insert(k.first);
        for (auto const& l : last) {
            bool can = lab.reference[l.second].count(l.first) > 0, has = keys.count(l.first) > 0;
            c.checkf(can || !has, "failed-class", [&] { return "class '" + l.first + "' cannot be trained but exists"; });
            c.checkf(has || !can || mayLack.count(l.first), "lost-class", [&] { return "class '" + l.first + "' which was not cancelled is missing"; });
            if (!has) continue;
            std::string j = text(m->models[l.first].toJson());
            c.checkf(j == lab.reference[l.second][l.first], "class-content", [&] { return "class '" + l.first + "': " + cut(j, lab.reference[l.second][l.first]); });
            c.count("classes complete");
        }
        for (auto const& k : keys) c.checkf(last.count(k) > 0, "unknown-class", [&] { return "class '" + k + "' exists"; });
        c.count("blocking trainings");
        if (keys.size() < last.size()) c.count("blocking trainings cancelled in part");
    }
    c.nontrivial = true;
}

// --------------------------------------------------- C17: other thread workloads
template <typename Mod>
void crowd(Case& c) {
    Lab<Mod> lab(c);
    vf::Rng& r = c.rng;
    lab.prepare(1, 0.05);
    int n = r.in(2, 3);
    std::vector<std::unique_ptr<Mod>> ms;
    std::vector<std::unique_ptr<Recorder<Mod>>> recs;
    for (int i = 0; i < n; i++) {
        ms.push_back(lab.make(static_cast<MT>(r.chance(0.7) ? 2 : r.in(0, 1))));
        recs.emplace_back(new Recorder<Mod>());
        lab.listen(*recs.back(), *ms.back());
    }
    // some models are trained from their own thread, all with the same set
    DelayScope ds(r);
    std::vector<Row> st = randomStream(c, lab.datas[0], 3);
    std::atomic<bool> stop(false);
    std::atomic<int> polls(0), refused(0), done(0);
    std::vector<std::thread> ts;
    std::string label = lab.pickLabel(0);
    for (int i = 0; i < n; i++) {
        Mod* m = ms[size_t(i)].get();
        bool again = r.chance(0.3), one = r.chance(0.3), cancel = r.chance(0.3);
        long wait = r.in(0, 1000);
        xmm::TrainingSet* set = lab.sets[0].get();
        ts.emplace_back([&, m, set, again, one, cancel, wait] {
            m->train(set);
            if (one) m->train(set, label);
            if (again) m->train(set);
            if (cancel) {
                delays::nap(wait);
                m->cancelTraining();
            }
            // the model is refused or used, without a race
            for (;;) {
                bool was = m->training();
                try {
                    m->reset();
                    for (auto const& x : st) m->filter(x);
                    m->toJson();
                    m->hasClass(label);
                    m->getIndex(label);
                    Mod copy(*m);
                    break;
                } catch (std::runtime_error const&) {
                    refused.fetch_add(1, std::memory_order_relaxed);
                    if (!was) break;
                }
                delays::nap(100);
            }
            m->cancelTraining();
            done.fetch_add(1, std::memory_order_relaxed);
        });
    }
    for (int k = 0; k < 2; k++)
        ts.emplace_back([&] {
            while (!stop.load(std::memory_order_relaxed)) {
                for (auto& m : ms) m->training();
                polls.fetch_add(1, std::memory_order_relaxed);
                delays::nap(40);
            }
        });
    while (done.load(std::memory_order_relaxed) < n) delays::nap(100);
    stop.store(true);
    for (auto& t : ts) t.join();
    delays::stop();
    c.count("polls of the training state", uint64_t(polls.load()));
    c.count("operations refused while training", uint64_t(refused.load()));
    for (auto& rec : recs) {
        for (auto const& e : rec->log) c.sig.add(e.label).add(e.status);
        c.count("training events observed", rec->log.size());
    }
    c.nontrivial = true;
}

template <template <typename> class F>
void either(Case& c) {
    if (c.rng.chance(0.5))
        F<xmm::GMM>::run(c);
    else
        F<xmm::HierarchicalHMM>::run(c);
}
template <typename M> struct Events { static void run(Case& c) { events<M>(c); } };
template <typename M> struct Modes { static void run(Case& c) { modes<M>(c); } };
template <typename M> struct Interrupted { static void run(Case& c) { interrupted<M>(c); } };
template <typename M> struct Blocking { static void run(Case& c) { blocking<M>(c); } };
template <typename M> struct Crowd { static void run(Case& c) { crowd<M>(c); } };

void tally(Case& c) {
    c.count("synchronisation points passed", delays::points.load(std::memory_order_relaxed));
    delays::points.store(0, std::memory_order_relaxed);
}
void C16(Case& c) {
    either<Events>(c);
    tally(c);
}
void C18(Case& c) {
    either<Modes>(c);
    tally(c);
}
void C19(Case& c) {
    if (c.index % 6 == 5)
        either<Blocking>(c);
    else
        either<Interrupted>(c);
    tally(c);
}
// the deciding monitor is ThreadSanitizer; what the other properties say is
// left to their own checks
void C17(Case& c) {
    int k = c.rng.in(0, 9);
    try {
        if (k < 2)
            either<Events>(c);
        else if (k < 3)
            either<Modes>(c);
        else if (k < 6)
            either<Interrupted>(c);
        else if (k < 7)
            either<Blocking>(c);
        else
            either<Crowd>(c);
    } catch (vf::Failure const&) {
        c.count("executions another property's check reports");
    }
    tally(c);
    c.nontrivial = true;
}
}  // namespace

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"C16", 12000, 250000, C16, -8}, {"C17", 9000, 200000, C17}, {"C18", 4500, 120000, C18}, {"C19", 12000, 250000, C19, -5}});
}
