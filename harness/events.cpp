// C23: event generators deliver every event once to every registered listener.
#include "vf.hpp"
#include "xmm.h"
#include <memory>
using namespace vf;

namespace {
struct Ev {
    int id;
    std::string text;
    std::vector<int> seenBy;
};
// a listener with two methods, by value of the event's contents
struct Ear {
    int id = 0;
    std::vector<std::string> heard;
    void on(Ev const& e) {
        heard.push_back(fmt("%d %s", e.id, e.text.c_str()));
    }
    void write(Ev& e) {
        on(e);
        e.seenBy.push_back(id);
    }
};
struct Loud : Ear {
    long padding = 7;
};

void direct(Case& c) {
    typedef xmm::EventGenerator<Ev> G;
    Rng& r = c.rng;
    int n = r.chance(0.05) ? r.in(8, 60) : r.in(1, 7), ng = r.in(1, 3), steps = r.in(5, n > 7 ? 200 : 40);
    std::vector<std::unique_ptr<Loud>> ears;
    for (int i = 0; i < n; i++) {
        ears.emplace_back(new Loud());
        ears.back()->id = i;
    }
    std::vector<std::unique_ptr<G>> gens;
    std::vector<std::map<int, bool>> reg(static_cast<size_t>(ng));  // listener -> registered with write()
    for (int g = 0; g < ng; g++) gens.emplace_back(new G());
    int next = 0;
    for (int s = 0; s < steps; s++) {
        size_t g = size_t(r.in(0, ng - 1));
        int i = r.in(0, n - 1);
        Ear* ear = ears[size_t(i)].get();
        switch (r.in(0, 9)) {
        case 0:
        case 1:
        case 2: {
            if (reg[g].count(i)) {  // again, with the same method: still one listener
                if (reg[g][i]) gens[g]->addListener(ear, &Ear::write);
                else gens[g]->addListener(ear, &Ear::on);
                c.count("listeners registered again");
            } else {
                bool w = r.chance(0.4);
                if (w) gens[g]->addListener(ear, &Ear::write);
                else gens[g]->addListener(ear, &Ear::on);
                reg[g][i] = w;
            }
            c.log(fmt("add %d to %zu", i, g));
            break;
        }
        case 3: {
            // also when it was never added
            bool w = reg[g].count(i) ? reg[g][i] : r.chance(0.5);
            if (w) gens[g]->removeListener(ear, &Ear::write);
            else gens[g]->removeListener(ear, &Ear::on);
            reg[g].erase(i);
            c.log(fmt("remove %d from %zu", i, g));
            break;
        }
        case 4:
            if (r.chance(0.4)) {
                gens[g]->removeListeners();
                reg[g].clear();
                c.log(fmt("remove all from %zu", g));
            }
            break;
        case 5: {
            size_t h = size_t(r.in(0, ng - 1));
            if (r.chance(0.5)) {
                *gens[g] = *gens[h];
                c.log(fmt("generator %zu = %zu", g, h));
            } else {
                gens[g].reset(new G(*gens[h]));
                c.log(fmt("generator %zu is a copy of %zu", g, h));
                // the copy is made from the old one when both are the same
            }
            reg[g] = reg[h];
            break;
        }
        default: {
            Ev e{next++, fmt("text %d", r.in(0, 9)), {}};
            std::string what = fmt("%d %s", e.id, e.text.c_str());
            for (auto& x : ears) x->heard.clear();
            gens[g]->notifyListeners(e);
            c.log(fmt("notify %zu", g));
            for (int k = 0; k < n; k++) {
                bool in = reg[g].count(k) > 0;
                Ear& x = *ears[size_t(k)];
                c.check(x.heard.size() == (in ? 1u : 0u), "delivery", fmt("listener %d of generator %zu (%s) heard the event %zu times", k, g, in ? "registered" : "not registered", x.heard.size()));
                if (in) c.check(x.heard[0] == what, "contents", fmt("listener %d heard '%s' instead of '%s'", k, x.heard[0].c_str(), what.c_str()));
                c.count("deliveries compared");
            }
        }
        }
    }
    c.nontrivial = n > 1;
}

// ------------------------------------------------------ training of models
struct TrainEar {
    std::vector<std::string> heard;
    void on(xmm::TrainingEvent const& e) { heard.push_back(fmt("%s %d %.17g %.17g %.17g %p", e.label.c_str(), int(e.status), double(e.progression), double(e.log_likelihood), double(e.iterations), static_cast<void*>(e.model))); }
};
template <typename Mod>
void training(Case& c) {
    Rng& r = c.rng;
    xmm::TrainingSet ts;
    int classes = r.in(1, 3), idx = 0;
    for (int k = 0; k < classes; k++) {
        ts.addPhrase(idx, std::string(1, char('a' + k)));
        for (int t = 0; t < 12; t++) ts.getPhrase(idx)->record({float(r.gauss() + k)});
        idx++;
    }
    int ne = r.in(1, 3);
    std::vector<TrainEar> ears(static_cast<size_t>(ne));
    std::set<int> reg;
    std::unique_ptr<Mod> m(new Mod());
    m->shared_parameters->em_algorithm_max_iterations.set(3);
    m->configuration.multithreading = xmm::MultithreadingMode::Sequential;
    for (int s = 0; s < 8; s++) {
        int k = r.in(0, ne - 1);
        switch (r.in(0, 5)) {
        case 0:
        case 1:
            m->training_events.addListener(&ears[size_t(k)], &TrainEar::on);
            reg.insert(k);
            c.log(fmt("add %d", k));
            break;
        case 2:
            if (r.chance(0.6)) {
                m->training_events.removeListener(&ears[size_t(k)], &TrainEar::on);
                reg.erase(k);
                c.log(fmt("remove %d", k));
            } else {
                m->training_events.removeListeners();
                reg.clear();
                c.log("remove all");
            }
            break;
        case 3: {
            // listeners stay through reading, clearing and resetting
            for (auto& e : ears) e.heard.clear();
            switch (r.in(0, 4)) {
            case 0: m->fromJson(m->toJson()); break;
            case 1: m->clear(); break;
            case 2: {  // a copy has the listeners of its source, which keeps its own
                std::unique_ptr<Mod> n(new Mod(*m));
                if (r.chance(0.5)) m = std::move(n);
                else n->training_events.removeListeners();
                c.count("copied models");
                break;
            }
            case 3: {
                std::unique_ptr<Mod> n(new Mod());
                if (r.chance(0.5)) n->training_events.addListener(&ears[size_t(k)], &TrainEar::on);
                *n = *m;
                if (r.chance(0.7)) m = std::move(n);
                c.count("copied models");
                break;
            }
            default: m->reset();
            }
            for (int i = 0; i < ne; i++) c.check(ears[size_t(i)].heard.empty(), "delivery", "an event without training");
            c.log("read, clear, copy or reset");
            break;
        }
        default: {
            for (auto& e : ears) e.heard.clear();
            bool one = r.chance(0.4);
            std::string l(1, char('a' + r.in(0, classes - 1)));
            if (one) m->train(&ts, l);
            else m->train(&ts);
            c.log(one ? "train " + l : "train");
            std::vector<std::string>* first = nullptr;
            std::string model = fmt(" %p", static_cast<void*>(m.get()));
            for (int i = 0; i < ne; i++) {
                auto& h = ears[size_t(i)].heard;
                if (!reg.count(i)) {
                    c.check(h.empty(), "delivery", fmt("listener %d is not registered and heard %zu events", i, h.size()));
                    continue;
                }
                size_t ends = 0;
                for (auto& x : h) {
                    c.check(x.size() > model.size() && x.compare(x.size() - model.size(), model.size(), model) == 0, "contents", "an event names another model: " + x + " instead of" + model);
                    ends += x.compare(0, 2, " 4") == 0 || x.compare(0, 3, "a 3") == 0 || x.compare(0, 3, "b 3") == 0 || x.compare(0, 3, "c 3") == 0;
                }
                c.check(ends == (one ? 1u : unsigned(classes)) + 1, "delivery", fmt("listener %d heard %zu ends", i, ends));
                if (first) c.check(*first == h, "delivery", "two listeners heard different events");
                first = &h;
                c.count("deliveries compared", h.size());
            }
        }
        }
    }
    c.nontrivial = true;
}
void c23(Case& c) {
    switch (c.index % 10) {
    case 0: training<xmm::GMM>(c); break;
    case 1: training<xmm::HierarchicalHMM>(c); break;
    default: direct(c);
    }
}
}  // namespace

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"C23", 20000, 600000, c23, 8}});
}
