// C01 (phrase data fidelity) and C02 (ownership of memory, independent copies)
// Reference model: plain vectors of rows.  Every operation of a random history
// is applied to the library's phrase and to the model; after each of them what
// the public interface shows has to be what the model holds.
#include "vf.hpp"
#include "xmm.h"
#include <memory>

using vf::Case;
using vf::fmt;
typedef std::vector<float> Row;

namespace {

struct Buffer {  // memory that belongs to the user
    std::unique_ptr<float[]> mem;
    std::vector<float> shadow;
    unsigned n() const { return unsigned(shadow.size()); }
};
typedef std::shared_ptr<Buffer> BufferP;

struct Model {
    bool own = true, bim = false;
    unsigned dim = 1, din = 0;
    std::vector<Row> in, out;  // unimodal data is in `in`
    BufferP bin, bout;         // shared mode: connected buffers
    unsigned lin = 0, lout = 0;
    std::string label;
    std::vector<std::string> cols;
    unsigned inDim() const { return bim ? din : dim; }
    unsigned outDim() const { return bim ? dim - din : 0; }
    unsigned nin() const { return own ? unsigned(in.size()) : lin; }
    unsigned nout() const { return own ? unsigned(out.size()) : lout; }
    unsigned size() const { return bim ? std::min(nin(), nout()) : nin(); }
    float value(unsigned t, unsigned d) const {
        if (own) return d < inDim() ? in[t][d] : out[t][d - inDim()];
        return d < inDim() ? bin->shadow[t * inDim() + d] : bout->shadow[t * outDim() + d - inDim()];
    }
    void wipe() {
        in.clear();
        out.clear();
        bin = bout = nullptr;
        lin = lout = 0;
    }
};

bool same(float a, float b) { return std::memcmp(&a, &b, sizeof a) == 0; }

struct Slot {
    std::unique_ptr<xmm::Phrase> p;
    Model m;
    std::string name;
};

struct Engine {
    Case& c;
    std::vector<Slot> slots;
    std::vector<BufferP> buffers;
    int serial = 0;
    bool copies;  // C02 emphasis
    explicit Engine(Case& c_, bool copies_) : c(c_), copies(copies_) {}

    float val() {
        switch (c.rng.in(0, 19)) {
            case 0: return 0.f;
            case 1: return -0.f;
            case 2: return std::numeric_limits<float>::max();
            case 3: return std::numeric_limits<float>::denorm_min();
            case 4: return std::numeric_limits<float>::infinity();
            default: return float(c.rng.gauss() * std::pow(10., c.rng.in(-3, 3)));
        }
    }
    Row row(unsigned n) {
        Row r(n);
        for (auto& x : r) x = val();
        return r;
    }
    BufferP buffer(unsigned n) {
        BufferP b = std::make_shared<Buffer>();
        b->mem.reset(new float[n ? n : 1]);
        b->shadow.resize(n);
        for (unsigned i = 0; i < n; i++) b->mem[i] = b->shadow[i] = val();
        buffers.push_back(b);
        return b;
    }

    template <typename E, typename F>
    void expectThrow(const char* what, F f) {
        bool thrown = false;
        try {
            f();
        } catch (E&) {
            thrown = true;
        } catch (std::exception& e) {
            c.fail("wrong-exception", fmt("%s: threw a different exception (%s)", what, e.what()));
        }
        c.checkf(thrown, "missing-exception", [&] { return fmt("%s was accepted", what); });
        c.count("rejected calls");
    }

    void verify(Slot& s, const char* when) {
        Model& m = s.m;
        xmm::Phrase const& p = *s.p;
        auto ctx = [&] { return s.name + " after " + when + ": "; };
        c.checkf(p.ownMemory() == m.own && p.bimodal() == m.bim, "mode", [&] { return ctx() + "memory mode or modality changed"; });
        c.checkf(p.dimension.get() == m.dim, "dimension", [&] { return ctx() + fmt("dimension %u, expected %u", p.dimension.get(), m.dim); });
        if (m.bim) c.checkf(p.dimension_input.get() == m.din, "dimension", [&] { return ctx() + fmt("input dimension %u, expected %u", p.dimension_input.get(), m.din); });
        c.checkf(p.size() == m.size(), "size", [&] { return ctx() + fmt("size %u, expected %u", p.size(), m.size()); });
        if (m.bim) {
            c.checkf(p.inputSize() == m.nin() && p.outputSize() == m.nout(), "size", [&] {
                return ctx() + fmt("modality sizes %u/%u, expected %u/%u", p.inputSize(), p.outputSize(), m.nin(), m.nout());
            });
        }
        c.checkf(p.empty() == (std::max(m.nin(), m.nout()) == 0), "empty", [&] { return ctx() + fmt("empty()=%d with %u/%u frames", int(p.empty()), m.nin(), m.nout()); });
        c.checkf(p.label.get() == m.label, "label", [&] { return ctx() + "label '" + p.label.get() + "', expected '" + m.label + "'"; });
        c.checkf(p.column_names == m.cols, "columns", [&] { return ctx() + "column names " + vf::show(p.column_names) + ", expected " + vf::show(m.cols); });
        for (unsigned d = 0; d < m.dim; d++) {
            unsigned n = (!m.bim || d < m.din) ? m.nin() : m.nout();
            for (unsigned t = 0; t < n; t++) {
                float got = p.getValue(t, d), want = m.value(t, d);
                c.checkf(same(got, want), "value", [&] { return ctx() + fmt("value(%u,%u)=%.9g, expected %.9g", t, d, got, want); });
            }
            bool thrown = false;
            try {
                p.getValue(n, d);
            } catch (std::out_of_range&) {
                thrown = true;
            }
            c.checkf(thrown, "bounds", [&] { return ctx() + fmt("reading frame %u of %u (dim %u) was accepted", n, n, d); });
        }
        bool thrown = false;
        try {
            p.getValue(0, m.dim);
        } catch (std::out_of_range&) {
            thrown = true;
        }
        c.checkf(thrown, "bounds", [&] { return ctx() + "reading beyond the dimension was accepted"; });
        // pointers: whole rows at once
        for (unsigned t = 0; t < m.size(); t++) {
            if (m.bim) {
                float *a = p.getPointer_input(t), *b = p.getPointer_output(t);
                for (unsigned d = 0; d < m.dim; d++) {
                    float got = d < m.din ? a[d] : b[d - m.din];
                    c.checkf(same(got, m.value(t, d)), "pointer", [&] { return ctx() + fmt("row pointer of frame %u, dim %u shows %.9g, expected %.9g", t, d, got, m.value(t, d)); });
                }
            } else {
                float* a = p.getPointer(t);
                for (unsigned d = 0; d < m.dim; d++)
                    c.checkf(same(a[d], m.value(t, d)), "pointer", [&] { return ctx() + fmt("row pointer of frame %u, dim %u shows %.9g, expected %.9g", t, d, a[d], m.value(t, d)); });
            }
        }
        if (m.size()) {
            if (m.bim)
                expectThrow<std::runtime_error>("getPointer on a bimodal phrase", [&] { p.getPointer(0); });
            else {
                expectThrow<std::runtime_error>("getPointer_input on a unimodal phrase", [&] { p.getPointer_input(0); });
                expectThrow<std::runtime_error>("getPointer_output on a unimodal phrase", [&] { p.getPointer_output(0); });
            }
        }
        for (int k = 0; k < 3; k++) {
            thrown = false;
            try {
                unsigned idx = m.size() + (k == 1 ? 1 : k == 2 ? 1000000 : 0);
                if (m.bim)
                    k % 2 ? p.getPointer_input(idx) : p.getPointer_output(idx);
                else
                    p.getPointer(idx);
            } catch (std::out_of_range&) {
                thrown = true;
            }
            c.checkf(thrown, "bounds", [&] { return ctx() + "row pointer beyond the end was accepted"; });
        }
        c.count("phrase states compared");
        if (m.size()) c.nontrivial = true;
    }
    void verifyBuffers(const char* when) {
        for (auto& b : buffers)
            for (unsigned i = 0; i < b->n(); i++)
                c.checkf(same(b->mem[i], b->shadow[i]), "user-buffer", [&] { return fmt("user memory modified by %s at index %u", when, i); });
    }

    Slot make(bool own, bool bim) {
        Slot s;
        s.name = fmt("P%d(%s,%s)", serial++, own ? "own" : "shared", bim ? "bimodal" : "unimodal");
        s.p.reset(new xmm::Phrase(own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory,
                                  bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        s.m.own = own;
        s.m.bim = bim;
        s.m.dim = bim ? 2 : 1;
        s.m.cols.resize(s.m.dim);
        s.m.din = bim ? 1 : 0;
        c.log("new " + s.name);
        return s;
    }
    void setDim(Slot& s, unsigned d) {
        Model& m = s.m;
        c.log(fmt("%s.dimension=%u", s.name.c_str(), d));
        if (d < (m.bim ? 2u : 1u)) {
            expectThrow<std::domain_error>("too small dimension", [&] { s.p->dimension.set(d); });
            return;
        }
        s.p->dimension.set(d);
        m.dim = d;
        if (m.bim && m.din > d - 1) m.din = d - 1;
        m.wipe();
        m.cols.resize(d);
    }
    void step() {
        Slot& s = slots[c.rng.in(0, int(slots.size()) - 1)];
        Model& m = s.m;
        xmm::Phrase& p = *s.p;
        int op = c.rng.in(0, copies ? 21 : 15);
        std::string what;
        switch (op) {
            case 0: case 1: case 2: case 3: {  // record
                unsigned n = c.rng.chance(0.15) ? c.rng.in(200, 700) : c.rng.in(1, 20);
                what = fmt("%s.record x%u", s.name.c_str(), n);
                c.log(what);
                for (unsigned i = 0; i < n; i++) {
                    Row r = row(m.dim);
                    if (!m.own) {
                        expectThrow<std::runtime_error>("recording in shared memory", [&] { p.record(r); });
                        break;
                    }
                    if (m.bim && m.nin() != m.nout()) {
                        expectThrow<std::runtime_error>("synchronous recording of unequal modalities", [&] { p.record(r); });
                        break;
                    }
                    p.record(r);
                    if (m.bim) {
                        m.in.push_back(Row(r.begin(), r.begin() + m.din));
                        m.out.push_back(Row(r.begin() + m.din, r.end()));
                    } else
                        m.in.push_back(r);
                    c.count("frames recorded");
                }
                break;
            }
            case 4: case 5: case 6: case 7: {  // record one modality
                bool inp = op < 6;
                unsigned n = c.rng.chance(0.1) ? c.rng.in(200, 600) : c.rng.in(1, 12);
                what = fmt("%s.record_%s x%u", s.name.c_str(), inp ? "input" : "output", n);
                c.log(what);
                for (unsigned i = 0; i < n; i++) {
                    Row r = row(inp ? (m.bim ? m.din : m.dim) : (m.bim ? m.dim - m.din : m.dim));
                    if (!m.own || !m.bim) {
                        expectThrow<std::runtime_error>("recording one modality", [&] { inp ? p.record_input(r) : p.record_output(r); });
                        break;
                    }
                    if (inp) {
                        p.record_input(r);
                        m.in.push_back(r);
                    } else {
                        p.record_output(r);
                        m.out.push_back(r);
                    }
                    c.count("frames recorded");
                }
                break;
            }
            case 8: {  // wrong sizes
                what = s.name + ".record of a wrong size";
                c.log(what);
                Row r = row(m.dim + (c.rng.chance(0.5) ? 1 : -1));
                if (m.own && !(m.bim && m.nin() != m.nout())) expectThrow<std::invalid_argument>("wrong size", [&] { p.record(r); });
                if (m.own && m.bim) {
                    expectThrow<std::invalid_argument>("wrong input size", [&] { p.record_input(row(m.din + 1)); });
                    expectThrow<std::invalid_argument>("wrong output size", [&] { p.record_output(row(m.dim - m.din + 1)); });
                }
                break;
            }
            case 9: {  // clear family
                int k = c.rng.in(0, 2);
                what = fmt("%s.clear%s", s.name.c_str(), k == 0 ? "" : k == 1 ? "Input" : "Output");
                c.log(what);
                auto f = [&] { k == 0 ? p.clear() : k == 1 ? p.clearInput() : p.clearOutput(); };
                if (!m.own)
                    expectThrow<std::runtime_error>("clearing shared memory", f);
                else {
                    f();
                    if (k != 2 || !m.bim) m.in.clear();
                    if (k != 1) m.out.clear();
                }
                break;
            }
            case 10: {
                what = s.name + ".dimension";
                setDim(s, c.rng.in(0, 6));
                break;
            }
            case 11: {
                if (!m.bim) return;
                unsigned d = c.rng.in(0, m.dim + 1);
                what = fmt("%s.dimension_input=%u (dimension %u)", s.name.c_str(), d, m.dim);
                c.log(what);
                // (a freshly built phrase accepts its whole dimension as input
                //  dimension until the dimension is set: not part of the claim)
                if (d >= m.dim && m.dim == 2) return;
                if (d < 1 || d > m.dim - 1)
                    expectThrow<std::domain_error>("input dimension out of range", [&] { p.dimension_input.set(d); });
                else {
                    p.dimension_input.set(d);
                    m.din = d;
                    m.wipe();
                    m.cols.resize(m.dim);
                }
                break;
            }
            case 12: {
                std::string l = fmt("L%d", c.rng.in(0, 5));
                what = s.name + ".label=" + l;
                c.log(what);
                p.label.set(l);
                m.label = l;
                break;
            }
            case 13: {
                m.cols.clear();
                for (unsigned d = 0; d < m.dim; d++) m.cols.push_back(fmt("c%d", c.rng.in(0, 99)));
                p.column_names = m.cols;
                what = s.name + ".column_names";
                c.log(what);
                break;
            }
            case 14: case 15: case 16: {  // connect family
                unsigned n = c.rng.in(0, 12), n2 = c.rng.chance(0.5) ? n : c.rng.in(0, 12);
                int k = c.rng.in(0, 4);
                what = fmt("%s.connect[%d] %u %u", s.name.c_str(), k, n, n2);
                c.log(what);
                if (k == 4) {
                    if (m.own)
                        expectThrow<std::runtime_error>("disconnecting own memory", [&] { p.disconnect(); });
                    else {
                        p.disconnect();
                        m.wipe();
                    }
                    break;
                }
                if (m.own || (m.bim ? k == 0 : k != 0)) {
                    BufferP b = buffer(20 * m.dim);
                    expectThrow<std::runtime_error>("connecting in the wrong mode", [&] {
                        if (k == 0) p.connect(b->mem.get(), 2);
                        if (k == 1) p.connect(b->mem.get(), b->mem.get(), 2);
                        if (k == 2) p.connect_input(b->mem.get(), 2);
                        if (k == 3) p.connect_output(b->mem.get(), 2);
                    });
                    break;
                }
                if (k == 0) {
                    m.bin = buffer(n * m.dim);
                    m.lin = n;
                    p.connect(m.bin->mem.get(), n);
                } else if (k == 1) {
                    m.bin = buffer(n * m.din);
                    m.bout = buffer(n * (m.dim - m.din));
                    m.lin = m.lout = n;
                    p.connect(m.bin->mem.get(), m.bout->mem.get(), n);
                } else if (k == 2) {
                    m.bin = buffer(n * m.din);
                    m.lin = n;
                    p.connect_input(m.bin->mem.get(), n);
                } else {
                    m.bout = buffer(n2 * (m.dim - m.din));
                    m.lout = n2;
                    p.connect_output(m.bout->mem.get(), n2);
                }
                c.count("connections");
                break;
            }
            case 17: case 18: {  // copy construction
                if (slots.size() >= 7) return;
                Slot t;
                t.name = fmt("P%d(copy of %s)", serial++, s.name.c_str());
                if (t.name.size() > 60) t.name = fmt("P%d(copy)", serial - 1);
                what = "copy " + s.name;
                c.log(what);
                t.p.reset(new xmm::Phrase(*s.p));
                t.m = s.m;
                slots.push_back(std::move(t));
                c.count("copies");
                verify(slots.back(), what.c_str());
                return;
            }
            case 19: case 20: {  // assignment, self included
                Slot& t = slots[c.rng.in(0, int(slots.size()) - 1)];
                what = s.name + " = " + t.name;
                c.log(what);
                *s.p = *t.p;
                Model copy = t.m;
                s.m = copy;
                c.count("assignments");
                verify(t, what.c_str());
                break;
            }
            case 21: {  // destruction
                if (slots.size() < 2) return;
                int i = int(&s - &slots[0]);
                what = "destroy " + s.name;
                c.log(what);
                slots.erase(slots.begin() + i);
                for (auto& o : slots) verify(o, what.c_str());
                verifyBuffers(what.c_str());
                c.count("destructions");
                return;
            }
        }
        c.count("operations");
        verify(s, what.c_str());
        if (copies) {
            verifyBuffers(what.c_str());
            Slot& o = slots[c.rng.in(0, int(slots.size()) - 1)];
            verify(o, what.c_str());
        }
    }
    void go() {
        int n = copies ? c.rng.in(2, 4) : 1;
        for (int i = 0; i < n; i++) {
            slots.push_back(make(c.rng.chance(copies ? 0.55 : 0.7), c.rng.chance(0.6)));
            verify(slots.back(), "construction");
            if (c.rng.chance(0.8)) setDim(slots.back(), c.rng.in(2, 6));
            if (c.rng.chance(0.5)) {
                Slot& s = slots.back();
                if (s.m.bim && s.m.dim > 2) {
                    unsigned d = c.rng.in(1, s.m.dim - 1);
                    s.p->dimension_input.set(d);
                    s.m.din = d;
                    s.m.cols.resize(s.m.dim);
                    c.log(fmt("%s.dimension_input=%u", s.name.c_str(), d));
                }
            }
            verify(slots.back(), "configuration");
        }
        int steps = c.rng.in(5, c.thorough ? 60 : 30);
        for (int i = 0; i < steps; i++) step();
        for (auto& s : slots) verify(s, "end");
        while (!slots.empty()) {
            slots.erase(slots.begin() + c.rng.in(0, int(slots.size()) - 1));
            for (auto& s : slots) verify(s, "destruction of the others");
        }
        verifyBuffers("destruction of every phrase");
    }
};

void C01(Case& c) { Engine(c, false).go(); }
void C02(Case& c) { Engine(c, true).go(); }
}  // namespace

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"C01", 4000, 200000, C01, 0}, {"C02", 4000, 200000, C02, 5}});
}
