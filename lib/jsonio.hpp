// Text round trips and awkward strings and numbers, for the JSON monitors.
#pragma once
#include "models.hpp"
#include "snap.hpp"
#include <cfloat>
#include <cstdio>
#include <fstream>
#include <unistd.h>

namespace jio {
using vf::Case;
using vf::fmt;

// a scratch file of this process
struct TempFile {
    std::string path;
    TempFile() {
        const char* d = std::getenv("TMPDIR");
        path = std::string(d && *d ? d : "/tmp") + "/vf-json-XXXXXX";
        int fd = mkstemp(&path[0]);
        if (fd < 0) throw std::runtime_error("cannot create " + path);
        close(fd);
    }
    ~TempFile() { std::remove(path.c_str()); }
    char* name() { return &path[0]; }
    void put(std::string const& s) { std::ofstream(path.c_str(), std::ios::binary) << s; }
};
// any document as an object of the library that can be written to a file
struct Document : xmm::Writable {
    Json::Value value;
    Json::Value toJson() const { return value; }
    void fromJson(Json::Value const& v) { value = v; }
};
// write with any of the writers, read back
inline Json::Value throughText(Case& c, Json::Value const& v) {
    std::string text;
    switch (c.rng.in(0, 4)) {
    case 4: {
        static TempFile file;
        Document d, e;
        d.value = v;
        e.value = "previous";
        d.writeFile(file.name());
        e.readFile(file.name());
        c.count("documents written to a file and read");
        return e.value;
    }
    case 0:
        text = Json::FastWriter().write(v);
        break;
    case 1:
        text = Json::StyledWriter().write(v);
        break;
    case 2:
        if (c.rng.chance(0.5)) {
            Document d;
            d.value = v;
            text = d.__str__();
        } else
            text = v.toStyledString();
        break;
    default: {
        std::ostringstream o;
        o << v;
        text = o.str();
    }
    }
    Json::Value out;
    Json::Reader reader;
    if (!reader.parse(text, out)) c.fail("unparsable", "the written document cannot be parsed: " + reader.getFormattedErrorMessages() + text.substr(0, 300));
    c.count("documents written and parsed");
    return out;
}
inline std::string text(Json::Value const& v) { return Json::FastWriter().write(v); }

inline std::string awkward(vf::Rng& r) {
    static const std::vector<std::string> pool = {"", "a", "b", "label", "Gesture 1", "\xc3\xa9t\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "\xf0\x9f\x8e\xbb", "a\"b", "back\\slash", "tab\there", "line\nbreak", "{\"x\":1}", "0", "-1", "null", "  ", "/*no*/", "//", "a/b", "\x01\x1f", "true", "1e5"};
    std::string s = r.pick(pool);
    if (r.chance(0.2)) s += r.pick(pool);
    if (r.chance(0.05)) s += std::string(size_t(r.in(1, 300)), 'x');
    if (r.chance(0.04)) s.insert(size_t(r.in(0, int(s.size()))), 1, '\0');
    return s;
}
inline float anyFloat(vf::Rng& r) {
    switch (r.in(0, 11)) {
    case 0: return 0.f;
    case 1: return r.chance(0.5) ? FLT_MAX : -FLT_MAX;
    case 2: return r.chance(0.5) ? FLT_MIN : -FLT_MIN;
    case 3: return float(std::ldexp(r.real(-1, 1), -r.in(127, 148)));
    case 4: return float(r.in(-1000000, 1000000));
    case 5: return float(std::ldexp(double(r.in(-16777216, 16777216)), r.in(-60, 100)));
    case 6: return std::nextafterf(float(r.in(-3, 3)), r.chance(0.5) ? 10.f : -10.f);
    case 7: return 0.1f;
    default: return float(r.gauss() * std::pow(10., r.real(-8, 8)));
    }
}
// the sign of zero is not kept by JSON numbers
inline float awkwardFloat(vf::Rng& r) {
    float v = anyFloat(r);
    return v == 0 ? 0.f : v;
}
// arrays of values to JSON and back, through pointers and vectors
template <typename T> struct Buffer {
    std::unique_ptr<T[]> p;
    explicit Buffer(size_t n) : p(new T[n ? n : 1]) {}
};
template <typename T>
bool sameVector(std::vector<T> const& a, T const* b) {
    for (size_t i = 0; i < a.size(); i++)
        if (a[i] != b[i]) return false;
    return true;
}
template <typename T, typename Draw>
void arrays(Case& c, const char* type, Draw draw, Json::Value const& wrongElement) {
    vf::Rng& r = c.rng;
    unsigned n = unsigned(r.chance(0.1) ? 0 : r.in(1, r.chance(0.05) ? 3000 : 8));
    std::vector<T> v(n), w(n);
    Buffer<T> a(n), b(n);
    for (unsigned i = 0; i < n; i++) a.p[i] = v[i] = draw();
    c.log(fmt("%u values of %s", n, type));
    Json::Value d1 = throughText(c, xmm::array2json(a.p.get(), n)), d2 = throughText(c, xmm::vector2json(v));
    c.check(d1.size() == n && d2.size() == n && text(d1) == text(d2), "array-document", "array2json and vector2json write different documents");
    if (n) {
        xmm::json2array(d1, b.p.get(), n);
        c.check(sameVector(v, b.p.get()), "array-values", std::string("an array of ") + type + " changed on its way");
        xmm::json2vector(d2, w, n);
        c.check(v == w, "array-values", std::string("a vector of ") + type + " changed on its way");
    }
    if (n == 0) return;
    // what does not fit is refused
    Json::Value bad = d1;
    std::string how;
    switch (r.in(0, 4)) {
    case 0:
        bad.append(d1[0u]);
        how = "too long";
        break;
    case 1:
        bad.resize(n - 1);
        how = "too short";
        break;
    case 2:
        bad = Json::Value(Json::objectValue);
        for (unsigned i = 0; i < n; i++) bad[fmt("k%u", i)] = d1[i];
        how = "an object";
        break;
    case 3:
        bad = r.chance(0.5) ? Json::Value("text") : r.chance(0.5) ? Json::Value(3) : Json::Value();
        how = "not an array";
        break;
    default:
        bad[unsigned(r.in(0, int(n) - 1))] = wrongElement;
        how = "a wrong element";
    }
    bool refusedA = false, refusedV = false;
    try {
        xmm::json2array(bad, b.p.get(), n);
    } catch (std::exception&) {
        refusedA = true;
    }
    try {
        xmm::json2vector(bad, w, n);
    } catch (std::exception&) {
        refusedV = true;
    }
    c.check(refusedA && refusedV && w.size() == n, "array-accepted", fmt("%u values of %s, %s: array %s, vector %s", n, type, how.c_str(), refusedA ? "refused" : "accepted", refusedV ? "refused" : "accepted"));
    c.count("ill-formed arrays refused");
}
inline void arrayCase(Case& c) {
    vf::Rng& r = c.rng;
    Json::Value object(Json::objectValue);
    object["x"] = 1;
    switch (r.in(0, 4)) {
    case 0: arrays<float>(c, "float", [&] { return awkwardFloat(r); }, Json::Value("x")); break;
    case 1: arrays<double>(c, "double", [&] { double v = r.chance(0.2) ? double(awkwardFloat(r)) : r.gauss() * std::pow(10., r.real(-300, 300)); return v == 0 ? 0. : v; }, object); break;
    case 2: arrays<bool>(c, "bool", [&] { return r.chance(0.5); }, object); break;
    case 3: arrays<std::string>(c, "string", [&] { return awkward(r); }, object); break;
    default: arrays<int>(c, "int", [&] { return r.chance(0.2) ? (r.chance(0.5) ? 2147483647 : -2147483647 - 1) : r.in(-1000, 1000); }, Json::Value("x"));
    }
    c.nontrivial = true;
    c.count("arrays converted");
}
}  // namespace jio
