// Everything the results of a model and of its classes say, as numbers.
#pragma once
#include "models.hpp"

namespace md {
inline void put(std::vector<double>& o, std::vector<double> const& v) { o.insert(o.end(), v.begin(), v.end()); }
inline void put(std::vector<double>& o, std::vector<float> const& v) { o.insert(o.end(), v.begin(), v.end()); }
inline void extra(std::vector<double>& o, xmm::SingleClassGMM& k, bool) { put(o, k.beta); }
inline void extra(std::vector<double>& o, xmm::SingleClassHMM& k, bool hier) {
    if (!hier) put(o, k.alpha);
    for (int i = 0; i < 3; i++)
        if (hier) put(o, k.alpha_h[i]);
    o.push_back(k.results.progress);
    o.push_back(k.results.likeliest_state);
    if (hier) {
        o.push_back(k.results.exit_likelihood);
        o.push_back(k.results.exit_ratio);
    }
}
template <typename Mod>
std::vector<double> snapshot(Mod& m) {
    std::vector<double> o;
    auto& r = m.results;
    put(o, r.instant_likelihoods);
    put(o, r.instant_normalized_likelihoods);
    put(o, r.smoothed_likelihoods);
    put(o, r.smoothed_normalized_likelihoods);
    put(o, r.smoothed_log_likelihoods);
    o.push_back(m.getIndex(r.likeliest));
    bool bim = m.shared_parameters->bimodal.get();
    if (bim) {
        put(o, r.output_values);
        put(o, r.output_covariance);
    }
    for (auto& k : m.models) {
        o.push_back(k.second.results.instant_likelihood);
        o.push_back(k.second.results.log_likelihood);
        if (bim) {
            put(o, k.second.results.output_values);
            put(o, k.second.results.output_covariance);
        }
        extra(o, k.second, isHierarchical(m));
    }
    return o;
}
inline bool same(std::vector<double> const& a, std::vector<double> const& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (a[i] != b[i] && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
    return true;
}

// reset, filter the stream, and record the results at every frame
template <typename Mod>
std::vector<std::vector<double>> filterAll(Mod& m, std::vector<Row> const& s) {
    std::vector<std::vector<double>> o;
    m.reset();
    for (auto const& x : s) {
        m.filter(x);
        o.push_back(snapshot(m));
    }
    return o;
}
inline bool sameAll(std::vector<std::vector<double>> const& a, std::vector<std::vector<double>> const& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!same(a[i], b[i])) return false;
    return true;
}
inline std::string firstDifference(std::vector<std::vector<double>> const& got, std::vector<std::vector<double>> const& want) {
    for (size_t f = 0; f < want.size() && f < got.size(); f++)
        if (!same(got[f], want[f])) {
            if (got[f].size() != want[f].size()) return fmt("frame %zu has %zu values, expected %zu", f, got[f].size(), want[f].size());
            for (size_t i = 0; i < got[f].size(); i++)
                if (!same({got[f][i]}, {want[f][i]})) return fmt("frame %zu, value %zu of %zu: %.17g, expected %.17g", f, i, got[f].size(), got[f][i], want[f][i]);
        }
    return fmt("%zu frames, expected %zu", got.size(), want.size());
}
}  // namespace md
