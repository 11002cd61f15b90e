// Independent long double linear algebra used by the oracles.
#pragma once
#include <cmath>
#include <vector>
namespace la {
typedef long double R;
typedef std::vector<R> V;
struct M {
    int r, c;
    V a;
    M(int r_ = 0, int c_ = 0) : r(r_), c(c_), a(size_t(r_) * c_, 0) {}
    R& operator()(int i, int j) { return a[size_t(i) * c + j]; }
    R operator()(int i, int j) const { return a[size_t(i) * c + j]; }
};
inline M mul(M const& x, M const& y) {
    M o(x.r, y.c);
    for (int i = 0; i < x.r; i++)
        for (int k = 0; k < x.c; k++)
            for (int j = 0; j < y.c; j++) o(i, j) += x(i, k) * y(k, j);
    return o;
}
inline M tr(M const& x) {
    M o(x.c, x.r);
    for (int i = 0; i < x.r; i++)
        for (int j = 0; j < x.c; j++) o(j, i) = x(i, j);
    return o;
}
inline M eye(int n) {
    M o(n, n);
    for (int i = 0; i < n; i++) o(i, i) = 1;
    return o;
}
inline M sub(M const& x, int r0, int r1, int c0, int c1) {
    M o(r1 - r0, c1 - c0);
    for (int i = r0; i < r1; i++)
        for (int j = c0; j < c1; j++) o(i - r0, j - c0) = x(i, j);
    return o;
}
inline R norm(M const& x) {
    R s = 0;
    for (R v : x.a) s = std::max(s, std::fabs(v));
    return s;
}
// LU with full partial pivoting; returns false when singular to working precision
inline bool inverse(M const& x, M& inv, R& det) {
    int n = x.r;
    M a = x;
    inv = eye(n);
    det = 1;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k; i < n; i++)
            if (std::fabs(a(i, k)) > std::fabs(a(p, k))) p = i;
        if (std::fabs(a(p, k)) < 1e-15L * norm(x)) {
            det = 0;
            return false;
        }
        if (p != k) {
            det = -det;
            for (int j = 0; j < n; j++) {
                std::swap(a(p, j), a(k, j));
                std::swap(inv(p, j), inv(k, j));
            }
        }
        R d = a(k, k);
        det *= d;
        for (int j = 0; j < n; j++) {
            a(k, j) /= d;
            inv(k, j) /= d;
        }
        for (int i = 0; i < n; i++)
            if (i != k) {
                R f = a(i, k);
                for (int j = 0; j < n; j++) {
                    a(i, j) -= f * a(k, j);
                    inv(i, j) -= f * inv(k, j);
                }
            }
    }
    return true;
}
// normal density and Mahalanobis distance
struct Normal {
    V mu;
    M inv;
    R logNorm = 0, det = 0, cond = 0;
    bool ok = false;
    Normal() {}
    Normal(V const& m, M const& cov) : mu(m) {
        ok = inverse(cov, inv, det) && det > 0;
        if (ok) {
            logNorm = -0.5L * (std::log(det) + R(m.size()) * std::log(2 * 3.14159265358979323846264338327950288L));
            cond = norm(cov) * norm(inv) * m.size();
        }
    }
    R maha(V const& x) const {
        R s = 0;
        for (size_t i = 0; i < mu.size(); i++)
            for (size_t j = 0; j < mu.size(); j++) s += (x[i] - mu[i]) * inv(int(i), int(j)) * (x[j] - mu[j]);
        return s;
    }
    R logpdf(V const& x) const { return logNorm - 0.5L * maha(x); }
};
}  // namespace la
