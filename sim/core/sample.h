// The sampler catalogue: how to draw from a region, the region itself, and its uniform coordinates.
#pragma once
#include "source.h"
#include <cmath>
#include <geomc/random/RandomTools.h>

namespace sim {

enum { S_UNIT, S_UNIT_R, S_BALL, S_BALL_R, S_SHELL, S_BOX, S_BOX_LH, S_BOX_RECT, S_CAP, S_CAP_DIR, S_SOLIDCAP, S_ODISK, S_BOX3, S_DISK, S_DISK_R, S_ARC, S_SOLIDARC, S_BOX2, S_COUNT };
static const char* const sample_names[S_COUNT] = {"unit", "unit(r)", "solidball", "solidball(r)", "shell", "box()", "box(lo,hi)", "box(Rect)", "cap(angle)", "cap(dir,angle)", "solidcap", "oriented_disk", "box(3d)", "disk()", "disk(r)", "arc", "solidarc", "box(2d)"};

struct Region {
    int kind, N, T;          // T: 0 float, 1 double
    double r, r0;            // outer and inner radius
    double ha;               // half angle
    double dir[3];
    double a0, a1;           // arc angles
    double lo[5], hi[5];

    double q(double x) const { return T ? x : (double)(float)x; }

    // build from trace arguments; `tame` keeps parameters where binning is meaningful
    static Region decode(const Step& s, bool tame) {
        Region g;
        g.kind = (int)s.idx(0, S_COUNT);
        g.T = (int)s.idx(1, 2);
        g.N = 2 + (int)s.idx(2, 4);
        g.r = g.q((1 + (double)s.idx(3, 4096)) / 64);
        size_t ratio = s.idx(4, 1001);
        if (tame && ratio > 950) ratio = 950;
        g.r0 = g.q(g.r * (double)ratio / 1000);
        if (g.r0 > g.r) g.r0 = g.r;
        size_t ha = 1 + s.idx(5, 1000);
        if (tame && ha < 160) ha = 160;
        g.ha = g.q(M_PI * (double)ha / 1000);
        if (g.ha > M_PI) g.ha = g.T ? M_PI : (double)std::nextafterf((float)M_PI, 0);
        size_t d = s.idx(6, 24);
        double sc = g.q(std::ldexp(1.0, (int)s.idx(7, 15) - 7));
        static const double axes[6][3] = {{0,0,1},{0,0,-1},{1,0,0},{-1,0,0},{0,1,0},{0,-1,0}};
        if (d < 6) for (int i = 0; i < 3; ++i) g.dir[i] = axes[d][i];
        else if (d < 14) { // close to an axis of the frame
            double e = std::pow(10.0, -1.0 - (double)s.idx(8, 22));
            g.dir[0] = d & 1 ? e : -e; g.dir[1] = d & 2 ? e : 0; g.dir[2] = d & 4 ? 1 : -1;
        } else { for (int i = 0; i < 3; ++i) g.dir[i] = ((double)(mix64((u64)s.arg(8) * 3 + (u64)i) % 2001) - 1000) / 1000; if (g.dir[0] == 0 && g.dir[1] == 0 && g.dir[2] == 0) g.dir[0] = 1; }
        for (int i = 0; i < 3; ++i) g.dir[i] = g.q(g.dir[i] * sc);
        g.a0 = g.q(((double)s.idx(9, 2001) - 1000) / 1000 * 2 * M_PI);
        size_t w = s.idx(10, 1001); if (tame && w < 30) w = 30;
        g.a1 = g.q(g.a0 + 2 * M_PI * (double)w / 1000);
        for (int i = 0; i < 5; ++i) {
            u64 h = mix64((u64)s.arg(11) * 5 + (u64)i);
            g.lo[i] = g.q(((double)(h % 2001) - 1000) / 16);
            u64 wd = (h >> 20) % 4096; if (tame && wd < 512) wd += 512;
            if (!tame && wd < 256) wd = 0;
            g.hi[i] = g.q(g.lo[i] + (double)wd / 64);
        }
        return g;
    }
    int dims() const {
        switch (kind) {
            case S_CAP: case S_CAP_DIR: case S_SOLIDCAP: case S_ODISK: case S_BOX3: return 3;
            case S_DISK: case S_DISK_R: case S_ARC: case S_SOLIDARC: case S_BOX2: return 2;
            default: return N;
        }
    }

    template <typename F, int M> void put(const geom::Vec<F, M>& v, double* x) const { for (int i = 0; i < M; ++i) x[i] = (double)v[i]; }
    template <typename F, int M> void drawN(geom::Sampler<F>& s, double* x) const {
        geom::Vec<F, M> l, h;
        for (int i = 0; i < M; ++i) { l[i] = (F)lo[i]; h[i] = (F)hi[i]; }
        switch (kind) {
            case S_UNIT:   put<F, M>(s.template unit<M>(), x); break;
            case S_UNIT_R: put<F, M>(s.template unit<M>((F)r), x); break;
            case S_BALL:   put<F, M>(s.template solidball<M>(), x); break;
            case S_BALL_R: put<F, M>(s.template solidball<M>((F)r), x); break;
            case S_SHELL:  put<F, M>(s.template shell<M>((F)r0, (F)r), x); break;
            case S_BOX:    put<F, M>(s.template box<M>(), x); break;
            case S_BOX_LH: put<F, M>(s.template box<M>(l, h), x); break;
            case S_BOX_RECT: put<F, M>(s.template box<M>(geom::Rect<F, M>(l, h)), x); break;
        }
    }
    template <typename F> void drawT(geom::Random* rng, double* x) const {
        geom::Sampler<F> s(rng);
        geom::Vec<F, 3> d((F)dir[0], (F)dir[1], (F)dir[2]);
        switch (kind) {
            case S_CAP:      put<F, 3>(s.cap((F)ha), x); return;
            case S_CAP_DIR:  put<F, 3>(s.cap(d, (F)ha), x); return;
            case S_SOLIDCAP: put<F, 3>(s.solidcap(d, (F)ha, (F)r0, (F)r), x); return;
            case S_ODISK:    put<F, 3>(s.oriented_disk(d, (F)r), x); return;
            case S_BOX3:     put<F, 3>(s.box((F)lo[0], (F)lo[1], (F)lo[2], (F)hi[0], (F)hi[1], (F)hi[2]), x); return;
            case S_DISK:     put<F, 2>(s.disk(), x); return;
            case S_DISK_R:   put<F, 2>(s.disk((F)r), x); return;
            case S_ARC:      put<F, 2>(s.arc((F)a0, (F)a1), x); return;
            case S_SOLIDARC: put<F, 2>(s.solidarc((F)a0, (F)a1, (F)r0, (F)r), x); return;
            case S_BOX2:     put<F, 2>(s.box((F)lo[0], (F)lo[1], (F)hi[0], (F)hi[1]), x); return;
        }
        switch (N) {
            case 2: drawN<F, 2>(s, x); break;
            case 3: drawN<F, 3>(s, x); break;
            case 4: drawN<F, 4>(s, x); break;
            default: drawN<F, 5>(s, x); break;
        }
    }
    void draw(geom::Random* rng, double* x) const { if (T) drawT<double>(rng, x); else drawT<float>(rng, x); }

    static double len(const double* x, int n) { double m = 0; for (int i = 0; i < n; ++i) m += x[i] * x[i]; return std::sqrt(m); }
    double eps() const { return T ? 1e-11 : 3e-5; }
    double axis_cos(const double* x) const { return (x[0] * dir[0] + x[1] * dir[1] + x[2] * dir[2]) / len(dir, 3); }
    // angle relative to a0 in [0, 2pi)
    double rel_angle(const double* x) const { double t = std::atan2(x[1], x[0]) - a0; t -= 2 * M_PI * std::floor(t / (2 * M_PI)); return t; }

    // nullptr if x lies in the region
    const char* outside(const double* x) const {
        int n = dims();
        double e = eps();
        for (int i = 0; i < n; ++i) if (!std::isfinite(x[i])) return "is not finite";
        double m = len(x, n);
        switch (kind) {
            case S_UNIT:   if (std::fabs(m - 1) > e) return "does not have length 1"; break;
            case S_UNIT_R: if (std::fabs(m - r) > e * r) return "does not have the requested length"; break;
            case S_BALL: case S_DISK: if (m > 1 + e) return "is outside the unit ball"; break;
            case S_BALL_R: case S_DISK_R: if (m > r * (1 + e)) return "is outside the ball"; break;
            case S_SHELL:  if (m > r * (1 + e)) return "is outside the outer radius"; if (m < r0 - r * e) return "is inside the inner radius"; break;
            case S_BOX:    for (int i = 0; i < n; ++i) if (x[i] < 0 || x[i] > 1) return "is outside the unit box"; break;
            case S_BOX_LH: case S_BOX_RECT: case S_BOX3: case S_BOX2:
                for (int i = 0; i < n; ++i) { double t = e * (std::fabs(lo[i]) + std::fabs(hi[i])); if (x[i] < lo[i] - t || x[i] > hi[i] + t) return "is outside the box"; }
                break;
            case S_CAP:
                if (std::fabs(m - 1) > e) return "does not have length 1";
                if (x[2] < std::cos(ha) - e) return "is outside the cap";
                break;
            case S_CAP_DIR:
                if (std::fabs(m - 1) > 4 * e) return "does not have length 1";
                if (axis_cos(x) < std::cos(ha) - 8 * e) return "is outside the cap about the requested direction";
                break;
            case S_SOLIDCAP:
                if (m > r * (1 + 4 * e)) return "is outside the outer radius";
                if (m < r0 - 4 * r * e) return "is inside the inner radius";
                if (m > 0 && axis_cos(x) / m < std::cos(ha) - 8 * e) return "is outside the cone about the requested direction";
                break;
            case S_ODISK:
                if (m > r * (1 + 4 * e)) return "is outside the disk";
                if (std::fabs(axis_cos(x)) > 8 * e * r) return "is off the plane of the disk";
                break;
            case S_ARC: case S_SOLIDARC: {
                if (kind == S_ARC && std::fabs(m - 1) > e) return "does not have length 1";
                if (kind == S_SOLIDARC) { if (m > r * (1 + e)) return "is outside the outer radius"; if (m < r0 - r * e) return "is inside the inner radius"; }
                if (m > 4 * r * e || kind == S_ARC) {
                    double t = rel_angle(x), w = a1 - a0, slack = 20 * e;
                    if (t > w + slack && t < 2 * M_PI - slack) return "has a heading outside the arc";
                }
                break;
            }
        }
        return nullptr;
    }

    // coordinates that are independent and uniform on [0,1] for a uniform sample
    void canon(const double* x, std::vector<double>& u) const {
        u.clear();
        int n = dims();
        double m = len(x, n);
        auto clampu = [](double v) { return v < 0 ? 0.0 : v >= 1 ? std::nextafter(1.0, 0.0) : v; };
        auto ang = [&](double a, double b) { double t = std::atan2(b, a) / (2 * M_PI); return clampu(t < 0 ? t + 1 : t); };
        auto direction = [&]() {
            if (m == 0) return;
            if (n == 2) u.push_back(ang(x[0], x[1]));
            else if (n == 3) { u.push_back(clampu((x[2] / m + 1) / 2)); u.push_back(ang(x[0], x[1])); }
            else if (n == 4) { u.push_back(clampu((x[0] * x[0] + x[1] * x[1]) / (m * m))); u.push_back(ang(x[0], x[1])); u.push_back(ang(x[2], x[3])); }
            else { u.push_back(ang(x[0], x[1])); u.push_back(ang(x[2], x[3])); double s = 0; for (int i = 0; i < 4; ++i) s += x[i] * x[i]; u.push_back(clampu((x[0] * x[0] + x[1] * x[1]) / s)); 
                   double c = x[4] / m; /* density of one coordinate on S^4: (3/4)(1-c^2) */ u.push_back(clampu((2 + 3 * c - c * c * c) / 4)); }
        };
        switch (kind) {
            case S_UNIT: case S_UNIT_R: direction(); break;
            case S_BALL: u.push_back(clampu(std::pow(m, n))); direction(); break;
            case S_BALL_R: u.push_back(clampu(std::pow(m / r, n))); direction(); break;
            case S_SHELL: { double a = std::pow(r0 / r, n); u.push_back(clampu((std::pow(m / r, n) - a) / (1 - a))); direction(); break; }
            case S_BOX: for (int i = 0; i < n; ++i) u.push_back(clampu(x[i])); break;
            case S_BOX_LH: case S_BOX_RECT: case S_BOX3: case S_BOX2: for (int i = 0; i < n; ++i) u.push_back(clampu((x[i] - lo[i]) / (hi[i] - lo[i]))); break;
            case S_CAP: u.push_back(clampu((1 - x[2]) / (1 - std::cos(ha)))); u.push_back(ang(x[0], x[1])); break;
            case S_CAP_DIR: case S_SOLIDCAP: case S_ODISK: {
                // frame about dir
                double z[3], dl = len(dir, 3); for (int i = 0; i < 3; ++i) z[i] = dir[i] / dl;
                int k = 0; for (int i = 1; i < 3; ++i) if (std::fabs(z[i]) < std::fabs(z[k])) k = i;
                double e[3] = {0, 0, 0}; e[k] = 1;
                double p[3] = {e[1] * z[2] - e[2] * z[1], e[2] * z[0] - e[0] * z[2], e[0] * z[1] - e[1] * z[0]};
                double pl = len(p, 3); for (double& v : p) v /= pl;
                double b[3] = {z[1] * p[2] - z[2] * p[1], z[2] * p[0] - z[0] * p[2], z[0] * p[1] - z[1] * p[0]};
                double cp = x[0] * p[0] + x[1] * p[1] + x[2] * p[2], cb = x[0] * b[0] + x[1] * b[1] + x[2] * b[2];
                if (kind == S_ODISK) u.push_back(clampu(m * m / (r * r)));
                else {
                    if (kind == S_SOLIDCAP) { double a = std::pow(r0 / r, 3); u.push_back(clampu((std::pow(m / r, 3) - a) / (1 - a))); }
                    u.push_back(clampu((1 - axis_cos(x) / m) / (1 - std::cos(ha))));
                }
                u.push_back(ang(cp, cb));
                break;
            }
            case S_DISK: u.push_back(clampu(m * m)); u.push_back(ang(x[0], x[1])); break;
            case S_DISK_R: u.push_back(clampu(m * m / (r * r))); u.push_back(ang(x[0], x[1])); break;
            case S_ARC: u.push_back(clampu(rel_angle(x) / (a1 - a0))); break;
            case S_SOLIDARC: { double a = r0 * r0 / (r * r); u.push_back(clampu((m * m / (r * r) - a) / (1 - a))); u.push_back(clampu(rel_angle(x) / (a1 - a0))); break; }
        }
    }
};

// standard score of a chi-square statistic (Wilson-Hilferty)
inline double chi_score(double chi2, double dof) {
    double t = std::cbrt(chi2 / dof);
    return (t - (1 - 2 / (9 * dof))) / std::sqrt(2 / (9 * dof));
}
// `width`: the samples are `width` equally likely integers spread over the bins (0: a continuum)
inline double uniform_score(const std::vector<u64>& c, u64 n, u64 width = 0) {
    double k = (double)c.size(), x = 0;
    for (size_t i = 0; i < c.size(); ++i) {
        double e = (double)n / k;
        if (width && width < (1u << 24)) {
            auto first = [&](double b) { double f = std::ceil(b * (double)width / k - 0.5); return f < 0 ? 0 : f; };
            e = (double)n * (first((double)i + 1) - first((double)i)) / (double)width;
        }
        if (e > 0) x += ((double)c[i] - e) * ((double)c[i] - e) / e;
        else if (c[i]) return 1e9;
    }
    return chi_score(x, k - 1);
}

} // namespace sim
