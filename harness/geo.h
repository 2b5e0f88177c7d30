// Double-precision reference linear algebra and generators for the geometry checks.
#pragma once
#include "model.h"
#include <rpp/vmath.h>
namespace geo {
using namespace t;
using rpp::Mat4;
using rpp::Quat;
using rpp::Vec2;
using rpp::Vec3;
using rpp::Vec4;
using rpp::BBox;

struct D3 {
    double v[3];
    double& operator[](U i) {
        return v[i];
    }
    double operator[](U i) const {
        return v[i];
    }
};
inline D3 d3(Vec3 a) {
    return {a.x, a.y, a.z};
}
inline D3 operator-(D3 a, D3 b) {
    return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
inline D3 operator+(D3 a, D3 b) {
    return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
inline D3 operator*(D3 a, double k) {
    return {a[0] * k, a[1] * k, a[2] * k};
}
inline double dot(D3 a, D3 b) {
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
inline double len(D3 a) {
    return std::sqrt(dot(a, a));
}
inline D3 unit(D3 a) {
    return a * (1 / len(a));
}
inline D3 cross(D3 a, D3 b) {
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
// m[c][r], as the library's columns
struct D4 {
    double m[4][4] = {};
};
inline D4 d4(const Mat4& a) {
    D4 r;
    for(U c = 0; c < 4; c++)
        for(U i = 0; i < 4; i++) r.m[c][i] = a.data[4 * c + i];
    return r;
}
inline D4 ident() {
    D4 r;
    for(U i = 0; i < 4; i++) r.m[i][i] = 1;
    return r;
}
inline D4 mul(const D4& a, const D4& b) {
    D4 r;
    for(U c = 0; c < 4; c++)
        for(U i = 0; i < 4; i++)
            for(U k = 0; k < 4; k++) r.m[c][i] += a.m[k][i] * b.m[c][k];
    return r;
}
inline D3 apply(const D4& a, D3 v, double w) {
    D3 r;
    for(U i = 0; i < 3; i++) r[i] = a.m[0][i] * v[0] + a.m[1][i] * v[1] + a.m[2][i] * v[2] + a.m[3][i] * w;
    return r;
}
inline D4 rot(double degrees, D3 axis) { // Rodrigues
    double a = degrees * M_PI / 180, c = std::cos(a), s = std::sin(a);
    D3 k = unit(axis);
    D4 r = ident();
    for(U col = 0; col < 3; col++) {
        D3 e{};
        e[col] = 1;
        D3 x = e * c + cross(k, e) * s + k * (dot(k, e) * (1 - c));
        for(U i = 0; i < 3; i++) r.m[col][i] = x[i];
    }
    return r;
}
inline D4 euler(D3 e) { // about x, then y, then z
    return mul(mul(rot(e[2], {0, 0, 1}), rot(e[1], {0, 1, 0})), rot(e[0], {1, 0, 0}));
}
// Of the two triples of angles which describe a rotation, the one with the smaller sum is given.
inline void smaller_angles(D3 e, double cy) {
    if(cy < 0.01) return;
    auto wrap = [](double a) { return std::fabs(std::remainder(a, 360)); };
    double is = wrap(e[0]) + wrap(e[1]) + wrap(e[2]), other = wrap(e[0] + 180) + wrap(180 - e[1]) + wrap(e[2] + 180);
    CHECK(is <= other + 0.05, "the angles %g %g %g add up to %g, the others of the same rotation to %g", e[0], e[1], e[2], is, other);
}
inline bool inverse(const D4& a, D4& out) { // Gauss-Jordan with pivoting, rows as equations
    double w[4][8];
    for(U i = 0; i < 4; i++)
        for(U j = 0; j < 4; j++) w[i][j] = a.m[j][i], w[i][j + 4] = i == j;
    for(U c = 0; c < 4; c++) {
        U p = c;
        for(U i = c + 1; i < 4; i++)
            if(std::fabs(w[i][c]) > std::fabs(w[p][c])) p = i;
        if(w[p][c] == 0) return false;
        for(U j = 0; j < 8; j++) std::swap(w[p][j], w[c][j]);
        double d = w[c][c];
        for(U j = 0; j < 8; j++) w[c][j] /= d;
        for(U i = 0; i < 4; i++)
            if(i != c) {
                double f = w[i][c];
                for(U j = 0; j < 8; j++) w[i][j] -= f * w[c][j];
            }
    }
    for(U i = 0; i < 4; i++)
        for(U j = 0; j < 4; j++) out.m[j][i] = w[i][j + 4];
    return true;
}
// determinant and the sum of the magnitudes of its 24 products
inline void det(const D4& a, double& d, double& mag) {
    int p[4] = {0, 1, 2, 3};
    d = mag = 0;
    do {
        double x = 1;
        int inv = 0;
        for(int i = 0; i < 4; i++) {
            x *= a.m[i][p[i]];
            for(int j = 0; j < i; j++) inv += p[j] > p[i];
        }
        d += inv & 1 ? -x : x;
        mag += std::fabs(x);
    } while(std::next_permutation(p, p + 4));
}
inline double maxabs(const D4& a) {
    double r = 0;
    for(auto& c : a.m)
        for(double x : c) r = std::max(r, std::fabs(x));
    return r;
}
inline double diff(const D4& a, const D4& b) {
    double r = 0;
    for(U c = 0; c < 4; c++)
        for(U i = 0; i < 4; i++) {
            double x = std::fabs(a.m[c][i] - b.m[c][i]);
            if(!(x <= r)) r = x; // NaN sticks
        }
    return r;
}
inline std::string str(D3 v) {
    char b[100];
    snprintf(b, 100, "(%.9g, %.9g, %.9g)", v[0], v[1], v[2]);
    return b;
}
inline std::string str(Vec3 v) {
    return str(d3(v));
}
inline std::string str(const D4& a) {
    std::string r = "[";
    for(U c = 0; c < 4; c++) {
        char b[120];
        snprintf(b, 120, "%s%.7g %.7g %.7g %.7g", c ? " | " : "", a.m[c][0], a.m[c][1], a.m[c][2], a.m[c][3]);
        r += b;
    }
    return r + "]";
}
inline std::string str(const Mat4& m) {
    return str(d4(m));
}
inline std::string str(Quat q) {
    char b[120];
    snprintf(b, 120, "(%.9g, %.9g, %.9g; %.9g)", (double)q.x, (double)q.y, (double)q.z, (double)q.w);
    return b;
}

inline f32 num(Src& s, f32 range = 64) {
    switch(s.pick({3, 4, 1})) {
    case 0: return (f32)((i64)s.draw(16) - 8);
    case 1: return (f32)(((double)s.draw(1 << 24) / (1 << 23) - 1) * (double)range);
    default: return (f32)(((double)s.draw(1 << 24) / (1 << 23) - 1) / 64);
    }
}
inline Vec3 vec(Src& s, f32 range = 64) {
    Vec3 v;
    for(U i = 0; i < 3; i++) v[i] = num(s, range);
    return v;
}
inline Vec3 direction(Src& s) { // not near zero; often along or near an axis
    Vec3 v;
    switch(s.pick({2, 1, 4})) {
    case 0: {
        U i = s.draw(2);
        v[i] = s.coin() ? 1.0f : -1.0f;
        break;
    }
    case 1: {
        U i = s.draw(2);
        v[i] = s.coin() ? 1.0f : -1.0f;
        v[(i + 1 + s.draw(1)) % 3] = (f32)std::ldexp(s.coin() ? 1.0 : -1.0, -(int)s.draw(24));
        break;
    }
    default:
        for(U i = 0; i < 3; i++) v[i] = (f32)((i64)s.draw(2000) - 1000) / 1000;
        break;
    }
    if(v.norm2() < 1e-4f) v = Vec3{0.0f, 1.0f, 0.0f};
    if(s.chance(1, 3)) v = v * (f32)(0.01 + (double)s.draw(1000) / 10);
    return v;
}
inline f32 angle(Src& s) {
    switch(s.pick({3, 3, 1})) {
    case 0: return (f32)(45 * ((i64)s.draw(16) - 8));
    case 1: return (f32)((i64)s.draw(7200) - 3600) / 10;
    default: return (f32)((i64)s.draw(2000) - 1000) / 100000;
    }
}
inline D4 random_rotation(Src& s) {
    return rot(angle(s), d3(direction(s)));
}
inline Mat4 to_mat(const D4& a) {
    Mat4 m;
    for(U c = 0; c < 4; c++)
        for(U i = 0; i < 4; i++) m.data[4 * c + i] = (f32)a.m[c][i];
    return m;
}
inline Mat4 any_mat(Src& s, f32 range = 64) {
    Mat4 m;
    switch(s.pick({3, 1})) {
    case 0:
        for(f32& x : m.data) x = num(s, range);
        break;
    case 1: // sparse
        for(f32& x : m.data) x = s.chance(1, 3) ? num(s, range) : 0.0f;
        break;
    }
    return m;
}
} // namespace geo
