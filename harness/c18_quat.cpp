// C18: quaternions compose, invert and convert as rotations do.
#include "geo.h"
using namespace geo;

struct DQ { // x, y, z, w
    double v[4];
};
static DQ dq(const Quat& q) {
    return {{q.x, q.y, q.z, q.w}};
}
static DQ qmul(DQ a, DQ b) { // Hamilton: i j = k
    const double *p = a.v, *q = b.v;
    return {{p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1], p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0],
             p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3], p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2]}};
}
static double n2(DQ a) {
    return a.v[0] * a.v[0] + a.v[1] * a.v[1] + a.v[2] * a.v[2] + a.v[3] * a.v[3];
}
// the rotation of a quaternion of any non-zero length
static D4 rotation(DQ q) {
    D4 r = ident();
    double n = n2(q);
    for(U c = 0; c < 3; c++) {
        DQ e{}, k = {{-q.v[0], -q.v[1], -q.v[2], q.v[3]}};
        e.v[c] = 1;
        DQ x = qmul(qmul(q, e), k);
        for(U i = 0; i < 3; i++) r.m[c][i] = x.v[i] / n;
    }
    return r;
}
static void near(const Quat& g, DQ e, double tol, const char* what) {
    for(U i = 0; i < 4; i++) CHECK(std::fabs((double)g.data[i] - e.v[i]) <= tol, "%s is %s, expected (%.9g, %.9g, %.9g; %.9g)", what, str(g).c_str(), e.v[0], e.v[1], e.v[2], e.v[3]);
}
static void near(Vec3 g, D3 e, double tol, const char* what) {
    CHECK(len(d3(g) - e) <= tol, "%s is %s, expected %s", what, str(g).c_str(), str(e).c_str());
}
static void near(const D4& g, const D4& e, double tol, const char* what) {
    double x = diff(g, e);
    CHECK(x <= tol, "%s is %s, expected %s (off by %g)", what, str(g).c_str(), str(e).c_str(), x);
}
static Quat any(Src& s) {
    if(s.chance(1, 6)) {
        f32 a[4] = {};
        a[s.draw(3)] = s.coin() ? 1.0f : -1.0f;
        return Quat{a[0], a[1], a[2], a[3]};
    }
    return Quat{num(s, 8), num(s, 8), num(s, 8), num(s, 8)};
}
// unit within rounding; the exact double value it was rounded from is not needed
static Quat rotor(Src& s) {
    switch(s.pick({3, 2, 1})) {
    case 0: {
        Quat q = any(s);
        DQ d = dq(q);
        double n = std::sqrt(n2(d));
        if(n < 1e-2) return Quat{};
        return Quat{(f32)(d.v[0] / n), (f32)(d.v[1] / n), (f32)(d.v[2] / n), (f32)(d.v[3] / n)};
    }
    case 1: {
        double a = angle(s) * M_PI / 360;
        D3 k = unit(d3(direction(s))) * std::sin(a);
        return Quat{(f32)k[0], (f32)k[1], (f32)k[2], (f32)std::cos(a)};
    }
    default: { // the 24 rotations of the cube
        double a = M_SQRT1_2;
        switch(s.draw(2)) {
        case 0: return Quat{s.coin() ? 0.5f : -0.5f, s.coin() ? 0.5f : -0.5f, s.coin() ? 0.5f : -0.5f, s.coin() ? 0.5f : -0.5f};
        case 1: {
            f32 v[4] = {};
            U i = s.draw(3), j = (i + 1 + s.draw(2)) % 4;
            v[i] = s.coin() ? (f32)a : (f32)-a, v[j] = s.coin() ? (f32)a : (f32)-a;
            return Quat{v[0], v[1], v[2], v[3]};
        }
        default: return any(s).unit().norm() > 0.5f ? Quat{0.0f, 0.0f, 1.0f, 0.0f} : Quat{};
        }
    }
    }
}

PROP(algebra, 300000, 6000000) {
    Quat a = any(s), b = any(s), c = any(s);
    f32 k = num(s);
    const Quat a0 = a, b0 = b;
    NOTE("%s and %s and %s", str(a).c_str(), str(b).c_str(), str(c).c_str());
    DQ A = dq(a), B = dq(b), C = dq(c);
    double na = std::sqrt(n2(A)), nb = std::sqrt(n2(B)), nc = std::sqrt(n2(C));
    near(a0 * b0, qmul(A, B), 1e-6 * na * nb, "the product");
    near((a * b) * c, qmul(A, qmul(B, C)), 4e-6 * na * nb * nc, "a product of three");
    near(a * (b * c), qmul(A, qmul(B, C)), 4e-6 * na * nb * nc, "a product of three");
    Quat cj = a0.conjugate(), ng = -a0, sm = a0 + b0, df = a0 - b0, sc = a0 * k;
    for(U i = 0; i < 4; i++) {
        f32 x = a0.data[i], y = b0.data[i];
        CHECK(cj.data[i] == (i < 3 ? -x : x) && ng.data[i] == -x && sm.data[i] == x + y && df.data[i] == x - y && sc.data[i] == x * k,
              "conjugate %s, negation %s, sum %s, difference %s, multiple by %g %s", str(cj).c_str(), str(ng).c_str(), str(sm).c_str(), str(df).c_str(), (double)k, str(sc).c_str());
        CHECK(a0[(int)i] == x && a[(int)i] == x && a0.begin()[i] == x, "component %lu is read as %g", i, (double)a0[(int)i]);
    }
    CHECK(a0.end() - a0.begin() == 4 && a.end() - a.begin() == 4 && a.begin() == a.data, "iteration does not cover the components");
    CHECK(a0.real() == a0.w && a0.complex().x == a0.x && a0.complex().y == a0.y && a0.complex().z == a0.z, "real and complex parts of %s", str(a).c_str());
    CHECK(Quat(a0.complex(), a0.real()) == a0 && Quat(Vec4{a0.x, a0.y, a0.z, a0.w}) == a0, "a quaternion rebuilt from its parts differs");
    CHECK(std::fabs(a.norm2() - na * na) <= 1e-6 * na * na && std::fabs(a.norm() - na) <= 1e-6 * na, "norm %g, squared %g", (double)a.norm(), (double)a.norm2());
    bool same = true;
    for(U i = 0; i < 4; i++) same &= a0.data[i] == b0.data[i];
    CHECK((a0 == b0) == same && (a0 != b0) == !same, "comparison of %s and %s", str(a).c_str(), str(b).c_str());
    Quat d = a;
    U i = s.draw(3);
    d.data[i] += 1.0f;
    CHECK(!(d == a) && d != a && a == a0 && !(a != a0), "comparison of %s and %s", str(a).c_str(), str(d).c_str());
    for(U j = 0; j < 4; j++) CHECK(a.data[j] == a0.data[j] && b.data[j] == b0.data[j], "an operation modified its operand");
    Quat id;
    CHECK(id.x == 0 && id.y == 0 && id.z == 0 && id.w == 1 && a * id == a && id * a == a, "a new quaternion is not the identity");
    if(na > 1e-2) {
        Quat u = a.unit(), v = a.inverse();
        near(u, {{A.v[0] / na, A.v[1] / na, A.v[2] / na, A.v[3] / na}}, 1e-6, "the normalised quaternion");
        near(v, {{-A.v[0] / na / na, -A.v[1] / na / na, -A.v[2] / na / na, A.v[3] / na / na}}, 2e-6 / na, "the inverse");
        near(a * v, {{0, 0, 0, 1}}, 4e-6, "a quaternion times its inverse");
        near(v * a, {{0, 0, 0, 1}}, 4e-6, "an inverse times its quaternion");
    }
    pbt::nontrivial();
}
PROP(rotation_action, 300000, 6000000) {
    Quat q = rotor(s), r = rotor(s);
    Vec3 v = vec(s);
    NOTE("%s, %s on %s", str(q).c_str(), str(r).c_str(), str(v).c_str());
    double L = len(d3(v)), tol = 4e-6 * (L + 1e-3);
    D4 Q = rotation(dq(q)), R = rotation(dq(r));
    near(q.rotate(v), apply(Q, d3(v), 0), tol, "the rotated vector");
    near(d4(q.to_mat()), Q, 4e-6, "the matrix of the quaternion");
    near(q.to_mat() * v, d3(q.rotate(v)), 2 * tol, "the vector rotated by the matrix");
    CHECK(std::fabs(len(d3(q.rotate(v))) - L) <= tol, "rotation changed a length from %g to %g", L, len(d3(q.rotate(v))));
    near((q * r).rotate(v), d3(q.rotate(r.rotate(v))), 3 * tol, "the vector rotated by the product");
    near((q * r).to_mat() * v, apply(mul(Q, R), d3(v), 0), 3 * tol, "the vector rotated by the product's matrix");
    near(q.conjugate().rotate(q.rotate(v)), d3(v), 3 * tol, "the vector rotated there and back");
    near(q.inverse().rotate(q.rotate(v)), d3(v), 3 * tol, "the vector rotated there and back");
    near((-q).rotate(v), apply(Q, d3(v), 0), tol, "the vector rotated by the negated quaternion");
    pbt::nontrivial();
}
PROP(axis_angle, 300000, 6000000) {
    f32 a = angle(s);
    Vec3 k = direction(s);
    const Vec3 k0 = k;
    NOTE("%g about %s", (double)a, str(k).c_str());
    Quat q = Quat::axis_angle(k0, a);
    double h = a * M_PI / 360;
    D3 u = unit(d3(k)) * std::sin(h);
    near(q, {{u[0], u[1], u[2], std::cos(h)}}, 3e-6, "the quaternion");
    near(d4(q.to_mat()), rot(a, d3(k)), 8e-6, "its matrix");
    near(d4(q.to_mat()), d4(Mat4::rotate(a, k)), 1.2e-5, "its matrix (against Mat4::rotate)");
    CHECK(std::fabs((double)q.norm() - 1) <= 1e-6, "its norm is %.9g", (double)q.norm());
    pbt::nontrivial();
}
PROP(euler_angles, 300000, 6000000) {
    Vec3 e;
    for(U i = 0; i < 3; i++) e[i] = s.chance(1, 3) ? (f32)(90 * ((i64)s.draw(8) - 4)) : angle(s);
    if(s.chance(1, 4)) { // a single axis
        f32 a = angle(s);
        e = Vec3{};
        e[s.draw(2)] = a;
    }
    NOTE("angles %s", str(e).c_str());
    Quat q = Quat::euler(e);
    near(rotation(dq(q)), euler(d3(e)), 1e-5, "the rotation of the angles");
    CHECK(std::fabs((double)q.norm() - 1) <= 2e-6, "its norm is %.9g", (double)q.norm());
    near(d4(q.to_mat()), euler(d3(e)), 1e-5, "its matrix");
    pbt::nontrivial();
}
PROP(to_euler, 300000, 6000000) {
    Quat q = s.coin() ? rotor(s) : Quat::euler(Vec3{angle(s), s.coin() ? (f32)(90 * ((i64)s.draw(8) - 4)) : angle(s), angle(s)});
    f32 k = s.chance(1, 3) ? (f32)s.range(1, 500) / 50 : 1.0f;
    q = q * k;
    D4 R = rotation(dq(q));
    Vec3 e = q.to_euler();
    NOTE("%s has angles %s", str(q).c_str(), str(e).c_str());
    double cy = std::hypot(R.m[0][0], R.m[0][1]);
    // near the poles only the sum or difference of two angles is determined
    double tol = 2e-5 + std::min(2e-6 / (cy + 1e-12), 0.2);
    near(euler(d3(e)), R, tol, "the rotation rebuilt from its angles");
    smaller_angles(d3(e), cy);
    if(cy > 0.01) near(rotation(dq(Quat::euler(e))), R, tol + 1e-5, "the quaternion rebuilt from its angles");
    pbt::nontrivial();
}
