// C17: matrix algebra and transforms satisfy their defining laws.
#include "geo.h"
using namespace geo;
namespace M = rpp::Math;

static bool exact(const Mat4& a, const Mat4& b) {
    for(U i = 0; i < 16; i++)
        if(!(a.data[i] == b.data[i])) return false;
    return true;
}
static D4 absolute(D4 a) {
    for(auto& c : a.m)
        for(double& x : c) x = std::fabs(x);
    return a;
}
static void near(const Mat4& g, const D4& e, double tol, const char* what) {
    double x = diff(d4(g), e);
    CHECK(x <= tol, "%s is %s, expected %s (off by %g)", what, str(g).c_str(), str(e).c_str(), x);
}
static void near(Vec3 g, D3 e, double tol, const char* what) {
    double x = len(d3(g) - e);
    CHECK(x <= tol, "%s is %s, expected %s (off by %g)", what, str(g).c_str(), str(e).c_str(), x);
}

PROP(products, 300000, 6000000) {
    Mat4 a = any_mat(s), b = any_mat(s);
    Vec3 v = vec(s);
    f32 w = num(s);
    NOTE("%s times %s", str(a).c_str(), str(b).c_str());
    const Mat4 a0 = a, b0 = b;
    D4 A = d4(a), B = d4(b), R = mul(A, B), G = mul(absolute(A), absolute(B));
    Mat4 r = a0 * b0;
    for(U c = 0; c < 4; c++)
        for(U i = 0; i < 4; i++) CHECK(std::fabs((double)r[c][i] - R.m[c][i]) <= 4e-7 * G.m[c][i], "row %lu of column %lu of the product is %.9g, expected %.9g", i, c, (double)r[c][i], R.m[c][i]);
    D4 AA = absolute(A);
    D3 av = {std::fabs(v.x), std::fabs(v.y), std::fabs(v.z)};
    Vec4 q = a0 * Vec4{v, w};
    Vec3 p = a0 * v, d = a0.rotate(v);
    for(U i = 0; i < 4; i++) {
        double lin = A.m[0][i] * v.x + A.m[1][i] * v.y + A.m[2][i] * v.z, lm = AA.m[0][i] * av[0] + AA.m[1][i] * av[1] + AA.m[2][i] * av[2];
        CHECK(std::fabs((double)q[i] - lin - A.m[3][i] * w) <= 4e-7 * (lm + std::fabs(A.m[3][i] * w)), "component %lu of M * v4 is %.9g", i, (double)q[i]);
        if(i == 3) break;
        CHECK(std::fabs((double)p[i] - lin - A.m[3][i]) <= 4e-7 * (lm + AA.m[3][i]), "component %lu of M * v3 is %.9g", i, (double)p[i]);
        CHECK(std::fabs((double)d[i] - lin) <= 4e-7 * lm, "component %lu of M.rotate(v) is %.9g", i, (double)d[i]);
    }
    CHECK(exact(a, a0) && exact(b, b0), "a product modified its operands");
    CHECK(exact(a0 * Mat4::I, a0) && exact(Mat4::I * a0, a0) && exact(a0 * Mat4{}, a0), "the identity changes a matrix");
    CHECK(exact(a0 * Mat4::zero, Mat4::zero) && exact(Mat4::zero * a0, Mat4::zero), "the zero matrix is not absorbing");
    Vec3 z = Mat4::swap_x_z * v;
    CHECK(z.x == v.z && z.y == v.y && z.z == v.x, "swap_x_z gives %s", str(z).c_str());
    pbt::nontrivial();
}
PROP(elementwise, 300000, 6000000) {
    Mat4 a = any_mat(s), b = any_mat(s);
    f32 x = num(s);
    NOTE("%s and %s and %g", str(a).c_str(), str(b).c_str(), (double)x);
    const Mat4 ca = a, cb = b;
    Mat4 r[] = {ca + cb, ca - cb, ca + x, ca - x, ca * x, ca / x, Mat4::transpose(ca), ca.T()};
    for(U c = 0; c < 4; c++)
        for(U i = 0; i < 4; i++) {
            f32 p = ca.data[4 * c + i], q = cb.data[4 * c + i];
            f32 e[] = {p + q, p - q, p + x, p - x, p * x, p / x, ca.data[4 * i + c], ca.data[4 * i + c]};
            for(U k = 0; k < 8; k++) {
                f32 g = r[k].data[4 * c + i];
                CHECK(g == e[k] || (g != g && e[k] != e[k]), "operation %lu at row %lu of column %lu gives %.9g, expected %.9g", k, i, c, (double)g, (double)e[k]);
            }
            CHECK(ca[c][i] == p && ca.columns[c][i] == p && ca.begin()[c][i] == p, "element %lu of column %lu is read as %g", i, c, (double)ca[c][i]);
        }
    CHECK(exact(a, ca), "an operation modified its operand");
    CHECK(ca.end() - ca.begin() == 4 && a.end() - a.begin() == 4, "iteration does not cover the columns");
    Mat4 cols{ca[0], ca[1], ca[2], ca[3]};
    auto m = [&]<size_t... I>(std::index_sequence<I...>) { return Mat4{ca.data[I]...}; }(std::make_index_sequence<16>{});
    CHECK(exact(cols, ca) && exact(m, ca), "a matrix built from its columns or elements differs");
    CHECK(ca == cols && !(ca != cols) && (ca == cb) == exact(ca, cb) && (ca != cb) == !exact(ca, cb), "comparison of %s and %s", str(ca).c_str(), str(cb).c_str());
    U k = s.draw(15);
    cols[k / 4][k % 4] += 1.0f;
    CHECK(!(ca == cols) && ca != cols, "matrices differing at element %lu compare equal", k);
    CHECK(cols.data[k] == ca.data[k] + 1.0f, "an assigned element is elsewhere");
    pbt::nontrivial();
}
PROP(columns_out_of_range, 60, 400) {
    U i = 4 + s.bits(62);
    const Mat4 c;
    Mat4 m;
    NOTE("column %lu", i);
    EXPECT_DIES("column out of range", (void)m[i]);
    EXPECT_DIES("constant column out of range", (void)c[i]);
    pbt::nontrivial();
}

static void check_inverse(const Mat4& m) {
    D4 A = d4(m), I;
    double d, mag;
    det(A, d, mag);
    if(d == 0 || mag / std::fabs(d) > 300 || !inverse(A, I)) return;
    double k = maxabs(A) * maxabs(I);
    if(k > 3000) return;
    NOTE("inverse of %s", str(m).c_str());
    double tol = 1e-6 * (mag / std::fabs(d) + k) * maxabs(I);
    near(Mat4::inverse(m), I, tol, "the inverse");
    near(m.inverse(), I, tol, "the inverse");
    Mat4 g = m.inverse();
    near(m * g, ident(), 4 * tol * maxabs(A), "a matrix times its inverse");
    near(g * m, ident(), 4 * tol * maxabs(A), "an inverse times its matrix");
    pbt::nontrivial();
}
PROP(inverses, 300000, 6000000) {
    switch(s.pick({3, 2, 2, 1})) {
    case 0: return check_inverse(any_mat(s, 8));
    case 1: { // affine
        D4 a = random_rotation(s), k = ident();
        for(U i = 0; i < 3; i++) k.m[i][i] = std::ldexp(1 + (double)s.draw(100) / 100, (int)s.draw(6) - 3) * (s.coin() ? 1 : -1);
        D4 r = mul(a, k);
        Vec3 t = vec(s, 10);
        for(U i = 0; i < 3; i++) r.m[3][i] = t[i];
        return check_inverse(to_mat(r));
    }
    case 2: { // permutation with factors
        std::vector<int> p = {0, 1, 2, 3};
        for(U i = 0; i < 3; i++) std::swap(p[i], p[i + s.draw(3 - i)]);
        Mat4 m = Mat4::zero;
        for(U i = 0; i < 4; i++) m[i][(U)p[i]] = (f32)std::ldexp(s.coin() ? 1.0 : -1.0, (int)s.draw(4) - 2);
        return check_inverse(m);
    }
    default: { // a product of simple ones
        Mat4 m = Mat4::translate(vec(s, 4)) * Mat4::rotate(angle(s), direction(s)) * Mat4::proj((f32)s.range(30, 120), 1.5f, 0.5f);
        return check_inverse(m);
    }
    }
}

PROP(simple_transforms, 200000, 4000000) {
    Vec3 v = vec(s), p = vec(s);
    NOTE("%s applied to %s", str(v).c_str(), str(p).c_str());
    Mat4 t = Mat4::translate(v), k = Mat4::scale(v);
    Vec3 a = t * p, b = k * p, c = t.rotate(p);
    for(U i = 0; i < 3; i++) CHECK(a[i] == p[i] + v[i] && b[i] == p[i] * v[i] && c[i] == p[i], "translation by or scaling with %s gives %s, %s", str(v).c_str(), str(a).c_str(), str(b).c_str());
    D4 T = ident(), K = ident();
    for(U i = 0; i < 3; i++) T.m[3][i] = v[i], K.m[i][i] = v[i];
    near(t, T, 0, "a translation");
    near(k, K, 0, "a scale");
    near(Mat4{}, ident(), 0, "a new matrix");
    near(Mat4::I, ident(), 0, "the identity");
    pbt::nontrivial();
}
PROP(rotations, 300000, 6000000) {
    f32 a = angle(s);
    Vec3 axis = direction(s);
    NOTE("rotation by %g about %s", (double)a, str(axis).c_str());
    Mat4 m = Mat4::rotate(a, axis);
    near(m, rot(a, d3(axis)), 4e-6, "a rotation");
    near(Mat4::rotate(-a, axis) * m, ident(), 4e-6, "a rotation undone");
    near(m.T() * m, ident(), 4e-6, "the transpose of a rotation times it");
    pbt::nontrivial();
}
PROP(rotations_to_a_direction, 300000, 6000000) {
    Vec3 dir = direction(s);
    NOTE("turning to %s", str(dir).c_str());
    D3 u = unit(d3(dir));
    double off = std::min(std::hypot(u[0], u[2]), 1.0), tol = 3e-6 + 3e-7 / std::max(off, 1e-3);
    if(off < 3e-3) tol = 4e-3; // treated as the axis itself
    for(int z = 0; z < 2; z++) {
        Mat4 m = z ? Mat4::rotate_z_to(dir) : Mat4::rotate_y_to(dir);
        Vec3 from = z ? Vec3{0.0f, 0.0f, -1.0f} : Vec3{0.0f, 1.0f, 0.0f};
        near(m * from, u, tol, z ? "the turned viewing direction" : "the turned y axis");
        near(m.T() * m, ident(), tol, "the transpose of a rotation times it");
        double d, mag;
        det(d4(m), d, mag);
        CHECK(std::fabs(d - 1) <= 2 * tol, "rotate_%c_to(%s) has determinant %g", z ? 'z' : 'y', str(dir).c_str(), d);
        for(U i = 0; i < 4; i++) CHECK(m[i][3] == (i == 3) && m[3][i] == (i == 3), "a rotation translates");
    }
    pbt::nontrivial();
}
PROP(look_at, 200000, 4000000) {
    Vec3 pos = vec(s, 20), d = direction(s), up = direction(s), at = pos + d;
    D3 f = d3(at) - d3(pos);
    double dist = len(f), sine = len(cross(unit(f), unit(d3(up))));
    if(sine < 0.05 || dist < 0.05) return;
    NOTE("from %s at %s, up %s", str(pos).c_str(), str(at).c_str(), str(up).c_str());
    Mat4 m = Mat4::look_at(pos, at, up);
    double tol = 4e-6 / sine * (1 + len(d3(pos)) + dist) * (1 + len(d3(pos)) * 0.1 / dist);
    near(m * pos, {0, 0, 0}, tol, "the viewer");
    near(m * at, {0, 0, -dist}, tol, "the target");
    Vec3 u = m.rotate(up);
    CHECK(std::fabs(u.x) <= tol * len(d3(up)) && u.y > 0, "the up vector becomes %s", str(u).c_str());
    Mat4 r = m;
    r[3] = Vec4{0.0f, 0.0f, 0.0f, 1.0f};
    near(r.T() * r, ident(), 1e-5 / sine, "the view's rotation times its transpose");
    double dt, mag;
    det(d4(m), dt, mag);
    CHECK(std::fabs(dt - 1) <= 1e-4 / sine, "the view has determinant %g", dt);
    CHECK(m[0][3] == 0 && m[1][3] == 0 && m[2][3] == 0 && m[3][3] == 1, "the view is not affine");
    pbt::nontrivial();
}
PROP(perspective, 200000, 4000000) {
    f32 fov = (f32)s.range(10, 170), ar = (f32)s.range(1, 40) / 10, n = (f32)s.range(1, 1000) / 100;
    double dist = std::ldexp(1 + (double)s.draw(999) / 1000, (int)s.draw(14) - 6), t = std::tan((double)fov * M_PI / 360);
    double x = (double)((i64)s.draw(40) - 20) / 10, y = (double)((i64)s.draw(40) - 20) / 10;
    NOTE("fov %g, aspect %g, near %g: the point %g of the half width and %g of the half height at %g", (double)fov, (double)ar, (double)n, x, y, dist);
    Mat4 m = Mat4::proj(fov, ar, n);
    Vec3 p{(f32)(x * t * ar * dist), (f32)(y * t * dist), (f32)-dist};
    Vec4 c = m * Vec4{p, 1.0f};
    CHECK(std::fabs(c.w - dist) <= 1e-6 * dist, "w is %g at distance %g", (double)c.w, dist);
    Vec3 q = c.proj();
    double tol = 2e-5 * (1 + std::fabs(x) + std::fabs(y));
    CHECK(std::fabs(q.x - x) <= tol && std::fabs(q.y + y) <= tol, "projected to (%g, %g), expected (%g, %g)", (double)q.x, (double)q.y, x, -y);
    CHECK(std::fabs(q.z - n / dist) <= 1e-5 * n / dist, "depth is %g, expected %g", (double)q.z, n / dist);
    Vec4 b = m * Vec4{p.x, p.y, (f32)dist, 1.0f};
    CHECK(b.w < 0, "a point behind the viewer has w %g", (double)b.w);
    pbt::nontrivial();
}
PROP(orthographic, 200000, 4000000) {
    f32 l = num(s), r = l + (f32)s.range(1, 500) / 10, b = num(s), t = b + (f32)s.range(1, 500) / 10, n = (f32)s.range(1, 500) / 100, f = n + (f32)s.range(10, 5000) / 10;
    double x = (double)s.draw(20) / 10 - 0.5, y = (double)s.draw(20) / 10 - 0.5, z = (double)s.draw(10) / 10;
    NOTE("bounds %g %g, %g %g, %g %g at %g %g %g", (double)l, (double)r, (double)b, (double)t, (double)n, (double)f, x, y, z);
    Mat4 m = Mat4::ortho(l, r, b, t, n, f);
    Vec4 c = m * Vec4{(f32)(l + x * (r - l)), (f32)(b + y * (t - b)), (f32) - (n + z * (f - n)), 1.0f};
    double tx = 1e-6 * (2 + (std::fabs(l) + std::fabs(r)) / (r - l)), ty = 1e-6 * (2 + (std::fabs(b) + std::fabs(t)) / (t - b));
    CHECK(c.w == 1, "w is %g", (double)c.w);
    CHECK(std::fabs(c.x - (2 * x - 1)) <= tx && std::fabs(c.y - (2 * y - 1)) <= ty, "projected to (%g, %g), expected (%g, %g)", (double)c.x, (double)c.y, 2 * x - 1, 2 * y - 1);
    // Depth: 0..1 or -1..1 between the planes. Known finding: a mix of the two, from n/(f-n) to 1 + (f)/(f-n).
    double k = (double)n / ((double)f - n), tol = 1e-5 * (1 + 2 * k);
    bool zo = std::fabs(c.z - z) <= tol, no = std::fabs(c.z - (2 * z - 1)) <= tol, known = std::fabs(c.z - (k + 2 * z)) <= tol;
    CHECK(zo || no || known, "depth is %g at %g of the way between the planes %g and %g", (double)c.z, z, (double)n, (double)f);
    if(!zo && !no) pbt::label("known finding: orthographic depth");
    pbt::nontrivial();
}
PROP(euler_angles, 300000, 6000000) {
    D4 a;
    switch(s.pick({3, 2, 2})) {
    case 0: a = random_rotation(s); break;
    case 1: a = euler({(double)angle(s), (double)angle(s), (double)angle(s)}); break;
    case 2: { // axis permutations and gimbal lock, exactly
        std::vector<int> p = {0, 1, 2};
        for(U i = 0; i < 2; i++) std::swap(p[i], p[i + s.draw(2 - i)]);
        a = D4{};
        a.m[3][3] = 1;
        for(U i = 0; i < 3; i++) a.m[i][(U)p[i]] = s.coin() ? 1 : -1;
        double d, mag;
        det(a, d, mag);
        if(d < 0)
            for(double& x : a.m[0]) x = -x;
        if(s.coin()) a = mul(rot(90, {0, 1, 0}), rot(angle(s), {1, 0, 0}));
        for(auto& c : a.m)
            for(double& x : c)
                if(std::fabs(x) < 1e-9) x = 0;
        break;
    }
    }
    Mat4 m = to_mat(a);
    Vec3 e = m.to_euler();
    NOTE("angles of %s: %s", str(a).c_str(), str(e).c_str());
    double cy = std::hypot(a.m[0][0], a.m[0][1]);
    near(to_mat(euler(d3(e))), a, 1e-5 + (cy > 1e-9 ? 2e-6 / cy : 0), "the rotation rebuilt from its angles");
    smaller_angles(d3(e), cy);
    pbt::nontrivial();
}
