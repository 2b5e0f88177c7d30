// C19: bounding boxes contain exactly what they enclose.
#include "geo.h"
using namespace geo;

struct RB { // reference box
    bool any = false;
    f32 lo[3], hi[3];
    void add(const f32* l, const f32* h) {
        for(U i = 0; i < 3; i++) {
            lo[i] = any ? std::min(lo[i], l[i]) : l[i];
            hi[i] = any ? std::max(hi[i], h[i]) : h[i];
        }
        any = true;
    }
};
static std::string str(const BBox& b) {
    return geo::str(b.min) + " to " + geo::str(b.max);
}
static void same(const BBox& b, const RB& r, const char* what) {
    CHECK(b.empty() == !r.any, "%s: box %s reports empty = %d, expected %d", what, str(b).c_str(), b.empty(), !r.any);
    if(!r.any) {
        CHECK(b.surface_area() == 0, "%s: an empty box has surface area %g", what, (double)b.surface_area());
        return;
    }
    double e[3];
    for(U i = 0; i < 3; i++) {
        CHECK(b.min[i] == r.lo[i] && b.max[i] == r.hi[i], "%s: box %s, expected %g to %g on axis %lu", what, str(b).c_str(), (double)r.lo[i], (double)r.hi[i], i);
        double c = ((double)r.lo[i] + r.hi[i]) / 2, m = std::max(std::fabs(r.lo[i]), std::fabs(r.hi[i]));
        CHECK(std::fabs(b.center()[i] - c) <= 1e-6 * m + 1e-40, "%s: centre of %s is %s", what, str(b).c_str(), geo::str(b.center()).c_str());
        e[i] = (double)r.hi[i] - (double)r.lo[i];
    }
    double a = 2 * (e[0] * e[1] + e[1] * e[2] + e[2] * e[0]);
    CHECK(std::fabs(b.surface_area() - a) <= 1e-6 * a + 1e-40, "%s: surface area of %s is %.9g, expected %.9g", what, str(b).c_str(), (double)b.surface_area(), a);
}
static Vec3 point(Src& s) {
    if(s.chance(1, 12)) { // large, still without overflow in areas
        Vec3 v;
        for(U i = 0; i < 3; i++) v[i] = (f32)std::ldexp(s.coin() ? 1.0 : -1.0, (int)s.draw(60));
        return v;
    }
    return vec(s);
}

PROP(enclosing, 300000, 6000000) {
    BBox b[3];
    RB r[3];
    U n = s.limit(6, 12, 40), distinct = 0;
    bool merged = false;
    while(s.step(n)) {
        U i = s.draw(2), j = s.draw(2);
        switch(s.pick({8, 2, 1, 1, 1, 1})) {
        case 0: {
            Vec3 p = point(s);
            if(s.chance(1, 3) && r[i].any) { // on or just outside a face
                U k = s.draw(2);
                p = b[i].min;
                p[k] = s.coin() ? std::nextafterf(b[i].min[k], -1e30f) : std::nextafterf(b[i].max[k], 1e30f);
            }
            NOTE("box %lu encloses %s", i, geo::str(p).c_str());
            b[i].enclose(p);
            r[i].add(p.data, p.data);
            distinct++;
            break;
        }
        case 1: {
            NOTE("box %lu encloses box %lu", i, j);
            merged |= r[i].any && r[j].any && i != j;
            b[i].enclose(b[j]);
            RB o = r[j];
            if(o.any) r[i].add(o.lo, o.hi);
            break;
        }
        case 2:
            NOTE("box %lu is reset", i);
            b[i].reset();
            r[i] = {};
            break;
        case 3: {
            NOTE("box %lu becomes box %lu", i, j);
            b[i] = b[j];
            r[i] = r[j];
            break;
        }
        case 4: {
            Vec3 p = point(s), q = point(s);
            NOTE("box %lu becomes %s to %s", i, geo::str(p).c_str(), geo::str(q).c_str());
            b[i] = BBox{rpp::Math::min(p, q), rpp::Math::max(p, q)};
            r[i] = {};
            r[i].add(p.data, p.data);
            r[i].add(q.data, q.data);
            break;
        }
        case 5: { // an inverted axis is empty, whichever it is
            Vec3 p = vec(s), q = vec(s);
            U k = s.draw(2);
            BBox x{rpp::Math::min(p, q), rpp::Math::max(p, q)};
            x.min[k] = x.max[k] + 1.0f;
            NOTE("a box inverted on axis %lu", k);
            CHECK(x.empty() && x.surface_area() == 0, "box %s is not empty or has an area", str(x).c_str());
            break;
        }
        }
        for(U k = 0; k < 3; k++) same(b[k], r[k], "after a step");
    }
    if(distinct >= 2 && merged) pbt::nontrivial();
}
PROP(transforming, 300000, 6000000) {
    BBox b;
    U n = s.range(1, 3);
    for(U i = 0; i < n; i++) b.enclose(vec(s));
    Mat4 m;
    switch(s.pick({2, 2, 1, 1, 1})) {
    case 0: m = any_mat(s); break;
    case 1: m = to_mat(random_rotation(s)); break;
    case 2: m = Mat4::translate(vec(s)); break;
    case 3: m = Mat4::scale(vec(s)); break;
    case 4: m = Mat4::translate(vec(s)) * Mat4::rotate(angle(s), direction(s)) * Mat4::scale(vec(s, 4)); break;
    }
    for(U i = 0; i < 3; i++) m[i][3] = 0.0f;
    m[3][3] = 1.0f;
    NOTE("%s by %s", str(b).c_str(), geo::str(m).c_str());
    const BBox b0 = b;
    D4 A = d4(m);
    double lo[3], hi[3], mag[3] = {};
    for(U k = 0; k < 8; k++) {
        D3 c;
        for(U i = 0; i < 3; i++) c[i] = k >> i & 1 ? b0.max[i] : b0.min[i];
        D3 p = apply(A, c, 1);
        for(U i = 0; i < 3; i++) {
            lo[i] = k ? std::min(lo[i], p[i]) : p[i];
            hi[i] = k ? std::max(hi[i], p[i]) : p[i];
            mag[i] = std::max(mag[i], std::fabs(A.m[0][i] * c[0]) + std::fabs(A.m[1][i] * c[1]) + std::fabs(A.m[2][i] * c[2]) + std::fabs(A.m[3][i]));
        }
    }
    b.transform(m);
    for(U i = 0; i < 3; i++)
        CHECK(std::fabs(b.min[i] - lo[i]) <= 1e-6 * mag[i] && std::fabs(b.max[i] - hi[i]) <= 1e-6 * mag[i], "the transformed box is %s, expected %.9g to %.9g on axis %lu", str(b).c_str(), lo[i], hi[i], i);
    if(n > 1) pbt::nontrivial();
    BBox e;
    e.transform(m);
    CHECK(e.empty(), "a transformed empty box is %s", str(e).c_str());
    Vec3 p = vec(s);
    e.enclose(p);
    CHECK(e.min == p && e.max == p, "a transformed empty box that encloses %s is %s", geo::str(p).c_str(), str(e).c_str());
}
// Exact numbers: boxes that touch the plane the projection maps to zero.
PROP(touching, 100000, 2000000) {
    auto z = [&] { return (f32)((i64)s.draw(8) - 4); };
    Vec3 shift{z(), z(), z()}, grow{(f32)(1 << s.draw(2)), (f32)(1 << s.draw(2)), s.coin() ? 2.0f : -1.0f};
    Mat4 m = Mat4::translate(shift) * Mat4::scale(grow);
    BBox b;
    b.enclose(Vec3{z(), z(), z()});
    b.enclose(Vec3{z(), z(), z()});
    NOTE("%s by %s", str(b).c_str(), geo::str(m).c_str());
    U behind = 0, on = 0;
    f32 lo[2] = {1e9f, 1e9f}, hi[2] = {-1e9f, -1e9f};
    for(U k = 0; k < 8; k++) {
        f32 c[3];
        for(U i = 0; i < 3; i++) c[i] = (k >> i & 1 ? b.max[i] : b.min[i]) * grow[i] + shift[i];
        behind += c[2] < 0, on += c[2] == 0;
        for(U i = 0; i < 2; i++) lo[i] = std::min(lo[i], c[i]), hi[i] = std::max(hi[i], c[i]);
    }
    if(behind == 8) lo[0] = lo[1] = hi[0] = hi[1] = 0;
    else if(behind) lo[0] = lo[1] = -1, hi[0] = hi[1] = 1;
    Vec2 mn{3.0f, 4.0f}, mx{5.0f, 6.0f};
    b.project(m, mn, mx);
    CHECK(mn.x == lo[0] && mn.y == lo[1] && mx.x == hi[0] && mx.y == hi[1], "covers (%g, %g) to (%g, %g) instead of (%g, %g) to (%g, %g)", (double)mn.x, (double)mn.y, (double)mx.x, (double)mx.y, (double)lo[0], (double)lo[1], (double)hi[0], (double)hi[1]);
    if(on) pbt::label("touches the plane"), pbt::nontrivial();
}
PROP(projecting, 300000, 6000000) {
    f32 fov = (f32)s.range(20, 150), ar = (f32)s.range(2, 40) / 10, near = (f32)s.range(1, 100) / 100;
    Mat4 m = Mat4::proj(fov, ar, near);
    if(s.coin()) {
        Vec3 pos = vec(s, 20), d = direction(s), up = direction(s);
        if(len(cross(unit(d3(d)), unit(d3(up)))) < 0.1) return;
        m = m * Mat4::look_at(pos, pos + d, up);
    }
    BBox b;
    switch(s.pick({2, 1})) {
    case 0: { // around a point of a chosen side
        Mat4 inv = m.inverse();
        Vec4 c = inv * Vec4{(f32)((i64)s.draw(20) - 10) / 10, (f32)((i64)s.draw(20) - 10) / 10, s.coin() ? 0.2f : -0.2f, 1.0f};
        Vec3 p = c.proj(), h = vec(s, s.coin() ? 0.5f : 8.0f);
        if(!(p.norm() < 1e4f)) return;
        b.enclose(p - h);
        b.enclose(p + h);
        break;
    }
    case 1:
        b.enclose(vec(s));
        b.enclose(vec(s));
        break;
    }
    NOTE("%s by %s", str(b).c_str(), geo::str(m).c_str());
    D4 A = d4(m);
    double lo[2], hi[2], cond = 0;
    U behind = 0;
    for(U k = 0; k < 8; k++) {
        D3 c;
        for(U i = 0; i < 3; i++) c[i] = k >> i & 1 ? b.max[i] : b.min[i];
        D3 p = apply(A, c, 1);
        double w = 0, wm = 0;
        for(U i = 0; i < 4; i++) {
            double x = A.m[i][3] * (i < 3 ? c[i] : 1);
            w += x, wm += std::fabs(x);
        }
        if(std::fabs(w) < 0.02 * wm || std::fabs(w) < 1e-3) return; // too close to the viewer's plane
        behind += w < 0;
        for(U i = 0; i < 2; i++) {
            double x = p[i] / w;
            double pm = 0;
            for(U j = 0; j < 4; j++) pm += std::fabs(A.m[j][i] * (j < 3 ? c[j] : 1));
            lo[i] = k ? std::min(lo[i], x) : x;
            hi[i] = k ? std::max(hi[i], x) : x;
            cond = std::max(cond, pm / std::fabs(w) + std::fabs(x) * wm / std::fabs(w));
        }
    }
    Vec2 mn{3.0f, 4.0f}, mx{5.0f, 6.0f};
    const BBox b0 = b;
    b0.project(m, mn, mx);
    CHECK(b.min == b0.min && b.max == b0.max, "projection modified the box");
    if(behind == 8) {
        CHECK(mn.x == 0 && mn.y == 0 && mx.x == 0 && mx.y == 0, "a box behind the viewer covers (%g, %g) to (%g, %g)", (double)mn.x, (double)mn.y, (double)mx.x, (double)mx.y);
        pbt::label("behind");
    } else if(behind) {
        CHECK(mn.x == -1 && mn.y == -1 && mx.x == 1 && mx.y == 1, "a box partly behind the viewer covers (%g, %g) to (%g, %g)", (double)mn.x, (double)mn.y, (double)mx.x, (double)mx.y);
        pbt::label("partly behind");
    } else {
        for(U i = 0; i < 2; i++)
            CHECK(std::fabs(mn[i] - lo[i]) <= 2e-6 * (cond + 1e-6) && std::fabs(mx[i] - hi[i]) <= 2e-6 * (cond + 1e-6), "covers (%g, %g) to (%g, %g), expected %g to %g on axis %lu", (double)mn.x, (double)mn.y, (double)mx.x, (double)mx.y, lo[i], hi[i], i);
        pbt::label("in front");
    }
    pbt::nontrivial();
}
