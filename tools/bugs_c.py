"""Planted bugs: strings, formatting, hashing, mathematics and random numbers (C12-C20)."""
from bugs_common import ASAN, TOK
V = r'''static String_View sv(const std::string& s) { return String_View{(const u8*)s.data(), s.size()}; }
'''
BUGS = [
 dict(id="C12-signed-less", property="C12", inc=[],
  edits=[("rpp/string0.h", ("        if(l[i] < r[i]) return true;", 1), "        if(static_cast<i8>(l[i]) < static_cast<i8>(r[i])) return true;")],
  needs="ordering two views that differ in a byte of 128 or more", breaks="the order is not antisymmetric: each of two views is less than the other",
  demo=V + r'''int main() { std::string a = "x\xc3\xa9", b = "xe"; OK(sv(b) < sv(a)); OK(!(sv(a) < sv(b))); return 0; }'''),
 dict(id="C12-parse-rest", property="C12", inc=[],
  edits=[("rpp/format1.h", ("        String_View rest = input.sub(end - start, input.length());", 2), "        String_View rest = skip_whitespace(input).sub(end - start, input.length());")
         , ("rpp/format1.h", "[[nodiscard]] inline Opt<Pair<f32, String_View>> parse_f32(String_View input) noexcept {", "[[nodiscard]] inline String_View skip_whitespace(String_View s) noexcept;\n\n[[nodiscard]] inline Opt<Pair<f32, String_View>> parse_f32(String_View input) noexcept {")
         , ("rpp/format1.h", "skip_whitespace(input).sub(end - start, input.length())", "skip_whitespace(input.sub(end - start, input.length()))")],
  needs="a float followed by white space that matters to the caller", breaks="the parser swallows what follows the value",
  demo=V + r'''int main() { auto r = Format::parse_f32("1.5 \n2"_v); OK(r.ok()); OK(r->first == 1.5f); OK(r->second == " \n2"_v); return 0; }'''),
 dict(id="C12-append-alias", property="C12", inc=[],
  edits=[("rpp/string1.h", ("    Libc::memcpy(ret.data() + length_, next.data(), next.length());", 2), "    for(u64 i = 0; i < next.length() && next[i]; i++) ret[length_ + i] = next[i];")],
  needs="appending an owning string that contains a NUL", breaks="everything behind the NUL is left uninitialised",
  demo=V + r'''int main() { std::string t("p\0q", 3); auto a = "ab"_v.string<Mdefault>(), b = sv(t).string<Mdefault>(); std::string e("abp\0q", 5);
  { auto junk = "zzzzzzz"_v.string<Mdefault>(); } auto r = a.append<Mdefault>(b); OK(r.length() == 5 && r.view() == sv(e)); return 0; }'''),
 dict(id="C12-concat-empty", property="C12", inc=[],
  edits=[("rpp/format.h", "idx = idx < length ? output.write(idx, sep) : idx)", "idx = idx < length && !strings.empty() ? output.write(idx, sep) : idx)")],
  needs="joining strings of which one that is not the last is empty", breaks="its separator is dropped and uninitialised bytes end the result",
  demo=V + r'''int main() { auto r = concat<Mdefault>(", "_v, "a"_v, ""_v, "b"_v); OK(r.view() == "a, , b"_v); return 0; }'''),
 dict(id="C13-i8-width", property="C13", inc=[],
  edits=[("rpp/format.h", ('return Libc::snprintf(null, 0, "%hu", value);', 1), 'return Libc::snprintf(null, 0, "%hd", value);'),
         ("rpp/format.h", ('return snprintf(output, idx, "%hu", value);', 1), 'return snprintf(output, idx, "%hd", value);')],
  needs="an unsigned 16-bit value of 32768 or more", breaks="it is rendered as a negative number",
  demo=V + r'''int main() { auto r = format<Mdefault>("%/%"_v, u16{65535}, u16{32767}); OK(r.view() == "65535/32767"_v); return 0; }'''),
 dict(id="C14-long-string", property="C14", inc=["map.h"],
  edits=[("rpp/string0.h", "        u64 h = 0;\n        for(u8 c : string) h = hash_combine(h, rpp::hash(c));\n        return h;\n    }\n};\n\ntemplate<>", "        u64 h = 0, step = 1 + string.length() / 64;\n        for(u64 i = 0; i < string.length(); i += step) h = hash_combine(h, rpp::hash(string[i]));\n        return h;\n    }\n};\n\ntemplate<>")],
  needs="a string of 64 bytes or more, hashed as an owning string and as a view", breaks="an owning string and its view hash differently, and bytes are skipped",
  demo=V + r'''int main() { std::string s(100, 'k'); s[1] = 'x'; auto o = sv(s).string<Mdefault>(); OK(hash(o) == hash(o.view())); s[1] = 'y'; auto p = sv(s).string<Mdefault>(); OK(hash(o) != hash(p)); return 0; }'''),
 dict(id="C14-pointer-bits", property="C14", inc=[],
  edits=[("rpp/hash.h", "return squirrel5(static_cast<u64>(reinterpret_cast<uptr>(key)));", "return squirrel5(static_cast<u32>(reinterpret_cast<uptr>(key) >> 3));")],
  needs="two pointers that differ only in low bits or by 32 GiB", breaks="different pointers hash alike",
  demo=V + r'''int main() { char b[16]; OK(hash(&b[0]) != hash(&b[1]) || hash(&b[1]) != hash(&b[2])); u64 same = 0; for(int i = 0; i < 15; i++) same += hash(&b[i]) == hash(&b[i + 1]); OK(same == 0); return 0; }'''),
 dict(id="C14-vect-sum", property="C14", inc=["vmath.h"],
  edits=[("rpp/vmath.h", "h = hash_combine(h, rpp::hash(v[i]));", "h += rpp::hash(v[i]);")],
  needs="vectors with the same components in another order", breaks="the position of a component no longer matters",
  demo=r'''int main() { OK(hash(F3(1, 2, 3)) != hash(F3(3, 2, 1))); OK(hash(F2(1, 0)) != hash(F2(0, 1))); return 0; }'''),
 dict(id="C15-prev-pow2", property="C15", inc=[],
  edits=[("rpp/impl/math.cpp", "return 1ull << log2(val);", "return 1u << log2(val);")],
  needs="a 64-bit argument of 2^32 or more", breaks="rounding to powers of two loses the upper half",
  demo=r'''int main() { OK(Math::prev_pow2(u64{1} << 40) == u64{1} << 40); OK(Math::next_pow2((u64{1} << 40) + 1) == u64{1} << 41); return 0; }'''),
 dict(id="C15-align-down", property="C15", inc=[],
  edits=[("rpp/math.h", "[[nodiscard]] constexpr u64 align_down(u64 x, u64 align) noexcept {\n    u64 r = x % align;", "[[nodiscard]] constexpr u64 align_down(u64 x, u64 align) noexcept {\n    u32 r = static_cast<u32>(x % align);")],
  needs="aligning down by more than 4 GiB to an alignment above 2^32", breaks="the result is not aligned",
  demo=r'''int main() { OK(Math::align_down(u64{0x7ffffffff}, u64{0x300000000}) == u64{0x600000000}); OK(Math::align_down((u64{7} << 32) + 5, u64{4} << 32) == u64{4} << 32); return 0; }'''),
 dict(id="C15-abs64", property="C15", inc=[],
  edits=[("rpp/impl/math.cpp", "return ::llabs(v);", "return ::abs(static_cast<i32>(v)) == v ? v : ::labs(static_cast<i64>(static_cast<f64>(v)));")],
  needs="the absolute value of a 64-bit integer above 2^53", breaks="low bits of large magnitudes are rounded away",
  demo=r'''int main() { i64 v = -((i64{1} << 60) + 1); OK(Math::abs(v) == (i64{1} << 60) + 1); return 0; }'''),
 dict(id="C16-cmpeq", property="C16", inc=["vmath.h"],
  edits=[("rpp/impl/simd.cpp", "return __builtin_reduce_and(a.data == b.data) == -1;", "const auto d = a.data - b.data;\n    return d.x == 0.0f && d.y == 0.0f && d.z == 0.0f && d.w == 0.0f;")],
  needs="comparing packed vectors with an infinite component", breaks="a vector with an infinity is not equal to itself",
  demo=r'''int main() { f32 inf = __builtin_inff(); Vec4 a = F4(1, inf, 2, 3), b = F4(1, inf, 2, 3); OK(a == b); OK(!(a != b)); return 0; }'''),
 dict(id="C16-floor", property="C16", inc=["vmath.h"],
  edits=[("rpp/impl/simd.cpp", "return {__builtin_elementwise_floor(a.data)};", "F32x4 r = a;\n    for(i32 i = 0; i < 4; i++) {\n        const f32 t = static_cast<f32>(static_cast<i32>(a.data[i]));\n        r.data[i] = t > a.data[i] ? t - 1.0f : t;\n    }\n    return r;")],
  needs="the floor of a packed vector with a component beyond 2^31", breaks="large components become -2^31",
  demo=r'''int main() { Vec4 a = F4(1.5f, 3e10f, -2.5f, -4e12f); Vec4 r = a.floor(); OK(r == (F4(1, 3e10f, -3, -4e12f))); return 0; }'''),
 dict(id="C16-clamp", property="C16", inc=["vmath.h"],
  edits=[("rpp/vmath.h", "for(u64 i = 0; i < N; i++) r.data[i] = Math::max(x.data[i], y.data[i]);", "for(u64 i = 0; i < N; i++) {\n            T d = x.data[i] - y.data[i];\n            r.data[i] = d > T{} ? x.data[i] : y.data[i];\n        }")],
  needs="the maximum of unsigned vectors whose first is smaller in a component", breaks="the difference wraps and the smaller component is returned",
  demo=r'''int main() { Vec3u a{1u, 5u, 9u}, b{4u, 5u, 6u}; OK(Math::max(a, b) == (Vec3u{4u, 5u, 9u})); OK(Math::max(b, a) == (Vec3u{4u, 5u, 9u})); return 0; }'''),
 dict(id="C17-rotate-axis", property="C17", inc=["vmath.h"],
  edits=[("rpp/impl/vmath.cpp", "    axis = normalize(axis);\n    Vec3 temp = axis * (1.0f - c);", "    Vec3 temp = normalize(axis) * (1.0f - c);")],
  needs="a rotation axis that is not of unit length", breaks="the rotation matrix scales and shears",
  demo=r'''int main() { Mat4 m = Mat4::rotate(90.0f, F3(0, 0, 2)); Vec3 r = m.rotate(F3(1, 0, 0)); OK(Math::abs(r.x) < 1e-5f && Math::abs(r.y - 1) < 1e-5f && Math::abs(r.z) < 1e-5f); return 0; }'''),
 dict(id="C17-euler-singular", property="C17", inc=["vmath.h"],
  edits=[("rpp/impl/vmath.cpp", "eul1[0] = Math::atan2(-columns[2][1], columns[1][1]);", "eul1[0] = Math::atan2(columns[1][2], columns[2][2]);")],
  needs="Euler angles of a rotation whose middle angle is 90 degrees", breaks="the angles do not rebuild the rotation",
  demo=r'''int main() { Mat4 m = Mat4::rotate(90.0f, F3(0, 1, 0)) * Mat4::rotate(40.0f, F3(1, 0, 0)); Vec3 e = m.to_euler();
  Mat4 r = Mat4::rotate(e.z, F3(0, 0, 1)) * Mat4::rotate(e.y, F3(0, 1, 0)) * Mat4::rotate(e.x, F3(1, 0, 0));
  for(int i = 0; i < 16; i++) OK(Math::abs(r.data[i] - m.data[i]) < 1e-3f); return 0; }'''),
 dict(id="C17-rotate-z-neg", property="C17", inc=["vmath.h"],
  edits=[("rpp/impl/vmath.cpp", "    y[2] = -_y;\n", "    y[2] = _y;\n")],
  needs="rotate_z_to, checked for being a proper rotation", breaks="the result is a reflection",
  demo=r'''int main() { Vec3 d = F3(1, 2, 3).unit(); Mat4 m = Mat4::rotate_z_to(d); Vec3 z = m.rotate(F3(0, 0, -1)); OK((z - d).norm() < 1e-5f);
  Vec3 a = m.rotate(F3(1, 0, 0)), b = m.rotate(F3(0, 1, 0)), c = m.rotate(F3(0, 0, 1)); OK(Math::dot(Math::cross(a, b), c) > 0.99f); return 0; }'''),
 dict(id="C18-euler-unit", property="C18", inc=["vmath.h"],
  edits=[("rpp/vmath.h", "return unit().to_mat().to_euler();", "return to_mat().to_euler();")],
  needs="Euler angles of a quaternion that is not of unit length", breaks="its rotation is not reproduced",
  demo=r'''int main() { Quat q = Quat::euler(F3(20, 30, 40)) * 3.0f; Vec3 e = q.to_euler(); OK(Math::abs(e.x - 20) < 1e-2f && Math::abs(e.y - 30) < 1e-2f && Math::abs(e.z - 40) < 1e-2f); return 0; }'''),
 dict(id="C18-axis-length", property="C18", inc=["vmath.h"],
  edits=[("rpp/vmath.h", "        axis.normalize();\n        angle = Math::radians(angle) / 2.0f;", "        angle = Math::radians(angle) / 2.0f;")],
  needs="an axis that is not of unit length", breaks="the angle of the rotation depends on the length of the axis",
  demo=r'''int main() { Quat q = Quat::axis_angle(F3(0, 0, 5), 90.0f); Vec3 r = q.rotate(F3(1, 0, 0)); OK(Math::abs(r.x) < 1e-5f && Math::abs(r.y - 1) < 1e-5f); return 0; }'''),
 dict(id="C19-transform-zero", property="C19", inc=["vmath.h"],
  edits=[("rpp/vmath.h", "f32 b = T[j][i] * amax[j];\n                if(a < b) {", "f32 b = T[j][i] * amax[j];\n                if(T[j][i] > 0.0f || amin[j] < 0.0f) {")],
  needs="transforming a box with negative coordinates by a matrix with negative entries", breaks="the lower and upper bounds change places",
  demo=r'''int main() { BBox b{F3(-1, -2, -3), F3(4, 5, 6)}; b.transform(Mat4::scale(F3(-1, 1, 1))); OK(b.min.x == -4 && b.max.x == 1 && b.min.y == -2 && b.max.z == 6); return 0; }'''),
 dict(id="C19-project-corner", property="C19", inc=["vmath.h"],
  edits=[("rpp/vmath.h", "Vec3(max.x, min.y, max.z), Vec3(max.x, max.y, max.z)};", "Vec3(max.x, min.y, min.z), Vec3(max.x, max.y, max.z)};")],
  needs="a projection in which one particular corner is extreme", breaks="the projected bounds leave a corner out",
  demo=r'''int main() { Mat4 m = Mat4::proj(60.0f, 1.0f, 0.1f) * Mat4::look_at(F3(2.5f, 0.2f, 4), F3(0, 0, 0), F3(0, 1, 0)); BBox b{F3(-1, -1, -1), F3(1, 1, 1)}; Vec2 lo, hi; b.project(m, lo, hi);
  for(int i = 0; i < 8; i++) { Vec3 c{i & 1 ? 1.f : -1.f, i & 2 ? 1.f : -1.f, i & 4 ? 1.f : -1.f}; Vec3 p = (m * Vec4{c, 1.0f}).proj(); OK(p.z >= 0); OK(p.x >= lo.x - 1e-4f && p.x <= hi.x + 1e-4f && p.y >= lo.y - 1e-4f && p.y <= hi.y + 1e-4f); } return 0; }'''),
 dict(id="C20-shuffle-bias", property="C20", inc=["rng.h", "vec.h"],
  edits=[("rpp/rng.h", "u64 j = range(i, vec.length());", "u64 j = range(i, vec.length() - (i ? 1ul : 0ul));")],
  needs="the distribution of shuffles of three or more elements", breaks="some orders can never come up",
  demo=r'''int main() { bool seen[27] = {}; RNG::Stream r{7}; for(int i = 0; i < 2000; i++) { Vec<int> v{0, 1, 2}; r.shuffle(v); seen[v[0] * 9 + v[1] * 3 + v[2]] = true; } int n = 0; for(bool b : seen) n += b; OK(n == 6); return 0; }'''),
 dict(id="C20-window", property="C20", inc=["rng.h", "vec.h"],
  edits=[("rpp/rng.h", "u64 j = range(i, vec.length());", "u64 j = range(i, vec.length() - i > 32 ? i + 32 : vec.length());")],
  needs="the distribution of shuffles of more than 32 elements", breaks="an element cannot move to the front from more than 32 places away",
  demo=r"""int main() { RNG::Stream r{7}; bool seen[100] = {}; for(int i = 0; i < 5000; i++) { Vec<int> v; for(int k = 0; k < 100; k++) v.push(int{k}); r.shuffle(v); seen[v[0]] = true; } int n = 0; for(bool b : seen) n += b; OK(n == 100); return 0; }"""),
 dict(id="C20-coin", property="C20", inc=["rng.h"],
  edits=[("rpp/rng.h", "return unit<F>() < p;", "return unit<F>() <= p;")],
  needs="a coin of probability zero at a state whose next unit sample is exactly zero (one in 2^24)", breaks="an impossible coin comes up",
  demo=r'''int main() { RNG::Stream r{1}; for(u64 i = 0; i < 200000000; i++) OK(!r.coin_flip(0.0f)); return 0; }'''),
]
BUGS = [b for b in BUGS if b["breaks"]]
for b in BUGS:
    if "vmath.h" in b.get("inc", []):
        b["demo"] = "static Vec2 F2(f32 x, f32 y) { return Vec2{x, y}; }\nstatic Vec3 F3(f32 x, f32 y, f32 z) { return Vec3{x, y, z}; }\nstatic Vec4 F4(f32 x, f32 y, f32 z, f32 w) { return Vec4{x, y, z, w}; }\n" + b["demo"]

