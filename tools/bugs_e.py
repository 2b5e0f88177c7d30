"""Planted bugs: sizes and magnitudes that only show far from the ordinary (C04, C13, C16-C19, C28-C31)."""
from bugs_common import ASAN, TOK
from bugs_d import THR, FIL
BUGS = [
 dict(id="C28-wide-node", property="C28", inc=[],
  edits=[("rpp/impl/profile.cpp", "    for(u64 child_idx : node.children) {\n        Timing_Node& child = nodes[child_idx];\n", "    u64 tried = 0;\n    for(u64 child_idx : node.children) {\n        if(++tried > 48) break;\n        Timing_Node& child = nodes[child_idx];\n")],
  needs="more than 48 different scopes below one, of which a late one is entered again", breaks="a second node for the same call path",
  demo=r'''int main() { static const char names[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; Profile::begin_frame(); for(int r = 0; r < 2; r++) for(u64 i = 0; i < 60; i++) { Profile::enter(String_View{reinterpret_cast<const u8*>(names + i), 1}); Profile::exit(); } Profile::end_frame();
  u64 n = 0; bool twice = true; Profile::iterate_timings([&](Thread::Id, const Profile::Timing_Node& t) { n++; twice &= t.loc.function == "Frame"_v || t.calls == 2; }); OK(n == 61); OK(twice); return 0; }'''),
 dict(id="C31-big-free", property="C31", inc=[],
  edits=[("rpp/impl/profile.cpp", "                    i64 size = **sz;", "                    i32 size = static_cast<i32>(**sz);")],
  needs="freeing a block of two gigabytes or more", breaks="the freed and live sizes are wrong from then on",
  demo=FIL + r'''int main() { using M = Mallocator<"Huge">; void* a = M::alloc(3ul << 30); M::free(a); Profile::finalize(); fflush(0); FILE* f = fopen("debug.log", "r"); char l[400]; bool in = false, ok = false, bad = false; while(fgets(l, 400, f)) { if(strstr(l, "Allocation stats for [")) in = strstr(l, "[Huge]") != 0; if(in && strstr(l, "Free size: 3221225472")) ok = true; if(in && strstr(l, "Unbalanced size")) bad = true; } OK(ok); OK(!bad); return 0; }'''),
 dict(id="C19-touching", property="C19", inc=["vmath.h"],
  edits=[("rpp/vmath.h", "            if(p.z < 0.0f) {\n                partially_behind = true;", "            if(p.z <= 0.0f) {\n                partially_behind = true;")],
  needs="a box with a corner exactly on the viewer's plane", breaks="a box in front of the viewer counts as partly or wholly behind",
  demo=r'''int main() { BBox b{Vec3{-0.5f, -0.25f, 0.0f}, Vec3{0.5f, 0.25f, 1.0f}}; Vec2 lo, hi; b.project(Mat4::I, lo, hi); OK(lo == Vec2(-0.5f, -0.25f)); OK(hi == Vec2(0.5f, 0.25f)); return 0; }'''),
 dict(id="C17-pole-y", property="C17", inc=["vmath.h"],
  edits=[("rpp/impl/vmath.cpp", "    if(Math::abs(dir.y - 1.0f) < Math::EPS_F)\n        return Mat4::I;", "    if(Math::abs(Math::abs(dir.y) - 1.0f) < Math::EPS_F)\n        return Mat4::scale(Vec3{1.0f, dir.y, 1.0f});")],
  needs="the direction opposite to the axis", breaks="the result is a reflection instead of a rotation",
  demo=r'''int main() { Mat4 m = Mat4::rotate_y_to(Vec3{0.0f, -1.0f, 0.0f}); Vec3 x = m[0].xyz(), y = m[1].xyz(), z = m[2].xyz(); OK(Math::dot(Math::cross(x, y), z) > 0.99f); OK(y == Vec3(0.0f, -1.0f, 0.0f)); return 0; }'''),
 dict(id="C18-inner-sign", property="C18", inc=["vmath.h"],
  edits=[("rpp/vmath.h", "        return (((*this) * Quat(v, 0)) * conjugate()).complex();", "        Vec3 u = complex();\n        return v * (w * w - dot(u, u)) + u * (2.0f * Math::abs(dot(u, v))) + cross(u, v) * (2.0f * w);")],
  needs="rotating a vector on the far side of the rotation's axis", breaks="the component along the axis flips",
  demo=r'''int main() { Quat q = Quat::axis_angle(Vec3{0.0f, 0.0f, 1.0f}, 90.0f); Vec3 a = q.rotate(Vec3{1.0f, 0.0f, -2.0f}); OK(Math::abs(a.z + 2.0f) < 1e-4f); OK(Math::abs(a.y - 1.0f) < 1e-4f); return 0; }'''),
 dict(id="C30-long-list", property="C30", inc=[],
  edits=[("rpp/reflect.h", "typename Enumerated<N + 1, Ts...>::type>;", "typename Enumerated<(N + 1) % 32, Ts...>::type>;")],
  needs="enumerating more than 32 types", breaks="the indices start over",
  demo=r'''struct Last { u64 last = 0; template<typename I> void apply() { last = I::value; } }; int main() { Last l; using L = Reflect::Enumerate<u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8>; Reflect::Iter<Last, L>::apply(l); OK(l.last == 33); return 0; }'''),
 dict(id="C29-penultimate-one", property="C29", inc=[],
  edits=[("rpp/queue.h", ("        assert(length_ > 1);", 2), "        assert(!empty());")],
  needs="asking a constant queue of one element for the one before the last", breaks="a slot that holds no element is read silently",
  demo=FIL + r'''int main() { fflush(0); pid_t p = fork(); if(!p) { Queue<u64> q{1ul, 2ul, 3ul}; q.pop(); q.pop(); const auto& c = q; volatile u64 v = c.penultimate(); _Exit(v & 0); } int st; waitpid(p, &st, 0); OK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)); return 0; }'''),
 dict(id="C13-fn-args", property="C13", inc=["function.h"],
  edits=[("rpp/function.h", "        if(n + 1 < N) idx = output.write(idx, \", \"_v);\n        n++;", "        if(++n < N) idx = output.write(idx, n < 4 ? \", \"_v : \",\"_v);")],
  needs="formatting a function of more than four parameters", breaks="the separators differ and the text is shorter than was measured",
  demo=r'''int main() { Function<i32(i8, i16, i32, i64, u8, u16)> f{[](i8, i16, i32, i64, u8, u16) -> i32 { return 0; }}; auto s = format<Mdefault>("%"_v, f); OK(s == "Function{i32(i8, i16, i32, i64, u8, u16)}"_v); return 0; }'''),
 dict(id="C11-move-odd", property="C11", inc=["function.h"],
  edits=[("rpp/function.h", "            Libc::memcpy(dst, src, sizeof(F));", "            for(u64 i = 0; i < sizeof(F) / 4; i++)\n                Libc::memcpy(reinterpret_cast<u8*>(dst) + 4 * i, reinterpret_cast<u8*>(src) + 4 * i, 4);")],
  needs="moving a function whose captures are not a multiple of four bytes", breaks="the last bytes of the captures are lost",
  demo=r'''struct B { u8 b[7]; }; int main() { B v{{1, 2, 3, 4, 5, 6, 7}}; Function<i32()> f{[v]() -> i32 { return v.b[6] * 10 + v.b[3]; }}; OK(f() == 74); Function<i32()> g{move(f)}; OK(g() == 74); return 0; }'''),
 dict(id="C04-far-probe", property="C04", inc=[],
  edits=[("rpp/map.h", "            u64 hashdist = hashidx <= idx ? idx - hashidx : capacity_ + idx - hashidx;", "            u64 hashdist = static_cast<u8>(hashidx <= idx ? idx - hashidx : capacity_ + idx - hashidx);")],
  needs="more than 256 keys whose hashes begin alike", breaks="entries land where lookups do not expect them",
  demo=r'''struct K { u64 v; bool operator==(const K& o) const noexcept { return v == o.v; } }; namespace rpp::Hash { template<> struct Hash<K> { static u64 hash(const K& k) noexcept { return (3ul << 60) + ((k.v % 3) << 54) + k.v; } }; }
int main() { Map<K, u64> m; for(u64 i = 0; i < 700; i++) m.insert(K{i}, u64{i}); for(u64 i = 0; i < 700; i++) { auto v = m.try_get(K{i}); OK(v.ok()); OK(**v == i); } OK(m.length() == 700); return 0; }'''),
 dict(id="C23-await-late", property="C23", inc=["async.h"],
  edits=[("rpp/async.h", "        return handle.promise().state.compare_and_swap(TASK_START, cont) == TASK_START;", "        if(handle.promise().state.load() != TASK_START) return false;\n        handle.promise().state.exchange(cont);\n        return true;")],
  needs="a task that finishes on another thread at the very moment it is awaited", breaks="the awaiting coroutine never resumes",
  demo=THR + r'''#include <rpp/pool.h>
static Thread::Atomic done, sink;
static std::coroutine_handle<> held; struct Hop { bool await_ready() noexcept { return false; } void await_resume() noexcept {} void await_suspend(std::coroutine_handle<> h) noexcept { held = h; } };
static Async::Task<i32> inner() { co_await Hop{}; co_return 1; }
static Async::Task<i32> outer(Async::Task<i32>& t) { i32 v = co_await t; done.incr(); co_return v; }
int main() { constexpr i64 N = 400000; static Thread::Atomic at, fin; auto w = [] { for(i64 i = 1; i <= N; i++) { while(at.load() != i) {} held.resume(); fin.exchange(i); } }; pthread_t th = go(&w); static volatile int spin;
  for(i64 i = 1; i <= N; i++) { auto t = inner(); at.exchange(i); for(int k = 0; k < ((i >> 5) & 63); k++) spin = k; auto o = outer(t); while(fin.load() != i) {} for(int k = 0; k < 200 && done.load() != i; k++) nap(5); OK(done.load() == i); } pthread_join(th, 0); _Exit(0); }'''),
]
