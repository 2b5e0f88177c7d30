"""Planted bugs: allocators, owners, sums and functions (C06-C11)."""
from bugs_common import ASAN, TOK
BUGS = [
 dict(id="C06-keep-chunk", property="C06", inc=[],
  edits=[("rpp/impl/alloc.cpp", "if(chunks->used == 0 && chunks->up != null) {", "if(chunks->used == 0 && chunks->up == &first_chunk.chunk) {")],
  needs="an inner region that needed the third backing chunk of its thread", breaks="ending the inner region keeps its backing memory",
  demo=r'''int main() { Region(R) { (void)Mregion<R>::alloc(2000); i64 n = sys_net_allocs();
  Region(S) { (void)Mregion<S>::alloc(9000); OK(sys_net_allocs() > n); }
  OK(sys_net_allocs() == n); } return 0; }'''),
 dict(id="C06-free-brand", property="C06", inc=[],
  edits=[("rpp/impl/alloc.cpp", "void Region_Allocator::free(Region brand, void*) noexcept {\n    assert_brand(brand);", "void Region_Allocator::free(Region brand, void* mem) noexcept {\n    if(mem) return;\n    assert_brand(brand);")],
  needs="freeing through an outer region's allocator inside an inner region", breaks="use of a region that is not the innermost is silently accepted",
  demo=r'''#include <sys/wait.h>
#include <unistd.h>
int main() { pid_t p = fork(); if(!p) { Region(R) { void* m = Mregion<R>::alloc(64);
  Region(S) { Mregion<R>::free(m); } } _exit(0); }
  int st; waitpid(p, &st, 0); OK(WIFSIGNALED(st)); return 0; }'''),
 dict(id="C07-search-gap", property="C07", inc=["range_allocator.h"],
  edits=[("rpp/range_allocator.h", "while(!block && idx < Buckets - 1) {", "if(!block && idx < Buckets - 1) {")],
  needs="the fitting gap lies two or more size classes above the one searched first, which is not empty", breaks="an allocation is refused although a free gap holds it",
  demo=r'''int main() { Range_Allocator<> r(1 << 20); auto a = r.allocate(600, 1); auto b = r.allocate(100, 1); OK(a.ok() && b.ok()); r.free(*a);
  auto c = r.allocate(900, 1); OK(c.ok()); r.free(*c); r.free(*b); return 0; }'''),
 dict(id="C07-high-water", property="C07", inc=["range_allocator.h"],
  edits=[("rpp/range_allocator.h", "        stats.allocated_size += size + padding;\n        stats.high_water = Math::max(stats.high_water, stats.allocated_size);", "        stats.high_water = Math::max(stats.high_water, stats.allocated_size);\n        stats.allocated_size += size + padding;")],
  needs="reading the high-water mark right after the allocation that set it", breaks="the high-water mark lags one allocation behind the ranges",
  demo=r'''int main() { Range_Allocator<> r(4096); auto a = r.allocate(512, 1), b = r.allocate(700, 1); OK(r.statistics().high_water == 1212); r.free(*a); r.free(*b); OK(r.statistics().high_water == 1212); return 0; }'''),
 dict(id="C08-destroy-unlocked", property="C08", inc=["thread.h"],
  edits=[("rpp/alloc1.h", "            Thread::Lock lock(mutex);\n            list.destroy(reinterpret_cast<Block*>(value));", "            list.destroy(reinterpret_cast<Block*>(value));")],
  needs="several threads that make and destroy objects of one size at the same time", breaks="the free list is changed without its lock: objects are handed out twice", timeout=120,
  demo=r'''struct O { u64 a, b, c; };
int main() { Vec<Thread::Future<bool>> fs; for(u64 t = 0; t < 6; t++) fs.push(Thread::spawn([t]() { bool ok = true; for(u64 i = 0; i < 400000; i++) {
  O* p = Mpool::make<O>(O{t, i, 1}); O* q = Mpool::make<O>(O{t, i, 2}); ok = ok && p->a == t && p->b == i && p->c == 1 && q->c == 2; Mpool::destroy(p); ok = ok && q->a == t && q->b == i; Mpool::destroy(q); } return ok; }));
  bool ok = true; for(auto& f : fs) ok = f->block() && ok; OK(ok); _Exit(0); }'''),
 dict(id="C08-list-assign", property="C08", inc=[],
  edits=[("rpp/alloc0.h", "    Free_List& operator=(Free_List&& src) noexcept {\n        this->~Free_List();", "    Free_List& operator=(Free_List&& src) noexcept {\n        if(!src.list_) this->~Free_List();")],
  needs="assigning a non-empty free list over another non-empty one", breaks="the idle memory of the overwritten list is never returned",
  demo=r'''int main() { i64 n = sys_net_allocs(); { Free_List<u64, Mhidden> a, b; a.destroy(a.make(u64{1})); b.destroy(b.make(u64{2})); a = move(b); } OK(sys_net_allocs() == n); return 0; }'''),
 dict(id="C09-arc-dup", property="C09", inc=["rc.h", "thread.h"],
  edits=[("rpp/rc.h", "        if(data_) data_->references.incr();", "        if(data_) data_->references.exchange(data_->references.load() + 1);")],
  needs="two threads duplicating or dropping the same Arc at once", breaks="an increment is lost, so the object dies while it is still owned", timeout=120,
  demo=r'''int main() { Arc<int> a{5}; Vec<Thread::Future<void>> fs; for(int t = 0; t < 4; t++) fs.push(Thread::spawn([d = a.dup()]() { for(int i = 0; i < 300000; i++) { auto e = d.dup(); if(*e != 5) _Exit(1); } }));
  for(auto& f : fs) f->block(); fs.clear(); for(int i = 0; i < 2000 && a.references() != 1; i++) Thread::sleep(1); OK(a.references() == 1); return 0; }'''),
 dict(id="C09-many", property="C09", inc=["rc.h"],
  edits=[("rpp/rc.h", "        if(data_) data_->references++;", "        if(data_) data_->references = static_cast<u16>(data_->references + 1);")],
  needs="an object with more than 65535 owners", breaks="the count wraps around, so the object dies while it is still owned",
  demo=r"""int main() { Rc<int> a{5}; Vec<Rc<int>> v; for(u64 i = 0; i < 70000; i++) { v.push(a.dup()); OK(a.references() == i + 2); } return 0; }"""),
 dict(id="C09-from-this", property="C09", inc=["rc.h"],
  edits=[("rpp/rc.h", ("            reinterpret_cast<Data*>(reinterpret_cast<u8*>(value) - RPP_OFFSETOF(Data, value));", 1), "            reinterpret_cast<Data*>(reinterpret_cast<u8*>(value) - sizeof(Data::references));")],
  needs="from_this on an object whose alignment exceeds that of the count", breaks="the owner made from this counts in the wrong place",
  demo=r'''struct alignas(16) V { f32 x[4]; V() = default; };
int main() { Rc<V> a{V{}}; a->x[0] = 3; { auto b = Rc<V>::from_this(&*a); OK(a.references() == 2); OK(&*b == &*a); } OK(a.references() == 1); return 0; }'''),
 dict(id="C10-eighth", property="C10", inc=["variant.h"],
  edits=[("rpp/variant.h", "            INDEX(7);\n", "")],
  needs="a variant with exactly eight alternatives that holds the last one", breaks="matching calls the handler of the first alternative on the wrong bytes",
  demo=r'''template<int N> struct A { int v; };
int main() { Variant<A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>> v{A<7>{42}}; OK(v.index() == 7); int k = v.match(Overload{[](A<0>&){return 0;},[](A<1>&){return 1;},[](A<2>&){return 2;},[](A<3>&){return 3;},[](A<4>&){return 4;},[](A<5>&){return 5;},[](A<6>&){return 6;},[](A<7>& a){return a.v;}}); OK(k == 42); return 0; }'''),
 dict(id="C10-opt-assign-empty", property="C10", inc=["opt.h"],
  edits=[("rpp/opt.h", "        clear();\n        if(src.ok_) {\n            value_", "        if(src.ok_) {\n            clear();\n            value_")],
  needs="assigning an empty option over one that holds a value", breaks="the old value stays",
  demo=r'''int main() { Opt<u64> a{u64{4}}, b; a = move(b); OK(!a.ok()); return 0; }'''),
 dict(id="C11-move-tail", property="C11", inc=["function.h"],
  edits=[("rpp/function.h", "Libc::memcpy(dst, src, sizeof(F));", "Libc::memcpy(dst, src, sizeof(F) / alignof(F) * alignof(F) & ~7ul | (sizeof(F) < 8 ? sizeof(F) : 0));")],
  needs="moving a function whose captures are trivial and not a multiple of eight bytes", breaks="the last bytes of the captures are lost in the move",
  demo=r'''int main() { int a = 1, b = 2, c = 3; Function<int()> f{[a, b, c]() { return a * 100 + b * 10 + c; }}; OK(f() == 123); Function<int()> g = move(f); OK(g() == 123); return 0; }'''),
 dict(id="C11-assign-keeps", property="C11", inc=["function.h"],
  edits=[("rpp/function.h", ("        src.vtable = null;\n", 2), "        if(src.vtable != vtable) src.vtable = null;\n")],
  needs="move-assigning a function, then using or destroying the source", breaks="the source still owns and calls the captures it gave away",
  demo=TOK + r'''#include <sys/wait.h>
#include <unistd.h>
int main() { pid_t p = fork(); if(!p) { Function<int()> f{[t = Tok{4}]() { return t.v; }}, g{[]() { return 1; }}; g = move(f); (void)f(); _exit(0); } int st; waitpid(p, &st, 0); OK(WIFSIGNALED(st)); return 0; }'''),
]
