"""Planted bugs: containers (C01-C05)."""
from bugs_common import ASAN, TOK
BUGS = [
 dict(id="C01-clone-capacity", property="C01", inc=["vec.h"],
  edits=[("rpp/vec.h", "Vec<T, B> ret(capacity_);\n        ret.length_ = length_;", "Vec<T, B> ret(length_);\n        ret.length_ = length_;\n        ret.capacity_ = capacity_;")],
  needs="clone a vector with spare capacity and push to the clone", breaks="the clone claims capacity it does not have; pushes overwrite foreign memory",
  flags=ASAN, demo=r'''int main() { Vec<u64> v; for(u64 i = 0; i < 5; i++) v.push(i); auto c = v.clone(); for(u64 i = 0; i < 3; i++) c.push(i + 50);
  for(u64 i = 0; i < 5; i++) OK(c[i] == i); OK(c[7] == 52); return 0; }'''),
 dict(id="C01-moved-from-capacity", property="C01", inc=["stack.h"],
  edits=[("rpp/vec.h", ("        src.capacity_ = 0;\n", 2), "")],
  needs="move-assign from a vector, then use the source again", breaks="a vector that was assigned away still claims its capacity and writes through null",
  demo=r'''int main() { Stack<int> a, b; for(int i = 0; i < 9; i++) a.push(int{i}); b = move(a); a.push(4); OK(a.length() == 1 && a.top() == 4); OK(b.length() == 9); return 0; }'''),
 dict(id="C02-reserve-wrapped", property="C02", inc=["queue.h"],
  edits=[("rpp/queue.h", ("u64 first = length_ - last_;", 2), "u64 first = capacity_ - last_;")],
  needs="an explicit reserve while the ring is wrapped but not full, with elements that are moved one by one", breaks="elements read from the unused part of the ring",
  demo=TOK + r'''int main() { { Queue<Tok> q(u64{8}); for(int i = 0; i < 8; i++) q.push(Tok{i}); for(int i = 0; i < 5; i++) q.pop(); q.push(Tok{8}); q.push(Tok{9}); q.reserve(20);
  OK(q.length() == 5); for(int i = 0; i < 5; i++) OK(q[(u64)i].v == i + 5 && q[(u64)i].own); } OK(live == 0); return 0; }'''),
 dict(id="C02-penultimate", property="C02", inc=["queue.h"],
  edits=[("rpp/queue.h", ("last_ == 0 ? capacity_ - 2 : last_ == 1 ? capacity_ - 1 : last_ - 2", 2), "last_ <= 1 ? capacity_ - 2 : last_ - 2")],
  needs="penultimate of a const queue when exactly one element lies behind the wrap", breaks="penultimate returns the element before it",
  demo=r'''int main() { Queue<int> q(u64{4}); for(int i = 0; i < 4; i++) q.push(int{i}); q.pop(); q.push(4); const Queue<int>& c = q; OK(q.penultimate() == 3); OK(c.penultimate() == 3); return 0; }'''),
 dict(id="C03-deep-child", property="C03", inc=["heap.h"],
  edits=[("rpp/heap.h", "            if(right < length_) {", "            if(right < length_ && idx < 200) {")],
  needs="a heap of hundreds of elements, popped", breaks="the smaller right child stays below a larger parent, so the order of what is popped is wrong",
  demo=r"""int main() { Heap<u32> h; u32 x = 1; for(int i = 0; i < 2000; i++) { x = x * 1664525u + 1013904223u; h.push(u32{x}); } u32 last = 0; while(!h.empty()) { OK(h.top() >= last); last = h.top(); h.pop(); } return 0; }"""),
 dict(id="C03-ties", property="C03", inc=["heap.h"],
  edits=[("rpp/heap.h", "if(lchild < parent && !(rchild < lchild)) {", "if(lchild < parent && lchild < rchild) {"),
         ("rpp/heap.h", "} else if(rchild < parent && !(lchild < rchild)) {", "} else if(rchild < parent && rchild < lchild) {")],
  needs="two equal children below a larger parent while sifting down", breaks="equal children stop the sift, so a larger element stays above smaller ones",
  demo=r'''int main() { Heap<int> h; for(int i : {1, 2, 2, 5, 6, 7, 8}) h.push(int{i}); int last = -1; while(!h.empty()) { OK(h.top() >= last); last = h.top(); h.pop(); } return 0; }'''),
 dict(id="C04-clear", property="C04", inc=["map.h"],
  edits=[("rpp/map.h", "Libc::memset(data_, Slot::EMPTY, capacity_ * sizeof(Slot));", "Libc::memset(data_, Slot::EMPTY, length_ * sizeof(Slot));")],
  needs="clearing a sparsely filled map of trivial keys and values, then looking its keys up", breaks="keys past the cleared part are still found after clear()",
  demo=r"""int main() { Map<u64, u64> m; for(u64 i = 0; i < 10; i++) m.insert(i, i * 3); m.clear(); OK(m.empty()); m.insert(u64{100}, u64{1}); for(u64 i = 0; i < 10; i++) OK(!m.contains(i)); return 0; }"""),
 dict(id="C04-placement", property="C04", inc=["map.h"],
  edits=[("rpp/map.h", "placement = placement ? placement : &data_[idx];", "placement = &data_[idx];")],
  needs="an insertion that displaces at least two entries, and use of the reference it returns", breaks="insert and emplace return a reference to another key's value",
  demo=r'''int main() { Map<u64, u64> m; for(u64 i = 0; i < 5000; i++) { u64 k = i * 7919; u64& r = m.insert(k, i); OK(r == i); r = i + 1; OK(m.get(k) == i + 1); } return 0; }'''),
 dict(id="C05-shrink-leak", property="C05", inc=["vec.h"],
  edits=[("rpp/vec.h", "for(u64 i = new_length; i < length_; i++) {", "for(u64 i = new_length; i + 1 < length_; i++) {")],
  needs="shrinking a vector of owning elements with resize", breaks="the last dropped element is never destroyed",
  demo=TOK + r'''int main() { Vec<Tok> v; for(int i = 0; i < 6; i++) v.push(Tok{i}); v.resize(4); OK(live == 4); return 0; }'''),
 dict(id="C05-function-reassign", property="C05", inc=["function.h"],
  edits=[("rpp/function.h", "    Function& operator=(Function&& src) noexcept {\n        destruct();", "    Function& operator=(Function&& src) noexcept {\n        if(src.vtable != vtable) destruct();")],
  needs="assigning a function over another that holds the same type of callable", breaks="the overwritten captures are never released",
  demo=TOK + r'''static Function<int()> mk(int v) { return Function<int()>{[t = Tok{v}]() { return t.v; }}; }
int main() { { auto f = mk(1); f = mk(2); OK(f() == 2); OK(live == 1); } OK(live == 0); return 0; }'''),
]
