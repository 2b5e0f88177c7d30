"""Planted bugs: element and argument sizes, release in bulk, and paths taken once per many (C01, C02, C03, C05, C08, C10, C12)."""
from bugs_common import ASAN, TOK
BUGS = [
 dict(id="C03-wide-pop", property="C03", inc=["heap.h"],
  edits=[("rpp/heap.h", "Libc::memcpy(data_, data_ + length_, sizeof(T));", "Libc::memcpy(data_, data_ + length_, sizeof(T) < 96 ? sizeof(T) : 96);")],
  needs="trivially movable elements of more than 96 bytes", breaks="the element that takes the root's place keeps the old root's tail",
  demo=r'''struct E { u64 k; u64 pad[14]; bool operator<(const E& o) const { return k < o.k; } }; int main() { Heap<E> h; for(u64 i = 0; i < 20; i++) { E e{}; e.k = (i * 7) % 20; for(u64& p : e.pad) p = e.k; h.push(move(e)); } for(u64 i = 0; i < 20; i++) { OK(h.top().k == i); OK(h.top().pad[13] == i); h.pop(); } return 0; }'''),
 dict(id="C10-clone-tail", property="C10", inc=["variant.h"],
  edits=[("rpp/variant.h", "Libc::memcpy(result.data_, data_, size);", "Libc::memcpy(result.data_, data_, size & ~static_cast<u64>(3));")],
  needs="cloning a variant of plain data whose size is not a multiple of four", breaks="the last bytes of the clone are not those of the original",
  demo=r'''struct B { u8 b[7]; }; int main() { Variant<B, u8> v{B{{1, 2, 3, 4, 5, 6, 7}}}; alignas(8) u8 room[64]; memset(room, 0xee, 64); auto* c = new(room) Variant<B, u8>{v.clone()}; bool ok = false; c->match(Overload{[&](B& b) { ok = b.b[6] == 7 && b.b[5] == 6 && b.b[0] == 1; }, [](u8&) {}}); OK(ok); return 0; }'''),
 dict(id="C10-pair-steals", property="C10", inc=[],
  edits=[("rpp/pair.h", ": first(A{first}), second(rpp::move(second)) {", ": first(rpp::move(const_cast<A&>(first))), second(rpp::move(second)) {")],
  needs="a pair made from an existing first and a temporary second", breaks="the existing value is emptied",
  demo=r'''static int moves = 0; struct C { int v; explicit C(int v) : v(v) {} C(const C& o) noexcept : v(o.v) {} C(C&& o) noexcept : v(o.v) { o.v = -1; } C& operator=(const C&) noexcept = default; C& operator=(C&&) noexcept = default; }; int main() { C c{5}; Pair<C, C> p{c, C{6}}; OK(c.v == 5); OK(p.first.v == 5 && p.second.v == 6); return 0; }'''),
 dict(id="C01-bytes-width", property="C01", inc=[],
  edits=[("rpp/slice.h", ("        ret.length_ = length_ * sizeof(T);", 1), "        ret.length_ = static_cast<u16>(length_) * sizeof(T);")],
  needs="the bytes of a slice of more than 65535 elements", breaks="most of the bytes are missing from the view",
  demo=r'''int main() { Vec<u32> v; v.resize(70000); Slice<u32> s = v.slice(); OK(s.to_bytes().length() == 280000); return 0; }'''),
 dict(id="C12-long-sep", property="C12", inc=[],
  edits=[("rpp/format.h", "length += sep.length() * (sizeof...(strings) - 1);", "length += static_cast<u8>(sep.length()) * (sizeof...(strings) - 1);")],
  needs="joining with a separator of more than 255 bytes", breaks="the result is too short for what is written",
  demo=r'''int main() { String<> sep{300}; sep.set_length(300); for(u64 i = 0; i < 300; i++) sep[i] = 'x'; auto r = concat<Mdefault>(sep.view(), "a"_v, "b"_v); OK(r.length() == 302); OK(r[0] == 'a' && r[301] == 'b'); return 0; }'''),
 dict(id="C05-heap-clear", property="C05", inc=["heap.h"],
  edits=[("rpp/heap.h", ("            for(T& v : *this) {\n                v.~T();\n            }\n        }\n        length_ = 0;\n    }\n\n    [[nodiscard]] bool empty", 1), "            for(u64 i = length_; i-- > 1;) {\n                data_[i].~T();\n            }\n            if(length_ < 2) data_[0].~T();\n        }\n        length_ = 0;\n    }\n\n    [[nodiscard]] bool empty")],
  needs="clearing a heap of two elements or more and then using it again", breaks="the first element is never destroyed, or an absent one is",
  demo=TOK + r'''int main() { { Heap<Tok> h; for(int i = 0; i < 9; i++) h.push(Tok{i}); h.clear(); OK(live == 0); h.push(Tok{1}); OK(live == 1); } OK(live == 0); return 0; }'''),
 dict(id="C08-small-node", property="C08", inc=[], opt=ASAN,
  edits=[("rpp/alloc0.h", "void* new_node = Base::alloc(sizeof(Free_Node));", "void* new_node = Base::alloc(Math::max(sizeof(T), list_ ? sizeof(Free_Node) : sizeof(T)));")],
  needs="a free list of objects smaller than a pointer", breaks="the list's link is written past the end of the object's memory",
  demo=r'''int main() { Free_List<u8, Mdefault> l; u8* a = l.make(u8{1}); u8* b = l.make(u8{2}); OK(*a == 1 && *b == 2); l.destroy(a); l.destroy(b); u8* c = l.make(u8{3}); OK(*c == 3); l.destroy(c); return 0; }'''),
 dict(id="C02-wrap-wide", property="C02", inc=[],
  edits=[("rpp/queue.h", "Libc::memcpy(new_data + first, data_, sizeof(T) * last_);", "Libc::memcpy(new_data + first, data_, sizeof(T) * (sizeof(T) > 8 && first < last_ ? first : last_));")],
  needs="growing a ring of wide elements whose wrapped part is longer than the part before it", breaks="the last elements are lost",
  demo=r'''struct W { u64 v, w; }; int main() { Queue<W> q(u64{8}); for(u64 i = 0; i < 8; i++) q.push(W{i, i}); for(u64 i = 0; i < 6; i++) q.pop(); for(u64 i = 8; i < 15; i++) q.push(W{i, i}); for(u64 i = 6; i < 15; i++) { OK(q.front().v == i && q.front().w == i); q.pop(); } return 0; }'''),
]
