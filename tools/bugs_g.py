"""Planted bugs: counts and sizes past 15, 16 and 32 bits (C04, C06, C07, C24, C26, C27, C28)."""
from bugs_d import FIL
BUGS = [
 dict(id="C06-offset-width", property="C06", inc=[],
  edits=[("rpp/impl/alloc.cpp", "thread_local u64 region_offsets[MAX_REGION_DEPTH] = {};", "thread_local u32 region_offsets[MAX_REGION_DEPTH] = {};")],
  needs="more than four gigabytes in regions of one thread", breaks="the allocated size wraps, and closing the region keeps most of its memory",
  demo=r'''int main() { u64 z = Region_Allocator::size(); i64 n = sys_net_allocs(); { Region(R) { u8* a = (u8*)Mregion<R>::alloc(5ul << 30); a[0] = 1; OK(Region_Allocator::size() >= z + (5ul << 30)); } } OK(Region_Allocator::size() == z); OK(sys_net_allocs() == n); return 0; }'''),
 dict(id="C04-length-width", property="C04", inc=[],
  edits=[("rpp/map.h", "    u64 length_ = 0;\n    u64 usable_ = 0;", "    u16 length_ = 0;\n    u64 usable_ = 0;")],
  needs="a map of more than 65,535 entries", breaks="the number of entries wraps; a full map is taken for an empty one",
  demo=r'''int main() { Map<u64, u64> m; for(u64 i = 0; i < 66000; i++) m.insert(u64{i}, u64{i}); OK(m.length() == 66000); OK(m.contains(u64{65999})); return 0; }'''),
 dict(id="C26-port-sign", property="C26", inc=["net.h"],
  edits=[("rpp/pos/net_pos.cpp", ("    sockaddr_.sin_port = htons(port);", 2), "    sockaddr_.sin_port = htons(static_cast<u16>(port & 0x7fff));")],
  needs="a port in the upper half, without an address", breaks="the socket is bound to another port",
  demo=r'''#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
int main() { Net::Udp u; u.bind(Net::Address{(u16)62111}); int s = socket(AF_INET, SOCK_DGRAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(62111); a.sin_addr.s_addr = inet_addr("127.0.0.1"); sendto(s, "hi", 2, 0, (sockaddr*)&a, sizeof a); Net::Packet p; for(int i = 0; i < 200; i++) { auto d = u.recv(p); if(d.ok()) { OK(d->length == 2); return 0; } usleep(5000); } OK(false); return 0; }'''),
 dict(id="C27-line-width", property="C27", inc=[],
  edits=[("rpp/impl/log.cpp", "           loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, \"\", msg.length(), msg.data());", "           loc.file.data(), static_cast<u64>(static_cast<u16>(loc.line)), g_log_indent * INDENT_SIZE, \"\",\n           msg.length(), msg.data());")],
  needs="a message from a line past 65,535, as in generated code", breaks="the console shows another line",
  demo=r'''#include <unistd.h>
#include <fcntl.h>
int main() { fflush(0); int o = dup(1), f = open("out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); unlink("out.txt"); dup2(f, 1); Log::output(Log::Level::info, Log::Location{"f"_v, "gen.cpp"_v, 70001}, "hello"_v); fflush(0); dup2(o, 1); char b[500] = {}; lseek(f, 0, SEEK_SET); if(read(f, b, 499) < 0) return 1; OK(strstr(b, "[gen.cpp:70001]")); return 0; }'''),
 dict(id="C28-calls-width", property="C28", inc=[],
  edits=[("rpp/profile.h", "        u64 calls = 0;", "        u16 calls = 0;")],
  needs="a zone entered more than 65,535 times in one frame", breaks="its calls start over",
  demo=r'''int main() { Profile::begin_frame(); for(u64 i = 0; i < 66000; i++) { Profile::enter("z"_v); Profile::exit(); } Profile::end_frame(); u64 c = 0; Profile::iterate_timings([&](Thread::Id, const Profile::Timing_Node& t) { if(t.loc.function == "z"_v) c = t.calls; }); OK(c == 66000); return 0; }'''),
]
