// C12: strings are exact byte sequences.
#include "model.h"
using namespace t;
using S0 = String<TA<0>>;
using S1 = String<TA<1>>;

static String_View view(const std::string& s) {
    return String_View{(const u8*)s.data(), s.size()};
}
static std::string str(String_View v) {
    return std::string((const char*)v.data(), v.length());
}
template<typename A>
static std::string str(const String<A>& v) {
    return std::string((const char*)v.data(), v.length());
}
static std::string q(const std::string& s) {
    std::string r = "\"";
    for(unsigned char c : s) {
        if(c >= 32 && c < 127) r += (char)c;
        else {
            char b[8];
            snprintf(b, 8, "\\x%02x", c);
            r += b;
        }
    }
    return r + "\"";
}
static std::string text(Src& s, U max) {
    U n = s.pick({1, 6, 2}) == 1 ? s.draw(8) : s.draw(max);
    U kind = s.draw(3);
    std::string r;
    for(U i = 0; i < n; i++) {
        switch(kind) {
        case 0: r += "ab"[s.draw(1)]; break;
        case 1: r += s.of<char>({'a', '\0', '\xff', '\x80', '\x7f', 'b'}); break;
        case 2: r += s.of<char>({'/', '.', 'a', '\\', 'b', '.'}); break;
        case 3: r += (char)s.draw(255); break;
        }
    }
    return r;
}
static std::string near(Src& s, std::string a) {
    switch(s.draw(6)) {
    case 0: return a;
    case 1:
        if(a.size()) a[s.draw(a.size() - 1)] ^= (char)(1u << s.draw(7));
        return a;
    case 2: return a + (char)s.of<int>({0, 'a', 255});
    case 3:
        if(a.size()) a.pop_back();
        return a;
    case 4:
        if(a.size()) a.back() = (char)s.draw(255);
        return a;
    case 5:
        if(a.size()) a[0] = 0;
        return a;
    default: return text(s, 20);
    }
}

PROP(equality_and_order, 150000, 5000000) {
    Case c;
    {
        std::string a = text(s, 40), b = near(s, a);
        NOTE("a = %s, b = %s", q(a).c_str(), q(b).c_str());
        bool eq = a == b, lt = a < b, gt = b < a;
        String_View va = view(a), vb = view(b);
        S0 sa = va.string<TA<0>>();
        S1 sb = vb.string<TA<1>>();
        S0 sb0 = vb.string<TA<0>>();
        CHECK((va == vb) == eq && (vb == va) == eq, "view == view is %d", va == vb);
        CHECK((sa == vb) == eq && (va == sb) == eq && (vb == sa) == eq && (sb == va) == eq, "string == view is %d", sa == vb);
        CHECK((sa == sb) == eq && (sb == sa) == eq && (sa == sb0) == eq, "string == string is %d", sa == sb);
        CHECK((va != vb) == !eq && (sa != sb) == !eq && (sa != vb) == !eq, "!= is not the opposite of ==");
        CHECK((va < vb) == lt && (vb < va) == gt, "view < view is %d, %d", va < vb, vb < va);
        CHECK((sa < sb) == lt && (sb < sa) == gt && (sa < sb0) == lt, "string < string is %d, %d", sa < sb, sb < sa);
        CHECK(!(va < va) && !(sa < sa) && va == va && sa == sa, "a string is not equal to itself");
        CHECK(eq + (va < vb) + (vb < va) == 1, "not exactly one of <, ==, >");
        if(a.size() > 1 && (eq || a.size() == b.size())) pbt::nontrivial();
    }
    c.settled("after the strings are gone");
}

// Several strings under editing, against std::string.
PROP(string_histories, 40000, 1500000) {
    Case c;
    {
        const U N = 4;
        std::unique_ptr<S0> x[N];
        std::string m[N];
        for(U i = 0; i < N; i++) x[i] = std::make_unique<S0>();
        U left = s.limit(15, 40, 120), edits = 0;
        while(s.step(left)) {
            U i = s.draw(N - 1), j = s.draw(N - 1);
            switch(s.pick({5, 4, 3, 3, 3, 4, 3, 3, 3, 3, 3, 2})) {
            case 0:
                m[i] = text(s, s.coin() ? 20 : 300);
                NOTE("x%lu = %s", i, q(m[i]).c_str());
                *x[i] = view(m[i]).string<TA<0>>();
                break;
            case 1:
                NOTE("x%lu = x%lu.clone()", i, j);
                *x[i] = x[j]->clone();
                m[i] = m[j];
                CHECK(x[i]->empty() || i == j || x[i]->data() != x[j]->data(), "a clone shares its bytes");
                break;
            case 2: {
                NOTE("x%lu = x%lu through another allocator", i, j);
                S1 o = x[j]->view().string<TA<1>>();
                CHECK(str(o) == m[j], "clone into another allocator is %s", q(str(o)).c_str());
                *x[i] = o.view().string<TA<0>>();
                m[i] = m[j];
                break;
            }
            case 3:
                if(i != j) {
                    NOTE("x%lu = move(x%lu)", i, j);
                    *x[i] = rpp::move(*x[j]);
                    m[i] = m[j];
                    m[j].clear();
                }
                break;
            case 4:
                if(i != j) {
                    NOTE("renew x%lu from move(x%lu)", i, j);
                    x[i] = std::make_unique<S0>(rpp::move(*x[j]));
                    m[i] = m[j];
                    m[j].clear();
                }
                break;
            case 5: {
                if(m[i].size() + m[j].size() > 5000) break;
                NOTE("x%lu = append(x%lu, x%lu)", i, i, j);
                std::string e = m[i] + m[j];
                switch(s.draw(2)) {
                case 0: *x[i] = x[i]->append<TA<0>>(*x[j]); break;
                case 1: *x[i] = x[i]->view().append<TA<0>>(x[j]->view()); break;
                case 2: {
                    S1 o = x[j]->view().string<TA<1>>();
                    *x[i] = x[i]->append<TA<0>>(o);
                    break;
                }
                }
                m[i] = e;
                break;
            }
            case 6: {
                U a = s.draw(m[i].size()), b = s.range(a, m[i].size());
                NOTE("x%lu = its bytes %lu to %lu", i, a, b);
                String_View v = s.coin() ? x[i]->sub(a, b) : x[i]->view().sub(a, b);
                CHECK(str(v) == m[i].substr(a, b - a) && (b == a || v.data() == x[i]->data() + a), "sub(%lu, %lu) is %s", a, b, q(str(v)).c_str());
                *x[i] = v.string<TA<0>>();
                m[i] = m[i].substr(a, b - a);
                break;
            }
            case 7: {
                NOTE("terminate x%lu", i);
                S1 z = s.coin() ? x[i]->terminate<TA<1>>() : x[i]->view().terminate<TA<1>>();
                CHECK(str(z) == m[i] + std::string(1, '\0'), "terminate gives %s", q(str(z)).c_str());
                std::string upto = m[i].c_str();
                CHECK(str(String_View{(const char*)z.data()}) == upto, "the C string is %s", q(str(String_View{(const char*)z.data()})).c_str());
                break;
            }
            case 8: { // capacity, length, writes
                U cap = s.range(1, 60), len = s.draw(cap);
                NOTE("x%lu = String(%lu) of length %lu, written", i, cap, len);
                S0 n{cap};
                CHECK(n.length() == 0 && n.empty() && n.capacity() == cap, "a fresh string has length %lu, capacity %lu", n.length(), n.capacity());
                n.set_length(len);
                CHECK(n.length() == len, "set_length");
                std::string e(len, '\0');
                U at = 0;
                while(at < len) {
                    U room = len - at;
                    switch(s.draw(2)) {
                    case 0: {
                        char ch = (char)s.draw(255);
                        U r = n.write(at, ch);
                        CHECK(r == at + 1, "write of a character returned %lu", r);
                        e[at++] = ch;
                        break;
                    }
                    case 1: {
                        std::string t2 = text(s, 10).substr(0, room);
                        U r = n.write(at, view(t2));
                        CHECK(r == at + t2.size(), "write returned %lu", r);
                        e.replace(at, t2.size(), t2);
                        at += t2.size();
                        break;
                    }
                    case 2: {
                        std::string t2 = text(s, 10).substr(0, room);
                        S1 o = view(t2).string<TA<1>>();
                        U r = n.write(at, o);
                        CHECK(r == at + t2.size(), "write returned %lu", r);
                        e.replace(at, t2.size(), t2);
                        at += t2.size();
                        break;
                    }
                    }
                    if(at < len && s.chance(1, 30)) {
                        for(; at < len; at++) (void)n.write(at, '.'), e[at] = '.';
                    }
                }
                *x[i] = rpp::move(n);
                m[i] = e;
                break;
            }
            case 9:
                if(m[i].size()) {
                    U k = s.draw(m[i].size() - 1);
                    u8 v = (u8)s.draw(255);
                    NOTE("x%lu[%lu] = %d", i, k, v);
                    if(s.coin()) (*x[i])[k] = v;
                    else *(x[i]->begin() + k) = v;
                    m[i][k] = (char)v;
                    edits++;
                }
                break;
            case 10: {
                U n = s.draw(4);
                if(m[i].size() + 4 * m[j].size() > 5000) break;
                std::string sep = text(s, 4);
                String_View vs = view(sep);
                NOTE("x%lu = concat of %lu parts, separator %s", i, n, q(sep).c_str());
                std::string mi = m[i];
                String_View vi = x[i]->view();
                S1 sj = x[j]->view().string<TA<1>>();
                String_View vj = sj.view();
                std::string mj = m[j], e;
                auto fresh = [&]() { return sj.clone(); };
                S0 r;
                switch(n) {
                case 0: r = rpp::concat<TA<0>>(vs, rpp::move(vi)); e = mi; break;
                case 1: r = rpp::concat<TA<0>>(vs, rpp::move(vi), fresh()); e = mi + sep + mj; break;
                case 2: r = rpp::concat<TA<0>>(vs, fresh(), rpp::move(vi), rpp::move(vj)); e = mj + sep + mi + sep + mj; break;
                case 3: r = rpp::concat<TA<0>>(vs, String_View{}, rpp::move(vi), ""_v); e = sep + mi + sep; break;
                case 4: r = rpp::concat<TA<0>>(vs, fresh(), fresh(), String_View{}, rpp::move(vi)); e = mj + sep + mj + sep + sep + mi; break;
                }
                CHECK(str(r) == e, "concat gives %s, expected %s", q(str(r)).c_str(), q(e).c_str());
                *x[i] = rpp::move(r);
                m[i] = e;
                edits++;
                break;
            }
            case 11:
                NOTE("renew x%lu", i);
                x[i] = std::make_unique<S0>();
                m[i].clear();
                break;
            }
            for(U k = 0; k < N; k++) {
                const S0& r = *x[k];
                CHECK(r.length() == m[k].size() && r.empty() == m[k].empty(), "x%lu has length %lu, expected %lu", k, r.length(), m[k].size());
                CHECK(str(r) == m[k], "x%lu is %s, expected %s", k, q(str(r)).c_str(), q(m[k]).c_str());
                CHECK(r.capacity() >= r.length(), "capacity below length");
                std::string it;
                for(u8 ch : r) it += (char)ch;
                CHECK(it == m[k], "iteration yields %s", q(it).c_str());
                String_View v = r.view();
                CHECK(v.length() == m[k].size() && v.data() == r.data() && v == r, "view differs from its string");
                for(U e = 0; e < m[k].size(); e += 1 + e / 3) CHECK(r[e] == (u8)m[k][e] && v[e] == (u8)m[k][e], "x%lu[%lu] is %d", k, e, r[e]);
            }
        }
        if(edits >= 2) pbt::nontrivial();
    }
    c.settled("after the strings are gone");
}

// Views: C strings, literals, copies, iteration.
PROP(views, 20000, 500000) {
    std::string a = text(s, 60);
    NOTE("a = %s", q(a).c_str());
    std::string cs = a.c_str();
    String_View v{cs.c_str()};
    CHECK(str(v) == cs && v.data() == (const u8*)cs.c_str(), "view of the C string is %s", q(str(v)).c_str());
    String_View w = view(a), x = w, y = rpp::move(x), z;
    z = w;
    CHECK(z.empty() == a.empty() && str(y) == a && str(z) == a && str(w.clone()) == a && z.data() == w.data(), "a copied view differs");
    std::string it;
    for(u8 ch : w) it += (char)ch;
    CHECK(it == a, "iteration yields %s", q(it).c_str());
    U i = s.draw(a.size()), j = s.range(i, a.size());
    U k = s.draw(j - i), l = s.range(k, j - i);
    CHECK(str(w.sub(i, j)) == a.substr(i, j - i) && str(w.sub(i, j).sub(k, l)) == a.substr(i + k, l - k), "sub(%lu, %lu).sub(%lu, %lu) is wrong", i, j, k, l);
    Literal lit;
    U n = std::min<U>(cs.size(), s.of<U>({31, 32, 31}));
    for(U e = 0; e < n; e++) lit.c_string[e] = cs[e];
    CHECK(str(String_View{lit}) == cs.substr(0, n), "view of the literal is %s", q(str(String_View{lit})).c_str());
    CHECK(str("ab\0c"_v) == std::string("ab\0c", 4) && str(""_v).empty() && str(String_View{Literal{"0123456789012345678901234567890"}}).size() == 31, "literals");
    if(a.size() > 2) pbt::nontrivial();
}

PROP(path_helpers, 60000, 2000000) {
    std::string a;
    U n = s.draw(12);
    for(U i = 0; i < n; i++) a += s.of<char>({'a', '/', '.', '\\', 'b', '\0', '\xff'});
    NOTE("path %s", q(a).c_str());
    U sep = a.find_last_of("/\\"), cut = sep == std::string::npos ? 0 : sep + 1;
    std::string dot_chars = "/\\.";
    U dot = a.find_last_of(dot_chars), ext = dot == std::string::npos ? 0 : dot + 1;
    String_View v = view(a);
    CHECK(str(v.file_suffix()) == a.substr(cut), "file_suffix is %s", q(str(v.file_suffix())).c_str());
    CHECK(str(v.remove_file_suffix()) == a.substr(0, cut), "remove_file_suffix is %s", q(str(v.remove_file_suffix())).c_str());
    CHECK(str(v.file_extension()) == a.substr(ext), "file_extension is %s", q(str(v.file_extension())).c_str());
    CHECK(str(v.remove_file_suffix()) + str(v.file_suffix()) == a, "directory and file do not make up the path");
    if(dot != std::string::npos && n > 2) pbt::nontrivial();
}

enum class Col : u8 { red, green, blu, re, x };
RPP_ENUM(Col, red, RPP_CASE(red), RPP_CASE(green), RPP_CASE(blu), RPP_CASE(re), RPP_CASE(x));

static bool ws(unsigned char c) {
    return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v';
}
PROP(parsing, 80000, 2500000) {
    auto spaces = [&](U max) {
        std::string r;
        U n = s.draw(max);
        for(U i = 0; i < n; i++) r += s.of<char>({' ', '\t', '\n', '\r', '\v'});
        return r;
    };
    std::string lead = spaces(3);
    std::string tail = s.coin() ? "" : s.of<std::string>({" ", "x", ",12", " 7", "\n", std::string("\0" "1", 2), "/", "_5", "\xff"});
    switch(s.draw(3)) {
    case 0: {
        int64_t v = (int64_t)s.bits(64);
        std::string num = std::to_string(v);
        if(v >= 0 && s.chance(1, 4)) num = "+" + num;
        if(s.chance(1, 4)) num.insert(num[0] == '-' || num[0] == '+', std::string(s.range(1, 25), '0'));
        std::string in = lead + num + tail;
        NOTE("parse_i64 %s", q(in).c_str());
        auto r = Format::parse_i64(view(in));
        CHECK(r.ok() && r->first == v, "parse_i64 gives %s %ld, expected %ld", r.ok() ? "" : "nothing", r.ok() ? (long)r->first : 0, (long)v);
        CHECK(str(r->second) == tail && (const char*)r->second.data() == in.data() + in.size() - tail.size(), "rest is %s, expected %s", q(str(r->second)).c_str(), q(tail).c_str());
        break;
    }
    case 1: {
        f32 v;
        u32 b = (u32)s.bits(32);
        memcpy(&v, &b, 4);
        if(!std::isfinite(v)) v = (f32)(int)b / 1024.f;
        char num[64];
        snprintf(num, 64, "%.9g", (double)v);
        std::string in = lead + num + (tail == ",12" || tail == " 7" || tail.empty() || tail == "/" ? tail : " " + tail), rest = in.substr(lead.size() + strlen(num));
        NOTE("parse_f32 %s", q(in).c_str());
        auto r = Format::parse_f32(view(in));
        CHECK(r.ok(), "parse_f32 gives nothing");
        u32 g;
        memcpy(&g, &r->first, 4);
        memcpy(&b, &v, 4);
        CHECK(g == b, "parse_f32 gives %.9g, expected %.9g", (double)r->first, (double)v);
        CHECK(str(r->second) == rest, "rest is %s, expected %s", q(str(r->second)).c_str(), q(rest).c_str());
        break;
    }
    case 2: { // words
        std::string word;
        U n = s.draw(5);
        for(U i = 0; i < n; i++) word += s.of<char>({'a', 'b', '\0', '\xff', '/', 'z'});
        std::string after = s.coin() ? "" : s.of<std::string>({" ", "\t", "\n"}) + text(s, 6);
        std::string in = lead + word + after;
        NOTE("parse_string %s", q(in).c_str());
        size_t b = 0;
        while(b < in.size() && ws((unsigned char)in[b])) b++;
        size_t e = b;
        while(e < in.size() && !ws((unsigned char)in[e])) e++;
        auto r = Format::parse_string(view(in));
        CHECK(r.ok() == (e > b), "parse_string reports %d", r.ok());
        if(r.ok()) {
            CHECK(str(r->first) == in.substr(b, e - b), "word is %s", q(str(r->first)).c_str());
            CHECK(str(r->second) == (e < in.size() ? in.substr(e + 1) : ""), "rest is %s", q(str(r->second)).c_str());
        }
        CHECK(str(Format::skip_whitespace(view(in))) == in.substr(b), "skip_whitespace gives %s", q(str(Format::skip_whitespace(view(in)))).c_str());
        if(n) pbt::nontrivial();
        break;
    }
    case 3: { // enumerators, and garbage that is not a number
        static const char* names[] = {"red", "green", "blu", "re", "x"};
        U k = s.draw(8);
        std::string in = lead + (k < 5 ? names[k] : k == 5 ? "gree" : k == 6 ? "redd" : k == 7 ? "" : "-") + (s.coin() ? " rest" : "");
        NOTE("parse_enum %s", q(in).c_str());
        auto r = Format::parse_enum<Col>(view(in));
        CHECK(r.ok() == (k < 5), "parse_enum reports %d", r.ok());
        if(r.ok()) CHECK((U)r->first == k, "parse_enum gives case %lu", (U)r->first);
        std::string junk = lead + s.of<std::string>({"", "x1", "-", "+", "--1", "_", "/3"}) + tail;
        char* end;
        strtoll(junk.c_str(), &end, 10);
        if(end == junk.c_str()) CHECK(!Format::parse_i64(view(junk)).ok(), "parse_i64 of %s yields a number", q(junk).c_str());
        strtof(junk.c_str(), &end);
        if(end == junk.c_str()) CHECK(!Format::parse_f32(view(junk)).ok(), "parse_f32 of %s yields a number", q(junk).c_str());
        break;
    }
    }
    pbt::nontrivial();
}

PROP(characters, 300, 300) {
    U c = s.draw(255);
    for(c = 0; c < 256; c++) {
        u8 up = c >= 'a' && c <= 'z' ? (u8)(c - 32) : (u8)c, lo = c >= 'A' && c <= 'Z' ? (u8)(c + 32) : (u8)c;
        CHECK(ascii::to_uppercase((u8)c) == up, "to_uppercase(%lu) is %d", c, ascii::to_uppercase((u8)c));
        CHECK(ascii::to_lowercase((u8)c) == lo, "to_lowercase(%lu) is %d", c, ascii::to_lowercase((u8)c));
        if(c != '\f') CHECK(ascii::is_whitespace((u8)c) == ws((unsigned char)c), "is_whitespace(%lu) is %d", c, ascii::is_whitespace((u8)c));
    }
    pbt::nontrivial();
}

// Strings of up to 2^18 bytes: every operation past the sizes that short histories reach.
PROP(long_strings, 1200, 30000) {
    Case c;
    {
        U seed = s.draw(~0ull), n = big_size(s, s.of<U>({9, 12, 17})), kind = s.draw(3);
        std::string a(n, 'a');
        if(kind)
            for(U i = 0; i < n; i++) a[i] = kind == 1 ? (char)pbt::mix(seed + i) : kind == 2 ? "ab"[pbt::mix(seed + i) & 1] : (char)(i % 251);
        std::string b = a;
        U edit = s.draw(5), at = s.coin() ? s.draw(n - 1) : s.coin() ? n - 1 - s.draw(std::min<U>(n - 1, 20)) : s.draw(std::min<U>(n - 1, 20));
        switch(edit) {
        case 0: break;
        case 1: b[at] ^= (char)(1u << s.draw(7)); break;
        case 2: b.resize(n - 1 - s.draw(std::min<U>(n - 1, 300))); break;
        case 3: b += std::string(1 + s.draw(300), s.of<char>({'\0', 'z', '\xff'})); break;
        case 4: b[at] = 0; break;
        case 5: std::swap(b[at], b[s.draw(n - 1)]); break;
        }
        NOTE("%lu bytes of kind %lu, edit %lu at %lu", n, kind, edit, at);
        bool eq = a == b, lt = a < b, gt = b < a;
        String_View va = view(a), vb = view(b);
        S0 sa = va.string<TA<0>>(), sb0 = vb.string<TA<0>>();
        S1 sb = vb.string<TA<1>>();
        CHECK(str(sa) == a && str(sb) == b, "an owning string differs from its view");
        CHECK((va == vb) == eq && (sa == vb) == eq && (va == sb) == eq && (sa == sb) == eq && (sa == sb0) == eq, "equality is not %d", (int)eq);
        CHECK((va != vb) == !eq && (sa != sb) == !eq, "!= is not the opposite of ==");
        CHECK((va < vb) == lt && (vb < va) == gt && (sa < sb) == lt && (sb < sa) == gt && (sa < sb0) == lt, "order is not %d, %d", (int)lt, (int)gt);
        S0 cl = sa.clone();
        CHECK(str(cl) == a && cl.data() != sa.data(), "clone differs");
        CHECK(str(sa.append<TA<0>>(sb)) == a + b && str(va.append<TA<1>>(vb)) == a + b, "append differs");
        CHECK(str(sa.terminate<TA<1>>()) == a + '\0' && str(va.terminate<TA<0>>()) == a + '\0', "terminate differs");
        U i = s.draw(n), j = s.range(i, n);
        CHECK(str(va.sub(i, j)) == a.substr(i, j - i) && str(sa.sub(i, j)) == a.substr(i, j - i), "sub(%lu, %lu) differs", i, j);
        CHECK(str(rpp::concat<TA<0>>(view("--"), String_View{va}, String_View{vb})) == a + "--" + b, "concat differs");
        CHECK(str(rpp::concat<TA<0>>(va, "x"_v, String_View{vb}, ""_v, String_View{vb})) == "x" + a + b + a + a + b, "concat with a long separator differs");
        S0 w{n + b.size() + 1};
        w.set_length(n + b.size() + 1);
        U p = w.write(0, va);
        CHECK(p == n, "write returned %lu, expected %lu", p, n);
        p = w.write(p, '|');
        p = w.write(p, sb);
        CHECK(p == n + 1 + b.size() && str(w) == a + "|" + b, "written text differs");
        U k = s.draw(n - 1);
        w[k] = (u8)(a[k] ^ 1);
        CHECK(w[k] == (u8)(a[k] ^ 1) && w.length() == n + b.size() + 1 && (u8)str(w)[k] == (u8)(a[k] ^ 1), "w[%lu] was not written", k);
        U cnt = 0;
        for(u8 ch : sa) {
            CHECK(ch == (u8)a[cnt], "iteration differs at %lu", cnt);
            cnt++;
        }
        CHECK(cnt == n, "iteration yields %lu of %lu bytes", cnt, n);
        S0 mv = rpp::move(sa);
        CHECK(str(mv) == a && sa.empty(), "moved string differs");
        std::string cs = a.c_str();
        CHECK(str(String_View{cs.c_str()}) == cs, "C string of %lu bytes differs", (U)cs.size());
        // long paths and words
        std::string path(n, 'd');
        for(U e = s.draw(3); e > 0; e--) path[s.draw(n - 1)] = s.of<char>({'/', '.', '\\'});
        U sep = path.find_last_of("/\\"), cut = sep == std::string::npos ? 0 : sep + 1, dot = path.find_last_of("/\\."), ext = dot == std::string::npos ? 0 : dot + 1;
        CHECK(str(view(path).file_suffix()) == path.substr(cut) && str(view(path).remove_file_suffix()) == path.substr(0, cut) && str(view(path).file_extension()) == path.substr(ext), "parts of a path of %lu bytes differ", n);
        std::string in = std::string(s.draw(400), ' ') + std::string(n, 'w') + " " + a;
        auto word = Format::parse_string(view(in));
        CHECK(word.ok() && str(word->first) == std::string(n, 'w') && str(word->second) == a, "a word of %lu bytes is not parsed", n);
        std::string num = std::string(s.draw(400), ' ') + std::string(s.draw(n), '0') + "123456789012", more = num + "x" + a;
        auto in64 = Format::parse_i64(view(more));
        CHECK(in64.ok() && in64->first == 123456789012 && str(in64->second) == "x" + a, "an integer of %lu bytes is not parsed", (U)num.size());
        if(n > 300) pbt::nontrivial();
        if(n > 65536) pbt::label("more than 65536 bytes");
    }
    c.settled("after the strings are gone");
}
