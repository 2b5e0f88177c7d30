"""Random programs for C30: enumerations, records, type lists and types with their expected reflection."""
import random

INTS = {"u8": (0, 2**8 - 1), "i8": (-2**7, 2**7 - 1), "u16": (0, 2**16 - 1), "i16": (-2**15, 2**15 - 1),
        "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1)}
SCALARS = list(INTS) + ["f32", "f64", "bool", "char"]
WORDS = "alpha beta gamma delta omega red green blue first last north south up down left right size data next prev".split()

def lit(v, ty):
    if v == -2**63:
        return "(-9223372036854775807ll - 1)"
    return f"{v}{'ull' if v > 2**63 - 1 else 'll'}"

def names(r, n, pre):
    out = []
    while len(out) < n:
        w = r.choice(WORDS)
        w = r.choice([w, w + "_", w + str(r.randrange(10)), "_" + w, w.upper(), w + "_" + r.choice(WORDS), r.choice("abcxyzABCXYZ"),
                      (w * 8)[:31]])
        if w not in out and w not in ("_",) and not w.startswith("_") or w.startswith("_") and w[1].islower() and w not in out:
            out.append(w)
    return out

class Prog:
    def __init__(self, r, idx):
        self.r, self.ns, self.defs, self.refl, self.checks, self.n = r, f"g{idx}", [], [], [], 0
        self.enums, self.records = [], []  # (qualified type, reflected name)

    def entry(self, what, body):
        i = self.n
        self.n += 1
        self.checks.append(f'static void c{i}([[maybe_unused]] Src& s) {{\n{body}\n}}\nstatic Register r{i}("{what}", c{i});\n')

    def enum(self, k):
        r = self.r
        under = r.choice(list(INTS))
        lo, hi = INTS[under]
        n = r.choice([1, 2, 3, r.randrange(1, 12), r.randrange(1, 60), r.randrange(1, 60), r.randrange(60, 140)])
        vals = set()
        while len(vals) < n:
            c = r.randrange(6)
            vals.add(min(hi, max(lo, [r.randrange(0, 40), lo + r.randrange(3), hi - r.randrange(3), r.randrange(lo, hi + 1),
                                      (1 << r.randrange(63)) + r.randrange(3) - 1, -r.randrange(1, 9)][c])))
        vals = list(vals)
        r.shuffle(vals)
        nm = names(r, n, "c")
        ty = f"Enum{k}"
        scoped = r.random() < 0.7
        if scoped:
            self.defs.append(f"enum class {ty} : {under} {{ " + ", ".join(f"{a} = ({under}){lit(v, under)}" for a, v in zip(nm, vals)) + " };")
        else:
            self.defs.append(f"struct Holder{k} {{ enum {ty} : {under} {{ " + ", ".join(f"{a} = ({under}){lit(v, under)}" for a, v in zip(nm, vals)) + " }; };")
            ty = f"Holder{k}::{ty}"
        q = f"{self.ns}::{ty}"
        listed = list(zip(nm, vals))
        r.shuffle(listed)
        if r.random() < 0.4:
            listed = listed[:r.randrange(1, len(listed) + 1)]
        dflt = r.choice(nm)
        cs = ", ".join(f"RPP_CASE({a})" for a, _ in listed)
        if r.random() < 0.5:
            rn = q
            self.refl.append(f"RPP_ENUM({q}, {dflt}, {cs});")
        else:
            rn = r.choice(["Name", "a name", "T%", "Kind", "x::y", "a name of thirty-one characters"])
            self.refl.append(f'RPP_NAMED_ENUM({q}, "{rn}", {dflt}, {cs});')
        self.enums.append((q, rn))
        b = f"    using E = {q};\n    cases<E>(s, {{" + ", ".join(f'{{"{a}", (E)({under}){lit(v, under)}}}' for a, v in listed)
        b += f'}}, E::{dflt}, "{rn}");\n'
        # while compiling
        b += "    constexpr U n = [] { U c = 0; Reflect::iterate_enum<E>([&](const Literal&, E) { c++; }); return c; }();\n"
        b += f'    CHECK(n == {len(listed)}, "%lu cases while compiling, {len(listed)} declared", n);\n'
        a, v = r.choice(listed)
        b += f'    constexpr Literal nm = rpp::Format::enum_name((E)({under}){lit(v, under)});\n    CHECK(std::string((const char*)nm) == "{a}", "named %s while compiling, declared {a}", (const char*)nm);\n'
        b += f"    CHECK((Reflect::List_Length<typename Reflect::Refl<E>::members>) == {len(listed)}, \"the list of cases has another length\");\n"
        b += "    pbt::label(\"enum\");\n    if(n > 3) pbt::nontrivial();"
        self.entry(f"enum {q}", b)

    def ftype(self):
        """(type spelling, declarator suffix, plain bytes?)"""
        r = self.r
        c = r.randrange(14)
        if c < 5: return r.choice(SCALARS), "", True
        if c == 5 and self.enums: return r.choice(self.enums)[0], "", True
        if c == 6 and self.records:
            q, _, plain = r.choice(self.records)
            return q, "", plain
        if c == 7: return r.choice(SCALARS), f"[{r.choice([r.randrange(1, 6), r.randrange(1, 6), r.randrange(6, 60), 5000])}]", True
        if c == 8: return r.choice(["u8*", "const char*", "void*", "f32**", "const i32*"]), "", True
        if c == 9: return "rpp::String_View", "", False
        if c == 10: return r.choice(["rpp::Vec<i32>", "rpp::String<>", "rpp::Opt<u64>", "rpp::Box<i32>", "rpp::Map<u64, u64>"]), "", False
        if c == 11: return r.choice(["rpp::Pair<u8, f64>", "rpp::Vec3", "rpp::Slice<u8>", "rpp::Tuple<u8, u16>"]), "", False
        if c == 12: return "const " + r.choice(["i32", "u8", "f64"]), "", True
        return r.choice(SCALARS), "", True

    def record(self, k):
        r = self.r
        n = r.choice([0, 1, 2, 3, r.randrange(1, 9), r.randrange(1, 25)])
        fs = [(a, *self.ftype()) for a in names(r, n, "f")]
        plain = all(p for *_, p in fs)
        bases = r.random() < 0.15
        tmpl = r.random() < 0.3
        ty = f"Record{k}"
        decl = []
        for a, t, suf, _ in fs:
            al = "alignas(32) " if r.random() < 0.04 else ""
            init = " = {}" if t.startswith("const ") and not t.endswith("*") else ""
            decl.append(f"{al}{t} {a}{suf}{init};")
            if r.random() < 0.15:
                decl.append(f"static inline i32 hidden_{a} = 7;")
        body = " ".join(decl)
        targ = ""
        if tmpl:
            p = r.choice(["typename T", "typename T, u64 N", "u64 N"])
            args = {"typename T": ("T", "u16"), "typename T, u64 N": ("T, N", "f32, 3"), "u64 N": ("N", "5")}[p]
            if "typename T" in p:
                body += " T tee{};"
                fs.append(("tee", args[1].split(",")[0], "", True))
            self.defs.append(f"template<{p}> struct {ty} {{ {body} }};")
            targ = f"<{args[1]}>"
        else:
            self.defs.append(f"struct {ty} {{ {body} }};")
        q0 = f"{self.ns}::{ty}"
        q = q0 + targ
        listed = list(fs)
        r.shuffle(listed)
        if r.random() < 0.4 and listed:
            listed = listed[:r.randrange(0 if r.random() < .2 else 1, len(listed) + 1)]
        named = r.random() < 0.5
        rn = r.choice(["R", "a record", "a name of thirty-one characters", "%v"]) if named else q0
        fl = "".join(f", RPP_FIELD({a})" for a, *_ in listed)
        if tmpl:
            pack = args[0] if "," not in args[0] else f"RPP_PACK({args[0]})"
            self.refl.append(f"template<{p}>")
            self.refl.append(f'RPP_NAMED_TEMPLATE_RECORD({q0}, "{rn}", {pack}{fl});' if named else f"RPP_TEMPLATE_RECORD({q0}, {pack}{fl});")
        else:
            self.refl.append(f'RPP_NAMED_RECORD({q}, "{rn}"{fl});' if named else f"RPP_RECORD({q}{fl});")
        self.records.append((q, rn, plain))
        al = "alignas(64) unsigned char mem[sizeof(R) + 1]; memset(mem, (int)s.draw(255), sizeof mem);"
        b = f"    using R = {q};\n    {al}\n    R* r = new(mem) R();\n"
        b += f"    fields(s, *r, {'true' if plain else 'false'}, [](const R& o) {{ std::vector<Want> w;\n"
        for a, t, suf, _ in listed:
            b += f'        w.push_back({{"{a}", tid<std::remove_cv_t<decltype(R::{a})>>(), sizeof(o.{a}), &o.{a}, std::is_const_v<decltype(R::{a})>}});\n'
        b += "        (void)o; return w; });\n"
        b += f'    kind<R>("{q}", Reflect::Kind::record_, "{rn}");\n    kind<const R>("const {q}", Reflect::Kind::record_, "{rn}");\n'
        b += f'    CHECK(Reflect::Record<R> && Reflect::Record<const R> && !Reflect::Enum<R>, "not recognized as a record");\n'
        b += f'    CHECK((Reflect::List_Length<typename Reflect::Refl<R>::members>) == {len(listed)}, "the list of fields has another length");\n'
        b += "    r->~R();\n    pbt::label(\"record\");\n"
        b += "    pbt::nontrivial();" if len(listed) > 3 else ""
        self.entry(f"record {q}", b)

    TYPES = ["void", "void*", "const i32", "i32&", "const i32&", "i32&&", "i32*", "const i32*", "i32* const", "i32[3]", "i32[4]", "i32[]",
             "i32(i32)", "i32(*)(i32)", "volatile u8", "rpp::Vec<i32>", "rpp::Vec<u32>", "rpp::Opt<i32>", "rpp::String<>",
             "rpp::String_View", "decltype(nullptr)", "long long", "unsigned long long", "long double", "rpp::Empty<>", "std::string"]

    def lists(self):
        r = self.r
        pool = SCALARS + [t for t in self.TYPES if t != "long long"] + [q for q, _ in self.enums] + [q for q, *_ in self.records]
        pool = r.sample(pool, min(len(pool), r.choice([1, 2, 4, 12, 40])))
        L = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 3, r.randrange(0, 10), r.randrange(0, 60), r.randrange(60, 140)]))]
        if r.random() < 0.3:
            L = list(dict.fromkeys(L))
        if r.random() < 0.1 and L:
            L = [L[0]] * len(L)
        c = r.random()
        if c < 0.15 and len(pool) > 1: # runs
            L = [t for t in r.sample(pool, 2) * r.randrange(1, 3) for _ in range(r.randrange(1, 5))]
        elif c < 0.3 and len(pool) > 1: # all alike but one
            L = [pool[0]] * r.randrange(1, 7)
            L.insert(r.randrange(len(L) + 1), pool[1])
        T = ", ".join(L)
        pk = (lambda x: ", " + x if x else "")(T)
        b = f"    using L = Reflect::List<{T}>;\n"
        b += f'    CHECK((Reflect::List_Length<L>) == {len(L)}, "a list of {len(L)} types has length %lu", (U)Reflect::List_Length<L>);\n'
        b += f'    CHECK((std::is_same_v<Reflect::Reverse<L>, Reflect::List<{", ".join(reversed(L))}>>), "the reverse of a list is another list");\n'
        b += f'    CHECK((std::is_same_v<Reflect::Enumerate<{T}>, Reflect::List<{", ".join(f"rpp::Constant<u64, {i}>" for i in range(len(L)))}>>), "a list is enumerated differently");\n'
        b += '    CHECK(Reflect::Type_List<L> && !Reflect::Type_List<i32> && !Reflect::Type_List<Pack<L>>, "lists are not told from other types");\n'
        b += f'    CHECK((order<L>() == std::vector<const void*>{{{", ".join(f"tid<{t}>()" for t in L)}}}), "a list is visited in another order");\n'
        good = set(r.sample(sorted(set(L)), r.randrange(len(set(L)) + 1))) if L else set()
        if r.random() < 0.4: good = set(L)
        pid = self.n
        self.checks.append(f"struct Pred{pid} {{ template<typename T> static constexpr bool value = " + (" || ".join(f"std::is_same_v<T, {t}>" for t in sorted(good)) or "false") + "; };\n")
        b += f'    CHECK((Reflect::All<Pred{pid}, L>) == {str(all(t in good for t in L)).lower()}, "a predicate of all types of a list is wrong");\n'
        def tf(x): return str(bool(x)).lower()
        b += f'    CHECK((rpp::Distinct<{T}>) == {tf(len(set(L)) == len(L))}, "distinctness");\n'
        b += f'    CHECK((rpp::All_Same<{T}>) == {tf(len(set(L)) <= 1)}, "sameness");\n'
        for q in r.sample(pool, min(3, len(pool))) + L[:1]:
            b += f'    CHECK((rpp::One_Is<{q}{pk}>) == {tf(q in L)}, "membership of {q}");\n'
            b += f'    CHECK((rpp::All_Are<{q}{pk}>) == {tf(all(t == q for t in L))}, "all are {q}");\n'
        for n in (0, len(L), len(L) + 1):
            b += f'    CHECK((rpp::Length<{n}{pk}>) == {tf(n == len(L))}, "length");\n'
        for i in sorted(set(r.randrange(len(L)) for _ in range(6))) if L else []:
            b += f'    CHECK((std::is_same_v<rpp::Choose<{i}{pk}>, {L[i]}>), "choice {i} of {len(L)}");\n'
            b += f'    CHECK((rpp::Index_Of<{L[i]}{pk}>) == {L.index(L[i])}, "the index of {L[i]} is %lu", (U)rpp::Index_Of<{L[i]}{pk}>);\n'
        b += f'    CHECK((std::is_same_v<rpp::Index_Sequence_For<{T}>, rpp::Index_Sequence<{", ".join(map(str, range(len(L))))}>>), "index sequence");\n'
        b += "    pbt::label(\"list\");\n"
        b += "    pbt::nontrivial();" if len(L) > 3 and len(set(L)) > 1 else ""
        self.entry(f"list of {len(L)}", b)

    def types(self):
        r = self.r
        b = "    using namespace rpp;\n"
        for _ in range(8):
            base = r.choice(SCALARS + ["long long", "unsigned long", "char16_t", "wchar_t", "long", "long double", "void"] + self.TYPES[15:20] +
                            [q for q, _ in self.enums] + [q for q, *_ in self.records])
            t, ref, arr = f"std::type_identity_t<{base}>", False, False
            for _ in range(r.randrange(5)):
                c = r.choice("cvp*&" + "r[")
                if ref: break
                if c == "c": t = f"std::add_const_t<{t}>"
                elif c == "v": t = f"std::add_volatile_t<{t}>"
                elif c == "p" or c == "*": t = f"std::add_pointer_t<{t}>"
                elif c == "&": t, ref = f"std::add_lvalue_reference_t<{t}>", True
                elif c == "r": t, ref = f"std::add_rvalue_reference_t<{t}>", True
                elif base != "void" and not arr: t, arr = f"std::type_identity_t<{t}[{r.randrange(1, 5)}]>", True
            b += f'    traits<{t}>("{t}");\n'
        # classes by construction
        k = self.n
        f = {x: r.random() < 0.5 for x in ("dflt", "copy", "move", "dtor", "eq", "lt", "clone", "abstract", "eqint", "noconst")}
        C = f"Class{k}"
        m = []
        m.append(f"{C}()" + (" = default;" if f["dflt"] else " = delete;"))
        m.append(f"{C}(const {C}&)" + (" = default;" if f["copy"] else " = delete;"))
        m.append(f"{C}({C}&&)" + (" = default;" if f["move"] else " = delete;"))
        m.append(f"explicit {C}(i32, i32) {{}}")
        if f["dtor"]: m.append(f"~{C}() {{}}")
        cst = "" if f["noconst"] else " const"
        if f["eq"]: m.append(f"{'int' if f['eqint'] else 'bool'} operator==(const {C}&){cst};")
        if f["lt"]: m.append(f"bool operator<(const {C}&){cst};")
        if f["clone"]: m.append(f"{C} clone(){cst};")
        if f["abstract"]: m.append("virtual void v() = 0;")
        self.checks.append(f"struct {C} {{ {' '.join(m)} }};\n")
        ab = f["abstract"]
        eq = f["eq"] and not f["eqint"] and not f["noconst"]
        def tf(x): return str(bool(x)).lower()
        if not ab:
            b += f'    EQN((Equality<{C}>), {tf(eq)}); EQN((Clone<{C}>), {tf(f["clone"] and f["move"] and not f["noconst"])});\n'
            b += f'    EQN((Default_Constructable<{C}>), {tf(f["dflt"])}); EQN((Copy_Constructable<{C}>), {tf(f["copy"])});\n'
            b += f'    EQN((Move_Constructable<{C}>), {tf(f["move"])}); EQN((Must_Destruct<{C}>), {tf(f["dtor"])});\n'
            b += f'    EQN((Constructable<{C}, i32, i32>), true); EQN((Constructable<{C}, i32>), false); EQN((Constructable<{C}, i32, void*>), false);\n'
        b += f'    EQN((Ordered<{C}>), {tf(f["lt"] and not f["noconst"])}); EQN((Abstract<{C}>), {tf(ab)}); EQN((Not_Abstract<{C}>), {tf(not ab)});\n'
        b += f'    EQN((Reflect::Reflectable<{C}>), false); EQN((Reflect::Enum<{C}>), false); EQN((Reflect::Record<{C}>), false);\n'
        # callables
        args = [r.choice(["i32", "const i32&", "f64", "void*", "rpp::Vec<i32>", "rpp::Vec<i32>&", "i32&", "i32&&"]) for _ in range(r.randrange(4))]
        ret = r.choice(["void", "i32", "i32&", "const rpp::Vec<i32>&", "rpp::Vec<i32>", "void*"])
        F = f"Call{k}"
        self.checks.append(f"struct {F} {{ {ret} operator()({', '.join(args)}){r.choice(['', ' const', ' noexcept'])}; }};\n")
        for _ in range(4):
            given = list(args) if r.random() < 0.4 else [r.choice(["i32", "i32&", "const i32&", "f64", "void*", "rpp::Vec<i32>", "rpp::Vec<i32>&", "char"])
                     for _ in range(len(args) if r.random() < 0.7 else r.randrange(4))]
            g = "".join(", " + x for x in given)
            b += f'    call<{F}{g}>("{F}{g}");\n'
        # kinds
        K = {"f32": "f32_", "f64": "f64_", "bool": "bool_", "char": "char_", **{i: i + "_" for i in INTS}}
        for _ in range(6):
            t = r.choice(SCALARS)
            kd, nm, sp, alen = K[t], t, t, 0
            if r.random() < 0.2 and self.enums:
                sp, nm = r.choice(self.enums)
                kd = "enum_"
            for _ in range(r.randrange(4)):
                c = r.choice("c*[&")
                if kd == "ref": break
                if c == "c": sp = f"std::add_const_t<{sp}>"
                elif c == "*": sp, kd = f"std::add_pointer_t<{sp}>", "pointer_"
                elif c == "[" and kd != "array_":
                    alen = r.choice([1, r.randrange(1, 9), r.randrange(9, 300)])
                    sp, kd = f"std::type_identity_t<{sp}[{alen}]>", "array_"
            b += f'    kind<{sp}>("{sp}", Reflect::Kind::{kd}, "{nm}");\n'
            if kd == "array_": b += f"    EQN((Reflect::Refl<{sp}>::length), {alen});\n"
            for mark, q in (("is_const", "const"), ("is_volatile", "volatile"), ("is_const_volatile", "const volatile"), ("is_lvalue_reference", "&"), ("is_rvalue_reference", "&&")):
                if kd in ("array_", "pointer_") or "add_const" in sp: break
                x = f"{sp}{q}" if "&" in q else f"{q} {sp}"
                b += f"    EQN((std::is_same_v<typename Reflect::Refl<{x}>::{mark}, {x}>), true);\n"
            if kd not in ("enum_",):
                b += f"    EQN((Reflect::Enum<{sp}>), false); EQN((Reflect::Record<{sp}>), false);\n"
            else:
                b += f"    EQN((Reflect::Enum<{sp}>), true); EQN((Reflect::Record<{sp}>), false);\n"
        # literals
        ls = ["".join(r.choice("ab %:_\\0") for _ in range(r.choice([0, 1, 2, 30, 31, r.randrange(32)]))) for _ in range(4)]
        ls = [x.replace("\\", "/") for x in ls]
        ls.append(ls[-1][:-1] + "z" if ls[-1] else "z")
        for x in ls:
            b += f'    CHECK(std::string((const char*)Literal{{"{x}"}}) == "{x}" && String_View{{Literal{{"{x}"}}}}.length() == {len(x)}, "a literal has another text");\n'
            for y in ls:
                b += f'    EQN((Literal{{"{x}"}} == Literal{{"{y}"}}), {tf(x == y)});\n'
        b += "    pbt::label(\"types\");\n    pbt::nontrivial();"
        self.entry("types", b)

    def text(self):
        r = self.r
        for k in range(5): self.enum(k)
        for k in range(6): self.record(k)
        for _ in range(5): self.lists()
        for _ in range(3): self.types()
        return ('#include "c30.h"\n#define EQN(a, b) CHECK((a) == (b), "%s", #a)\nnamespace ' + self.ns + " {\nusing namespace rpp;\n" + "\n".join(self.defs) + "\n}\nusing namespace rpp;\n" +
                "\n".join(self.refl) + "\nnamespace " + self.ns + " {\nusing namespace g;\n" + "".join(self.checks) + "}\n")

def generate(seed, tier):
    n = 24 if tier == "quick" else 120
    return [Prog(random.Random(f"{seed}/{i}"), i).text() for i in range(n)]

if __name__ == "__main__":
    import sys
    print(generate(int(sys.argv[1]), "quick")[int(sys.argv[2])])
