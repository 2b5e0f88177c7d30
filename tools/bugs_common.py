"""Shared by the planted bugs."""
ASAN = "-DRPP_RELWITHDEBINFO_BUILD -fsanitize=address"
TOK = r'''
static int live = 0;
struct Tok {
    int v = 0; bool own = false;
    explicit Tok(int v) noexcept : v(v), own(true) { live++; }
    Tok() noexcept : own(true) { live++; }
    Tok(Tok&& o) noexcept : v(o.v), own(o.own) { o.own = false; }
    Tok& operator=(Tok&& o) noexcept { if(own) live--; v = o.v; own = o.own; o.own = false; return *this; }
    ~Tok() noexcept { if(own) live--; own = false; }
    Tok clone() const noexcept { return Tok{v}; }
    bool operator==(const Tok& o) const noexcept { return v == o.v; }
    bool operator<(const Tok& o) const noexcept { return v < o.v; }
};
'''
BUGS = []
