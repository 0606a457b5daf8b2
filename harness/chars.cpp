// P03 (PROP=3): single-character forms against the documented sets. P04 (PROP=4): the same and longer regexes, case-insensitively.
#include "forms.hpp"
#include "lexcmp.hpp"
#include "gen.hpp"
#include <lexertl/state_machine.hpp>
using namespace forms;

static const std::size_t DNN = +lexertl::regex_flags::dot_not_newline, DNC = +lexertl::regex_flags::dot_not_cr_lf, IC = +lexertl::regex_flags::icase;

static std::string show(const set& s)
{
    std::ostringstream o;
    for (unsigned i = 0; i < 256; ++i)
    {
        if (!s[i]) continue;
        unsigned j = i;
        while (j < 255 && s[j + 1]) ++j;
        o << (o.tellp() > 0 ? " " : "") << std::hex << i;
        if (j > i) o << '-' << j;
        i = j;
    }
    return "{" + o.str() + "}";
}

// A locale with the letters of forms::current().
class facet : public std::ctype<char>
{
    letters _l;
    mask _table[table_size];
public:
    explicit facet(const letters& l) : std::ctype<char>(_table), _l(l)
    {
        const set al = l.lo | l.up | l.other;
        for (unsigned i = 0; i < 256; ++i)
        {
            _table[i] = i < 128 && !ascii()[i] ? classic_table()[i] : mask();
            if (l.lo[i]) _table[i] |= lower;
            if (l.up[i]) _table[i] |= upper;
            if (al[i]) _table[i] |= alpha;
        }
    }
protected:
    char do_toupper(char c) const override { const auto u = static_cast<unsigned char>(c); return _l.lo[u] ? static_cast<char>(_l.pair[u]) : c; }
    char do_tolower(char c) const override { const auto u = static_cast<unsigned char>(c); return _l.up[u] ? static_cast<char>(_l.pair[u]) : c; }
    const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
};
static std::locale loc;
static std::string where;
static void enter(const std::string& name, const letters& l) { forms::current() = l; where = name; loc = std::locale(std::locale::classic(), new facet(l)); }

// Builds the rule and checks it on every character, alone and followed by another one.
static void check(mc::ctx& c, const std::string& text, const set& want, bool valid, std::size_t flags)
{
    lexertl::rules r(flags);
    lexertl::state_machine sm;
    std::string err;
    c.describe(where + "\"" + mc::esc(text) + "\" flags=" + std::to_string(flags));
    if (!where.empty()) r.imbue(loc);
    ++c.traces;
    try { r.push(text, 1); lexertl::generator::build(r, sm); }
    catch (const lexertl::runtime_error& e) { err = e.what(); if (err.empty()) err = "(no message)"; }
    if (!valid || want.none())
    {
        ++c.transitions;
        c.state(mc::hash(text.data(), text.size()));
        c.outcome("rejected");
        if (err.empty()) c.fail("accepted", "this text must be rejected, but it is accepted");
        return;
    }
    if (!err.empty()) { c.fail("rejected", "a valid regex is rejected: " + err); return; }
    set got;
    for (unsigned i = 0; i < 256; ++i)
    {
        for (int second = 0; second < 2; ++second)
        {
            const char in[3] = { static_cast<char>(i), static_cast<char>(i), 0 };
            lexertl::cmatch m(in, in + 1 + second);
            lexertl::lookup(sm, m);
            ++c.transitions;
            c.state(mc::hash(text.data(), text.size(), i * 2 + static_cast<unsigned>(second) + flags * 1024));
            const bool hit = m.id == 1;
            if (!hit && m.id != lexertl::rules::npos()) c.fail("id", "unexpected id " + std::to_string(m.id) + " on character " + std::to_string(i));
            if (m.second != in + 1) c.fail("length", "the token on character " + std::to_string(i) + " does not have length 1");
            if (second && hit != got[i]) c.fail("context", "character " + std::to_string(i) + " matches or not depending on what follows");
            if (!second && hit) got.set(i);
        }
    }
    if (got != want) c.fail("set", "matches " + show(got) + ", expected " + show(want));
    c.outcome(show(got));
}

#if PROP == 3
static const std::size_t FLAGS = DNN;
static set F(const set& s) { return s; }
#else
static const std::size_t FLAGS = DNN | IC;
static set F(const set& s) { return fold(s); }
#endif
static set FN(const form& f) { return f.neg ? ~F(~f.s) : F(f.s); }

// A batch of forms makes one case.
struct batch
{
    mc::ctx& c;
    bool mine = false;
    std::size_t n = 0, size;
    batch(mc::ctx& c_, std::size_t s) : c(c_), size(s) {}
    void operator ()(const std::string& text, const set& s, bool valid = true, std::size_t flags = FLAGS)
    {
        if (n++ % size == 0) mine = c.next();
        if (!mine) return;
        check(c, text, s, valid, flags);
        if (c.want_sample()) c.sample(text + " = " + show(s));
    }
};

static void single(mc::ctx& c)
{
    const bool T = c.thorough;
    const auto esc = escapes(T), sc = shortcuts(), px = posix();
    batch b(c, 64);
    // One character in each context.
    for (unsigned i = 0; i < 256; ++i)
    {
        const std::string r = raw(i), k = in_set(i);
        const set s = F(one(i));
        if (!r.empty()) { b(r, s); b("(" + r + ")", s); b("(?#x)" + r, s); }
        if (i != '"' && i != '\\') b("\"" + std::string(1, char(i)) + "\"", s);
        if (i != '$' && i != '/' && !r.empty()) b(r + "{1}", s);
        b("[" + k + "]", s);
        b("[^" + k + "]", ~s);
        if (i != '\\' && i != ']' && i != '[' && i != '^') b("[" + std::string(1, char(i)) + "]", s);
        if (i != '\\' && i != ']') b("[x" + std::string(1, char(i)) + "]", F(one(i) | one('x')));
        if (i != '\\' && i != '[') b("[" + std::string(1, char(i)) + "x]", i == '^' ? ~F(one('x')) : F(one(i) | one('x')));
        if (i != '\\' && i != '[') b("[^" + std::string(1, char(i)) + "x]", ~F(one(i) | one('x')));
    }
    // Escapes outside, inside, negated and in strings.
    for (auto& e : esc)
    {
        const set s = F(e.s);
        b(e.text, s, e.valid);
        b("[" + e.text + "]", s, e.valid);
        b("[^" + e.text + "]", ~s, e.valid);
        b("\"" + e.text + "\"", s, e.valid);
        if (!e.valid) continue;
        b("[!" + e.text + "]", s | one('!'));
        b("[" + e.text + ",]", s | one(','));
        // Three octal digits end an escape, any other character ends a hex one.
        if (e.text.size() == 4 && e.text[1] < '8' && e.text[1] >= '0') b("[" + e.text + "7]", s | one('7'));
        if (e.text[1] >= '0' && e.text[1] <= '7') b("[" + e.text + "8]", s | one('8'));
        if (e.text[1] == 'x') b("[" + e.text + "g]", s | F(one('g')));
    }
    for (auto& e : sc)
    {
        b(e.text, FN(e));
        b("(" + e.text + ")", FN(e));
        b("\"" + e.text + "\"", FN(e));
    }
    std::vector<form> cl = sc;
    cl.insert(cl.end(), px.begin(), px.end());
    for (auto& e : cl)
    {
        b("[" + e.text + "]", FN(e));
        b("[^" + e.text + "]", ~FN(e));
        for (unsigned i = 0; i < 256; ++i) { b("[" + e.text + in_set(i) + "]", FN(e) | F(one(i))); if (T) b("[^" + in_set(i) + e.text + "]", ~(FN(e) | F(one(i)))); }
    }
    b("[-]", one('-')); b("[--]", one('-')); b("[a-]", F(one('a')) | one('-')); b("[-a]", F(one('a')) | one('-')); b("[^-]", ~one('-'));
    b("[]]", one(']')); b("[^]]", ~one(']')); b("[]a]", one(']') | F(one('a'))); b("[a^]", one('^') | F(one('a'))); b("[[]", one('[')); b("[a[]", one('[') | F(one('a')));
    b("[\\]]", one(']')); b("[\"]", one('"')); b("[.]", one('.')); b("[$]", one('$')); b("[(]", one('(')); b("[{]", one('{')); b("[|]", one('|')); b("[:]", one(':'));
    b("[+--]", range('+', '-')); b("[!--]", range('!', '-')); b("[--/]", range('-', '/')); b("[a-c-]", F(range('a', 'c')) | one('-')); b("[]-a]", F(range(']', 'a')));
    b("[a\\-c]", F(of("ac")) | one('-')); b("[\\^a]", F(one('a')) | one('^'));
    // Every range.
    batch g(c, 512);
    for (unsigned x = 0; x < 256; ++x) for (unsigned y = 0; y < 256; ++y)
    {
        if (PROP == 4 && !T && (x + 3 * y) % 4 && !(alnum(x) && alnum(y))) continue;
        const set s = x <= y ? F(range(x, y)) : set();
        g("[" + in_set(x) + "-" + in_set(y) + "]", s, x <= y);
        if (T && x <= y) g("[^" + in_set(x) + "-" + in_set(y) + "]", ~s);
        if (T || (x * 7 + y) % 16 == 0)
        {
            char t[32];
            std::snprintf(t, sizeof t, "[\\x%x-\\%03o]", x, y);
            g(t, s, x <= y);
        }
    }
    // Lists of two and three items.
    std::vector<form> items{ { "a", one('a') }, { "Z", one('Z') }, { "-", one('-') }, { "\\]", one(']') }, { "0-9", digits() }, { "a-m", range('a', 'm') }, { "M-b", range('M', 'b') },
        { "\\n", one('\n') }, { "\\200-\\377", range(0x80, 0xff) }, { "\\000", one(0) }, { "\\d", digits() }, { "\\W", ~word(), true, true }, { "\\S", ~spaces(), true, true },
        { "[:alpha:]", alpha() }, { "[:^print:]", ~range(0x20, 0x7e), true, true }, { "[:upper:]", upper() }, { "[:^lower:]", ~lower(), true, true }, { "[:punct:]", range(0x21, 0x7e) & ~ascii() & ~digits() }, { ".", one('.') }, { "^", one('^') } };
    const auto mixed = [](const std::vector<const form*>& v)
    {
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            if (v[i]->text == "-" && i > 0 && i + 1 < v.size()) return true;      // would write a range
            if (v[i]->text == "^" && i == 0) return true;                         // would negate
        }
        return false;
    };
    for (int neg = 0; neg < 2; ++neg) for (auto& x : items) for (auto& y : items)
    {
        if (!mixed({ &x, &y })) { const set s = FN(x) | FN(y); g(std::string(neg ? "[^" : "[") + x.text + y.text + "]", neg ? ~s : s); }
        for (auto& z : items)
        {
            if (PROP == 4 && !T && (&z - &items[0]) % 3) continue;
            if (mixed({ &x, &y, &z })) continue;
            const set s = FN(x) | FN(y) | FN(z);
            g(std::string(neg ? "[^" : "[") + x.text + y.text + z.text + "]", neg ? ~s : s);
        }
    }
    // {-} and {+} chains, applied from the left.
    std::vector<form> ops{ { "[a-z]", range(97, 122) }, { "[A-M]", range('A', 'M') }, { "x", one('x') }, { "\\d", digits() }, { "\\W", ~word(), true, true }, { "[^a-z]", ~range(97, 122), true, true }, { "[[:alnum:]]", alpha() | digits() },
        { "\\n", one('\n') }, { "[\\x00-\\x7f]", range(0, 0x7f) }, { "\"5\"", one('5') }, { "[^\\n]", ~one('\n'), true, true }, { ".", ~one('\n'), true, true }, { "[\\s\\S]", set().set() }, { "[_k]", of("_k") } };
    for (auto& x : ops) for (int o1 = 0; o1 < 2; ++o1) for (auto& y : ops)
    {
        const set s1 = o1 ? FN(x) | FN(y) : FN(x) & ~FN(y);
        const std::string t1 = x.text + (o1 ? "{+}" : "{-}") + y.text;
        g(t1, s1);
        g("(" + t1 + ")", s1);
        if (s1.none()) continue;
        for (int o2 = 0; o2 < 2; ++o2) for (auto& z : ops)
            g(t1 + (o2 ? "{+}" : "{-}") + z.text, o2 ? s1 | FN(z) : s1 & ~FN(z));
    }
    // Dot.
    const set nl = one('\n'), crlf = of("\r\n"), all = set().set();
    const std::size_t ic = FLAGS & IC;
    for (auto fl : { std::size_t(0), DNN, DNC })
    {
        const set d = fl == 0 ? all : fl == DNN ? ~nl : ~crlf;
        b(".", d, true, fl | ic); b("(.)", d, true, fl | ic); b(".{-}[a-z]", d & ~F(range(97, 122)), true, fl | ic); b("[.]", one('.'), true, fl | ic); b("\\.", one('.'), true, fl | ic);
        b("\".\"", one('.'), true, fl | ic); b("(?s:.)", all, true, fl | ic); b("(?s:(.))", all, true, fl | ic); b("(?is:.)", all, true, fl | ic); b("(?s-i:.)", all, true, fl | ic);
        b("(?i:.)", d, true, fl | ic); b("(?s:.{-}\\n)", ~nl, true, fl | ic);
        if (fl != DNC) { b("(?-s:.)", ~nl, true, fl | ic); b("(?s:(?-s:.))", ~nl, true, fl | ic); }
        if (fl != DNC) b("(?-s:(?s:.))", all, true, fl | ic);
    }
}

#if PROP == 4
// Texts with letters under every arrangement of option groups, on every case variant of every short input.
struct piece { std::string text; std::vector<int> sets; };   // sets: index into the leaf table, per character

static void groups(mc::ctx& c)
{
    using namespace ref;
    const bool T = c.thorough;
    struct opt { const char* open; int i; };                // i: 1 on, 0 off, -1 unchanged
    const std::vector<opt> opts{ { "(", -1 }, { "(?i:", 1 }, { "(?-i:", 0 }, { "(?s:", -1 }, { "(?is:", 1 }, { "(?-i-s:", 0 }, { "(?s-i:", 0 }, { "(?i-s:", 1 }, { "(?x:", -1 }, { "(?:", -1 } };
    struct leaf { const char* text; charset s; bool neg; };
    const std::vector<leaf> leaves{ { "a", ref::chars("a"), false }, { "B", ref::chars("B"), false }, { "\"a\"", ref::chars("a"), false }, { "[ab]", ref::chars("ab"), false }, { "[^b]", ~ref::chars("b"), true },
        { "[A-C]", ref::chars("ABC"), false }, { "\\x61", ref::chars("a"), false }, { "[[:upper:]]", forms::upper(), false }, { "\\0102", ref::chars(""), false } };
    const std::size_t L = T ? 8 : 6;
    const auto leaf_re = [&](std::size_t i, bool on)
    {
        const auto& l = leaves[i];
        return cls(l.text, !on ? l.s : l.neg ? ~fold(~l.s) : fold(l.s));
    };
    const auto inputs = mc::strings("aAbB", 0, T ? 4 : 3);
    const auto run = [&](const std::string& text, const re& r, std::size_t flags)
    {
        lexertl::rules rl(flags | DNN);
        lexertl::state_machine sm;
        c.describe("\"" + mc::esc(text) + "\" flags=" + std::to_string(flags));
        rl.push(text, 1);
        lexertl::generator::build(rl, sm);
        rule x;
        x.r = r;
        const std::vector<rules> st{ { x } };
        for (auto& in : inputs)
        {
            const auto step = [&](state& s) { return ref::step(st, in, s); };
            lc::run_with<lexertl::cmatch>(c, sm, 1, step, [&] { return "\"" + mc::esc(text) + "\" flags=" + std::to_string(flags); }, in, in);
        }
        if (c.want_sample()) c.sample(text);
    };
    std::vector<std::size_t> lv;
    for (std::size_t i = 0; i < L; ++i) lv.push_back(i);
    for (std::size_t fl : { std::size_t(0), IC }) for (auto& o1 : opts) for (auto& o2 : opts)
    {
        const bool base = fl != 0, on1 = o1.i < 0 ? base : o1.i != 0, on2 = o2.i < 0 ? on1 : o2.i != 0, seq = o2.i < 0 ? base : o2.i != 0;
        for (auto x : lv)
        {
            if (!c.next()) continue;
            for (auto y : lv) for (auto z : lv)
            {
                const std::string t1 = leaves[x].text, t2 = leaves[y].text, t3 = leaves[z].text;
                // before (o1 inside (o2 deep)) and (o1 x)(o2 y) z
                if (T || (x + y + z) % 2 == 0)
                    run(t1 + o1.open + t2 + o2.open + t3 + "))", cat(leaf_re(x, base), cat(leaf_re(y, on1), leaf_re(z, on2))), fl);
                else
                    run(o1.open + std::string(o2.open) + t1 + ")" + t2 + ")" + t3, cat(leaf_re(x, on2), cat(leaf_re(y, on1), leaf_re(z, base))), fl);
                run(o1.open + t1 + ")" + o2.open + t2 + ")" + t3, cat(leaf_re(x, on1), cat(leaf_re(y, seq), leaf_re(z, base))), fl);
                if (z == 0)
                    run(o1.open + t1 + "|" + t2 + ")*" + "b", cat(rep(alt(leaf_re(x, on1), leaf_re(y, on1)), 0, -1, "*"), cls("b", base ? ref::chars("bB") : ref::chars("b"))), fl);
            }
        }
    }
    // Two rules: case-insensitivity of one does not leak into the other.
    for (std::size_t fl : { std::size_t(0), IC }) for (auto& o1 : opts) for (auto& o2 : opts)
    {
        if (!c.next()) continue;
        const bool base = fl != 0, on1 = o1.i < 0 ? base : o1.i != 0, on2 = o2.i < 0 ? base : o2.i != 0;
        lexertl::rules rl(fl | DNN | +lexertl::regex_flags::allow_suppressed_rules);
        lexertl::state_machine sm;
        const std::string a = std::string(o1.open) + "ab)", b = std::string(o2.open) + "a[b]?)";
        c.describe(a + " , " + b);
        rl.push(a, 1); rl.push(b, 2);
        lexertl::generator::build(rl, sm);
        rule x, y;
        const auto ch = [](char k, bool on) { return on ? forms::fold(ref::chars(std::string(1, k))) : ref::chars(std::string(1, k)); };
        x.r = cat(cls("a", ch('a', on1)), cls("b", ch('b', on1)));
        y.r = cat(cls("a", ch('a', on2)), rep(cls("b", ch('b', on2)), 0, 1, "?"));
        y.id = 2;
        const std::vector<rules> st{ { x, y } };
        for (auto& in : inputs) lc::run_with<lexertl::cmatch>(c, sm, 1, [&](state& s) { return ref::step(st, in, s); }, [&] { return a + " , " + b; }, in, in);
    }
}

// Wide machines: ASCII and Latin-1 letters (whose simple case pairs are known without the data file), in every spelling.
template<typename ch>
static void wide(mc::ctx& c, const char* name)
{
    using rules_t = lexertl::basic_rules<char, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;
    const auto variant = [](unsigned u) -> unsigned
    {
        if ((u >= 'a' && u <= 'z') || (u >= 0xe0 && u <= 0xfe && u != 0xf7)) return u - 32;
        if ((u >= 'A' && u <= 'Z') || (u >= 0xc0 && u <= 0xde && u != 0xd7)) return u + 32;
        return u;
    };
    // Outside Latin-1: U+00B5 <-> U+039C.., U+00FF <-> U+0178, k <-> U+212A, s <-> U+017F are left to P18; only targets below 256 are looked at.
    const auto test = [&](const std::string& text, const set& want)
    {
        rules_t r(DNN);
        sm_t sm;
        c.describe(std::string(name) + " \"" + mc::esc(text) + "\"");
        ++c.traces;
        r.push(text, 1);
        lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
        for (unsigned i = 0; i < 256; ++i)
        {
            if (i == 0xb5 || i == 0xff || i == 0xdf) continue;
            const ch in[2] = { static_cast<ch>(i), 0 };
            lexertl::match_results<const ch*> m(in, in + 1);
            lexertl::lookup(sm, m);
            ++c.transitions;
            c.state(mc::hash(text.data(), text.size(), i + sizeof(ch) * 1024));
            if ((m.id == 1) != want[i]) c.fail("wide", "character " + std::to_string(i) + (want[i] ? " is not matched" : " is matched"));
        }
        c.outcome(show(want));
    };
    for (unsigned x = 0; x < 256; ++x)
    {
        if (!c.next()) continue;
        char h[16];
        std::snprintf(h, sizeof h, "\\x%x", x);
        if (x == 0xb5 || x == 0xff || x == 0xdf) continue;
        const set s = one(x), f = s | one(variant(x));
        test("(?i:" + std::string(h) + ")", f);
        test("(?i:[" + std::string(h) + "])", f);
        test("(?i:[^" + std::string(h) + "])", ~f);
        test("(?-i:" + std::string(h) + ")", s);
        for (unsigned y = x; y < 256; y += c.thorough ? 1 : (x % 5) + 3)
        {
            char t[32];
            std::snprintf(t, sizeof t, "[%s-\\x%x]", h, y);
            set r = range(x, y), g = r;
            for (unsigned i = x; i <= y; ++i) g.set(variant(i));
            test("(?i:" + std::string(t) + ")", g);
            test(t, r);
        }
    }
}
#endif

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        single(c);
        // The same with the letters of ISO 8859-1 and 8859-9 (where i and I are not a pair), from a locale given to the rules.
        letters l1, l9;
        for (unsigned i = 0xe0; i < 0xff; ++i) if (i != 0xf7) l1.join(i, i - 32);
        l1.lo |= one(0xdf) | one(0xff) | one(0xb5);
        l1.other = one(0xaa) | one(0xba);
        l9 = l1;
        l9.join('i', 0xdd); l9.join(0xfd, 'I');
        enter("ISO 8859-1: ", l1);
        single(c);
        enter("ISO 8859-9: ", l9);
        single(c);
        forms::current() = letters();
        where.clear();
#if PROP == 4
        groups(c);
        wide<char16_t>(c, "char16_t");
        wide<char32_t>(c, "char32_t");
        wide<wchar_t>(c, "wchar_t");
#endif
    });
}
