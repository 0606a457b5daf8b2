// P29: the same rules with 8-, 16-, 32- and 64-bit ids: all reachable pairs of rows compared, and sizes around what fits.
#include "machine.hpp"
#include "sets.hpp"
using namespace ref;
using lexertl::runtime_error;

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline;
static const std::size_t SUPPRESSED = +lexertl::regex_flags::allow_suppressed_rules;

template<typename ch, typename idt> using rules_of = lexertl::basic_rules<char, ch, idt>;
template<typename ch, typename idt> using sm_of = lexertl::basic_state_machine<ch, idt>;
template<typename ch, typename idt> using csm_of = lexertl::basic_char_state_machine<ch, idt>;

template<typename sm_t, typename rules_t>
static std::string build(const rules_t& r, sm_t& sm)
{
    try { lexertl::basic_generator<rules_t, sm_t>::build(r, sm); return std::string(); }
    catch (const runtime_error& e) { return std::string(e.what()) + "."; }
}
template<typename rules_t, typename push>
static std::string fill(rules_t& r, push p)
{
    try { p(r); return std::string(); }
    catch (const runtime_error& e) { return std::string(e.what()) + "."; }
}
struct size { std::size_t rows = 0, columns = 0; };
template<typename ch, typename idt>
static size measure(const sm_of<ch, idt>& sm)
{
    size s;
    auto& in = sm.data();
    for (std::size_t d = 0; d < in._dfa.size(); ++d)
    {
        s.columns = std::max<std::size_t>(s.columns, in._dfa_alphabet[d]);
        s.rows = std::max<std::size_t>(s.rows, in._dfa[d].size() / in._dfa_alphabet[d]);
    }
    return s;
}
// Where a row pops, the next lexer state means nothing.
template<typename V>
struct view : V
{
    using V::V;
    mac::attr at(std::size_t d, std::uint32_t r) const { mac::attr a = V::at(d, r); if (a.pop) a.next = 0; return a; }
};
enum { MINIMISED = 1, CHARS = 2 };

// One id type beside the machine with 32-bit ids. sets: the number of different character sets of a lexer state.
template<typename ch, typename idt, typename push>
static bool against(mc::ctx& c, push p, std::size_t flags, const sm_of<ch, std::uint32_t>& ref, const std::string& err, const size& sz, std::size_t sets, const std::vector<std::uint32_t>& alphabet, unsigned what, sm_of<ch, idt>& sm)
{
    static const std::string name = std::to_string(sizeof(idt) * 8) + "-bit ids";
    const std::size_t NP = static_cast<idt>(~idt(0));
    rules_of<ch, idt> r(flags);
    std::string e = fill(r, p);
    if (e.empty()) e = build(r, sm);
    ++c.traces;
    ++c.transitions;
    const bool room = sz.rows + 6 <= NP && sz.columns + 6 <= NP && sets + 8 <= NP;
    if (!err.empty())
    {
        if (e.empty()) { c.fail("accepts", "refused with 32-bit ids (" + err + "), built with " + name); return false; }
        if (room && e != err) { c.fail("error", "with 32-bit ids: " + err + ", with " + name + ": " + e); return false; }
        c.outcome("refused");
        return false;
    }
    if (!e.empty())
    {
        if (room) { c.fail("refuses", std::to_string(sz.rows) + " rows and " + std::to_string(sz.columns) + " columns fit " + name + ", but: " + e); return false; }
        c.outcome("does not fit");
        return false;
    }
    const view<mac::table<ch, std::uint32_t>> a(ref);
    const view<mac::table<ch, idt>> b(sm);
    std::string bad = mac::compare(c, a, b, alphabet, "the machine with 32-bit ids", ("the one with " + name).c_str());
    if (!bad.empty()) { c.fail("differs", bad); return false; }
    if (ref.data()._features != sm.data()._features) { c.fail("features", "the features of the machine with " + name + " differ"); return false; }
    if (what & MINIMISED)
    {
        sm_of<ch, idt> m(sm);
        m.minimise();
        const view<mac::table<ch, idt>> v(m);
        bad = mac::compare(c, a, v, alphabet, "the machine with 32-bit ids", ("the minimised one with " + name).c_str());
        if (!bad.empty()) { c.fail("minimised", bad); return false; }
    }
    if (what & CHARS)
    {
        csm_of<ch, idt> k;
        e = build(r, k);
        ++c.traces;
        if (!e.empty()) { if (room) c.fail("refuses", "character machine with " + name + ": " + e); return true; }
        const view<mac::chars<ch, idt>> v(k);
        bad = mac::compare(c, a, v, alphabet, "the machine with 32-bit ids", ("the character machine with " + name).c_str());
        if (!bad.empty()) { c.fail("characters", bad); return false; }
    }
    c.outcome(std::to_string(b.rows(0)) + "," + std::to_string(sz.columns));
    return true;
}
template<typename ch>
struct machines
{
    sm_of<ch, std::uint8_t> m8;
    sm_of<ch, std::uint16_t> m16;
    sm_of<ch, std::uint32_t> m32;
    sm_of<ch, std::uint64_t> m64;
    bool ok8 = false, ok16 = false, ok32 = false, ok64 = false;
};
template<typename ch, typename push>
static void widths(mc::ctx& c, push p, std::size_t flags, std::size_t sets, const std::vector<std::uint32_t>& alphabet, unsigned what, machines<ch>& m)
{
    rules_of<ch, std::uint32_t> r(flags);
    std::string err = fill(r, p);
    if (err.empty()) err = build(r, m.m32);
    m.ok32 = err.empty();
    const size sz = err.empty() ? measure(m.m32) : size();
    m.ok8 = against<ch, std::uint8_t>(c, p, flags, m.m32, err, sz, sets, alphabet, what, m.m8);
    m.ok16 = against<ch, std::uint16_t>(c, p, flags, m.m32, err, sz, sets, alphabet, what, m.m16);
    m.ok64 = against<ch, std::uint64_t>(c, p, flags, m.m32, err, sz, sets, alphabet, what, m.m64);
}
template<typename push>
static void both(mc::ctx& c, const std::string& d, push p, std::size_t flags, std::size_t sets, unsigned what = MINIMISED | CHARS, bool wide = true)
{
    c.describe(d);
    if (c.want_sample()) c.sample(d);
    static const auto bytes = mac::bytes();
    machines<char> n;
    widths<char>(c, p, flags, sets, bytes, what, n);
    if (!wide) return;
    machines<char16_t> w;
    widths<char16_t>(c, p, flags, sets, bytes, what & ~CHARS, w);
}

template<typename ch, typename idt>
static void lexed(mc::ctx& c, bool ok, const sm_of<ch, idt>& sm, const std::vector<rules>& st, const std::string& in, unsigned s0)
{
    if (ok) lc::run<lexertl::recursive_match_results<const ch*, idt>>(c, sm, st, in, lc::widen<ch>(in), true, s0, 1, false, (std::to_string(sizeof(idt) * 8) + "-bit ids").c_str());
}

static std::string bytes_text(unsigned v) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", v); return b; }
// The i-th set of two letters.
static std::string pair_text(unsigned i)
{
    for (char a = 'a'; ; ++a) for (char b = char(a + 1); b <= 'z'; ++b) if (!i--) return std::string("[") + a + b + "]";
}
// Different words of two letters.
static std::string word(unsigned i) { return std::string(1, char('a' + i / 26)) + char('a' + i % 26); }

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        // 1. The catalogue of rule sets.
        const auto inputs = mc::strings("ab\n", 0, T ? 4 : 3);
        static const auto bytes = mac::bytes();
        sets::each(T ? 2 : 1, [&](const std::vector<rules>& st)
        {
            if (!c.next() || !sets::usable(st)) return;
            const std::string d = lc::show(st);
            c.describe(d);
            if (c.want_sample()) c.sample(d);
            machines<char> n;
            machines<char32_t> w;
            const auto p = [&](auto& r) { lc::push(r, st); };
            widths<char>(c, p, FLAGS | SUPPRESSED, 20, bytes, MINIMISED | CHARS, n);
            widths<char32_t>(c, p, FLAGS | SUPPRESSED, 40, bytes, MINIMISED, w);
            for (auto& x : st) if (clash(x, inputs)) return;
            for (auto& in : inputs) for (unsigned s0 = 0; s0 < st.size(); ++s0)
            {
                lexed<char>(c, n.ok8, n.m8, st, in, s0);
                lexed<char>(c, n.ok32, n.m32, st, in, s0);
                lexed<char>(c, n.ok64, n.m64, st, in, s0);
                lexed<char32_t>(c, w.ok8, w.m8, st, in, s0);
            }
        });
        // The same, where rules that cannot win and rules of no length are refused.
        sets::each(0, [&](const std::vector<rules>& st)
        {
            if (!c.next()) return;
            both(c, lc::show(st) + "strict", [&](auto& r) { lc::push(r, st); }, FLAGS, 40, 0, false);
        });
        // 2. Rows: words, repeats and line ends around the limit of 8 bits.
        for (unsigned n = T ? 60 : 225; n <= 270; ++n) for (int k = 0; k < 8; ++k)
        {
            if (!c.next()) continue;
            const std::string rep = "{" + std::to_string(n) + "}";
            const std::string text = k == 0 ? "a" + rep : k == 1 ? "^a" + rep : k == 2 ? "a" + rep + "$" : k == 3 ? "^[ab]" + rep + "$" : k == 4 ? "(ab)" + rep + "b" : k == 5 ? "(a|bc){1," + std::to_string(n / 2) + "}" : k == 6 ? "(ab?){1," + std::to_string(n / 2) + "}$" : "[ab][a-f]" + rep + "|c";
            both(c, text + " and others", [&](auto& r) { r.push(text, 1, 9); r.push("a|b", 2); r.push("[ab]{2}x", 3); }, FLAGS | SUPPRESSED, 20);
        }
        // Every row ends at a line end that needs a row of its own.
        for (unsigned n = T ? 20 : 60; n <= 96; ++n) for (int k = 0; k < 4; ++k)
        {
            if (!c.next()) continue;
            const std::string rep = "{1," + std::to_string(n) + "}";
            both(c, "a" + rep + "$ and newline rules " + std::to_string(k), [&](auto& r) { r.push((k & 1 ? "^a" : "a") + rep + "$", 1); r.push("a" + rep + (k & 2 ? "\\r\\nb" : "\\nb"), 2); r.push("b", 3); }, FLAGS | SUPPRESSED, 20);
        }
        // 3. Columns: that many different characters.
        for (unsigned n = 215; n <= 256; ++n) for (int k = 0; k < 4; ++k)
        {
            if (!c.next()) continue;
            both(c, std::to_string(n) + " single characters " + std::to_string(k), [&](auto& r)
            {
                std::string even, odd;
                for (unsigned i = 0; i < n; ++i) { auto& s = i % 2 ? odd : even; s += (s.empty() ? "" : "|") + bytes_text(i); }
                r.push(even, 1);
                r.push((k & 1 ? "^(" : "(") + odd + (k & 2 ? ")$" : ")"), 2);
                if (k) r.push(odd, 3);
            }, FLAGS | SUPPRESSED, n + 4);
        }
        // 4. Character sets: every position takes two sets of two letters.
        for (unsigned n = T ? 200 : 236; n <= 300; ++n) for (int k = 0; k < 4; ++k)
        {
            if (!c.next()) continue;
            both(c, std::to_string(n) + " character sets " + std::to_string(k), [&](auto& r)
            {
                std::string t;
                for (unsigned i = 0; i < n; i += 2) t += i + 1 < n ? "(" + pair_text(i) + "|" + pair_text(i + 1) + ")" : pair_text(i);
                r.push((k & 1 ? "^" : "") + t + (k & 2 ? "$" : ""), 1);
            }, FLAGS | SUPPRESSED, n + 4);
        }
        // The last sets of all are those of a second rule, in another lexer state with sets of its own.
        for (unsigned n = T ? 200 : 240; n <= 262; ++n) for (int k = 0; k < 4; ++k)
        {
            if (!c.next()) continue;
            both(c, std::to_string(n) + " character sets and others " + std::to_string(k), [&](auto& r)
            {
                std::string t;
                for (unsigned i = 0; i < n; i += 2) t += i + 1 < n ? "(" + pair_text(i) + "|" + pair_text(i + 1) + ")" : pair_text(i);
                r.push_state("S");
                r.push("INITIAL", t, 1, "S");
                r.push("INITIAL", k & 1 ? "^[x-z]b" : "[x-z]b", 2, ".");
                r.push("INITIAL", k & 2 ? "[wv]c$" : "[wv]c", 3, ".");
                r.push("S", "[a-c]", 4, "INITIAL");
                r.push("S", "[^a-c]+", 5, ".");
            }, FLAGS | SUPPRESSED, n + 12);
        }
        // 5. Numbers of rules, one of them suppressed or of no length: refused, with the right text.
        const unsigned totals[] = { 100, 250, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513 };
        for (unsigned total : totals) for (unsigned at = 0; at <= total; at += T || (at > 240 && at < 260) ? 1 : 7) for (int k = 0; k < (T ? 2 : 1); ++k)
        {
            if (!c.next()) continue;
            // 100 rules in each lexer state; rule `at` repeats the one before it (or can match nothing), none if there is no such rule.
            both(c, std::to_string(total) + " rules, " + (k ? "empty" : "suppressed") + " " + std::to_string(at), [&](auto& r)
            {
                for (unsigned s = 1; s * 100 < total; ++s) r.push_state(("S" + std::to_string(s)).c_str());
                for (unsigned i = 0; i < total; ++i)
                {
                    const unsigned s = i / 100, j = i % 100;
                    const std::string st = s ? "S" + std::to_string(s) : std::string("INITIAL");
                    const std::string t = i == at && j ? k ? "(" + word(j) + ")*" : "\"" + word(j - 1) + "\"" : word(j);
                    r.push(st.c_str(), t, static_cast<typename std::remove_reference_t<decltype(r)>::id_type>(1 + i % 250), ".");
                }
            }, FLAGS, 60, 0, false);
        }
        // 6. Non-greedy rules far apart.
        for (unsigned n = 250; n <= 260; ++n) for (int k = 0; k < 6; ++k)
        {
            if (!c.next()) continue;
            both(c, std::to_string(n) + " rules between non-greedy rules " + std::to_string(k), [&](auto& r)
            {
                r.push(k % 3 == 0 ? "a+?" : k % 3 == 1 ? "a.*?b" : "(a|b)??a", 1);
                for (unsigned i = 0; i < n; ++i) r.push("x", 2);
                r.push(k / 3 ? "ab*?c" : "a[ab]+?c", 3);
                r.push("[abc]", 4);
            }, FLAGS | SUPPRESSED, 60, 0);
        }
        // 7. Ids and user ids up to the largest.
        for (unsigned id = 1; id < 254; ++id)
        {
            if (!c.next()) continue;
            both(c, "id " + std::to_string(id), [&](auto& r)
            {
                using idt = typename std::remove_reference_t<decltype(r)>::id_type;
                r.push("a", static_cast<idt>(id), static_cast<idt>(254 - id));
                r.push("b", static_cast<idt>(254 - id), static_cast<idt>(id == 254 ? 1 : id));
                r.push("c", r.skip());
            }, FLAGS, 20);
        }
        // 8. A chain of lexer states up to the largest number, with and without a stack.
        for (unsigned n = T ? 2 : 236; n <= 255; ++n) for (int k = 0; k < 2; ++k)
        {
            if (!c.next()) continue;
            const std::string d = std::to_string(n) + " lexer states" + (k ? " with a stack" : "");
            c.describe(d);
            if (c.want_sample()) c.sample(d);
            std::vector<rules> st(n);
            for (unsigned i = 0; i < n; ++i)
            {
                rule a = sets::mk(lit('a'), 1 + i % 250), b = sets::mk(lit('b'), 2);
                a.next = (i + 1) % n;
                b.next = k ? 0 : n - 1 - i;
                if (k)
                {
                    if (i % 2 == 0) { a.push = i; }
                    else b.pop = true;
                    if (i % 2 == 0) b.next = (i + n / 2) % n, b.push = n - 1 - i;
                }
                st[i] = { a, b };
            }
            const auto p = [&](auto& r) { lc::push(r, st); };
            sm_of<char, std::uint8_t> m8;
            sm_of<char, std::uint16_t> m16;
            sm_of<char, std::uint64_t> m64;
            auto go = [&](auto& sm, auto id)
            {
                using idt = decltype(id);
                rules_of<char, idt> r(FLAGS);
                std::string e = fill(r, p);
                if (e.empty()) e = build(r, sm);
                if (!e.empty()) return c.fail("refuses", std::to_string(sizeof(idt) * 8) + "-bit ids: " + e);
                for (int m = 0; m < 2; ++m)
                {
                    if (m) sm.minimise();
                    // The reference model holds inputs of up to 63 characters.
                    for (unsigned s0 : { 0u, 1u, n / 2, n - 40, n - 12, n - 3, n - 2, n - 1 }) if (s0 < n)
                        for (auto& tail : { std::string("b"), std::string("ab"), std::string("bab"), std::string("abb") })
                        {
                            const std::string in = std::string(40, 'a') + tail + "ab" + tail;
                            lc::run<lexertl::recursive_match_results<const char*, idt>>(c, sm, st, in, in, true, s0, 1, false, (std::to_string(sizeof(idt) * 8) + "-bit ids").c_str());
                        }
                }
            };
            go(m8, std::uint8_t());
            go(m16, std::uint16_t());
            go(m64, std::uint64_t());
        }
        // 9. Rows around the limit of 16 bits.
        for (unsigned n = 65524; n <= (T ? 65540u : 65537u); n += T ? 1 : 2) for (int k = 0; k < (T ? 3 : 2); ++k)
        {
            if (!c.next()) continue;
            const std::string d = "a word of " + std::to_string(n) + " characters " + std::to_string(k);
            c.describe(d);
            if (c.want_sample()) c.sample(d);
            std::string t(n, 'a');
            for (unsigned i = 0; i < n; i += 3) t[i] = 'b';
            const auto p = [&](auto& r) { r.push((k == 1 ? "^\"" : "\"") + t + (k == 2 ? "\"$" : "\""), 1); r.push("a", 2); };
            sm_of<char, std::uint32_t> ref;
            sm_of<char, std::uint16_t> sm;
            rules_of<char, std::uint32_t> r(FLAGS | SUPPRESSED);
            std::string err = fill(r, p);
            if (err.empty()) err = build(r, ref);
            if (!err.empty()) { c.fail("refuses", err); continue; }
            against<char, std::uint16_t>(c, p, FLAGS | SUPPRESSED, ref, err, measure(ref), 20, { 'a', 'b', '\n' }, 0, sm);
        }
    });
}
