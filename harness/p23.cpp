// P23: which rule sets build, what the error says, and what a failed build leaves behind.
#include "machine.hpp"
#include "gen.hpp"
#include <lexertl/state_machine.hpp>
using namespace ref;

static rule mk(const re& r, bool bol = false, bool eol = false) { rule x; x.r = r; x.bol = bol; x.eol = eol; return x; }

// The texts on which rules can win: pos 0, in either line position.
static std::set<int> winners(const rules& rs, const std::vector<std::string>& texts, bool zero)
{
    std::set<int> w;
    for (auto& t : texts) for (int bol = 0; bol < 2; ++bol)
    {
        const match m = best(rs, t, 0, bol != 0, zero);
        if (m.rule >= 0) w.insert(m.rule);
        if (w.size() == rs.size()) return w;
    }
    return w;
}

// A field by field copy of a machine, for comparing.
template<typename ch, typename idt>
static std::string image(const lexertl::basic_state_machine<ch, idt>& sm)
{
    auto& in = sm.data();
    std::ostringstream o;
    o << +in._eoi << '/' << +in._features << '/';
    for (auto x : in._dfa_alphabet) o << +x << ',';
    for (auto& l : in._lookup) { o << "L"; for (auto x : l) o << +x << ','; }
    for (auto& d : in._dfa) { o << "D"; for (auto x : d) o << +x << ','; }
    return o.str();
}
template<typename ch, typename idt>
static std::string image(const lexertl::basic_char_state_machine<ch, idt>& sm)
{
    std::ostringstream o;
    for (auto& d : sm._sm_vector)
    {
        o << "D" << +d._bol_index << ':';
        for (auto& s : d._states)
        {
            o << s._end_state << ',' << int(s._push_pop_dfa) << ',' << +s._id << ',' << +s._user_id << ',' << +s._push_dfa << ',' << +s._next_dfa << ',' << +s._eol_index << '[';
            for (auto& t : s._transitions)
            {
                o << +t.first << '{';
                for (auto& g : t.second._ranges) o << static_cast<unsigned>(g.first) << '-' << static_cast<unsigned>(g.second) << ' ';
                o << '}';
            }
            o << ']';
        }
    }
    return o.str();
}

struct verdict { bool ok = true; std::string what; bool other = false; };
template<typename rules_t, typename sm_t>
static verdict build(const rules_t& r, sm_t& sm)
{
    verdict v;
    try { lexertl::basic_generator<rules_t, sm_t>::build(r, sm); }
    catch (const lexertl::runtime_error& e) { v.ok = false; v.what = e.what(); }
    catch (const std::exception& e) { v.ok = false; v.other = true; v.what = e.what(); }
    return v;
}

using r8 = lexertl::basic_rules<char, char>;
using r16 = lexertl::basic_rules<char, char16_t>;
using r32 = lexertl::basic_rules<char, char32_t, std::uint32_t>;
using b8 = lexertl::basic_rules<char, char, std::uint8_t>;
using tb8 = lexertl::basic_state_machine<char, std::uint8_t>;
using cb8 = lexertl::basic_char_state_machine<char, std::uint8_t>;
using t8 = lexertl::basic_state_machine<char>;
using t16 = lexertl::basic_state_machine<char16_t>;
using t32 = lexertl::basic_state_machine<char32_t, std::uint32_t>;
using c8 = lexertl::basic_char_state_machine<char>;
using c16 = lexertl::basic_char_state_machine<char16_t>;

template<typename rules_t, typename sm_t>
static void judge(mc::ctx& c, const std::vector<rules>& st, std::size_t flags, const std::string& kind, const std::set<std::string>& named, const char* what)
{
    rules_t r(flags);
    lc::push(r, st);
    sm_t sm;
    // The target holds another machine before.
    rules_t old;
    old.push_state("S1");
    old.push("INITIAL", "^xy*$", 9, "S1");
    old.push("S1", "[0-9]+|\"x\"", 8, "INITIAL");
    build(old, sm);
    const std::string before = image(sm);
    const verdict v = build(r, sm);
    ++c.transitions;
    auto fail = [&](const std::string& m)
    {
        c.fail(kind.empty() ? "refused" : "accepted", std::string(what) + ", flags " + std::to_string(flags) + ": " + m + "; rules: " + lc::show(st));
    };
    if (v.other) return fail("another kind of error: " + v.what);
    if (v.ok != kind.empty()) return fail(v.ok ? "built although " + kind : "refused: " + v.what);
    if (v.ok)
    {
        if (image(sm) == before) return fail("the target is not the new machine");
        sm_t fresh;
        const verdict w = build(r, fresh);
        if (!w.ok || image(fresh) != image(sm)) return fail("building again into a new machine gives another machine");
        const verdict x = build(r, sm);
        if (!x.ok || image(fresh) != image(sm)) return fail("building again into the same machine gives another machine");
        c.outcome("built");
        c.state(mc::hash(image(sm).data(), image(sm).size()));
        return;
    }
    if (image(sm) != before) return fail("the failed build (" + v.what + ") changed the target");
    bool found = false;
    for (auto& n : named) found = found || v.what.find(n) != std::string::npos;
    if (!found) return fail("the error does not name an offender: " + v.what);
    c.outcome(kind);
}

static void accept(mc::ctx& c, const std::vector<rules>& st, const std::vector<std::string>& texts, bool wide)
{
    const std::string d = lc::show(st);
    c.describe(d);
    if (c.want_sample()) c.sample(d);
    ++c.traces;
    // What a ^ rule does with no text is left open.
    bool any_null = false, null_bol = false, open = false;
    for (auto& rs : st) for (auto& r : rs) { const bool n = nullable(*r.r); any_null = any_null || n; null_bol = null_bol || (n && r.bol); open = open || (n && r.bol && !r.eol); }
    if (open) return;
    for (int f = 0; f < 4; ++f)
    {
        const bool zero = (f & 1) != 0, suppressed = (f & 2) != 0;
        // Under the zero-length option, what an anchored rule does with no text is left open.
        if (zero && null_bol) continue;
        const std::size_t flags = 2u | (zero ? +lexertl::regex_flags::match_zero_len : 0u) | (suppressed ? +lexertl::regex_flags::allow_suppressed_rules : 0u);
        std::string kind;
        std::set<std::string> named;
        // All offenders; the order in which they are found is the library's own affair.
        for (std::size_t s = 0; s < st.size(); ++s)
        {
            if (st[s].empty()) { kind = "a lexer state has no rules"; named.insert("lexer state " + std::to_string(s)); continue; }
            if (!zero) for (auto& r : st[s]) if (nullable(*r.r) && (!r.bol || r.eol)) { kind = "a rule matches the empty text"; named.insert("zero chars: " + r.text() + "\n"); }
            if (!suppressed)
            {
                const auto w = winners(st[s], texts, zero);
                for (std::size_t i = 0; i < st[s].size(); ++i) if (!w.count(static_cast<int>(i))) { kind = "a rule never wins"; named.insert("cannot be matched: " + st[s][i].text() + "\n"); }
            }
        }
        judge<r8, t8>(c, st, flags, kind, named, "char");
        if (!wide) continue;
        judge<r8, c8>(c, st, flags, kind, named, "character machine");
        judge<r16, t16>(c, st, flags, kind, named, "char16_t");
        judge<r16, c16>(c, st, flags, kind, named, "char16_t character machine");
        judge<r32, t32>(c, st, flags, kind, named, "char32_t");
    }
}

// Histories of builds, minimise and clear on one machine; the model is the machine a fresh build gives.
template<typename rules_t, typename sm_t>
static void history(mc::ctx& c, const std::vector<int>& ops, const std::vector<std::pair<std::string, rules_t>>& sets, const std::vector<std::pair<bool, std::string>>& fresh,
    const std::vector<std::string>& minimised, const char* what)
{
    sm_t sm;
    std::string want = image(sm);
    int cur = -1;
    std::string done;
    ++c.traces;
    for (int op : ops)
    {
        ++c.transitions;
        if (op < static_cast<int>(sets.size()))
        {
            done += "build(" + sets[op].first + ") ";
            const verdict v = build(sets[op].second, sm);
            if (v.ok != fresh[op].first) return c.fail("history", std::string(what) + " after " + done + (v.ok ? ": built" : ": refused: " + v.what));
            if (v.ok) { want = fresh[op].second; cur = op; }
        }
        else if (op == static_cast<int>(sets.size()))
        {
            done += "minimise ";
            sm.minimise();
            if (cur >= 0) want = minimised[cur];
        }
        else
        {
            done += "clear ";
            sm.clear();
            want = image(sm_t());
            cur = -1;
            if (!sm.empty()) return c.fail("history", std::string(what) + " after " + done + ": not empty");
        }
        const std::string got = image(sm);
        c.state(mc::hash(got.data(), got.size()));
        if (got != want) return c.fail("history", std::string(what) + " after " + done + ": the machine is not the one expected");
    }
    c.outcome(want);
}

template<typename rules_t, typename sm_t>
static void histories(mc::ctx& c, std::size_t depth, const char* what)
{
    std::vector<std::pair<std::string, rules_t>> sets;
    auto one = [](const char* s, std::size_t flags = 2) { rules_t r(flags); r.push(s, 1); return r; };
    sets.push_back({ "a+|bb|cb", one("a+|bb|cb") });
    {
        rules_t r;
        r.push_state("A");
        r.push("INITIAL", "^x", 1, ">A");
        r.push("INITIAL", "y$", 2, ".");
        r.push("A", "(?s:.)", r.skip(), "<");
        sets.push_back({ "two states", r });
    }
    { rules_t r; r.push("a*", 1); sets.push_back({ "nullable", r }); }
    { rules_t r; r.push("a", 1); r.push("a", 2); sets.push_back({ "unused rule", r }); }
    { rules_t r; r.push_state("A"); r.push("INITIAL", "abc", 1, "A"); sets.push_back({ "empty second state", r }); }
    // Only refused where the id type cannot number the rows.
    { rules_t r; r.push_state("A"); r.push("INITIAL", "x", 1, "A"); r.push("A", "(?s:.){300}", 2, "A"); sets.push_back({ "300 characters", r }); }
    { rules_t r; r.push_state("A"); r.push("INITIAL", "x", 1, "A"); r.push("A", "(?s:.){70}", 2, "A"); sets.push_back({ "70 characters", r }); }
    std::vector<std::pair<bool, std::string>> fresh;
    std::vector<std::string> minimised;
    for (auto& s : sets)
    {
        sm_t sm;
        const bool ok = build(s.second, sm).ok;
        fresh.push_back({ ok, image(sm) });
        sm.minimise();
        minimised.push_back(image(sm));
    }
    std::vector<int> ops(depth, 0);
    const int n = static_cast<int>(sets.size()) + 2;
    for (;;)
    {
        if (c.next()) history<rules_t, sm_t>(c, ops, sets, fresh, minimised, what);
        std::size_t i = 0;
        while (i < depth && ++ops[i] == n) ops[i++] = 0;
        if (i == depth) break;
    }
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto a = lit('a'), b = lit('b'), ab = cls("[ab]", chars("ab"));
        const auto plain = mc::strings("abc", 0, 6);
        auto lines = mc::strings("abc\n", 0, 5);
        auto pool = gen::flat(gen::levels({ a, b, ab }, { gen::PLUS, gen::OPT, gen::STAR, gen::times(2) }, T ? 5 : 4));
        const auto mid = gen::flat(gen::levels({ a, ab }, { gen::PLUS, gen::OPT }, 3));
        const std::vector<re> few{ a, b, ab, rep(a, 1, -1, "+"), rep(a, 0, -1, "*"), str("ab"), cat(rep(a, 0, -1, "*"), b), rep(ab, 1, -1, "+"), alt(a, b) };
        // 1. one rule, two rules
        // No text beyond the bound may be needed to win.
        pool.erase(std::remove_if(pool.begin(), pool.end(), [](const re& r)
        {
            std::size_t n = 0;
            for (auto p = r->text.find("{2}"); p != std::string::npos; p = r->text.find("{2}", p + 1)) ++n;
            return n > 1;
        }), pool.end());
        for (auto& r : pool) if (c.next()) accept(c, { { mk(r) } }, plain, true);
        for (auto& r : pool) for (auto& s : mid) { if (c.next()) accept(c, { { mk(r), mk(s) } }, plain, T); if (c.next()) accept(c, { { mk(s), mk(r) } }, plain, T); }
        // 2. three rules
        for (auto& r : T ? mid : few) for (auto& s : few) for (auto& t : few) if (c.next()) accept(c, { { mk(r), mk(s), mk(t) } }, plain, T);
        // 3. anchors
        for (auto& r : few) for (auto& s : few) for (int k = 1; k < 16; ++k)
        {
            const rules rs{ mk(r, k & 1, k & 2), mk(s, k & 4, k & 8) };
            if (clash(rs, lines)) continue;
            if (c.next()) accept(c, { rs }, lines, true);
        }
        if (T) for (auto& r : few) for (auto& s : few) for (auto& t : few) for (int k = 1; k < 64; ++k)
        {
            const rules rs{ mk(r, k & 1, k & 2), mk(s, k & 4, k & 8), mk(t, k & 16, k & 32) };
            if (c.next()) accept(c, { rs }, lines, false);
        }
        // 4. lexer states: any number of rules in each of three, in every place
        {
            std::vector<rules> sets{ {}, { mk(a) }, { mk(few[4]) }, { mk(a), mk(a) }, { mk(ab), mk(b) }, { mk(few[3]), mk(few[2]) } };
            for (auto& x : sets) for (auto& y : sets) for (auto& z : sets)
            {
                std::vector<rules> st{ x, y, z };
                for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < st[i].size(); ++j) { st[i][j].id = static_cast<unsigned>(1 + i * 3 + j); st[i][j].next = static_cast<unsigned>((i + j) % 3); }
                if (c.next()) accept(c, st, plain, true);
                st.pop_back();
                for (auto& s : st) for (auto& r : s) r.next = 0;
                if (z.empty() && c.next()) accept(c, st, plain, true);
            }
        }
        // 5. histories
        for (std::size_t n = 1; n <= (T ? 6u : 5u); ++n)
        {
            histories<r8, t8>(c, n, "char");
            if (n < 4) histories<b8, tb8>(c, n, "char, 8-bit ids");
            if (n < 4) histories<b8, cb8>(c, n, "character machine, 8-bit ids");
            histories<r8, c8>(c, n, "character machine");
            if (n < 4) histories<r16, t16>(c, n, "char16_t");
            if (n < 4) histories<r16, c16>(c, n, "char16_t character machine");
        }
    });
}
