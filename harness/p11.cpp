// P11: tokens tile the input; skip, continue and no match; the end of input; every iterator and result type.
#include "machine.hpp"
#include "gen.hpp"
#include <deque>
#include <list>
#include <lexertl/state_machine.hpp>
using namespace ref;

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;
static rule mk(const re& r, unsigned id, unsigned uid = NPOS) { rule x; x.r = r; x.id = id; x.uid = uid; return x; }

// The tokens of the reference model, to the first report of the end.
struct seen { token t; state s; };
static std::vector<seen> expect(const std::vector<rules>& st, const std::string& in, unsigned st0)
{
    std::vector<seen> v;
    state s;
    s.st = st0;
    for (;;)
    {
        const token t = step(st, in, s);
        v.push_back({ t, s });
        if (t.underflow || (t.id == 0 && s.pos == in.size())) return v;
    }
}

// Walks the results with nothing but the statement of the property.
template<typename results, typename it, typename sm_t>
static void walk(mc::ctx& c, const sm_t& sm, const std::vector<rules>& st, const std::vector<seen>& ex, const std::string& in8, it b, it e, unsigned st0, const char* what)
{
    using idt = typename results::id_type;
    bool skips = false, cont = false;
    for (auto& s : st) for (auto& r : s) { skips = skips || r.id == SKIP; cont = cont || r.id == 0; }
    results r(b, e, true, static_cast<idt>(st0));
    auto fail = [&](const std::string& m, std::size_t n)
    {
        c.fail("tiling", std::string(what) + ": " + m + " at call " + std::to_string(n) + " on \"" + mc::esc(in8) + "\" from state " + std::to_string(st0) + " with " + lc::show(st));
    };
    ++c.traces;
    auto pos = [&](it i) { return static_cast<std::size_t>(std::distance(b, i)); };
    std::size_t at = 0;
    for (std::size_t n = 1; n <= ex.size() + 3; ++n)
    {
        try { lexertl::lookup(sm, r); }
        catch (const lexertl::runtime_error&)
        {
            if (n > ex.size() || !ex[n - 1].t.underflow) fail("unexpected error", n);
            return;
        }
        ++c.transitions;
        c.state(mc::hash(in8.data() + at, in8.size() - at, 3 + r.state));
        const auto f = pos(r.first), s = pos(r.second);
        if (f < at || s < f) return fail("the token overlaps the previous one", n);
        if (!skips && !cont && f != at) return fail("a gap before the token", n);
        if (at < in8.size() && s == at) return fail("no progress", n);
        if (at == in8.size() && (r.id != 0 || f != at || s != at)) return fail("not at the end of input although all is used up", n);
        if (r.id == results::npos() && s != f + 1) return fail("an unmatched token that is not one character", n);
        if (s < in8.size() && r.id == 0 && n < ex.size() && ex[n - 1].t.id != 0) return fail("the end is reported early", n);
        if (pos(r.eoi) != in8.size()) return fail("the end of input moved", n);
        const auto& x = ex[n < ex.size() ? n - 1 : ex.size() - 1];
        const bool after = n > ex.size();
        if (lc::norm(r.id, static_cast<idt>(~idt(0))) != x.t.id || lc::norm(r.user_id, static_cast<idt>(~idt(0))) != x.t.uid || s != x.t.second ||
            f != (after ? in8.size() : x.t.first)) return fail("differs from the reference model: expected " + lc::show(x.t, x.s) + ", got id=" + std::to_string(r.id) + " [" + std::to_string(f) + ',' + std::to_string(s) + ')', n);
        if (r.length() != s - f) return fail("length()", n);
        if (r.str() != typename results::string(r.first, r.second)) return fail("str()", n);
        for (std::size_t i = 0; i <= s - f && i < 3; ++i) for (std::size_t j = 0; i + j <= s - f && j < 3; ++j)
            if (r.substr(i, j) != r.str().substr(i, s - f - i - j)) return fail("substr()", n);
        at = s;
    }
    std::string o;
    for (auto& x : ex) o += std::to_string(x.t.id) + ':' + std::to_string(x.t.first) + '-' + std::to_string(x.t.second) + ' ';
    c.outcome(o);
}

// Characters as 'a', 'b', ... or shifted to the far ends of the character type.
static void run(mc::ctx& c, const std::vector<rules>& st, const std::vector<std::string>& inputs, bool all)
{
    const std::string d = lc::show(st);
    c.describe(d);
    if (c.want_sample()) c.sample(d);
    lexertl::rules r(FLAGS);
    lexertl::state_machine sm;
    lc::push(r, st);
    lexertl::generator::build(r, sm);
    using wr = lexertl::basic_rules<char, char16_t, std::uint32_t>;
    lexertl::basic_state_machine<char16_t, std::uint32_t> wsm;
    if (all)
    {
        wr q(FLAGS);
        lc::push(q, st);
        lexertl::basic_generator<wr, decltype(wsm)>::build(q, wsm);
    }
    const bool rec = lc::recursive(st);
    for (auto& in : inputs) for (unsigned s0 = 0; s0 < st.size(); ++s0)
    {
        const auto ex = expect(st, in, s0);
        // One character beyond the end must never be looked at: the text is cut out of a longer one.
        const std::string longer = in + "abcab";
        walk<lexertl::recursive_match_results<const char*>>(c, sm, st, ex, in, longer.data(), longer.data() + in.size(), s0, "const char*, stack");
        if (!rec) walk<lexertl::cmatch>(c, sm, st, ex, in, longer.data(), longer.data() + in.size(), s0, "const char*");
        if (!all) continue;
        if (!rec) walk<lexertl::smatch>(c, sm, st, ex, in, longer.cbegin(), longer.cbegin() + static_cast<std::ptrdiff_t>(in.size()), s0, "std::string");
        const std::deque<char> dq(in.begin(), in.end());
        walk<lexertl::recursive_match_results<std::deque<char>::const_iterator>>(c, sm, st, ex, in, dq.begin(), dq.end(), s0, "std::deque");
        const auto w = lc::widen<char16_t>(longer);
        walk<lexertl::recursive_match_results<const char16_t*, std::uint32_t>>(c, wsm, st, ex, in, w.data(), w.data() + in.size(), s0, "char16_t, 32-bit ids");
        if (!rec) walk<lexertl::match_results<std::u16string::const_iterator, std::uint32_t>>(c, wsm, st, ex, in, w.begin(), w.begin() + static_cast<std::ptrdiff_t>(in.size()), s0, "std::u16string, 32-bit ids");
    }
}

// Without the advance feature an unmatched character is reported but not consumed.
static void no_advance(mc::ctx& c, const std::vector<rules>& st, const std::vector<std::string>& inputs)
{
    constexpr std::size_t F = +lexertl::feature_bit::bol | +lexertl::feature_bit::eol | +lexertl::feature_bit::skip | +lexertl::feature_bit::again | +lexertl::feature_bit::multi_state;
    lexertl::rules r(FLAGS);
    lexertl::state_machine sm;
    lc::push(r, st);
    lexertl::generator::build(r, sm);
    for (auto& in : inputs)
    {
        const auto ex = expect(st, in, 0);
        lexertl::match_results<const char*, std::uint16_t, F> m(in.data(), in.data() + in.size());
        ++c.traces;
        for (auto& x : ex)
        {
            lexertl::lookup(sm, m);
            ++c.transitions;
            const auto second = x.t.id == NPOS ? x.t.first : x.t.second;
            if (m.id != x.t.id || m.first != in.data() + x.t.first || m.second != in.data() + second)
                return c.fail("no advance", "without the advance feature: expected " + lc::show(x.t, x.s) + " on \"" + mc::esc(in) + "\" with " + lc::show(st));
            if (x.t.id == NPOS) { ++m.second; }
        }
    }
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto a = lit('a'), b = lit('b'), ab = cls("[ab]", chars("ab"));
        const auto hi = cls("[\\0\\xff]", chars(std::string("\0\xff", 2)));
        const auto in3 = mc::strings("abc", 0, T ? 7 : 6), in4 = mc::strings("abc", 0, T ? 6 : 5);
        auto inh = mc::strings(std::string("a\0\xff", 3), 0, T ? 6 : 5);
        const std::vector<unsigned> ids{ 1, 0, SKIP };
        const auto pool = gen::solid(gen::flat(gen::levels({ a, b, ab }, { gen::PLUS, gen::OPT, gen::STAR, gen::times(2) }, T ? 5 : 4)));
        const auto mid = gen::solid(gen::flat(gen::levels({ a, b }, { gen::PLUS, gen::OPT }, T ? 4 : 3)));
        const std::vector<re> few{ a, rep(a, 1, -1, "+"), str("ab"), rep(str("ab"), 1, -1, "+"), cat(rep(ab, 0, -1, "*"), b), lit('c') };
        // 1. one rule of each kind
        for (auto& r : pool) for (auto i : ids) if (c.next()) { run(c, { { mk(r, i, 3) } }, in3, true); no_advance(c, { { mk(r, i) } }, in4); }
        // 2. two rules of every pair of kinds
        for (auto& r : mid) for (auto& s : mid) for (auto i : ids) for (auto j : ids)
            if (c.next()) { run(c, { { mk(r, i), mk(s, j == 1 ? 2 : j, 7) } }, in4, T); no_advance(c, { { mk(r, i), mk(s, j == 1 ? 2 : j) } }, in4); }
        // 3. three rules
        for (auto& r : few) for (auto& s : few) for (auto& t : few) for (auto i : ids) for (auto j : ids) for (auto k : ids)
            if (c.next()) run(c, { { mk(r, i), mk(s, j == 1 ? 2 : j), mk(t, k == 1 ? 3 : k) } }, T ? in3 : in4, false);
        // 4. extreme characters
        for (auto& r : { hi, rep(hi, 1, -1, "+"), cat(hi, a), cls("(?s:.)", gen::all()), cat(a, cls("(?s:.)", gen::all())), cls("[^a]", ~chars("a")) })
            for (auto& s : { a, cat(a, hi), rep(cls("(?s:.)", gen::all()), 2, 2, "{2}") }) for (auto i : ids) for (auto j : ids)
            {
                bool ascii = false;
                for (auto& q : { r, s }) ascii = ascii || q->text.find_first_of(".^f") == std::string::npos;
                if (c.next()) run(c, { { mk(r, i), mk(s, j == 1 ? 2 : j) } }, inh, false);
            }
        // 5. two and three lexer states with skip and continue across them, and a stack
        for (auto& r : few) for (auto& s : few) for (auto i : ids) for (auto j : ids) for (auto k : ids) for (int x = 0; x < 4; ++x)
        {
            if (!c.next()) continue;
            rule p = mk(r, i), q = mk(s, j == 1 ? 2 : j), t = mk(b, k == 1 ? 3 : k);
            p.next = 1; t.next = 0;
            if (x & 1) p.push = 0;
            if (x & 2) { q.pop = true; }
            q.next = 1; t.next = 1;
            if (!(x & 2)) q.next = 0;
            run(c, { { p, t }, { q } }, in4, T);
            if (T)
            {
                t.next = 2;
                rule u = mk(lit('c'), 4), v = mk(a, j);
                u.next = 1; v.next = 2;
                run(c, { { p, t }, { q }, { u, v } }, in4, false);
            }
        }
    });
}
