// P10: lexer states and the stack against the reference model: every assignment of actions to rules.
#include "machine.hpp"
#include "gen.hpp"
#include <lexertl/state_machine.hpp>
using namespace ref;

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;
using rm = lexertl::recursive_match_results<const char*>;

static rule mk(const re& r, unsigned id) { rule x; x.r = r; x.id = id; return x; }

// All effects a rule can have with n states, seen from state st.
struct effect { unsigned next, push; bool pop; };
static std::vector<effect> effects(unsigned st, unsigned n)
{
    std::vector<effect> v{ { st, NONE, false }, { st, NONE, true } };
    for (unsigned i = 0; i < n; ++i) if (i != st) v.push_back({ i, NONE, false });
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) v.push_back({ i, j, false });
    return v;
}
static rule with(rule r, const effect& e) { r.next = e.next; r.push = e.push; r.pop = e.pop; return r; }

static void run(mc::ctx& c, const std::vector<rules>& st, const std::vector<std::string>& inputs, bool wide = false)
{
    const std::string d = lc::show(st);
    c.describe(d);
    if (c.want_sample()) c.sample(d);
    lexertl::rules r(FLAGS);
    lexertl::state_machine sm;
    lc::push(r, st);
    lexertl::generator::build(r, sm);
    for (auto& in : inputs) for (unsigned s0 = 0; s0 < st.size(); ++s0) lc::run<rm>(c, sm, st, in, in, true, s0);
    if (wide)
    {
        using wr = lexertl::basic_rules<char, char16_t>;
        lexertl::basic_state_machine<char16_t> wsm;
        wr q(FLAGS);
        lc::push(q, st);
        lexertl::basic_generator<wr, lexertl::basic_state_machine<char16_t>>::build(q, wsm);
        for (auto& in : inputs) lc::run<lexertl::recursive_match_results<const char16_t*>>(c, wsm, st, in, lc::widen<char16_t>(in), true, 0, 1, false, "lookup with char16_t");
    }
}

// The same rules given for lists of states, against one push per state.
struct form { std::string where; std::vector<unsigned> in; };
static void lists(mc::ctx& c)
{
    const std::vector<std::string> names{ "INITIAL", "S", "S1", "S-1_a" };
    std::vector<form> forms{ { "*", { 0, 1, 2, 3 } } };
    // Every ordered selection of states, joined by commas.
    std::vector<std::vector<unsigned>> sel{ {} };
    for (std::size_t i = 0; i < sel.size(); ++i)
    {
        if (!sel[i].empty())
        {
            form f;
            for (auto s : sel[i]) f.where += (f.where.empty() ? "" : ",") + names[s];
            f.in = sel[i];
            forms.push_back(f);
        }
        for (unsigned s = 0; s < 4 && sel[i].size() < 4; ++s)
            if (std::find(sel[i].begin(), sel[i].end(), s) == sel[i].end()) { auto v = sel[i]; v.push_back(s); sel.push_back(v); }
    }
    struct target { std::string text; int next, push; bool pop; };   // -1: the state itself, -2: none
    std::vector<target> to{ { ".", -1, -2, false }, { "<", -1, -2, true } };
    for (int i = 0; i < 4; ++i)
    {
        to.push_back({ names[i], i, -2, false });
        to.push_back({ ">" + names[i], i, -1, false });
        for (int j = 0; j < 4; ++j) to.push_back({ ">" + names[i] + ":" + names[j], i, j, false });
    }
    const std::vector<std::uint32_t> alphabet{ 'a', 'b', 'c', 'z', '\n' };
    for (auto& f : forms) for (auto& t : to) for (int kind = 0; kind < 5; ++kind)
    {
        if (!c.next()) continue;
        const std::string d = "rule a+ in \"" + f.where + "\" to \"" + t.text + "\" (" + std::to_string(kind) + ")";
        c.describe(d);
        if (c.want_sample()) c.sample(d);
        ++c.traces;
        lexertl::rules r(FLAGS), q(FLAGS);
        for (int i = 1; i < 4; ++i) { r.push_state(names[i].c_str()); q.push_state(names[i].c_str()); }
        auto base = [&](lexertl::rules& x) { x.push("*", "z", 9, "."); };
        const std::string re = "a+";
        const lexertl::rules::id_type one = 1, five = 5;
        base(r); base(q);
        switch (kind)
        {
        case 0: r.push(f.where.c_str(), re, one, t.text.c_str(), five); break;
        case 1: r.push(f.where.c_str(), re.c_str(), one, t.text.c_str(), five); break;
        case 2: r.push(f.where.c_str(), re.c_str(), re.c_str() + re.size(), one, t.text.c_str(), five); break;
        case 3: r.push(f.where.c_str(), re.c_str(), t.text.c_str()); break;
        case 4: r.push(f.where.c_str(), re, lexertl::rules::skip(), t.text.c_str()); break;
        }
        std::vector<rules> st(4);
        for (unsigned i = 0; i < 4; ++i) { rule z = mk(lit('z'), 9); z.next = i; st[i].push_back(z); }
        for (auto i : f.in)
        {
            rule x = mk(rep(lit('a'), 1, -1, "+"), kind == 3 ? 0 : kind == 4 ? SKIP : 1);
            x.uid = kind < 3 ? 5 : NPOS;
            x.next = t.next < 0 ? i : static_cast<unsigned>(t.next);
            x.push = t.push == -2 ? NONE : t.push < 0 ? i : static_cast<unsigned>(t.push);
            x.pop = t.pop;
            st[i].push_back(x);
        }
        lexertl::state_machine sm;
        lexertl::generator::build(r, sm);
        static const auto inputs = mc::strings("az", 0, 4);
        static const auto inputs2 = mc::strings("azb", 0, 3);
        for (auto& in : c.thorough ? inputs : inputs2) for (unsigned s0 = 0; s0 < 4; ++s0)
            lc::run_with<rm>(c, sm, 4, [&](state& s) { return step(st, in, s); }, [&] { return d; }, in, in, true, s0);
    }
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto a = lit('a'), b = lit('b'), ab = str("ab"), as = rep(a, 1, -1, "+"), any = cls("(?s:.)", gen::all());
        const auto in6 = mc::strings("ab", 0, T ? 9 : 7), in5 = mc::strings("abc", 0, T ? 6 : 5);
        // 1. Two states of two rules each: every assignment of effects.
        {
            const auto e0 = effects(0, 2), e1 = effects(1, 2);
            for (auto& w : e0) for (auto& x : e0) for (auto& y : e1) for (auto& z : e1)
            {
                if (!c.next()) continue;
                run(c, { { with(mk(a, 1), w), with(mk(b, 2), x) }, { with(mk(a, 3), y), with(mk(b, 4), z) } }, in6, c.thorough);
            }
        }
        // 2. One state.
        for (auto& w : effects(0, 1)) for (auto& x : effects(0, 1)) for (auto& y : effects(0, 1)) if (c.next())
            run(c, { { with(mk(as, 1), w), with(mk(b, 2), x), with(mk(lit('c'), 3), y) } }, in5, true);
        // 3. Three states of one rule each, and with a second rule in the first.
        {
            const auto e0 = effects(0, 3), e1 = effects(1, 3), e2 = effects(2, 3);
            for (auto& w : e0) for (auto& x : e1) for (auto& y : e2)
            {
                if (!c.next()) continue;
                run(c, { { with(mk(a, 1), w) }, { with(mk(a, 2), x) }, { with(mk(a, 3), y) } }, mc::strings("a", 0, 8));
                if (T || (w.next + x.next + y.next) % 2 == 0)
                    for (auto& z : e0) run(c, { { with(mk(a, 1), w), with(mk(b, 4), z) }, { with(mk(a, 2), x) }, { with(mk(any, 3), y) } }, mc::strings("ab", 0, T ? 6 : 4));
            }
        }
        // 4. The kind of token: id, no id, skip, on each rule with each effect.
        {
            const auto e0 = effects(0, 2), e1 = effects(1, 2);
            const std::vector<unsigned> ids{ 1, 0, SKIP };
            for (auto& w : e0) for (auto& x : e1) for (auto i : ids) for (auto j : ids) for (auto k : ids)
            {
                if (!c.next()) continue;
                const effect leave{ 0, NONE, true };
                run(c, { { with(mk(a, i), w), with(mk(b, k), e0[2]) }, { with(mk(a, j), x), with(mk(b, 4), leave) } }, in6);
                run(c, { { with(mk(as, i), w), with(mk(ab, k), { 1, 0, false }) }, { with(mk(b, j), x), with(mk(lit('c'), 4), leave) } }, in5);
            }
        }
        // 5. Anchors and user ids carried along.
        {
            const auto e0 = effects(0, 2), e1 = effects(1, 2);
            const auto nl = lit('\n', "\\n");
            const auto in = mc::strings("ab\n", 0, T ? 6 : 5);
            for (auto& w : e0) for (auto& x : e1) for (int k = 0; k < 16; ++k)
            {
                if (!c.next()) continue;
                rule p = with(mk(a, 1), w), q = with(mk(as, 2), x);
                p.bol = k & 1; p.eol = k & 2; q.bol = k & 4; q.eol = k & 8; p.uid = 11; q.uid = 12;
                rule s = mk(b, 3), t = mk(nl, 4), u = mk(b, 5);
                s.next = 0; u.next = 0; t.next = 1; t.push = 0;
                const std::vector<rules> st{ { p, s, t }, { q, u } };
                if (clash(st[0], in) || clash(st[1], in)) continue;
                run(c, st, in);
            }
        }
        lists(c);
    });
}
