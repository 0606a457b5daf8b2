// P08: non-greedy rules end at their first match, alone and beside greedy rules.
#include "lexcmp.hpp"
#include "gen.hpp"
#include <lexertl/state_machine.hpp>
using namespace ref;
using gen::op;

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;

static bool lazy_op(const re& r)
{
    std::string t = r->text;
    while (t.back() == ')') t.pop_back();
    return r->k == kind::rep && t.back() == '?' && t.size() > 1 && std::strchr("*+?}", t[t.size() - 2]);
}
static bool lazy(const re& r) { return r && (lazy_op(r) || lazy(r->a) || lazy(r->b)); }
// The ungrouped alternatives of a rule with a non-greedy repeat are rules of their own, as far as they have one.
static void alternatives(const rule& x, const re& r, rules& out)
{
    if (r->k == kind::alt && r->prec == 0) { alternatives(x, r->a, out); alternatives(x, r->b, out); return; }
    rule y = x;
    y.r = r;
    y.shortest = lazy(r);
    out.push_back(y);
}
static bool crosses(const re& r)
{
    if (!r) return false;
    if (r->k == kind::set) return r->set['\n'] || r->set['\r'];
    return crosses(r->a) || crosses(r->b);
}
// A non-greedy repeat that nothing follows is cut down to its least count first; with alternatives about, what is left need not be non-greedy.
static bool trailing(const re& r)
{
    if (r->k == kind::cat) return trailing(r->b);
    if (r->k == kind::alt) return trailing(r->a) || trailing(r->b);
    return lazy_op(r);
}
static bool alternation(const re& r) { return r && (r->k == kind::alt || alternation(r->a) || alternation(r->b)); }
// A rule set as written and as it is to be understood.
static bool understand(const rules& in, rules& out)
{
    for (auto& x : in)
    {
        if (lazy(x.r))
        {
            // ^ belongs to the first alternative and $ to the last one; leave those to P06 and P07.
            if ((x.bol || x.eol) && x.r->k == kind::alt) return false;
            // Known finding below: such a rule runs on across line breaks.
            if (x.eol && crosses(x.r)) return false;
            if (!x.eol && trailing(x.r) && alternation(x.r)) return false;
            alternatives(x, x.r, out);
        }
        else out.push_back(x);
    }
    return !any_nullable(out);
}
static void run(mc::ctx& c, const rules& rs, const std::vector<std::string>& inputs)
{
    if (!c.next()) return;
    const std::string d = lc::show({ rs });
    c.describe(d);
    if (c.want_sample()) c.sample(d);
    rules model;
    if (!understand(rs, model)) { c.count("left open"); return; }
    lexertl::rules r(FLAGS);
    lexertl::state_machine sm;
    lc::push(r, { rs });
    lexertl::generator::build(r, sm);
    const std::vector<rules> st{ model };
    if (clash(model, inputs)) return;
    for (auto& in : inputs) lc::run_with<lexertl::cmatch>(c, sm, 1, [&](state& s) { return step(st, in, s); }, [&] { return d; }, in, in);
    // The same for wide characters, on the shorter texts.
    const auto model_step = [&](const std::string& in, state& s) { return step(st, in, s); };
    const auto text = [&] { return d; };
    const std::size_t longest = inputs.back().size() > 7 ? 6 : 4;
    lc::run_wide<char, char16_t>(c, { rs }, FLAGS, inputs, longest, model_step, text);
    lc::run_wide<wchar_t, char32_t>(c, { rs }, FLAGS, inputs, longest, model_step, text);
}
static rule mk(const re& r, unsigned id, bool bol = false, bool eol = false) { rule x; x.r = r; x.id = id; x.bol = bol; x.eol = eol; return x; }

// Two non-greedy rules. Whether the first one to match ends the token, or also the other one gets its chance, is left open:
// either way the token is the shortest text of the rule that it is reported for, and of the first rule if both end there.
static void two(mc::ctx& c, const rule& x, const rule& y, const std::vector<std::string>& inputs)
{
    if (!c.next()) return;
    const rules rs{ x, y };
    const std::string d = lc::show({ rs });
    c.describe(d);
    lexertl::rules r(FLAGS);
    lexertl::state_machine sm;
    lc::push(r, { rs });
    lexertl::generator::build(r, sm);
    for (auto& in : inputs)
    {
        if (in.empty()) continue;
        const auto e1 = ends(*x.r, 1, in), e2 = ends(*y.r, 1, in);
        const std::size_t l1 = e1 ? __builtin_ctzll(e1) : 0, l2 = e2 ? __builtin_ctzll(e2) : 0;
        lexertl::cmatch m(in.data(), in.data() + in.size());
        lexertl::lookup(sm, m);
        ++c.transitions; ++c.traces;
        c.state(mc::hash(in.data(), in.size()));
        bool ok = false;
        if (!l1 && !l2) ok = m.id == lexertl::cmatch::npos() && m.length() == 1;
        else ok = (m.id == 1 && m.length() == l1 && l1) || (m.id == 2 && m.length() == l2 && l2 && l1 != l2);
        if (!ok) return c.fail("two", d + "on \"" + mc::esc(in) + "\": id " + std::to_string(m.id) + " length " + std::to_string(m.length()) + ", the shortest matches are " + std::to_string(l1) + " and " + std::to_string(l2) + " long");
    }
    c.outcome("two");
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto a = lit('a'), b = lit('b'), x = lit('c'), ab = cls("[ab]", chars("ab")), dot = cls(".", gen::dot()), any = cls("(?s:.)", gen::all()), nc = cls("[^c]", ~chars("c"));
        const std::vector<op> lz{ { 0, -1, "*?" }, { 1, -1, "+?" }, { 0, 1, "??" }, { 1, 2, "{1,2}?" }, { 2, -1, "{2,}?" } };
        const std::vector<op> all{ { 0, -1, "*?" }, { 0, -1, "{0,}?" }, { 1, -1, "+?" }, { 1, -1, "{1,}?" }, { 0, 1, "??" }, { 0, 1, "{0,1}?" }, { 0, 2, "{0,2}?" }, { 0, 3, "{0,3}?" }, { 1, 2, "{1,2}?" }, { 1, 3, "{1,3}?" },
            { 2, 3, "{2,3}?" }, { 2, 4, "{2,4}?" }, { 2, -1, "{2,}?" }, { 3, -1, "{3,}?" }, { 2, 2, "{2}?" }, { 3, 3, "{3}?" }, { 2, 2, "{2,2}?" } };
        const auto in2 = mc::strings("ab", 0, T ? 10 : 8), in3 = mc::strings("abc", 0, T ? 7 : 6), in3n = mc::strings("abc\n", 0, T ? 6 : 5);

        // 1. Every regex of one non-greedy kind of operator, alone.
        for (auto& r : gen::flat(gen::levels({ a, b, ab }, lz, 5))) if (lazy(r)) run(c, { mk(r, 1) }, in2);
        for (auto& r : gen::flat(gen::levels({ a, ab }, { { 0, -1, "*?" }, { 0, 1, "??" } }, T ? 6 : 5))) if (lazy(r)) run(c, { mk(r, 1) }, in2);
        // 2. Prefix, non-greedy repeat in every spelling, terminator; twice over.
        const std::vector<re> pre{ a, b, cat(a, b), group(alt(a, cat(b, b))), ab }, mid{ a, ab, dot, any, nc, group(cat(a, b)), group(alt(a, cat(b, a))), group(alt(cat(a, b), x)) },
            post{ x, b, cat(b, x), cat(b, b), group(alt(b, x)), group(alt(b, cat(b, x))), ab, cat(a, cat(b, a)), group(cat(b, rep(x, 0, 1, "??"))) };
        for (auto& o : all) for (auto& m : mid) for (auto& t : post)
        {
            const auto core = cat(rep(m, o.lo, o.hi, o.text), t);
            run(c, { mk(core, 1) }, in3);
            for (auto& p : pre) run(c, { mk(cat(p, core), 1) }, in3);
            for (int k = 1; k < 4; ++k) run(c, { mk(cat(a, core), 1, k & 1, k & 2) }, in3n);
        }
        for (auto& o : lz) for (auto& m : mid) for (auto& t : post) for (auto& o2 : lz) for (auto& m2 : { a, dot, group(cat(a, b)) })
            run(c, { mk(cat(cat(a, rep(m, o.lo, o.hi, o.text)), cat(t, cat(rep(m2, o2.lo, o2.hi, o2.text), x))), 1) }, in3);
        // Non-greedy repeats at the end: their least count, whatever follows.
        for (auto& o : all) for (auto& m : mid) for (auto& p : pre)
        {
            const auto t = rep(m, o.lo, o.hi, o.text);
            run(c, { mk(cat(p, t), 1) }, in3);
            run(c, { mk(cat(p, group(t)), 1) }, in3);
            run(c, { mk(cat(p, group(cat(b, t))), 1) }, in3);
            run(c, { mk(cat(p, group(group(cat(b, group(t))))), 1) }, in3);
            run(c, { mk(cat(p, t), 1), mk(m, 2) }, in3);
            run(c, { mk(m, 2), mk(cat(p, t), 1) }, in3);
            run(c, { mk(cat(p, t), 1, true) }, in3n);
            for (auto& o2 : lz) run(c, { mk(cat(p, cat(t, rep(a, o2.lo, o2.hi, o2.text))), 1) }, in3);
            for (auto& o2 : lz) run(c, { mk(cat(p, cat(t, rep(group(cat(a, b)), o2.lo, o2.hi, o2.text))), 1) }, in3);
        }
        // 3. Greedy repeats in the prefix and inside the terminator, on characters that do not follow its end.
        const std::vector<re> gpre{ rep(a, 1, -1, "+"), cat(rep(a, 0, -1, "*"), b), rep(cat(a, b), 1, -1, "+"), cat(a, rep(b, 2, 3, "{2,3}")), cat(rep(a, 0, 1, "?"), b) };
        const std::vector<re> gpost{ x, cat(b, x), cat(rep(b, 1, -1, "+"), x), cat(b, cat(rep(a, 0, -1, "*"), x)), cat(b, cat(rep(ab, 1, 2, "{1,2}"), x)), cat(a, cat(rep(group(alt(a, b)), 0, -1, "*"), x)) };
        for (auto& o : all) for (auto& m : mid) for (auto& t : gpost)
        {
            run(c, { mk(cat(a, cat(rep(m, o.lo, o.hi, o.text), t)), 1) }, in3);
            for (auto& p : gpre) run(c, { mk(cat(p, cat(rep(m, o.lo, o.hi, o.text), t)), 1) }, in3);
        }
        // 4. Beside greedy rules, in both orders, and between two of them.
        std::vector<re> lr;
        for (auto& o : lz) for (auto& m : { a, ab, dot, nc, group(cat(a, b)) }) for (auto& t : { x, b, cat(b, x), cat(b, b) }) lr.push_back(cat(a, cat(rep(m, o.lo, o.hi, o.text), t)));
        const auto gr = gen::solid(gen::flat(gen::levels({ a, b, x, ab }, { gen::PLUS, gen::STAR }, T ? 4 : 3)));
        for (auto& l : lr) for (auto& g : gr) { run(c, { mk(l, 1), mk(g, 2) }, in3); run(c, { mk(g, 2), mk(l, 1) }, in3); }
        const std::vector<re> few{ a, cat(a, b), str("abb"), str("abcb"), str("aba"), rep(ab, 1, -1, "+"), rep(cls("[abc]", chars("abc")), 2, 2, "{2}"), cat(a, rep(x, 0, -1, "*")) };
        for (auto& l : lr) for (auto& g : few) for (auto& h : few) { run(c, { mk(g, 2), mk(l, 1), mk(h, 3) }, in3); if (T) { run(c, { mk(g, 2), mk(h, 3), mk(l, 1) }, in3); run(c, { mk(l, 1), mk(g, 2), mk(h, 3) }, in3); } }
        for (auto& l : lr) for (auto& g : few) for (int k = 0; k < 16; ++k) run(c, { mk(l, 1, k & 1, k & 2), mk(g, k & 8 ? SKIP : 2, k & 4, k & 8) }, in3n);
        // Two non-greedy rules side by side.
        for (auto& l : lr) for (auto& k : lr) two(c, mk(l, 1), mk(k, 2), in3);
        // 5. Greedy alternatives of the rule itself.
        for (auto& l : lr) for (auto& g : gr)
        {
            const auto alt1 = alt(l, g), alt2 = alt(g, l);
            run(c, { mk(alt1, 1) }, in3);
            run(c, { mk(alt2, 1) }, in3);
        }
        if (c.next())
        {
            c.describe("a(?s:.)*?c$ on ac LF c");
            lexertl::rules r(FLAGS);
            lexertl::state_machine sm;
            r.push("a(?s:.)*?c$", 1);
            lexertl::generator::build(r, sm);
            const std::string in = "ac\nc";
            lexertl::cmatch m(in.data(), in.data() + in.size());
            lexertl::lookup(sm, m);
            if (m.id != 1 || m.length() != 2) c.fail("a(?s:.)*?c$", "\"a(?s:.)*?c$\" on \"ac\\nc\" gives length " + std::to_string(m.length()) + ", expected 2");
        }
        for (auto& l : lr) for (auto& g : few) run(c, { mk(alt(g, alt(l, cat(b, rep(b, 0, -1, "*")))), 1), mk(ab, 2) }, in3);
    });
}
