// P25: reversed rules.
#include "machine.hpp"
#include "sets.hpp"
using namespace ref;

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;

// The mirror image, as a tree and as text.
static re mirror(const re& r)
{
    switch (r->k)
    {
    case kind::cat: return cat(mirror(r->b), mirror(r->a));
    case kind::alt: return alt(mirror(r->a), mirror(r->b));
    case kind::rep: return rep(mirror(r->a), r->lo, r->hi, r->text.substr(paren(r->a, 3).size()));
    default: return r;
    }
}
static std::vector<rules> mirror(std::vector<rules> st)
{
    for (auto& s : st) for (auto& r : s) { r.r = mirror(r.r); std::swap(r.bol, r.eol); }
    return st;
}

template<typename ch, typename idt>
struct kit
{
    using rules_t = lexertl::basic_rules<ch, ch, idt>;
    using sm_t = lexertl::basic_state_machine<ch, idt>;
    static void build(const rules_t& r, sm_t& sm) { lexertl::basic_generator<rules_t, sm_t>::build(r, sm); }
    static std::vector<std::uint32_t> alphabet()
    {
        if (sizeof(ch) == 1) return mac::bytes();
        return { 'a', 'b', 'c', 'x', 'A', '\r', '\n', 0, 0xff, 0x100, 0x0a0a, 0x6161, 0xffff };
    }
    // What the accessors show apart from the regexes.
    static std::string tables(const rules_t& r)
    {
        std::ostringstream o;
        for (std::size_t i = 0; i < r.ids().size(); ++i)
        {
            for (std::size_t j = 0; j < r.ids()[i].size(); ++j) o << +r.ids()[i][j] << ',' << +r.user_ids()[i][j] << ',' << +r.next_dfas()[i][j] << ',' << +r.pushes()[i][j] << ',' << r.pops()[i][j] << ';';
            o << '/';
        }
        return o.str();
    }
    static void compare(mc::ctx& c, const rules_t& r, const rules_t& want, const std::string& d, const char* an)
    {
        sm_t a, b;
        std::string e1, e2;
        try { build(r, a); } catch (const lexertl::runtime_error& e) { e1 = e.what(); if (e1.empty()) e1 = "?"; }
        try { build(want, b); } catch (const lexertl::runtime_error& e) { e2 = e.what(); if (e2.empty()) e2 = "?"; }
        if (e1.empty() != e2.empty()) c.fail("verdict", d + ": " + an + (e1.empty() ? " builds" : " refused: " + e1) + ", written out it " + (e2.empty() ? "builds" : "is refused: " + e2));
        if (!e1.empty()) return;
        if (a.data()._features != b.data()._features) c.fail("features", d + ": features of " + an + " are " + std::to_string(a.data()._features) + ", expected " + std::to_string(b.data()._features));
        const std::string bad = mac::compare(c, mac::table<ch, idt>(a), mac::table<ch, idt>(b), alphabet(), an, "written out");
        if (!bad.empty()) c.fail("differs", d + ": " + bad);
        c.outcome(std::to_string(a.data()._features) + ':' + std::to_string(a.data()._dfa[0].size()));
    }
    static void run(mc::ctx& c, const std::vector<rules>& st, const std::vector<std::string>& inputs)
    {
        const std::string d = lc::show(st);
        rules_t r(FLAGS), w(FLAGS), m(FLAGS);
        lc::push(r, st);
        lc::push(w, st);
        const auto ms = mirror(st);
        lc::push(m, ms);
        const std::string before = tables(r);
        r.reverse();
        if (tables(r) != before) c.fail("tables", d + ": ids, states or order change");
        compare(c, r, m, d, "reversed");
        ++c.traces;
        if (!inputs.empty())
        {
            static const auto texts = mc::strings("ab\n", 1, 3);
            bool open = false;
            for (auto& s : ms) open = open || clash(s, texts);
            if (!open)
            {
                sm_t sm;
                build(r, sm);
                for (auto& in : inputs)
                {
                    const auto win = lc::widen<ch>(in);
                    for (unsigned s0 = 0; s0 < st.size(); ++s0)
                        if (lc::recursive(st)) lc::run<lexertl::recursive_match_results<const ch*, idt>>(c, sm, ms, in, win, true, s0);
                        else lc::run<lexertl::match_results<const ch*, idt>>(c, sm, ms, in, win, true, s0);
                }
            }
        }
        r.reverse();
        compare(c, r, w, d, "reversed twice");
    }
    // Spellings: text and mirror image. twice: only reversing twice is checked.
    static void spelled(mc::ctx& c, const std::string& text, const std::string& image, bool twice)
    {
        for (int k = 0; k < 4; ++k) for (int macro = 0; macro < 3; ++macro)
        {
            auto anchored = [&](const std::string& t, bool bol, bool eol) { return (bol ? "^(" : "(") + t + (eol ? ")$" : ")"); };
            const std::string d = "\"" + mc::esc(anchored(text, k & 1, k & 2)) + "\"" + (macro == 1 ? " as a macro used before" : macro == 2 ? " as a macro used after" : "");
            rules_t r(FLAGS), w(FLAGS), m(FLAGS);
            auto put = [&](rules_t& q, const std::string& t, bool bol, bool eol, bool use)
            {
                const auto x = lc::widen<ch>(anchored(t, bol, eol)), y = lc::widen<ch>("x" + t), ref = lc::widen<ch>("{M}");
                if (macro) q.insert_macro(lc::widen<ch>("M").c_str(), x);
                if (use) { q.push(macro ? ref : x, 1); }
                q.push(lc::widen<ch>("c"), 2);
            };
            if (twice && macro == 2) continue;
            put(r, text, k & 1, k & 2, macro != 2);
            put(w, text, k & 1, k & 2, macro != 2);
            r.reverse();
            if (!twice)
            {
                put(m, image, k & 2, k & 1, macro != 2);
                if (macro == 2) { r.push(lc::widen<ch>("{M}"), 1); m.push(lc::widen<ch>("{M}"), 1); }
                compare(c, r, m, d, "reversed");
            }
            if (macro == 2) continue;
            r.reverse();
            compare(c, r, w, d, "reversed twice");
            ++c.traces;
        }
    }
};

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto a = lit('a'), b = lit('b'), ab = cls("[ab]", chars("ab")), nl = lit('\n', "\\n");
        const auto in4 = mc::strings("ab\n", 0, T ? 5 : 4), in5 = mc::strings("abc", 0, T ? 6 : 5);
        // 1. every regex of the size, alone, with anchors, and before another rule
        const auto pool = gen::solid(gen::flat(gen::levels({ a, b, ab }, { gen::PLUS, gen::STAR, gen::OPT, gen::times(2), gen::between(1, 2), gen::atleast(2) }, T ? 6 : 5)));
        for (auto& r : pool)
        {
            if (!c.next()) continue;
            c.describe(r->text);
            if (c.want_sample()) c.sample(r->text);
            kit<char, std::uint16_t>::run(c, { { sets::mk(r) } }, r->size < 4 ? in5 : std::vector<std::string>());
            for (int k = 1; k < 4; ++k) kit<char, std::uint16_t>::run(c, { { sets::mk(r, 1, k & 1, k & 2), sets::mk(a, 2), sets::mk(nl, 3) } }, r->size < 4 ? in4 : std::vector<std::string>());
            if (r->size < 4) kit<char16_t, std::uint32_t>::run(c, { { sets::mk(r), sets::mk(a, 2, true) } }, {});
        }
        // 2. three concatenated or alternated parts with repeats inside repeats
        const std::vector<re> parts{ a, rep(a, 0, -1, "*"), rep(cat(a, b), 1, -1, "+"), rep(alt(a, cat(b, a)), 2, 3, "{2,3}"), rep(rep(b, 0, 1, "?"), 1, -1, "+"), alt(cat(a, a), b), rep(group(cat(a, rep(b, 0, -1, "*"))), 0, -1, "*"), group(group(cat(a, b))) };
        for (auto& p : parts) for (auto& q : parts) for (auto& s : parts) for (int f = 0; f < 4; ++f)
        {
            auto two = f & 1 ? alt(p, q) : cat(p, q);
            auto r = f & 2 ? alt(two, s) : cat(two, s);
            for (auto& x : { r, rep(r, 0, -1, "*"), rep(r, 2, 2, "{2}"), cat(rep(r, 1, -1, "+"), b) })
            {
                if (nullable(*x) || !c.next()) continue;
                c.describe(x->text);
                kit<char, std::uint16_t>::run(c, { { sets::mk(x) } }, {});
                if (T) kit<char, std::uint16_t>::run(c, { { sets::mk(x, 1, true), sets::mk(str("ab"), 2), sets::mk(nl, 3, false, true) } }, {});
            }
        }
        // 3. the shared catalogue: several rules, anchors, lexer states, stacks
        sets::each(T ? 1 : 0, [&](const std::vector<rules>& st)
        {
            if (!sets::usable(st) || !c.next()) return;
            c.describe(lc::show(st));
            if (c.want_sample()) c.sample(lc::show(st));
            kit<char, std::uint16_t>::run(c, st, mc::strings("ab\n", 0, T ? 4 : 3));
            if (T) kit<char16_t, std::uint8_t>::run(c, st, {});
        });
        // 4. spellings
        struct sp { const char* text; const char* image; bool twice; };
        for (const sp& s : std::vector<sp>{ { "\"abx\"", "xba" }, { "\"ab\"*c", "cb*a" }, { "(?i:ax)b", "b(?i:xa)" }, { "(?x: a b /* x */ )c", "cba" }, { "a(?#note)bx", "xba" }, { "(?s:.)a", "a(?s:.)" },
            { ".a", "a." }, { "[^a-c]{2}x", "x[^a-c]{2}" }, { "[ab]{-}[a]c", "c[ab]{-}[a]" }, { "\\x61\\142x", "x\\142\\x61" }, { "[[:alpha:]]+\\d", "\\d[[:alpha:]]+" }, { "a{2,3}b{0,1}x{2,}", "x{2,}b{0,1}a{2,3}" },
            { "((a|b)+c)?x", "x(c(a|b)+)?" }, { "(((ab)x)(c))", "(c(x(ba)))" }, { "\\(a\\)", "\\)a\\(" }, { "\"^a$\"b", "b\"$a^\"" }, { "\\^a\\$", "\\$a\\^" }, { "(a|bc|(xa)*b)x", "x(a|cb|b(ax)*)" }, { "\\r\\na", "a\\n\\r" },
            { "ab*?c", "", true }, { "(ab)+?x", "", true }, { "a??b|cx", "", true }, { "a{2,3}?b", "", true }, { "(a|b)*?(c|x)", "", true } })
        {
            if (!c.next()) continue;
            c.describe(s.text);
            kit<char, std::uint16_t>::spelled(c, s.text, s.image, s.twice);
            kit<char16_t, std::uint32_t>::spelled(c, s.text, s.image, s.twice);
        }
        // 5. repeats of every kind, one inside another, away from either end of the rule
        struct two { std::string t, i; };
        auto cat2 = [](const two& x, const two& y) { return two{ x.t + y.t, y.i + x.i }; };
        auto grp = [](const two& x) { return two{ "(" + x.t + ")", "(" + x.i + ")" }; };
        auto times = [](const two& x, const std::string& q) { return two{ x.t + q, x.i + q }; };
        const std::vector<two> outer{ { "x", "x" }, { "ab", "ba" }, { "[cd]", "[cd]" } };
        std::vector<two> bodies{ { "a", "a" }, { "[ab]", "[ab]" }, { "(ab)", "(ba)" }, { "(a|bc)", "(a|cb)" }, { "(a*b)", "(ba*)" }, { "(a*?b)", "(ba*?)" }, { "((a)(bc))", "((cb)(a))" } };
        std::vector<std::string> qs{ "" };
        for (const char* q : { "?", "*", "+", "{2}", "{1,2}", "{0,2}", "{2,}" }) { qs.push_back(q); qs.push_back(std::string(q) + "?"); }
        for (auto& l : outer) for (auto& s : outer) for (auto& x : bodies) for (auto& q : qs) for (auto& q2 : qs)
        {
            if (!c.next() || (q == "" && q2 != "")) continue;
            const two n1 = times(x, q);
            const two n2 = q2.empty() ? n1 : times(grp(cat2(n1, { "c", "c" })), q2);
            const two e = cat2(cat2(l, n2), s);
            c.describe(e.t);
            kit<char, std::uint16_t>::spelled(c, e.t, e.i, false);
            const two f = cat2(cat2(l, grp({ n2.t + "|" + s.t, n2.i + "|" + s.i })), { "y", "y" });
            if (T) kit<char, std::uint16_t>::spelled(c, f.t, f.i, false);
        }
    });
}
