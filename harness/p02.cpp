// P02: operator semantics, exhaustively over regexes by size.
#include "lexcmp.hpp"
#include "gen.hpp"
using namespace ref;

static void build(const std::vector<rules>& st, lexertl::state_machine& sm, std::size_t extra = 0)
{
    lexertl::rules r(+lexertl::regex_flags::dot_not_newline | extra);
    lc::push(r, st);
    lexertl::generator::build(r, sm);
}

// r alone; if r can be empty also followed by a terminator, and under the zero-length option.
static void one(mc::ctx& c, const std::vector<std::string>& inputs, const re& r)
{
    if (!c.next()) return;
    rule x;
    x.r = r; x.id = 7;
    c.describe("regex \"" + mc::esc(r->text) + "\"");
    if (c.want_sample()) c.sample("regex " + r->text + " on all " + std::to_string(inputs.size()) + " inputs");
    if (nullable(*r))
    {
        // The build must refuse it without the zero-length option...
        lexertl::state_machine sm;
        bool threw = false;
        try { build({ { x } }, sm); } catch (const lexertl::runtime_error&) { threw = true; }
        if (!threw) c.fail("nullable-accepted", "a regex that matches the empty text was accepted: " + r->text);
        // ... and with it match the longest prefix, possibly empty.
        build({ { x } }, sm, +lexertl::regex_flags::match_zero_len);
        for (auto& in : inputs)
        {
            if (in.empty()) continue;
            lexertl::cmatch m(in.data(), in.data() + in.size());
            lexertl::lookup(sm, m);
            const auto e = ends(*r, 1, in);
            const auto want = static_cast<std::size_t>(63 - __builtin_clzll(e));
            ++c.transitions; ++c.traces;
            if (m.id != 7 || m.length() != want)
                c.fail("zero-len", "with zero-length matches allowed \"" + r->text + "\" on \"" + mc::esc(in) + "\" gave id " +
                    std::to_string(m.id) + " length " + std::to_string(m.length()) + ", expected length " + std::to_string(want));
        }
        x.r = cat(r, lit('c'));
    }
    lexertl::state_machine sm;
    build({ { x } }, sm);
    const std::vector<rules> st{ { x } };
    for (auto& in : inputs) lc::run<lexertl::cmatch>(c, sm, st, in, in);
    // The same for wide characters, on the shorter texts.
    const auto step = [&](const std::string& in, state& s) { return ref::step(st, in, s); };
    const auto text = [&] { return lc::show(st); };
    const std::size_t longest = inputs.back().size() > 12 ? 14 : inputs.back().size() > 8 ? 7 : 4;
    lc::run_wide<char, char16_t>(c, st, +lexertl::regex_flags::dot_not_newline, inputs, longest, step, text);
    lc::run_wide<wchar_t, char32_t>(c, st, +lexertl::regex_flags::dot_not_newline, inputs, longest, step, text);
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        using gen::between; using gen::times; using gen::atleast;
        const std::vector<gen::op> ops{ gen::STAR, gen::PLUS, gen::OPT, times(2), times(3), times(1), between(0, 1), between(0, 2), between(1, 2),
            between(1, 3), between(2, 3), between(2, 2), atleast(0), atleast(1), atleast(2) };
        const auto in = mc::strings("abc", 0, c.thorough ? 7 : 5);
        // 1. all operators, all regexes of up to 4 (5) nodes
        const std::vector<re> ab{ lit('a'), lit('b') };
        for (auto& l : gen::levels(ab, ops, c.thorough ? 5 : 4)) for (auto& r : l) one(c, in, r);
        // 2. the basic operators, deeper
        for (auto& r : gen::flat(gen::levels({ lit('a'), cls("[ab]", chars("ab")) }, { gen::STAR, gen::PLUS, gen::OPT, between(1, 2) }, c.thorough ? 7 : 6))) one(c, in, r);
        // 3. every way to write and group an operand
        const re ab1 = cat(lit('a'), lit('b'));
        auto as = [](const re& r, const std::string& text, int prec)
        {
            auto n = std::make_shared<node>(*r); n->text = text; n->prec = prec; return re(n);
        };
        const std::vector<re> spelt{ as(ab1, "\"ab\"", 1), as(ab1, "\"a\"\"b\"", 1), as(ab1, "a\"b\"", 1), as(ab1, "(?#x(y)z)ab", 1), as(ab1, "a(?#)b", 1),
            as(ab1, "(?x: a\tb /* | */ )", 3), as(ab1, "(?x:a(?-x:b))", 3), as(cls("", chars("aA")), "(?i:a)", 3),
            as(cat(cls("", chars("aA")), lit('b')), "(?i:a(?-i:b))", 3), as(cls("", gen::all()), "(?s:.)", 3), as(cls("", gen::dot()), "(?s:(?-s:.))", 3),
            as(cat(cls("", chars("aA")), lit('b')), "((?i:a)b)", 3), as(alt(lit('a'), lit('b')), "((a)|(b))", 3), as(cat(cls("", chars("aA")), cls("", gen::all())), "(?is:a.)", 3),
            as(alt(cls("", chars("aA")), lit('b')), "((?i:a)|b)", 3), as(lit('a'), "((((a))))", 3), as(cat(cls("", chars("aA")), cls("", chars("bB"))), "(?i:(?-i:(?i:ab)))", 3),
            as(cat(lit('a'), cls("", gen::dot())), "((?s-i:a)(?-s:.))", 3), as(cat(cls("", gen::all()), cls("", gen::dot())), "(?s:.).", 1), lit('b') };
        const auto in3 = mc::strings("abA\n", 0, c.thorough ? 6 : 5);
        const auto in3s = mc::strings("abcAB\n", 0, c.thorough ? 5 : 4);
        for (auto& r : gen::flat(gen::levels(spelt, { gen::STAR, gen::PLUS, gen::OPT, times(2) }, 3))) one(c, r->size < 3 ? in3 : in3s, r);
        // 4. every small pair of repeat bounds, on operands that are plain, grouped, nullable or ambiguous
        std::vector<std::string> runs;
        for (auto& s : { "a", "b", "ab", "ba", "aab", "abb" }) for (int n = 0; n <= 36; ++n)
        {
            std::string x, p = s;
            for (int i = 0; i < n && x.size() + p.size() <= 40; ++i) x += p;
            if (std::find(runs.begin(), runs.end(), x) == runs.end()) { runs.push_back(x); runs.push_back(x + "c"); runs.push_back(x + "a"); runs.push_back("b" + x); }
        }
        const std::vector<re> operands{ lit('a'), str("ab"), alt(lit('a'), str("bb")), cat(rep(lit('a'), 0, -1, "*"), lit('b')), rep(lit('a'), 0, 1, "?"),
            alt(str("ab"), rep(lit('b'), 0, 1, "?")), rep(str("ab"), 2, 3, "{2,3}"), rep(rep(lit('a'), 0, 1, "?"), 1, -1, "+") };
        const int top = c.thorough ? 17 : 12;
        for (auto& r : operands)
            for (int n = 0; n <= top; ++n)
            {
                if (n > 0) one(c, runs, rep(r, n, n, times(n).text));
                one(c, runs, rep(r, n, -1, atleast(n).text));
                for (int m = n > 0 ? n : 1; m <= top + 1; ++m) one(c, runs, rep(r, n, m, between(n, m).text));
            }
        // 5. two repeats in sequence and nested
        const auto in5 = mc::strings("ab", 0, c.thorough ? 11 : 9);
        for (auto& o1 : ops) for (auto& o2 : ops)
        {
            one(c, in5, cat(rep(lit('a'), o1.lo, o1.hi, o1.text), rep(lit('b'), o2.lo, o2.hi, o2.text)));
            one(c, in5, rep(rep(str("ab"), o1.lo, o1.hi, o1.text), o2.lo, o2.hi, o2.text));
            one(c, in5, cat(rep(lit('a'), o1.lo, o1.hi, o1.text), cat(rep(cls("[ab]", chars("ab")), o2.lo, o2.hi, o2.text), lit('b'))));
            one(c, in5, rep(alt(rep(lit('a'), o1.lo, o1.hi, o1.text), str("ab")), o2.lo, o2.hi, o2.text));
        }
    });
}
