// P01: longest match and priority, exhaustively over rule sets and inputs.
#include "lexcmp.hpp"
#include "gen.hpp"
using namespace ref;

static void one(mc::ctx& c, const std::vector<std::string>& inputs, const rules& rs)
{
    if (!c.next()) return;
    const std::vector<rules> st{ rs };
    c.describe("rules " + lc::show(st));
    if (c.want_sample()) c.sample(lc::show(st) + "on all " + std::to_string(inputs.size()) + " inputs");
    lexertl::rules r(+lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules);
    lc::push(r, st);
    lexertl::state_machine sm;
    lexertl::generator::build(r, sm);
    for (auto& in : inputs) lc::run<lexertl::cmatch>(c, sm, st, in, in);
    // The same for wide characters, on the shorter texts.
    const auto step = [&](const std::string& in, state& s) { return ref::step(st, in, s); };
    const auto text = [&] { return lc::show(st); };
    const std::size_t flags = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules, longest = inputs.back().size() > 10 ? 6 : 4;
    lc::run_wide<char, char16_t>(c, st, flags, inputs, longest, step, text);
    if (c.thorough && rs.size() > 2) return;
    lc::run_wide<wchar_t, char32_t>(c, st, flags, inputs, longest, step, text);
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const auto atoms = std::vector<re>{ lit('a'), lit('b'), cls("[ab]", chars("ab")), cls("[bc]", chars("bc")),
            cls("[^a]", ~chars("a")), cls(".", gen::dot()) };
        const auto small = gen::solid(gen::flat(gen::levels(atoms, { gen::STAR, gen::PLUS, gen::OPT }, 3)));
        const auto in5 = mc::strings("abcd", 0, c.thorough ? 6 : 4);
        const auto in6 = mc::strings("abc", 0, c.thorough ? 7 : 5);
        auto mk = [](std::initializer_list<re> l)
        {
            rules rs;
            unsigned i = 0;
            for (auto& r : l) { rule x; x.r = r; x.id = ++i * 3; x.uid = i == 2 ? NPOS : 10 * i; rs.push_back(x); }
            return rs;
        };
        // every ordered pair
        for (auto& a : small) for (auto& b : small) one(c, in5, mk({ a, b }));
        // keyword-like triples: literals and repeats that overlap
        std::vector<re> kw;
        for (auto& s : mc::strings("ab", 1, 3)) kw.push_back(str(s));
        for (auto& r : gen::solid(gen::flat(gen::levels({ lit('a'), cls("[ab]", chars("ab")), cls(".", gen::dot()) }, { gen::STAR, gen::PLUS }, c.thorough ? 4 : 3))))
            if (r->size > 1) kw.push_back(r);
        for (std::size_t i = 0; i < kw.size(); ++i)
            for (std::size_t j = 0; j < kw.size(); ++j)
                for (std::size_t k = 0; k < kw.size(); ++k)
                    one(c, in6, mk({ kw[i], kw[j], kw[k] }));
        // pairs of larger regexes against a fixed set of competitors, in both orders
        const auto big = gen::solid(gen::flat(gen::levels({ lit('a'), lit('b'), cls("[^b]", ~chars("b")) }, { gen::STAR, gen::PLUS, gen::OPT, gen::times(2) }, c.thorough ? 5 : 4)));
        const std::vector<re> rivals{ str("aba"), rep(cls("[ab]", chars("ab")), 1, -1, "+"), cat(lit('a'), rep(cls(".", gen::dot()), 0, -1, "*")) };
        for (auto& a : big) for (auto& b : rivals) { one(c, in6, mk({ a, b })); one(c, in6, mk({ b, a })); }
        // machines of up to a few thousand rows: the letter n places before the end decides, so every set of n positions is a state
        const auto ab = cls("[ab]", chars("ab"));
        const int N = c.thorough ? 12 : 10;
        const auto deep = mc::strings("ab", 0, static_cast<std::size_t>(N) + 2);
        for (int n = 1; n <= N; ++n)
            for (auto& h : { rep(ab, 0, -1, "*"), rep(group(alt(lit('a'), lit('b'))), 0, -1, "*"), rep(group(cat(ab, ab)), 0, -1, "*") })
                for (auto& t : { ab, group(alt(lit('a'), lit('b'))) })
                {
                    const std::string q = "{" + std::to_string(n) + "}", q1 = "{1," + std::to_string(n) + "}";
                    one(c, deep, mk({ cat(h, cat(lit('a'), rep(t, n, n, q))) }));
                    one(c, deep, mk({ cat(h, cat(lit('a'), cat(rep(t, n, n, q), lit('b')))), cat(h, cat(lit('b'), rep(t, 1, n, q1))) }));
                    if (n > 1) one(c, deep, mk({ str("ba"), cat(h, cat(lit('a'), rep(t, n, n, q))), cat(h, cat(lit('a'), rep(t, n - 1, n - 1, "{" + std::to_string(n - 1) + "}"))) }));
                }
        // many rules at once: all subsets of words, in both orders
        const auto words = mc::strings("ab", 1, 3);
        for (unsigned m = 1; m < (1u << words.size()); ++m)
        {
            if (!c.thorough && __builtin_popcount(m) > 4) continue;
            rules rs;
            for (std::size_t i = 0; i < words.size(); ++i) if (m >> i & 1) { rule x; x.r = str(words[i]); x.id = 100 + i; rs.push_back(x); }
            one(c, in6, rs);
        }
    });
}
