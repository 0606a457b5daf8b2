// The catalogue of rule sets shared by the checks that compare different representations of one machine.
#ifndef SETS_HPP
#define SETS_HPP
#include "gen.hpp"

namespace sets
{
    using namespace ref;
    inline rule mk(const re& r, unsigned id = 1, bool bol = false, bool eol = false, unsigned uid = NPOS)
    {
        rule x; x.r = r; x.id = id; x.bol = bol; x.eol = eol; x.uid = uid; return x;
    }
    // action 0 stay, 1 go to the other state, 2 push and go, 3 pop, 4 push remembering the other state, 5 push and stay
    inline rule act(rule r, unsigned st, int action)
    {
        r.next = st;
        switch (action)
        {
        case 1: r.next = 1 - st; break;
        case 2: r.next = 1 - st; r.push = st; break;
        case 3: r.pop = true; break;
        case 4: r.next = 1 - st; r.push = 1 - st; break;
        case 5: r.push = st; break;
        }
        return r;
    }

    // Calls f with every rule set. size 0: small, 1: medium, 2: large.
    template<typename F>
    void each(int size, F f)
    {
        const auto a = lit('a'), b = lit('b'), ab = cls("[ab]", chars("ab")), nl = lit('\n', "\\n"), dot = cls(".", gen::dot());
        const auto any = cls("(?s:.)", gen::all()), na = cls("[^a]", ~chars("a"));
        const std::vector<gen::op> ops{ gen::PLUS, gen::STAR, gen::OPT, gen::times(2) };
        const auto pool = gen::solid(gen::flat(gen::levels({ a, b, ab, nl, dot }, ops, size == 0 ? 3 : size == 1 ? 4 : 5)));
        const auto small = gen::solid(gen::flat(gen::levels({ a, ab, nl }, { gen::PLUS, gen::STAR }, 3)));
        const std::vector<re> few{ a, rep(ab, 1, -1, "+"), cat(a, b), rep(a, 2, 2, "{2}"), cat(rep(a, 0, -1, "*"), b), nl, any, cat(a, nl) };
        // one rule
        for (auto& r : pool) for (int f4 = 0; f4 < (size ? 4 : 1); ++f4) f({ { mk(r, 1, f4 & 1, f4 & 2) } });
        for (auto& r : small) for (int f4 = 0; f4 < 4; ++f4) f({ { mk(r, 7, f4 & 1, f4 & 2, 3) } });
        // two rules
        for (auto& r : (size ? small : few)) for (auto& s : (size == 2 ? pool : small)) for (int k = 0; k < 16; ++k)
            f({ { mk(r, 1, k & 1, k & 2), mk(s, 2, k & 4, k & 8, 9) } });
        for (auto& r : few) for (auto& s : few) { f({ { mk(r, 1), mk(s, SKIP) } }); f({ { mk(r, 0), mk(s, 5) } }); f({ { mk(r, 4, false, false, 1), mk(s, 4, false, false, 2) } }); }
        // three rules
        for (auto& r : few) for (auto& s : few) for (auto& t : few) for (int k = 0; k < (size == 2 ? 64 : size ? 16 : 4); ++k)
            f({ { mk(r, 1, k & 1, k & 2), mk(s, k & 16 ? SKIP : 2, k & 4, k & 8), mk(t, k & 32 ? 0 : 3) } });
        // two lexer states
        const std::vector<std::vector<re>> words = { { a, b, ab }, { cat(a, b), rep(a, 1, -1, "+"), rep(b, 1, -1, "+") }, { rep(a, 1, -1, "+"), nl, any } };
        for (auto& w : words)
            for (int x = 0; x < 6; ++x) for (int y = 0; y < 6; ++y) for (int z = 0; z < 6; ++z)
                for (int k = 0; k < (size == 2 ? 27 : 9); ++k)
                {
                    const unsigned i1 = k % 3 == 0 ? 1u : k % 3 == 1 ? 0u : SKIP, i2 = k / 3 % 3 == 0 ? 2u : k / 3 % 3 == 1 ? 0u : SKIP;
                    const unsigned i3 = k / 9 == 0 ? 3u : k / 9 == 1 ? 0u : SKIP;
                    f({ { act(mk(w[0], i1), 0, x), act(mk(w[1], i2, false, false, 6), 0, y) }, { act(mk(w[2], i3, size && (x & 1), size && (y & 1)), 1, z) } });
                }
        // a third lexer state with a single rule
        for (auto& r : few) for (auto& s : few)
        {
            rule p = mk(r, 1), q = mk(s, 2), t = mk(a, 3);
            p.next = 1; q.next = 2; t.next = 0;
            f({ { p }, { q }, { t } });
        }
    }
    inline bool usable(const std::vector<rules>& st)
    {
        for (auto& s : st) if (any_nullable(s)) return false;
        return true;
    }
}
#endif
