// Exhaustive generators of regexes by size (number of syntax nodes), simplest first.
#ifndef GEN_HPP
#define GEN_HPP
#include "refre.hpp"
#include <set>

namespace gen
{
    struct op { int lo, hi; std::string text; };
    inline const op STAR{ 0, -1, "*" }, PLUS{ 1, -1, "+" }, OPT{ 0, 1, "?" };
    inline op times(int n) { return { n, n, "{" + std::to_string(n) + "}" }; }
    inline op atleast(int n) { return { n, -1, "{" + std::to_string(n) + ",}" }; }
    inline op between(int n, int m) { return { n, m, "{" + std::to_string(n) + "," + std::to_string(m) + "}" }; }

    // levels[k]: all regexes of exactly k+1 nodes.
    inline std::vector<std::vector<ref::re>> levels(const std::vector<ref::re>& atoms, const std::vector<op>& ops,
        std::size_t max, bool cats = true, bool alts = true)
    {
        std::vector<std::vector<ref::re>> l(max);
        std::set<std::string> seen;
        auto add = [&](std::vector<ref::re>& v, const ref::re& r) { if (seen.insert(r->text).second) v.push_back(r); };
        for (auto& a : atoms) add(l[0], a);
        for (std::size_t n = 1; n < max; ++n)
        {
            for (auto& r : l[n - 1])
                for (auto& o : ops) add(l[n], ref::rep(r, o.lo, o.hi, o.text));
            for (std::size_t i = 0; i + 2 <= n; ++i)
                for (auto& a : l[i])
                    for (auto& b : l[n - 2 - i])
                    {
                        if (cats) add(l[n], ref::cat(a, b));
                        if (alts) add(l[n], ref::alt(a, b));
                    }
        }
        return l;
    }
    inline std::vector<ref::re> flat(const std::vector<std::vector<ref::re>>& l, std::size_t max = 99)
    {
        std::vector<ref::re> r;
        for (std::size_t i = 0; i < l.size() && i < max; ++i) r.insert(r.end(), l[i].begin(), l[i].end());
        return r;
    }
    inline std::vector<ref::re> solid(const std::vector<ref::re>& v)   // those that cannot match the empty text
    {
        std::vector<ref::re> r;
        for (auto& x : v) if (!ref::nullable(*x)) r.push_back(x);
        return r;
    }
    inline ref::charset dot() { ref::charset c; c.set(); c.reset('\n'); return c; }
    inline ref::charset all() { ref::charset c; c.set(); return c; }
}
#endif
