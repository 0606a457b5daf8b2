// P31: the character set type against sets of cells. Every canonical value over a universe cut into cells is taken as a
// state, and every operation with every operand is applied to it, so the invariant is inductive over sequences of any length.
#include "mc.hpp"
#include <lexertl/string_token.hpp>

template<typename ch>
struct world
{
    using token = lexertl::basic_string_token<ch>;
    using range = typename token::range;
    using idx = typename token::index_type;
    static const std::uint64_t MAX;

    std::vector<std::uint64_t> start;      // first character of each cell
    std::size_t n() const { return start.size(); }
    std::uint64_t last(std::size_t i) const { return i + 1 < n() ? start[i + 1] - 1 : MAX; }

    token make(unsigned m) const
    {
        token t;
        for (std::size_t i = 0; i < n(); ++i)
        {
            if (!(m >> i & 1)) continue;
            std::size_t j = i;
            while (j + 1 < n() && (m >> (j + 1) & 1)) ++j;
            t._ranges.push_back(range(static_cast<idx>(start[i]), static_cast<idx>(last(j))));
            i = j;
        }
        return t;
    }
    static std::string show(const token& t)
    {
        std::ostringstream o;
        o << '{';
        for (auto& r : t._ranges) o << ' ' << std::hex << +r.first << '-' << +r.second;
        o << " }";
        return o.str();
    }
    std::uint64_t weight(unsigned m) const
    {
        std::uint64_t w = 0;
        for (std::size_t i = 0; i < n(); ++i) if (m >> i & 1) w += last(i) - start[i] + 1;
        return w;
    }
    void is(mc::ctx& c, const token& t, unsigned m, const char* op, unsigned a, unsigned b) const
    {
        ++c.transitions;
        const token want = make(m);
        if (t._ranges != want._ranges)
            c.fail(op, std::string(op) + ": from " + show(make(a)) + " with " + show(make(b)) + " got " + show(t) + ", expected " + show(want));
    }
    static void flag(mc::ctx& c, bool got, bool want, const char* op, const token& a, const token& b)
    {
        ++c.transitions;
        if (got != want) c.fail(op, std::string(op) + " of " + show(a) + " and " + show(b) + " is " + (got ? "true" : "false"));
    }

    // All operations on the value a.
    void unary(mc::ctx& c, unsigned a) const
    {
        const unsigned full = (1u << n()) - 1;
        const token A = make(a);
        c.state(a + 1);
        { token t = A; t.negate(); is(c, t, full & ~a, "negate", a, 0); t.negate(); is(c, t, a, "negate twice", a, 0); }
        { token t = A; t.clear(); is(c, t, 0, "clear", a, 0); }
        flag(c, A.empty(), a == 0, "empty", A, A);
        flag(c, A.any(), a == full, "any", A, A);
        flag(c, A.negatable(), weight(a) > MAX / 2, "negatable", A, A);
        ++c.transitions;
        if (A.size() != A._ranges.size()) c.fail("size", "size of " + show(A));
        for (std::size_t i = 0; i < n(); ++i)
            for (std::size_t j = i; j < n(); ++j)
            {
                const unsigned b = ((2u << j) - 1) & ~((1u << i) - 1);
                token t = A;
                t.insert(range(static_cast<idx>(start[i]), static_cast<idx>(last(j))));
                is(c, t, a | b, "insert range", a, b);
            }
    }
    void binary(mc::ctx& c, unsigned a, unsigned b, bool overlaps) const
    {
        const token A = make(a), B = make(b);
        c.state((std::uint64_t(a) << 20) + b + (1ull << 50));
        { token t = A; t.insert(B); is(c, t, a | b, "insert", a, b); is(c, B, b, "operand of insert", a, b); }
        { token t = A; t.remove(B); is(c, t, a & ~b, "remove", a, b); is(c, B, b, "operand of remove", a, b); }
        for (unsigned o = 0; o < (overlaps ? 1u << n() : 1u); ++o)
        {
            token x = A, y = B, z = make(o);
            x.intersect(y, z);
            is(c, x, a & ~b, "left of intersect", a, b);
            is(c, y, b & ~a, "right of intersect", a, b);
            is(c, z, (a & b) | o, "overlap of intersect", a, b);
        }
        flag(c, A == B, a == b, "==", A, B);
        const bool lt = A < B, gt = B < A;
        flag(c, lt && gt, false, "< in both directions", A, B);
        flag(c, lt || gt, a != b, "< in either direction", A, B);
        { token x = A, y = B; x.swap(y); is(c, x, b, "swap", a, b); is(c, y, a, "swap", a, b); }
    }
    void order(mc::ctx& c) const
    {
        const unsigned N = 1u << n();
        std::vector<token> t;
        for (unsigned i = 0; i < N; ++i) t.push_back(make(i));
        for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j)
        {
            if (!(t[i] < t[j])) continue;
            for (unsigned k = 0; k < N; ++k)
                if (t[j] < t[k]) { ++c.transitions; if (!(t[i] < t[k])) c.fail("<", "< is not transitive on " + show(t[i]) + show(t[j]) + show(t[k])); }
        }
    }
    // Ranges (at most k) supplied in every order, including overlapping and repeated ones.
    void sequences(mc::ctx& c, std::size_t k) const
    {
        std::vector<unsigned> rs;
        std::vector<range> rr;
        for (std::size_t i = 0; i < n(); ++i) for (std::size_t j = i; j < n(); ++j)
        {
            rs.push_back(((2u << j) - 1) & ~((1u << i) - 1));
            rr.push_back(range(static_cast<idx>(start[i]), static_cast<idx>(last(j))));
        }
        std::vector<std::size_t> pick(k, 0);
        for (;;)
        {
            token t;
            unsigned m = 0;
            ++c.traces;
            for (auto p : pick) { t.insert(rr[p]); m |= rs[p]; is(c, t, m, "insert sequence", m, 0); }
            std::size_t i = 0;
            while (i < k && ++pick[i] == rs.size()) pick[i++] = 0;
            if (i == k) break;
        }
        c.outcome(std::to_string(rs.size()));
    }
};

template<typename ch>
const std::uint64_t world<ch>::MAX = sizeof(ch) == 1 ? 0xff : sizeof(ch) == 2 ? 0xffff : 0x10ffff;

template<typename ch>
static void layouts(mc::ctx& c, const char* name)
{
    using W = world<ch>;
    const std::uint64_t M = W::MAX;
    std::vector<std::vector<std::uint64_t>> ls = {
        { 0, 1, 2, 3, 4, 5, 6, 7 },                                  // single characters from the bottom
        { 0, M - 6, M - 5, M - 4, M - 3, M - 2, M - 1, M },          // and up to the top
        { 0, 1, 3, M / 2, M / 2 + 1, M / 2 + 2, M - 1, M },          // both ends and the middle
        { 0, 0x61, 0x62, 0x64, 0x7b, 0x80, 0xfe, 0xff },
    };
    if (M > 0xffff) ls.push_back({ 0, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 0xfffff, M });
    if (M > 0xff) ls.push_back({ 0, 0x7f, 0x80, 0xff, 0x100, 0x101, 0xfffe, 0xffff });
    if (c.thorough)
        for (auto& l : ls)
        {
            // Two more cells each.
            std::set<std::uint64_t> s(l.begin(), l.end());
            for (std::uint64_t x : { std::uint64_t(0x20), std::uint64_t(0x21), M - 9, M / 3 }) if (s.size() < 10) s.insert(x);
            l.assign(s.begin(), s.end());
        }
    for (std::size_t k = 0; k < ls.size(); ++k)
    {
        W w;
        w.start = ls[k];
        const unsigned N = 1u << w.n();
        const std::string id = std::string(name) + ", cells from " + [&] { std::ostringstream o; for (auto x : ls[k]) o << std::hex << x << ' '; return o.str(); }();
        for (unsigned a = 0; a < N; ++a)
        {
            if (!c.next()) continue;
            c.describe(id + "value " + W::show(w.make(a)));
            if (c.want_sample()) c.sample(id + "value " + W::show(w.make(a)));
            c.outcome(W::show(w.make(a)));
            ++c.traces;
            w.unary(c, a);
            for (unsigned b = 0; b < N; ++b) w.binary(c, a, b, false);
        }
        // Smaller universe: intersect with every prior content of the overlap, transitivity, sequences of insertions.
        W s;
        s.start.assign(ls[k].begin(), ls[k].begin() + 3);
        s.start.insert(s.start.end(), ls[k].end() - 2, ls[k].end());
        if (c.next())
        {
            c.describe(id + "small universe");
            for (unsigned a = 0; a < 1u << s.n(); ++a) for (unsigned b = 0; b < 1u << s.n(); ++b) s.binary(c, a, b, true);
            s.order(c);
        }
        if (c.next())
        {
            c.describe(id + "sequences");
            s.sequences(c, c.thorough ? 5 : 4);
        }
        if (c.next())
        {
            // Constructors.
            c.describe(id + "constructors");
            for (auto x : ls[k]) for (auto y : ls[k])
            {
                if (y < x) continue;
                const typename W::token t(static_cast<ch>(x)), u(static_cast<ch>(x), static_cast<ch>(y));
                using R = typename W::range;
                using I = typename W::idx;
                ++c.transitions;
                if (t._ranges != std::vector<R>{ R(static_cast<I>(x), static_cast<I>(x)) } || u._ranges != std::vector<R>{ R(static_cast<I>(x), static_cast<I>(y)) })
                    c.fail("constructor", "constructor of " + W::show(u));
            }
        }
    }
}

int main(int argc, char** argv)
{
    mc::ctx c;
    return c.main(argc, argv, [](mc::ctx& c)
    {
        layouts<char>(c, "char");
        layouts<char16_t>(c, "char16_t");
        layouts<char32_t>(c, "char32_t");
        layouts<wchar_t>(c, "wchar_t");
    });
}
