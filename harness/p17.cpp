// P17: sets of wide characters, over the entire code space.
#include "wide.hpp"
using wide::u32;
using wide::cset;

template<typename ch>
struct lab
{
    using rules_t = lexertl::basic_rules<char, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;
    mc::ctx& c;
    explicit lab(mc::ctx& x) : c(x) {}
    static u32 top() { return wide::top(sizeof(ch)); }
    static std::string width() { return std::to_string(sizeof(ch) * 8) + " bit"; }
    static std::string x(u32 v) { char b[16]; std::snprintf(b, sizeof b, "\\x%x", v); return b; }
    static std::string list(const std::vector<std::pair<u32, u32>>& rs)
    {
        std::string s;
        for (auto& r : rs) s += x(r.first) + (r.second == r.first ? "" : "-" + x(r.second));
        return s;
    }
    void compare(wide::steps<ch, std::uint16_t>& st, u32 row, unsigned id, const cset& want, const std::string& where)
    {
        const cset got = st.with_id(row, id);
        if (got == want) return;
        c.fail("set", width() + ", " + where + ": expected " + want.show() + "\n  got " + got.show() + "\n  differs in " + wide::first_difference(got, want).show());
    }
    bool build(const std::vector<std::string>& regexes, sm_t& sm, std::string& err)
    {
        rules_t r(+lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules);
        std::string d = width();
        for (auto& t : regexes) d += " \"" + t + "\"";
        c.describe(d);
        if (c.want_sample()) c.sample(d);
        ++c.traces;
        try
        {
            typename rules_t::id_type id = 1;
            for (auto& t : regexes) r.push(t, id++);
            lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
        }
        catch (const lexertl::runtime_error& e) { err = e.what(); return false; }
        return true;
    }
    // One rule for a set; an empty set must be rejected.
    void one(const std::string& t, const cset& want, bool look = true)
    {
        sm_t sm;
        std::string err;
        if (!build({ t }, sm, err))
        {
            if (!want.empty()) c.fail("rejected", width() + " \"" + t + "\": " + err);
            c.outcome("empty");
            return;
        }
        if (want.empty()) return c.fail("accepted", width() + " \"" + t + "\" is empty but accepted");
        wide::steps<ch, std::uint16_t> st(c, sm);
        compare(st, 1, 1, want, "\"" + t + "\"");
        // Nothing beyond the last code point may lead anywhere.
        if (sizeof(ch) > 2) for (auto& s : st.from(1)) if (s.hi > 0x10ffff) c.fail("beyond", "\"" + t + "\" matches beyond the code space");
        if (look) { const auto e = wide::probe<ch>(c, sm, want, 1); if (!e.empty()) c.fail("lookup", width() + " \"" + t + "\": " + e); }
        c.outcome(std::to_string(sm.data()._dfa[0].size() / sm.data()._dfa_alphabet[0]));
    }
    // Two rules for single characters: the first has priority.
    void two(const std::string& t, const cset& a, const std::string& u, const cset& b)
    {
        sm_t sm;
        std::string err;
        if (!build({ t, u }, sm, err)) return c.fail("rejected", width() + " \"" + t + "\" \"" + u + "\": " + err);
        wide::steps<ch, std::uint16_t> st(c, sm);
        compare(st, 1, 1, a, "first of \"" + t + "\" \"" + u + "\"");
        compare(st, 1, 2, wide::minus(b, a), "second of \"" + t + "\" \"" + u + "\"");
    }
    // A sequence of two sets beside a third one.
    void seq(const std::string& t, const cset& a, const std::string& u, const cset& b, const std::string& v, const cset& w)
    {
        sm_t sm;
        std::string err;
        if (!build({ t + u, v }, sm, err)) return c.fail("rejected", width() + " \"" + t + u + "\" \"" + v + "\": " + err);
        wide::steps<ch, std::uint16_t> st(c, sm);
        const std::string d = "\"" + t + u + "\" \"" + v + "\"";
        compare(st, 1, 2, w, "the single character of " + d);
        const cset live = st.live(1);
        if (!(live == (a | w))) c.fail("first", width() + ", first character of " + d + ": expected " + (a | w).show() + "\n  got " + live.show());
        for (auto& s : st.from(1))
        {
            // Every code point of a segment leads to the same row: all in or all out.
            const bool in = a.has(s.lo);
            if (in != a.has(s.hi)) c.fail("segment", width() + ", " + d + ": U+" + mac::hex(s.lo) + " and U+" + mac::hex(s.hi) + " lead to the same row");
            compare(st, s.row, 1, in ? b : cset(), "after U+" + mac::hex(s.lo) + " of " + d);
        }
    }
    // Repeats: after any number of characters of the set the same set is accepted.
    void many(const std::string& t, const cset& a)
    {
        sm_t sm;
        std::string err;
        if (!build({ t + "+" }, sm, err)) return c.fail("rejected", width() + " \"" + t + "+\": " + err);
        wide::steps<ch, std::uint16_t> st(c, sm);
        std::set<u32> seen{ 1 };
        std::vector<u32> todo{ 1 };
        while (!todo.empty())
        {
            const u32 r = todo.back();
            todo.pop_back();
            compare(st, r, 1, a, "\"" + t + "+\"");
            for (auto& s : st.from(r)) if (seen.insert(s.row).second) todo.push_back(s.row);
        }
    }
    void run(bool T)
    {
        std::vector<u32> edges{ 0, 1, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x17f, 0x1fe, 0x1ff, 0x200, 0xfff, 0x1000, 0x1234, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfeff, 0xff00, 0xfffe, 0xffff };
        if (sizeof(ch) > 2)
            for (u32 v : { 0x10000u, 0x10001u, 0x100feu, 0x100ffu, 0x10100u, 0x10101u, 0x12345u, 0x1feffu, 0x1ff00u, 0x1fffeu, 0x1ffffu, 0x20000u, 0x20001u, 0x200ffu, 0x20100u, 0xfffffu, 0x100000u, 0x10feffu, 0x10ff00u, 0x10fffeu, 0x10ffffu }) edges.push_back(v);
        std::vector<u32> more = edges;
        for (u32 v : edges) for (int d : { -2, 2, -256, 256, 255, -255 }) { const auto n = static_cast<long>(v) + d; if (n >= 0 && n <= static_cast<long>(top())) more.push_back(static_cast<u32>(n)); }
        std::sort(more.begin(), more.end());
        more.erase(std::unique(more.begin(), more.end()), more.end());
        // 1. Every range of the fine grid.
        for (std::size_t i = 0; i < more.size(); ++i)
        {
            if (!c.next()) continue;
            for (std::size_t j = i; j < more.size(); ++j)
            {
                const cset s = wide::range(more[i], more[j]);
                const std::string t = list(s.r);
                one("[" + t + "]", s);
                one("[^" + t + "]", wide::negate(s, top()));
                if (more[i] == more[j]) { one(t, s); one("(?s:.{-}[" + t + "])", wide::negate(s, top())); }
                many("[" + t + "]", s);
            }
        }
        // 2. Every pair of ranges of the coarse grid, in every relation.
        std::vector<u32> coarse;
        if (T) coarse = edges;
        else { for (u32 v : edges) for (u32 k : { 0u, 1u, 0x80u, 0xffu, 0x100u, 0x1feu, 0x1000u, 0xd800u, 0xffffu, 0x10000u, 0x100ffu, 0x10100u, 0x12345u, 0x1ffffu, 0x20000u, 0x10ff00u, 0x10ffffu }) if (v == k) coarse.push_back(v); }
        std::vector<cset> rs;
        for (std::size_t i = 0; i < coarse.size(); ++i) for (std::size_t j = i; j < coarse.size(); ++j) rs.push_back(wide::range(coarse[i], coarse[j]));
        for (auto& a : rs)
        {
            if (!c.next()) continue;
            const std::string t = list(a.r);
            for (auto& b : rs)
            {
                const std::string u = list(b.r);
                one("[" + t + u + "]", a | b, false);
                one("[^" + t + u + "]", wide::negate(a | b, top()), false);
                one("[" + t + "]{-}[" + u + "]", wide::minus(a, b), false);
                const bool part = !wide::negate(a, top()).empty(), other = !wide::negate(b, top()).empty();
                if (other) one("[" + t + "]{+}[^" + u + "]", a | wide::negate(b, top()), false);
                if (part && other) one("[^" + t + "]{-}[^" + u + "]", wide::minus(b, a), false);
                two("[" + t + "]", a, "[" + u + "]", b);
                const cset nb = wide::negate(b, top());
                if (!nb.empty()) two("[" + t + "]", a, "[^" + u + "]", nb);
                one("[" + t + "]|[" + u + "]", a | b, false);
            }
        }
        // 3. Three sets: sequences and priorities.
        std::vector<cset> few;
        for (auto p : std::vector<std::pair<u32, u32>>{ { 0, top() }, { 'a', 'z' }, { 0x80, 0x17f }, { 0xff, 0x100 }, { 0x100, 0x100 }, { 0x1fe, 0x201 }, { 0xa0, 0x2fff }, { 0xff00, 0xffff }, { 0xd800, 0xdfff },
            { 0xffff, 0x10000 }, { 0x100ff, 0x10100 }, { 0x12345, 0x22345 }, { 0xffff, 0x20000 }, { 0x61, 0x10061 }, { 0x10061, 0x10061 }, { 0x610000 >> 4, 0x61000 }, { 0x10ffff, 0x10ffff } })
            if (p.second <= top()) few.push_back(wide::range(p.first, p.second));
        for (auto& a : few) for (auto& b : few) for (auto& w : few)
        {
            if (!c.next()) continue;
            const std::string t = "[" + list(a.r) + "]", u = "[" + list(b.r) + "]", v = "[" + list(w.r) + "]";
            seq(t, a, u, b, v, w);
            seq("(" + t + "|" + v + ")", a | w, u, b, v, w);
            if (T)
            {
                const cset na = wide::negate(a, top()), nb = wide::negate(b, top());
                if (!na.empty()) seq("[^" + list(a.r) + "]", na, u, b, v, w);
                if (!nb.empty()) seq(t, a, "[^" + list(b.r) + "]", nb, v, w);
            }
            one("[" + list(a.r) + list(b.r) + list(w.r) + "]", a | b | w);
            one("[^" + list(a.r) + list(b.r) + list(w.r) + "]", wide::negate(a | b | w, top()));
            if (!wide::minus(a, b).empty()) one(t + "{-}" + u + "{+}" + v, wide::minus(a, b) | w);
            one(t + "{+}" + u + "{-}" + v, wide::minus(a | b, w));
        }
        // 4. Dot and its options; the end of a line is left out by character, not by byte.
        if (c.next())
        {
            const cset all = wide::range(0, top()), nl = wide::range('\n', '\n'), cr = wide::range('\r', '\r');
            one(".", wide::minus(all, nl));
            one("(?s:.)", all);
            one("(?s:.{-}[^\\n])", nl);
            one("[^\\r\\n]", wide::minus(wide::minus(all, nl), cr));
            many("(?s:.)", all);
            many(".", wide::minus(all, nl));
            seq(".", wide::minus(all, nl), "(?s:.)", all, "\\n", nl);
            for (u32 v : { 0x0au, 0x0d0au, 0x0a0au, 0x0a00u, 0x0a0d0au, 0x0d00u, 0x10a0au })
                if (v <= top()) { one(x(v), wide::range(v, v)); one("[^" + x(v) + "]", wide::negate(wide::range(v, v), top())); two(".", wide::minus(all, nl), x(v), wide::range(v, v)); }
        }
    }
};

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        lab<char16_t>(c).run(c.thorough);
        lab<char32_t>(c).run(c.thorough);
        lab<wchar_t>(c).run(c.thorough);
    });
}
