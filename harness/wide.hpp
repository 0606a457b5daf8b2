// Exact accepted sets of wide machines over the entire code space.
#ifndef WIDE_HPP
#define WIDE_HPP
#include "machine.hpp"

namespace wide
{
    using u32 = std::uint32_t;
    // A set of code points as sorted, disjoint, non-adjacent ranges.
    struct cset
    {
        std::vector<std::pair<u32, u32>> r;
        bool operator ==(const cset& o) const { return r == o.r; }
        bool empty() const { return r.empty(); }
        void add(u32 a, u32 b) { r.push_back({ a, b }); }
        void norm()
        {
            std::sort(r.begin(), r.end());
            std::vector<std::pair<u32, u32>> o;
            for (auto& x : r)
            {
                if (x.first > x.second) continue;
                if (!o.empty() && x.first <= o.back().second + 1) o.back().second = std::max(o.back().second, x.second);
                else o.push_back(x);
            }
            r.swap(o);
        }
        bool has(u32 c) const
        {
            auto i = std::upper_bound(r.begin(), r.end(), std::make_pair(c, 0xffffffffu));
            return i != r.begin() && (--i)->second >= c;
        }
        std::string show() const
        {
            std::string s;
            for (auto& x : r) { s += (s.empty() ? "" : " ") + mac::hex(x.first) + (x.second == x.first ? "" : "-" + mac::hex(x.second)); if (s.size() > 400) return s + " ..."; }
            return s.empty() ? "(empty)" : s;
        }
    };
    inline cset range(u32 a, u32 b) { cset s; s.add(a, b); return s; }
    inline cset operator |(cset a, const cset& b) { a.r.insert(a.r.end(), b.r.begin(), b.r.end()); a.norm(); return a; }
    inline cset negate(const cset& a, u32 max)
    {
        cset o;
        u32 at = 0;
        for (auto& x : a.r) { if (x.first > max) break; if (x.first > at) o.add(at, x.first - 1); at = x.second + 1; }
        if (at <= max) o.add(at, max);
        return o;
    }
    inline cset operator &(const cset& a, const cset& b)
    {
        cset o;
        for (std::size_t i = 0, j = 0; i < a.r.size() && j < b.r.size(); )
        {
            const u32 l = std::max(a.r[i].first, b.r[j].first), h = std::min(a.r[i].second, b.r[j].second);
            if (l <= h) o.add(l, h);
            if (a.r[i].second < b.r[j].second) ++i; else ++j;
        }
        return o;
    }
    inline cset minus(const cset& a, const cset& b) { return a & negate(b, 0xffffffu); }
    inline cset first_difference(const cset& a, const cset& b) { return minus(a, b) | minus(b, a); }

    // Which row every code point leads to from a row: segments in order, dead ones left out.
    struct seg { u32 lo, hi, row; };
    template<typename ch, typename idt>
    class steps
    {
    public:
        steps(mc::ctx& c, const lexertl::basic_state_machine<ch, idt>& sm, std::size_t d = 0) : _c(c), _m(sm), _d(d) {}
        const std::vector<seg>& from(u32 row, int level = sizeof(ch) > 2 ? 2 : 1)
        {
            auto it = _memo.find({ row, level });
            if (it != _memo.end()) return it->second;
            ++_c.states;
            std::vector<seg> out;
            const u32 width = 1u << (8 * level);
            for (unsigned b = 0; b < 256; ++b)
            {
                const u32 next = _m.byte(_d, row, b);
                ++_c.transitions;
                if (next == mac::DEAD) continue;
                if (!level) { put(out, { b, b, next }); continue; }
                for (auto& s : from(next, level - 1)) put(out, { s.lo + b * width, s.hi + b * width, s.row });
            }
            return _memo.emplace(std::make_pair(row, level), out).first->second;
        }
        // The code points that lead to an end state with this id.
        cset with_id(u32 row, unsigned long long id)
        {
            cset s;
            for (auto& x : from(row)) { const auto a = _m.at(_d, x.row); if (a.end && a.id == id) s.add(x.lo, x.hi); }
            s.norm();
            return s;
        }
        // The code points that lead anywhere.
        cset live(u32 row)
        {
            cset s;
            for (auto& x : from(row)) s.add(x.lo, x.hi);
            s.norm();
            return s;
        }
        const mac::table<ch, idt>& machine() const { return _m; }
    private:
        static void put(std::vector<seg>& v, const seg& s)
        {
            if (!v.empty() && v.back().row == s.row && v.back().hi + 1 == s.lo) v.back().hi = s.hi;
            else v.push_back(s);
        }
        mc::ctx& _c;
        mac::table<ch, idt> _m;
        std::size_t _d;
        std::map<std::pair<u32, int>, std::vector<seg>> _memo;
    };
    inline u32 top(std::size_t width) { return width > 2 ? 0x10ffffu : 0xffffu; }

    // lookup itself on one character: the id.
    template<typename ch, typename sm_t>
    unsigned long long look(const sm_t& sm, u32 c)
    {
        const ch in[2] = { static_cast<ch>(c), 0 };
        lexertl::match_results<const ch*, typename sm_t::id_type> r(in, in + 1);
        lexertl::lookup(sm, r);
        return r.id == r.npos() ? 0 : r.id;
    }
    // ... on every border of the set and beside it, and inside.
    template<typename ch, typename sm_t>
    std::string probe(mc::ctx& c, const sm_t& sm, const cset& s, unsigned long long id, bool all = false)
    {
        const u32 mx = top(sizeof(ch));
        auto at = [&](u32 p) -> std::string
        {
            ++c.transitions;
            const bool got = look<ch>(sm, p) == id;
            if (got != s.has(p)) return std::string("lookup ") + (got ? "matches" : "does not match") + " U+" + mac::hex(p);
            return std::string();
        };
        std::string e;
        if (all) { for (u32 p = 0; p <= mx; ++p) if (!(e = at(p)).empty()) return e; return e; }
        std::size_t n = 0;
        for (auto& x : s.r)
        {
            for (u32 p : { x.first, x.second, x.first + (x.second - x.first) / 2, x.first - 1, x.second + 1 }) if (p <= mx && !(e = at(p)).empty()) return e;
            if (++n > 400) break;
        }
        for (u32 p : { 0u, mx }) if (!(e = at(p)).empty()) return e;
        return e;
    }
}
#endif
