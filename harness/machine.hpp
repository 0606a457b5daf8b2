// A uniform view of the library's machines, and the exhaustive product exploration of two of them:
// every reachable pair of rows is visited, so equality holds for inputs of any length.
#ifndef MACHINE_HPP
#define MACHINE_HPP
#include "lexcmp.hpp"
#include <lexertl/state_machine.hpp>
#include <deque>

namespace mac
{
    inline std::string hex(std::uint32_t v) { char b[16]; std::snprintf(b, sizeof b, "%04X", v); return b; }
    constexpr std::uint32_t DEAD = 0xffffffffu;
    struct attr
    {
        bool end = false, pop = false;
        unsigned long long id = 0, uid = 0, push = 0, next = 0;
        bool operator ==(const attr& o) const
        {
            // The other fields of a row that is not an end state mean nothing.
            if (end != o.end) return false;
            return !end || (pop == o.pop && id == o.id && uid == o.uid && push == o.push && next == o.next);
        }
        std::string show() const
        {
            if (!end) return "no end state";
            std::ostringstream s;
            s << "end id=" << id << " uid=" << uid << " next=" << next << " push=" << push << (pop ? " pop" : "");
            return s.str();
        }
    };

    // Table machine. A "row" for stepping is a row index of the dfa.
    template<typename ch, typename idt>
    struct table
    {
        const lexertl::basic_state_machine<ch, idt>& sm;
        const lexertl::detail::basic_internals<idt>& in;
        explicit table(const lexertl::basic_state_machine<ch, idt>& s) : sm(s), in(s.data()) {}
        static constexpr unsigned long long NP = static_cast<idt>(~idt(0));
        static unsigned long long n(idt v) { return v == NP ? ~0ull : v == NP - 1 ? ~1ull : v; }
        std::size_t states() const { return in._dfa.size(); }
        std::size_t rows(std::size_t d) const { return in._dfa_alphabet[d] ? in._dfa[d].size() / in._dfa_alphabet[d] - 1 : 0; }
        const idt* row(std::size_t d, std::uint32_t r) const { return &in._dfa[d].at(std::size_t(r) * in._dfa_alphabet[d]); }
        std::uint32_t start(std::size_t) const { return 1; }
        std::uint32_t bol(std::size_t d) const { const idt b = in._dfa[d][0]; return b ? b : DEAD; }
        bool sane(std::size_t d, std::string& why) const
        {
            const std::size_t a = in._dfa_alphabet[d];
            if (a < 7 || in._dfa[d].size() % a || in._dfa[d].size() / a < 2) { why = "table size"; return false; }
            const std::size_t n = in._dfa[d].size() / a;
            for (std::size_t r = 0; r < n; ++r)
                for (std::size_t c = r ? 5 : 0; c < a; ++c)
                    if (in._dfa[d][r * a + c] >= n) { why = "transition out of range"; return false; }
            for (auto l : in._lookup[d]) if (l >= a) { why = "lookup entry out of range"; return false; }
            if (in._lookup[d].size() != 256) { why = "lookup size"; return false; }
            return true;
        }
        attr at(std::size_t d, std::uint32_t r) const
        {
            const idt* p = row(d, r);
            attr a;
            a.end = (p[0] & 1) != 0; a.pop = (p[0] & 4) != 0;
            a.id = n(p[1]); a.uid = n(p[2]); a.push = n(p[3]); a.next = p[4];
            return a;
        }
        std::uint32_t eol(std::size_t d, std::uint32_t r) const { const idt e = row(d, r)[5]; return e ? e : DEAD; }
        std::uint32_t byte(std::size_t d, std::uint32_t r, unsigned b) const
        {
            const idt e = row(d, r)[in._lookup[d][b]];
            return e ? e : DEAD;
        }
        std::uint32_t step(std::size_t d, std::uint32_t r, std::uint32_t c) const
        {
            if (sizeof(ch) > 2) { r = byte(d, r, c >> 16 & 255); if (r == DEAD) return r; }
            if (sizeof(ch) > 1) { r = byte(d, r, c >> 8 & 255); if (r == DEAD) return r; }
            return byte(d, r, c & 255);
        }
    };

    // Character-level machine.
    template<typename ch, typename idt>
    struct chars
    {
        using csm = lexertl::basic_char_state_machine<ch, idt>;
        const csm& sm;
        explicit chars(const csm& s) : sm(s) {}
        static constexpr unsigned long long NP = static_cast<idt>(~idt(0));
        static unsigned long long n(idt v) { return v == NP ? ~0ull : v == NP - 1 ? ~1ull : v; }
        std::size_t states() const { return sm._sm_vector.size(); }
        std::size_t rows(std::size_t d) const { return sm._sm_vector[d].size(); }
        std::uint32_t start(std::size_t) const { return 0; }
        std::uint32_t bol(std::size_t d) const { const idt b = sm._sm_vector[d]._bol_index; return b == NP ? DEAD : b; }
        bool sane(std::size_t d, std::string& why) const
        {
            const std::size_t n = rows(d);
            if (!n) { why = "no rows"; return false; }
            auto& x = sm._sm_vector[d];
            if (x._bol_index != NP && x._bol_index >= n) { why = "bol index out of range"; return false; }
            for (auto& s : x._states)
            {
                if (s._eol_index != NP && s._eol_index >= n) { why = "eol index out of range"; return false; }
                for (auto& t : s._transitions)
                {
                    if (t.first >= n) { why = "transition out of range"; return false; }
                    if (t.second.empty()) { why = "empty transition"; return false; }
                    // Deterministic: no character on two transitions.
                    for (auto& u : s._transitions) if (u.first != t.first)
                        for (auto& r1 : t.second._ranges) for (auto& r2 : u.second._ranges)
                            if (r1.first <= r2.second && r2.first <= r1.second) { why = "a character on two transitions"; return false; }
                }
            }
            return true;
        }
        attr at(std::size_t d, std::uint32_t r) const
        {
            auto& s = sm._sm_vector[d]._states[r];
            attr a;
            using pp = typename csm::state::push_pop_dfa;
            a.end = s._end_state; a.pop = s._push_pop_dfa == pp::pop_dfa;
            a.id = n(s._id); a.uid = n(s._user_id); a.next = s._next_dfa;
            a.push = s._push_pop_dfa == pp::push_dfa ? n(s._push_dfa) : ~0ull;
            return a;
        }
        std::uint32_t eol(std::size_t d, std::uint32_t r) const { const idt e = sm._sm_vector[d]._states[r]._eol_index; return e == NP ? DEAD : e; }
        std::uint32_t step(std::size_t d, std::uint32_t r, std::uint32_t c) const
        {
            for (auto& t : sm._sm_vector[d]._states[r]._transitions)
                for (auto& g : t.second._ranges)
                    if (static_cast<std::uint32_t>(g.first) <= c && c <= static_cast<std::uint32_t>(g.second)) return t.first;
            return DEAD;
        }
    };

    // Compares two machines in every reachable pair of rows. chars: the characters tried in each pair.
    // strict_push: also compare what is remembered. Returns an empty string when equal.
    template<typename A, typename B>
    std::string compare(mc::ctx& c, const A& a, const B& b, const std::vector<std::uint32_t>& alphabet, const char* an, const char* bn, bool exact = false)
    {
        std::ostringstream o;
        if (a.states() != b.states())
        {
            o << an << " has " << a.states() << " lexer states, " << bn << " has " << b.states();
            return o.str();
        }
        for (std::size_t d = 0; d < a.states(); ++d)
        {
            std::string why;
            if (!a.sane(d, why)) { o << an << " is malformed in lexer state " << d << ": " << why; return o.str(); }
            if (!b.sane(d, why)) { o << bn << " is malformed in lexer state " << d << ": " << why; return o.str(); }
            struct pair { std::uint32_t x, y; int mode; std::string path; };   // mode 1: just after an end-of-line edge
            std::deque<pair> todo;
            std::set<std::tuple<std::uint32_t, std::uint32_t, int>> seen;
            std::string bad;
            auto add = [&](std::uint32_t x, std::uint32_t y, int mode, const std::string& path)
            {
                ++c.transitions;
                if ((x == DEAD) != (y == DEAD))
                {
                    if (bad.empty())
                        bad = std::string("after ") + path + " " + (x == DEAD ? an : bn) + " is stuck and " + (x == DEAD ? bn : an) + " is not";
                    return;
                }
                if (x == DEAD || !seen.insert({ x, y, mode }).second) return;
                todo.push_back({ x, y, mode, path });
            };
            add(a.start(d), b.start(d), 0, "the start");
            {
                // A machine without a row for line starts uses the ordinary start row there.
                auto x = a.bol(d), y = b.bol(d);
                if (x == DEAD) x = a.start(d);
                if (y == DEAD) y = b.start(d);
                add(x, y, 0, "line start");
            }
            while (!todo.empty() && bad.empty())
            {
                const pair p = todo.front();
                todo.pop_front();
                c.state((std::uint64_t(p.x) << 34) ^ (std::uint64_t(p.y) << 8) ^ (d << 2) ^ unsigned(p.mode) ^ mc::hash(an, std::strlen(an)));
                const attr x = a.at(d, p.x), y = b.at(d, p.y);
                if (!(x == y)) { bad = "after " + p.path + " " + an + " has " + x.show() + ", " + bn + " has " + y.show(); break; }
                const auto e = a.eol(d, p.x), f = b.eol(d, p.y);
                add(e, f, 1, p.path + " <end of line>");
                for (auto ch : alphabet)
                {
                    const bool nl = ch == '\r' || ch == '\n';
                    if (!exact && p.mode == 1 && !nl) continue;          // only a line break follows an end-of-line edge
                    if (!exact && e != DEAD && nl) continue;             // and where there is one, it takes precedence
                    add(a.step(d, p.x, ch), b.step(d, p.y, ch), 0, p.path + " " + (ch < 127 && ch > 32 ? std::string(1, char(ch)) : "U+" + hex(ch)));
                }
            }
            if (!bad.empty()) { o << "lexer state " << d << ": " << bad; return o.str(); }
        }
        return std::string();
    }
    // Byte-level view of a table machine for wide characters.
    template<typename ch, typename idt>
    struct byte_table : table<ch, idt>
    {
        using table<ch, idt>::table;
        std::uint32_t step(std::size_t d, std::uint32_t r, std::uint32_t c) const { return this->byte(d, r, c & 255); }
    };

    // Interprets a machine the way lookup is documented to: one call, s is updated. Features always on.
    template<typename V>
    ref::token step(const V& v, const std::vector<std::uint32_t>& in, ref::state& s)
    {
        const auto id16 = [](unsigned long long x) { return x == ~0ull ? ref::NPOS : x == ~1ull ? ref::SKIP : static_cast<unsigned>(x); };
        ref::token t;
        for (;;)
        {
            t.first = s.pos;
            for (;;)
            {
                if (s.pos == in.size()) { t.id = 0; t.uid = ref::NPOS; t.second = s.pos; return t; }
                const std::size_t d = s.st;
                std::uint32_t r = v.start(d);
                if (s.bol && v.bol(d) != DEAD) r = v.bol(d);
                std::size_t p = s.pos;
                attr last;
                std::size_t end = 0;
                for (;;)
                {
                    const auto e = v.eol(d, r);
                    if (e != DEAD && (p == in.size() || in[p] == '\r' || in[p] == '\n'))
                    {
                        r = e;
                        if (v.at(d, r).end) { last = v.at(d, r); end = p; }
                        if (p == in.size()) break;
                        if (v.eol(d, r) != DEAD) break;
                    }
                    if (p == in.size()) break;
                    r = v.step(d, r, in[p]);
                    if (r == DEAD) break;
                    ++p;
                    if (v.at(d, r).end) { last = v.at(d, r); end = p; }
                }
                if (!last.end)
                {
                    t.first = s.pos; t.second = s.pos + 1; t.id = ref::NPOS; t.uid = ref::NPOS;
                    s.bol = in[s.pos] == '\n';
                    ++s.pos;
                    return t;
                }
                unsigned next = static_cast<unsigned>(last.next);
                const unsigned id = id16(last.id);
                if (last.pop)
                {
                    if (s.stack.empty()) { t.underflow = true; return t; }
                    next = s.stack.back().first;
                    s.stack.pop_back();
                }
                else if (last.push != ~0ull) s.stack.push_back({ static_cast<unsigned>(last.push), id });
                s.st = next;
                if (end > s.pos) s.bol = in[end - 1] == '\n';
                s.pos = end;
                if (id == ref::SKIP) break;
                if (id == 0 || (last.pop && !s.stack.empty() && s.stack.back().second == 0)) continue;
                t.id = id; t.uid = id16(last.uid); t.second = s.pos;
                return t;
            }
        }
    }

    inline std::vector<std::uint32_t> bytes()
    {
        std::vector<std::uint32_t> v;
        for (unsigned i = 0; i < 256; ++i) v.push_back(i);
        return v;
    }
}
#endif
