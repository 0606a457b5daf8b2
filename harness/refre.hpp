// Reference model of regexes and of lexing: deliberately naive set-of-end-positions semantics,
// written from the documentation and independent of any automaton construction.
#ifndef REFRE_HPP
#define REFRE_HPP
#include <bitset>
#include <cstdint>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace ref
{
    using mask = std::uint64_t;   // bit p: the match may end just before input[p]
    enum class kind { eps, set, cat, alt, rep };
    struct node;
    using re = std::shared_ptr<const node>;
    using charset = std::bitset<256>;

    struct node
    {
        kind k = kind::eps;
        charset set;
        re a, b;
        int lo = 0, hi = 0;      // hi < 0: unbounded
        std::string text;        // the regex as given to the library
        int prec = 3;            // 0 alternation, 1 concatenation, 2 repeat, 3 atom
        int size = 1;
    };

    inline std::string paren(const re& r, int need)
    {
        return r->prec >= need ? r->text : "(" + r->text + ")";
    }
    inline re cls(const std::string& text, const charset& set)
    {
        auto n = std::make_shared<node>();
        n->k = kind::set; n->set = set; n->text = text;
        return n;
    }
    inline charset chars(const std::string& s)
    {
        charset c;
        for (unsigned char ch : s) c.set(ch);
        return c;
    }
    inline re lit(char c, const std::string& text = std::string())
    {
        return cls(text.empty() ? std::string(1, c) : text, chars(std::string(1, c)));
    }
    inline re cat(const re& a, const re& b)
    {
        auto n = std::make_shared<node>();
        n->k = kind::cat; n->a = a; n->b = b; n->prec = 1;
        n->text = paren(a, 1) + paren(b, 1);
        n->size = a->size + b->size + 1;
        return n;
    }
    inline re alt(const re& a, const re& b)
    {
        auto n = std::make_shared<node>();
        n->k = kind::alt; n->a = a; n->b = b; n->prec = 0;
        n->text = a->text + "|" + b->text;
        n->size = a->size + b->size + 1;
        return n;
    }
    inline re rep(const re& a, int lo, int hi, const std::string& op)
    {
        auto n = std::make_shared<node>();
        n->k = kind::rep; n->a = a; n->lo = lo; n->hi = hi; n->prec = 2;
        n->text = paren(a, 3) + op;
        n->size = a->size + 1;
        return n;
    }
    inline re group(const re& a, const std::string& open = "(")
    {
        auto n = std::make_shared<node>(*a);
        n->text = open + a->text + ")"; n->prec = 3;
        return n;
    }
    inline re str(const std::string& s)          // plain literal
    {
        re r = lit(s[0]);
        for (std::size_t i = 1; i < s.size(); ++i) r = cat(r, lit(s[i]));
        return r;
    }

    inline mask ends(const node& n, mask from, const std::string& in)
    {
        if (!from) return 0;
        switch (n.k)
        {
        case kind::eps: return from;
        case kind::set:
        {
            mask r = 0;
            for (std::size_t i = 0; i < in.size(); ++i)
                if ((from >> i & 1) && n.set[static_cast<unsigned char>(in[i])]) r |= mask(1) << (i + 1);
            return r;
        }
        case kind::cat: return ends(*n.b, ends(*n.a, from, in), in);
        case kind::alt: return ends(*n.a, from, in) | ends(*n.b, from, in);
        case kind::rep:
        {
            mask cur = from;
            for (int i = 0; i < n.lo; ++i) cur = ends(*n.a, cur, in);
            mask all = cur;
            for (int i = n.lo; n.hi < 0 || i < n.hi; ++i)
            {
                cur = ends(*n.a, cur, in);
                const mask nx = all | cur;
                if (n.hi < 0 && nx == all) break;
                if (!cur) break;
                all = nx;
            }
            return all;
        }
        }
        return 0;
    }
    inline bool nullable(const node& n)
    {
        switch (n.k)
        {
        case kind::eps: return true;
        case kind::set: return false;
        case kind::cat: return nullable(*n.a) && nullable(*n.b);
        case kind::alt: return nullable(*n.a) || nullable(*n.b);
        case kind::rep: return n.lo == 0 || nullable(*n.a);
        }
        return false;
    }

    constexpr unsigned NPOS = 0xffff, SKIP = 0xfffe, NONE = 0xffff;

    struct rule
    {
        re r;
        unsigned id = 1;
        bool bol = false, eol = false;
        bool shortest = false;       // a non-greedy rule
        unsigned uid = NPOS;
        // State effects. next: target state; pop: return; push: remembered state (NONE: no push).
        unsigned next = 0;
        bool pop = false;
        unsigned push = NONE;
        std::string text() const
        {
            // ^ binds to the whole rule, so an alternation needs parentheses.
            std::string t = (bol || eol) ? paren(r, 1) : r->text;
            return (bol ? "^" : "") + t + (eol ? "$" : "");
        }
    };
    using rules = std::vector<rule>;

    struct match { int len = -1; int rule = -1; };

    inline bool at_eol(const std::string& in, std::size_t p)
    {
        return p == in.size() || in[p] == '\n' || in[p] == '\r';
    }

    // Longest match of the rules at pos; $ beats an equally long match without it; then rule order.
    inline match best(const rules& rs, const std::string& in, std::size_t pos, bool bol, bool zero = false)
    {
        match m;
        long weight = -1;
        for (std::size_t i = 0; i < rs.size(); ++i)
        {
            const auto& r = rs[i];
            if (r.bol && !bol) continue;
            mask e = ends(*r.r, mask(1) << pos, in);
            if (!zero) e &= ~(mask(1) << pos);
            if (r.eol)
                for (std::size_t p = pos; p <= in.size(); ++p) if (!at_eol(in, p)) e &= ~(mask(1) << p);
            if (!e) continue;
            std::size_t p = r.shortest ? static_cast<std::size_t>(__builtin_ctzll(e)) :
                63 - static_cast<std::size_t>(__builtin_clzll(e));
            const long w = static_cast<long>(p - pos) * 2 + (r.eol ? 1 : 0);
            if (w > weight) { weight = w; m.len = static_cast<int>(p - pos); m.rule = static_cast<int>(i); }
        }
        return m;
    }

    struct state
    {
        std::size_t pos = 0;
        bool bol = true;
        unsigned st = 0;
        std::vector<std::pair<unsigned, unsigned>> stack;   // return state, id of the pushing rule
        bool operator ==(const state& o) const
        {
            return pos == o.pos && bol == o.bol && st == o.st && stack == o.stack;
        }
    };
    struct token
    {
        unsigned id = 0, uid = NPOS;
        std::size_t first = 0, second = 0;
        bool underflow = false;
        bool operator ==(const token& o) const
        {
            return id == o.id && uid == o.uid && first == o.first && second == o.second && underflow == o.underflow;
        }
    };

    // One call of lookup. s is updated. eoi id and continue id are 0.
    inline token step(const std::vector<rules>& states, const std::string& in, state& s, bool zero = false)
    {
        token t;
        for (;;)                       // restarted after a skip rule
        {
            t.first = s.pos;
            for (;;)                   // continued after a rule without an id
            {
                if (s.pos == in.size()) { t.id = 0; t.uid = NPOS; t.second = s.pos; return t; }
                const auto& rs = states[s.st];
                const match m = best(rs, in, s.pos, s.bol, zero);
                if (m.rule < 0)
                {
                    t.first = s.pos; t.second = s.pos + 1; t.id = NPOS; t.uid = NPOS;
                    s.bol = in[s.pos] == '\n';
                    ++s.pos;
                    return t;
                }
                const auto& r = rs[static_cast<std::size_t>(m.rule)];
                unsigned next = r.next;
                if (r.pop)
                {
                    if (s.stack.empty()) { t.underflow = true; return t; }
                    next = s.stack.back().first;
                    s.stack.pop_back();
                }
                else if (r.push != NONE) s.stack.push_back({ r.push, r.id });
                s.st = next;
                if (m.len > 0) s.bol = in[s.pos + static_cast<std::size_t>(m.len) - 1] == '\n';
                s.pos += static_cast<std::size_t>(m.len);
                if (r.id == SKIP) break;
                const bool more = r.id == 0 || (r.pop && !s.stack.empty() && s.stack.back().second == 0);
                if (more) continue;
                t.id = r.id; t.uid = r.uid; t.second = s.pos;
                return t;
            }
        }
    }

    // In the copy, the marks 1 and 2 stand for a line feed and a carriage return that a leaf matching nothing else may take.
    inline re marked(const re& r)
    {
        auto n = std::make_shared<node>(*r);
        if (n->a) n->a = marked(n->a);
        if (n->b) n->b = marked(n->b);
        if (n->k == kind::set)
        {
            n->set.reset(1); n->set.reset(2);
            if (r->set == chars("\n")) n->set.set(1);
            if (r->set == chars("\r")) n->set.set(2);
        }
        return n;
    }

    // True if some text x (up to the bound) is matched by a $ rule while another rule matches exactly x + its line break, written
    // as such: the library settles that tie by dropping one of the two rules (and reports it), which the property leaves out.
    inline bool clash(const rules& rs, const std::vector<std::string>& texts)
    {
        bool dollar = false;
        std::vector<re> m;
        for (auto& i : rs) { dollar = dollar || i.eol; m.push_back(marked(i.r)); }
        if (!dollar) return false;
        for (auto& i : rs)
        {
            if (!i.eol) continue;
            for (auto& x : texts)
            {
                if (x.empty() || !(ends(*i.r, 1, x) >> x.size() & 1)) continue;
                for (auto& br : { std::string("\1"), std::string("\2\1") })
                    for (auto& j : m)
                        if (ends(*j, 1, x + br) >> (x.size() + br.size()) & 1) return true;
            }
        }
        return false;
    }

    inline bool any_nullable(const rules& rs)
    {
        for (auto& r : rs) if (nullable(*r.r)) return true;
        return false;
    }
}
#endif
