// An independent recogniser of the regex language: reads a text by the documented grammar, and either rejects it or
// gives the alternatives it stands for, as syntax trees of the reference model. 8-bit characters, classic locale.
#ifndef REGEXREF_HPP
#define REGEXREF_HPP
#include "forms.hpp"
#include "refre.hpp"
#include <map>

namespace rx
{
    constexpr unsigned ICASE = 1, DNN = 2, DNC = 4, SKIPWS = 8, ZEROLEN = 16;

    struct reject { std::string why; };
    enum class tk { begin, set, bol, eol, open, close, bar, rep, end };
    struct token
    {
        tk k = tk::begin;
        ref::charset s;
        int lo = 0, hi = 0;
        bool lazy = false;
        bool several = false;     // last token of a macro of more than one token: not an operand
    };
    struct alternative { ref::re r; bool bol = false, eol = false; };
    struct result
    {
        std::vector<alternative> alts;
        bool lazy = false;        // has a non-greedy repeat
        bool odd = false;         // repeats an anchor: accepted, meaning left open
        bool empty = false;       // the empty regex
        std::vector<token> toks;
    };
    using macros = std::map<std::string, result>;
    struct unexplored {};

    class reader
    {
    public:
        reader(const std::string& t, unsigned flags, const macros* m = nullptr) : t(t), fl(flags), ms(m) {}
        result read()
        {
            out.push_back(token());
            while (out.back().k != tk::end) next();
            result r;
            // Redundant outer parentheses of the whole text mean nothing.
            r.toks = out;
            bool only = true;
            for (auto& x : out) if (x.k != tk::begin && x.k != tk::end) only = false;
            r.empty = only;
            if (only && !(fl0() & ZEROLEN)) throw reject{ "empty" };
            for (auto& x : out) r.lazy = r.lazy || x.lazy;
            if (only) { alternative a; a.r = std::make_shared<ref::node>(); r.alts.push_back(a); return r; }
            i = 1;
            for (;;)
            {
                alternative a;
                a.r = sequence(a, r);
                r.alts.push_back(a);
                if (out[i].k != tk::bar) break;
                ++i;
            }
            if (out[i].k != tk::end) throw std::logic_error("reference grammar");
            return r;
        }

    private:
        std::string t;
        unsigned fl;
        const macros* ms;
        std::size_t p = 0, i = 0;
        std::vector<unsigned> scopes;
        int depth = 0;
        bool quoted = false;
        std::vector<token> out;
        int pending = 0;          // an operand of {-} or {+} must follow
        unsigned first_flags = fl;
        unsigned fl0() const { return first_flags; }

        bool eos() const { return p >= t.size(); }
        char cur() const { return t[p]; }
        char get(const char* what) { if (eos()) throw reject{ what }; return t[p++]; }

        // ---- tokens
        static bool can_start(tk k) { return k == tk::set || k == tk::bol || k == tk::eol || k == tk::open; }
        void add(token x)
        {
            const tk l = out.back().k, k = x.k;
            bool ok = true;
            switch (l)
            {
            case tk::begin: ok = can_start(k) || k == tk::end; break;
            case tk::open: case tk::bar: ok = can_start(k); break;
            case tk::rep: ok = k != tk::rep; break;
            default: break;
            }
            if (!ok) throw reject{ "syntax" };
            if (pending)
            {
                if (k != tk::set) throw reject{ "operand" };
                auto& d = out.back().s;
                if (pending == '-') { d &= ~x.s; if (d.none()) throw reject{ "empty set" }; }
                else d |= x.s;
                pending = 0;
                return;
            }
            out.push_back(x);
        }
        void set(const ref::charset& s) { token x; x.k = tk::set; x.s = s; add(x); }
        void rep(int lo, int hi)
        {
            token x;
            x.k = tk::rep; x.lo = lo; x.hi = hi;
            if (!eos() && cur() == '?') { x.lazy = true; ++p; }
            add(x);
        }
        ref::charset folded(const ref::charset& s) const { return fl & ICASE ? forms::fold(s) : s; }

        void skip()
        {
            for (bool again = true; again; )
            {
                again = false;
                while (!eos() && cur() == '"') { quoted = !quoted; ++p; }
                if (quoted || eos()) return;
                if (t.compare(p, 3, "(?#") == 0)
                {
                    int n = 1;
                    p += 3;
                    while (n)
                    {
                        const char c = get("comment");
                        n += c == '(' ? 1 : c == ')' ? -1 : 0;
                    }
                    again = true;
                    continue;
                }
                if (fl & SKIPWS)
                {
                    if (std::strchr(" \t\n\r\f\v", cur()) && cur()) { ++p; again = true; continue; }
                    if (t.compare(p, 2, "/*") == 0)
                    {
                        const auto e = t.find("*/", p + 2);
                        if (e == std::string::npos) throw reject{ "comment" };
                        p = e + 2;
                        again = true;
                        continue;
                    }
                }
            }
        }
        void next()
        {
            skip();
            if (eos())
            {
                if (quoted || depth) throw reject{ "unterminated" };
                token e;
                e.k = tk::end;
                add(e);
                return;
            }
            const std::size_t at = p;
            const char c = t[p++];
            if (c == '\\') { set(escape()); return; }
            if (quoted) { set(folded(forms::one(static_cast<unsigned char>(c)))); return; }
            token x;
            switch (c)
            {
            case '(':
                x.k = tk::open;
                ++depth;
                options();
                add(x);
                break;
            case ')':
                if (--depth < 0) throw reject{ ")" };
                fl = scopes.back();
                scopes.pop_back();
                x.k = tk::close;
                add(x);
                break;
            case '?': rep(0, 1); break;
            case '*': rep(0, -1); break;
            case '+': rep(1, -1); break;
            case '{': curly(); break;
            case '|': x.k = tk::bar; add(x); break;
            case '^': if (at == 0) { x.k = tk::bol; add(x); } else set(forms::one('^')); break;
            case '$': if (eos()) { x.k = tk::eol; add(x); } else set(forms::one('$')); break;
            case '.': set(~(fl & DNN ? forms::one('\n') : fl & DNC ? forms::of("\r\n") : forms::set())); break;
            case '[': set(bracket()); break;
            case '/': throw reject{ "lookahead" };
            default: set(folded(forms::one(static_cast<unsigned char>(c)))); break;
            }
        }
        void options()
        {
            scopes.push_back(fl);
            if (eos() || cur() != '?') return;
            ++p;
            bool neg = false;
            for (;;)
            {
                const char c = get("options");
                if (c == ':') return;
                if (c == '-') { neg = !neg; continue; }
                if (c == 'i') fl = neg ? fl & ~ICASE : fl | ICASE;
                else if (c == 's') fl = neg ? fl | DNN : fl & ~(DNN | DNC);
                else if (c == 'x') fl = neg ? fl & ~SKIPWS : fl | SKIPWS;
                else throw reject{ "option" };
                neg = false;
            }
        }
        long number()     // counts must fit 64 bits; those above a limit are valid but not explored
        {
            unsigned __int128 n = 0;
            while (!eos() && cur() >= '0' && cur() <= '9') { n = n >> 64 ? n : n * 10 + (cur() - '0'); ++p; }
            if (n >> 64) throw reject{ "overflow" };
            return n > 100000 ? 100000 : static_cast<long>(n);
        }
        void curly()
        {
            if (eos()) throw reject{ "{" };
            const char c = cur();
            if (c == '-' || c == '+')
            {
                if (out.back().k != tk::set || out.back().several || pending) throw reject{ "operand" };
                ++p;
                if (get("}") != '}') throw reject{ "}" };
                pending = c;
                return;
            }
            if (c >= '0' && c <= '9')
            {
                const long lo = number();
                long hi = lo;
                char e = get("}");
                if (e == ',')
                {
                    if (eos()) throw reject{ "}" };
                    if (cur() == '}') hi = -1;
                    else
                    {
                        if (cur() < '0' || cur() > '9') throw reject{ "number" };
                        hi = number();
                    }
                    e = get("}");
                }
                if (e != '}') throw reject{ "}" };
                if (hi == 0 || (hi >= 0 && hi < lo)) throw reject{ "range" };
                if (lo > 250 || hi > 250) throw unexplored();
                rep(static_cast<int>(lo), static_cast<int>(hi));
                return;
            }
            std::string n;
            const auto letter = [](char c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
            if (!letter(c)) throw reject{ "name" };
            while (!eos() && (letter(cur()) || cur() == '-' || (cur() >= '0' && cur() <= '9'))) n += t[p++];
            if (get("}") != '}') throw reject{ "}" };
            if (out.back().k == tk::rep && false) throw reject{ "" };
            if (!ms || !ms->count(n)) throw reject{ "unknown macro" };
            use(ms->at(n));
        }
        void use(const result& m)
        {
            std::vector<token> b(m.toks.begin() + 1, m.toks.end() - 1);
            // Parentheses around the whole definition are redundant.
            while (b.size() > 2 && b.front().k == tk::open && b.back().k == tk::close)
            {
                int d = 0;
                bool whole = true;
                for (std::size_t k = 0; k + 1 < b.size(); ++k)
                {
                    d += b[k].k == tk::open ? 1 : b[k].k == tk::close ? -1 : 0;
                    if (d == 0) { whole = false; break; }
                }
                if (!whole) break;
                b.erase(b.begin());
                b.pop_back();
            }
            if (pending) { if (b.size() != 1) throw reject{ "operand" }; add(b[0]); return; }
            token o, c;
            o.k = tk::open; c.k = tk::close;
            const bool many = b.size() > 1;
            if (many) add(o);
            for (auto& x : b) { token y = x; if (y.k == tk::bol || y.k == tk::eol) { y.s = forms::one(y.k == tk::bol ? '^' : '$'); y.k = tk::set; } add(y); }
            if (many) add(c);
        }

        // ---- characters
        static bool is_oct(char c) { return c >= '0' && c <= '7'; }
        static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
        // After the backslash. single: set to the character, or -1 for a class.
        ref::charset escape(int* single = nullptr)
        {
            const char c = get("escape");
            int v = -1;
            switch (c)
            {
            case 'd': case 'D': case 's': case 'S': case 'w': case 'W':
            {
                if (single) *single = -1;
                const char l = c | 32;
                const auto s = folded(l == 'd' ? forms::digits() : l == 's' ? forms::spaces() : forms::word());
                return l == c ? s : ~s;
            }
            case 'p': throw reject{ "\\p" };      // left to the caller's alphabet
            case 'a': v = 7; break;
            case 'b': v = 8; break;
            case 'e': v = 27; break;
            case 'f': v = 12; break;
            case 'n': v = 10; break;
            case 'r': v = 13; break;
            case 't': v = 9; break;
            case 'v': v = 11; break;
            case 'c':
            {
                const char k = get("\\c");
                if (k == '@') v = 0;
                else if (k >= 'a' && k <= 'z') v = k - 'a' + 1;
                else if (k >= 'A' && k <= 'Z') v = k - 'A' + 1;
                else throw reject{ "\\c" };
                break;
            }
            case 'x':
                if (eos() || hexv(cur()) < 0) throw reject{ "\\x" };
                v = 0;
                while (!eos() && hexv(cur()) >= 0) { v = v > 255 ? v : v * 16 + hexv(cur()); ++p; }
                break;
            default:
                if (!is_oct(c)) { v = static_cast<unsigned char>(c); break; }
                v = c - '0';
                for (int n = 1; n < 3 && !eos() && is_oct(cur()); ++n) v = v * 8 + (t[p++] - '0');
            }
            if (v > 255) throw reject{ "too big" };
            if (single) *single = v;
            return folded(forms::one(static_cast<unsigned>(v)));
        }
        ref::charset posix()      // after "[:"
        {
            bool neg = false;
            if (!eos() && cur() == '^') { neg = true; ++p; }
            for (auto& f : forms::posix())
            {
                if (f.neg) continue;
                const std::string n = f.text.substr(2);      // name:]
                if (t.compare(p, n.size(), n) == 0)
                {
                    p += n.size();
                    const auto s = folded(f.s);
                    return neg ? ~s : s;
                }
            }
            throw reject{ "posix" };
        }
        ref::charset bracket()
        {
            bool neg = false;
            ref::charset s;
            if (eos()) throw reject{ "[" };
            if (cur() == '^') { neg = true; ++p; }
            for (bool first = true; first || cur() != ']'; first = false)
            {
                int lo = -1;
                const char c = get("]");
                ref::charset item;
                if (c == '\\') item = escape(&lo);
                else if (c == '[' && !eos() && cur() == ':') { ++p; item = posix(); }
                else { lo = static_cast<unsigned char>(c); item = folded(forms::one(static_cast<unsigned>(lo))); }
                if (eos()) throw reject{ "]" };
                if (cur() == '-' && !(p + 1 < t.size() && t[p + 1] == ']'))
                {
                    ++p;
                    if (lo < 0) throw reject{ "class in range" };
                    int hi = -1;
                    const char d = get("range");
                    if (d == '\\') escape(&hi);
                    else if (d == '[' && !eos() && cur() == ':') throw reject{ "class in range" };
                    else hi = static_cast<unsigned char>(d);
                    if (hi < 0) throw reject{ "class in range" };
                    if (eos()) throw reject{ "]" };
                    if (hi < lo) throw reject{ "range" };
                    item = folded(forms::range(static_cast<unsigned>(lo), static_cast<unsigned>(hi)));
                }
                s |= item;
                if (eos()) throw reject{ "]" };
            }
            ++p;
            if (neg) s = ~s;
            if (s.none()) throw reject{ "empty set" };
            return s;
        }

        // ---- syntax
        ref::re sequence(alternative& a, result& r)
        {
            ref::re s;
            while (out[i].k == tk::set || out[i].k == tk::open || out[i].k == tk::bol || out[i].k == tk::eol)
            {
                ref::re x;
                const token k = out[i++];
                if (k.k == tk::bol || k.k == tk::eol)
                {
                    (k.k == tk::bol ? a.bol : a.eol) = true;
                    if (out[i].k == tk::rep) { r.odd = true; ++i; }
                    x = std::make_shared<ref::node>();
                }
                else
                {
                    if (k.k == tk::set) x = ref::cls("", k.s);
                    else
                    {
                        alternative inner;
                        x = sequence(inner, r);
                        while (out[i].k == tk::bar) { ++i; x = ref::alt(x, sequence(inner, r)); }
                        if (out[i].k != tk::close) throw std::logic_error("reference grammar");
                        ++i;
                        if (inner.bol || inner.eol) r.odd = true;
                    }
                    if (out[i].k == tk::rep) { x = ref::rep(x, out[i].lo, out[i].hi, ""); ++i; }
                }
                s = s ? ref::cat(s, x) : x;
            }
            if (!s) throw std::logic_error("reference grammar: empty sequence");
            return s;
        }
    };

    // True and the meaning, or false when the text is to be rejected.
    inline bool parse(const std::string& text, unsigned flags, result& r, std::string& why, const macros* m = nullptr)
    {
        try { r = reader(text, flags, m).read(); return true; }
        catch (const reject& x) { why = x.why; return false; }
    }
}
#endif
