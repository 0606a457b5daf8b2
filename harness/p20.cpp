// P20: the shared stream iterator, (a) lexing beside the text in memory, (b) every history of copies.
#include <algorithm>
#include <cstring>
#include "lexcmp.hpp"
#include <lexertl/iterator.hpp>
#include <lexertl/stream_shared_iterator.hpp>
#include <new>
#include <optional>

#ifndef SHALLOWER
#define SHALLOWER 0
#endif
static long live_blocks = 0;
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live_blocks; return p; }
void operator delete(void* p) noexcept { if (p) --live_blocks; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live_blocks; std::free(p); }

// Delivers the text in pieces of at most the given size.
template<typename ch> struct pieces : std::basic_streambuf<ch>
{
    using tr = std::char_traits<ch>;
    std::basic_string<ch> text, cur;
    std::size_t at = 0, size;
    pieces(const std::basic_string<ch>& t, std::size_t n) : text(t), size(n) {}
    typename tr::int_type underflow() override
    {
        if (at >= text.size()) return tr::eof();
        cur = text.substr(at, size);
        at += cur.size();
        this->setg(&cur[0], &cur[0], &cur[0] + cur.size());
        return tr::to_int_type(cur[0]);
    }
};

template<typename ch> using iter_t = lexertl::basic_stream_shared_iterator<ch>;

template<typename ch> struct lexing
{
    mc::ctx& c;
    using rules_t = lexertl::basic_rules<char, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;

    template<typename R> static std::string one(const R& r)
    {
        std::string s = std::to_string(r.id) + "," + std::to_string(r.user_id) + "," + std::to_string(r.bol) + "," + std::to_string(r.state) + ":";
        for (ch x : std::basic_string<ch>(r.first, r.second)) s += char(x);
        return s;
    }
    template<typename it> static std::vector<std::string> tokens(const sm_t& sm, it b, it e, std::size_t limit)
    {
        using R = lexertl::recursive_match_results<it, std::uint16_t>;
        R r(b, e);
        std::vector<std::string> v;
        int after = 0;
        while (v.size() < limit && after < 3)
        {
            lexertl::lookup(sm, r);
            std::string t = one(r);
            t += r.first == r.eoi ? "." : "";
            t += r.second == r.eoi ? "!" : "";
            v.push_back(mc::esc(t));
            if (r.id == 0) ++after;
        }
        return v;
    }
    template<typename it> static std::vector<std::string> iterate(const sm_t& sm, it b, it e, std::size_t limit)
    {
        using R = lexertl::recursive_match_results<it, std::uint16_t>;
        using I = lexertl::iterator<it, sm_t, R>;
        std::vector<std::string> v;
        I i(b, e, sm), end;
        for (; v.size() < limit && i != end; ++i) v.push_back(mc::esc(one(*i)));
        return v;
    }
    static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "[" + x + "] "; return s; }

    void run(const std::vector<std::string>& rs, const std::vector<std::string>& texts, std::size_t maxsize)
    {
        sm_t sm;
        bool built = false;
        for (auto& t : texts)
        {
            if (!c.next()) continue;
            if (!built)
            {
                rules_t r;
                bool stack = false;
                for (auto& t : rs) stack = stack || t[0] == '>';
                if (stack) r.push_state("T");
                for (std::size_t i = 0; i < rs.size(); ++i)
                {
                    const auto id = static_cast<std::uint16_t>(i + 1);
                    if (rs[i][0] == '-') r.push(rs[i].substr(1), r.skip());
                    else if (rs[i][0] == '>') r.push("*", rs[i].substr(1), id, ">T:INITIAL");
                    else if (stack) r.push("*", rs[i], id, ".");
                    else r.push(rs[i], id);
                }
                lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
                built = true;
            }
            const std::string d = std::to_string(sizeof(ch) * 8) + " bit, text \"" + mc::esc(t) + "\", rules " + join(rs);
            c.describe(d);
            if (c.want_sample()) c.sample(d);
            const auto w = lc::widen<ch>(t);
            const std::size_t limit = 2 * t.size() + 6;
            const auto want = tokens<const ch*>(sm, w.data(), w.data() + w.size(), limit);
            const auto iwant = iterate<const ch*>(sm, w.data(), w.data() + w.size(), limit);
            c.outcome(join(want));
            for (std::size_t size = 1; size <= std::min(maxsize, t.size() + 2); ++size)
                for (std::size_t inc = 1; inc <= 3; ++inc)
                    for (std::size_t piece = 1; piece <= 3; ++piece)
                    {
                        const std::string cfg = "buffer " + std::to_string(size) + ", increment " + std::to_string(inc) + ", pieces of " + std::to_string(piece) + ": ";
                        c.state(size * 16 + inc * 4 + piece);
                        c.traces += 2;
                        c.transitions += want.size() + iwant.size();
                        const long before = live_blocks;
                        std::vector<std::string> got;
                        {
                            pieces<ch> buf(w, piece);
                            std::basic_istream<ch> in(&buf);
                            got = tokens(sm, iter_t<ch>(in, size, inc), iter_t<ch>(), limit);
                        }
                        if (got != want) { c.fail("lex", d + "\n  " + cfg + "lookup gives\n  " + join(got) + "\n  and from memory\n  " + join(want)); return; }
                        {
                            pieces<ch> buf(w, piece);
                            std::basic_istream<ch> in(&buf);
                            iter_t<ch> b(in, size, inc), e;
                            got = iterate(sm, b, e, limit);
                        }
                        if (got != iwant) { c.fail("lex", d + "\n  " + cfg + "the token iterator gives\n  " + join(got) + "\n  and from memory\n  " + join(iwant)); return; }
                        got.clear(); got.shrink_to_fit();
                        if (live_blocks != before) { c.fail("leak", d + "\n  " + cfg + "memory is not released"); return; }
                    }
        }
    }
};

// ---- Histories over three variables and two streams.
enum op_kind { MAKE, NUL, COPY, ASSIGN, INC, POST, READ, KILL };
struct op { op_kind k; int a, b; };
const char* const NAME[] = { "make", "null", "copy", "assign", "++", "post++", "read", "destroy" };
std::string show(const std::vector<op>& h)
{
    std::string s;
    auto v = [](int i) { return std::string(1, char('x' + i)); };
    for (auto& o : h)
        switch (o.k)
        {
        case MAKE: s += v(o.a) + "(stream " + std::to_string(o.b) + "); "; break;
        case NUL: s += v(o.a) + "(); "; break;
        case COPY: s += v(o.a) + "(" + v(o.b) + "); "; break;
        case ASSIGN: s += v(o.a) + "=" + v(o.b) + "; "; break;
        case INC: s += "++" + v(o.a) + "; "; break;
        case POST: s += "*" + v(o.a) + "++; "; break;
        case READ: s += "*" + v(o.a) + "; "; break;
        case KILL: s += "~" + v(o.a) + "; "; break;
        }
    return s;
}

// What each variable must denote. fresh: made from a stream and not used since; it then stands at the oldest text that another
// iterator of the stream still holds, or at the beginning of a stream nothing has been taken from.
struct model
{
    struct var { bool there = false, fresh = false; int src = -1; int pos = 0; };
    var v[3];
    bool taken[2] = { false, false };
    int len[2];
    bool ended(int i) const { return v[i].src >= 0 && !v[i].fresh && v[i].pos >= len[v[i].src]; }
    // Position, or -1 where it is left open.
    int at(int i) const
    {
        if (!v[i].fresh) return v[i].pos;
        int low = -1;
        for (int k = 0; k < 3; ++k)
            if (v[k].there && v[k].src == v[i].src && !v[k].fresh && !ended(k) && (low < 0 || v[k].pos < low)) low = v[k].pos;
        if (low >= 0) return low;
        return taken[v[i].src] ? -1 : 0;
    }
    bool usable(int i) const { return v[i].src >= 0 && at(i) >= 0; }
    bool at_end(int i) const { return v[i].src < 0 || at(i) >= len[v[i].src]; }
    void settle(int i) { v[i].pos = at(i); v[i].fresh = false; }

    std::vector<op> ops() const
    {
        std::vector<op> r;
        for (int i = 0; i < 3; ++i)
        {
            if (!v[i].there)
            {
                // Empty variables are interchangeable: use the first.
                bool first = true;
                for (int k = 0; k < i; ++k) if (!v[k].there) first = false;
                if (!first) continue;
                r.push_back({ NUL, i, 0 });
                for (int s = 0; s < 2; ++s)
                {
                    bool used = made[s];
                    if (!used && (s == 0 || made[0])) r.push_back({ MAKE, i, s });
                }
                for (int k = 0; k < 3; ++k) if (v[k].there && (v[k].src < 0 || usable(k))) r.push_back({ COPY, i, k });
            }
            else
            {
                for (int k = 0; k < 3; ++k) if (v[k].there && (v[k].src < 0 || usable(k))) r.push_back({ ASSIGN, i, k });
                if (usable(i) && !at_end(i)) { r.push_back({ INC, i, 0 }); r.push_back({ POST, i, 0 }); if (v[i].fresh) r.push_back({ READ, i, 0 }); }
                r.push_back({ KILL, i, 0 });
            }
        }
        return r;
    }
    bool made[2] = { false, false };
    void apply(const op& o)
    {
        switch (o.k)
        {
        case MAKE: v[o.a] = var(); v[o.a].there = true; v[o.a].fresh = len[o.b] > 0; v[o.a].src = o.b; made[o.b] = true; break;
        case NUL: v[o.a] = var(); v[o.a].there = true; break;
        case COPY: case ASSIGN:
        {
            if (o.a == o.b) { break; }
            var n = v[o.b];
            if (n.src >= 0) { n.pos = at(o.b); n.fresh = false; }
            v[o.a] = n;
            break;
        }
        case INC: case POST: settle(o.a); ++v[o.a].pos; taken[v[o.a].src] = true; break;
        case READ: settle(o.a); break;
        case KILL: v[o.a] = var(); break;
        }
    }
};

struct histories
{
    mc::ctx& c;
    std::string texts[2];
    std::size_t size, inc;
    std::vector<op> h;

    void bad(const std::string& what, std::size_t upto)
    {
        std::vector<op> p(h.begin(), h.begin() + std::min(upto, h.size()));
        c.fail("history", "streams \"" + texts[0] + "\" and \"" + texts[1] + "\", buffer " + std::to_string(size) + ", increment " + std::to_string(inc) + ": after " + show(p) + what);
    }
    // Replays the history; checks everything visible after its last operation.
    void replay(const model& fin)
    {
        const long before = live_blocks;
        std::string fail;
        {
            pieces<char> b0(texts[0], 2), b1(texts[1], 1);
            std::istream s0(&b0), s1(&b1);
            using it = iter_t<char>;
            std::optional<it> x[3];
            model m = init();
            for (auto& o : h)
            {
                ++c.transitions;
                switch (o.k)
                {
                case MAKE: x[o.a].emplace(o.b ? s1 : s0, size, inc); break;
                case NUL: x[o.a].emplace(); break;
                case COPY: x[o.a].emplace(*x[o.b]); break;
                case ASSIGN: *x[o.a] = *x[o.b]; break;
                case INC: ++*x[o.a]; break;
                case POST:
                {
                    const char want = texts[m.v[o.a].src][m.at(o.a)];
                    it old = (*x[o.a])++;
                    if (*old != want) fail = "the result of x++ is not the old character";
                    break;
                }
                case READ: if (**x[o.a] != texts[m.v[o.a].src][m.at(o.a)]) fail = "the first character read is wrong"; break;
                case KILL: x[o.a].reset(); break;
                }
                m.apply(o);
                if (!fail.empty()) break;
            }
            const it end;
            for (int i = 0; fail.empty() && i < 3; ++i)
            {
                if (!m.v[i].there) continue;
                const std::string n(1, char('x' + i));
                if (m.v[i].src >= 0 && m.at(i) < 0) continue;
                if ((*x[i] == end) != m.at_end(i) || (*x[i] != end) == m.at_end(i)) { fail = n + (m.at_end(i) ? " is not equal to the end" : " is equal to the end"); break; }
                for (int k = 0; k < 3 && fail.empty(); ++k)
                {
                    if (!m.v[k].there || (m.v[k].src >= 0 && m.at(k) < 0)) continue;
                    if (m.v[i].src != m.v[k].src && m.at_end(i) && m.at_end(k) && m.v[i].src >= 0 && m.v[k].src >= 0) continue;
                    const bool eq = m.at_end(i) ? m.at_end(k) : !m.at_end(k) && m.v[i].src == m.v[k].src && m.at(i) == m.at(k);
                    if ((*x[i] == *x[k]) != eq || (*x[i] != *x[k]) == eq) fail = n + " and " + std::string(1, char('x' + k)) + (eq ? " are not equal" : " are equal");
                }
                if (fail.empty() && !m.v[i].fresh && !m.at_end(i) && **x[i] != texts[m.v[i].src][m.v[i].pos])
                    fail = n + " yields " + mc::esc(std::string(1, **x[i])) + " instead of " + texts[m.v[i].src][m.v[i].pos];
            }
            // Each variable then still yields the rest of its text, whichever is used first.
            for (int i = 0; fail.empty() && i < 3; ++i)
            {
                if (!m.v[i].there || m.v[i].src < 0 || m.at(i) < 0) continue;
                std::string rest;
                const std::string want = texts[m.v[i].src].substr(m.at(i));
                m.settle(i);
                it copy(*x[i]);
                for (; rest.size() <= want.size() && copy != end; ++copy) rest += *copy;
                if (rest != want) fail = std::string(1, char('x' + i)) + " yields \"" + mc::esc(rest) + "\" instead of \"" + want + "\"";
                m.taken[m.v[i].src] = true;
                // reading through a copy of a fresh variable leaves its position open from now on
                if (m.v[i].src >= 0) for (int k = 0; k < 3; ++k) if (k != i && m.v[k].there && m.v[k].fresh && m.v[k].src == m.v[i].src && m.at(k) != 0) { m.v[k].src = -1; }
            }
        }
        if (fail.empty() && live_blocks != before) fail = "memory is not released";
        if (!fail.empty()) bad(fail, h.size());
        ++c.traces;
    }
    model init() const { model m; m.len[0] = int(texts[0].size()); m.len[1] = int(texts[1].size()); return m; }
    void explore(const model& m, std::size_t depth)
    {
        replay(m);
        if (h.size() >= depth) return;
        for (auto& o : m.ops())
        {
            model n = m;
            n.apply(o);
            h.push_back(o);
            explore(n, depth);
            h.pop_back();
        }
    }
    // The first operations number the cases.
    void split(const model& m, std::size_t at, std::size_t depth)
    {
        if (h.size() == at)
        {
            if (!c.next()) return;
            const std::string d = "histories from " + show(h) + "(streams \"" + texts[0] + "\", \"" + texts[1] + "\", buffer " + std::to_string(size) + ", increment " + std::to_string(inc) + ")";
            c.describe(d);
            if (c.want_sample()) c.sample(d);
            explore(m, depth);
            return;
        }
        for (auto& o : m.ops())
        {
            model n = m;
            n.apply(o);
            h.push_back(o);
            split(n, at, depth);
            h.pop_back();
        }
    }
};

void body(mc::ctx& c)
{
    const std::vector<std::vector<std::string>> sets{
        { "a", "b", "\\n" }, { "a+", "b\\n?" }, { "(?s:.)+" }, { "-a", "^b", "b$", "b|\\n" }, { "aab", "ab*", "-\\n" }, { "(ab)+\\n", "a", "b" },
        { ">a", "b", "^\\n" }, { "a.*$", "b" }, { "(?s:.){3}", "a" }, { "-(?s:.)" } };
    const auto texts = mc::strings("ab\n", 0, c.thorough ? 7 : 5);
    for (auto& rs : sets) lexing<char>{ c }.run(rs, texts, 8);
    const auto few = mc::strings("ab\n", 0, c.thorough ? 5 : 4);
    for (auto& rs : sets) lexing<wchar_t>{ c }.run(rs, few, 6);
    for (auto& rs : sets) lexing<char32_t>{ c }.run(rs, few, 6);
    struct cfg { const char* a; const char* b; std::size_t size, inc; };
    for (const cfg& f : { cfg{ "pqr", "s", 1, 1 }, cfg{ "pqr", "s", 2, 1 }, cfg{ "pq", "", 1, 2 }, cfg{ "pqrs", "tu", 3, 1 }, cfg{ "", "p", 1, 1 }, cfg{ "pqrst", "u", 2, 2 } })
    {
        histories h{ c, { f.a, f.b }, f.size, f.inc, {} };
        h.split(h.init(), 3, (c.thorough ? 8 : 7) - SHALLOWER);
    }
}

int main(int argc, char** argv) { return mc::ctx().main(argc, argv, body); }
