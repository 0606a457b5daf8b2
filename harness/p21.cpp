// P21: token iterators and ranges beside the sequence of lookups.
#include "lexcmp.hpp"
#include <iterator>
#include <lexertl/iterator.hpp>
#include <lexertl/range.hpp>
#include <optional>

// One result, with everything visible in it.
struct snap
{
    unsigned id = 0, uid = 0, state = 0;
    std::size_t first = 0, second = 0;
    bool bol = true;
    std::vector<std::pair<unsigned, unsigned>> stack;
    bool operator==(const snap& o) const { return id == o.id && uid == o.uid && state == o.state && first == o.first && second == o.second && bol == o.bol && stack == o.stack; }
    std::string show() const
    {
        std::string s = "id=" + std::to_string(id) + " uid=" + std::to_string(uid) + " [" + std::to_string(first) + "," + std::to_string(second) + ") bol=" + std::to_string(bol) + " state=" + std::to_string(state);
        for (auto& p : stack) s += "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")";
        return s;
    }
};

struct op { char k; int a, b; };
// k: B begin of way b, N default, C copy, A assign, I ++, P post ++, D destroy
std::string show(const std::vector<op>& h)
{
    std::string s;
    auto v = [](int i) { return std::string(1, char('x' + i)); };
    for (auto& o : h)
        switch (o.k)
        {
        case 'B': s += v(o.a) + "(way " + std::to_string(o.b) + "); "; break;
        case 'N': s += v(o.a) + "(); "; break;
        case 'C': s += v(o.a) + "(" + v(o.b) + "); "; break;
        case 'A': s += v(o.a) + "=" + v(o.b) + "; "; break;
        case 'I': s += "++" + v(o.a) + "; "; break;
        case 'P': s += v(o.a) + "++; "; break;
        default: s += "~" + v(o.a) + "; "; break;
        }
    return s;
}

// A way to start: machine, offset, line start, lexer state.
struct way { int sm; std::size_t from; bool bol; unsigned st; };

template<typename R, typename sm_t> struct lab
{
    using it = typename R::iter_type;
    using ch = typename R::char_type;
    using str = std::basic_string<ch>;
    using I = lexertl::iterator<it, sm_t, R>;
    mc::ctx& c;
    const sm_t* sm[2];
    str text;
    std::string name, shown;
    std::vector<way> ways;
    std::vector<std::vector<snap>> seq;      // results of lookup, without the one that starts at the end
    std::vector<op> h;

    it at(std::size_t n) const
    {
        if constexpr (std::is_pointer<it>::value) return text.data() + n;
        else return text.begin() + n;
    }
    snap take(const R& r) const
    {
        snap s;
        s.id = r.id; s.uid = r.user_id; s.state = r.state; s.bol = r.bol;
        s.first = std::size_t(r.first - at(0)); s.second = std::size_t(r.second - at(0));
        s.stack = lc::stack_of(r);
        return s;
    }
    // Ways that end in a stack underflow are dropped.
    void sequences()
    {
        seq.clear();
        std::vector<way> all;
        all.swap(ways);
        for (auto& w : all)
        {
            seq.emplace_back();
            if (lookups(w)) ways.push_back(w);
            else seq.pop_back();
        }
    }
    bool lookups(const way& w)
    {
        try
        {
            R r(at(w.from), at(text.size()), w.bol, static_cast<typename R::id_type>(w.st));
            for (;;)
            {
                lexertl::lookup(*sm[w.sm], r);
                if (r.first == r.eoi) break;
                seq.back().push_back(take(r));
                if (seq.back().size() > 2 * text.size() + 2) throw std::logic_error("lookup does not end");
            }
        }
        catch (const lexertl::runtime_error&) { return false; }
        return true;
    }
    I begin(const way& w) const
    {
        return I(at(w.from), at(text.size()), *sm[w.sm], w.bol, static_cast<typename R::id_type>(w.st));
    }
    struct var { bool there = false; int w = -1; std::size_t n = 0; };
    using vars = std::array<var, 3>;
    bool end(const var& v) const { return v.w < 0 || v.n >= seq[v.w].size(); }
    bool same(const var& a, const var& b) const
    {
        if (end(a) || end(b)) return end(a) && end(b);
        return ways[a.w].sm == ways[b.w].sm && seq[a.w][a.n] == seq[b.w][b.n];
    }
    void bad(const std::string& what) { c.fail("iterator", name + " over \"" + shown + "\" after " + show(h) + "\n  " + what); }

    void replay()
    {
        ++c.traces;
        std::optional<I> x[3];
        vars v;
        for (auto& o : h)
        {
            ++c.transitions;
            switch (o.k)
            {
            case 'B': x[o.a].emplace(begin(ways[o.b])); v[o.a] = { true, o.b, 0 }; break;
            case 'N': x[o.a].emplace(); v[o.a] = { true, -1, 0 }; break;
            case 'C': x[o.a].emplace(*x[o.b]); v[o.a] = v[o.b]; break;
            case 'A': *x[o.a] = *x[o.b]; v[o.a] = v[o.b]; break;
            case 'I':
            {
                I& ref = ++*x[o.a];
                ++v[o.a].n;
                if (&ref != &*x[o.a]) return bad("++ does not return the iterator itself");
                break;
            }
            case 'P':
            {
                const I old = (*x[o.a])++;
                const snap& want = seq[v[o.a].w][v[o.a].n++];
                if (!(take(*old) == want)) return bad("the last x++ returns " + take(*old).show() + " instead of " + want.show());
                break;
            }
            default: x[o.a].reset(); v[o.a] = var(); break;
            }
        }
        const I none;
        for (int i = 0; i < 3; ++i)
        {
            if (!v[i].there) continue;
            const std::string n(1, char('x' + i));
            if ((*x[i] == none) != end(v[i]) || (none != *x[i]) == end(v[i])) return bad(n + (end(v[i]) ? " is not equal to the default iterator" : " is equal to the default iterator"));
            if (!end(v[i]))
            {
                const snap& want = seq[v[i].w][v[i].n];
                if (!(take(**x[i]) == want)) return bad(n + " is at " + take(**x[i]).show() + " instead of " + want.show());
                if ((*x[i])->id != (**x[i]).id || &x[i]->sm() != sm[ways[v[i].w].sm]) return bad(n + ": -> or sm()");
            }
            for (int k = 0; k < 3; ++k)
                if (v[k].there && ((*x[i] == *x[k]) != same(v[i], v[k]) || (*x[i] != *x[k]) == same(v[i], v[k])))
                    return bad(n + " and " + std::string(1, char('x' + k)) + (same(v[i], v[k]) ? " are not equal" : " are equal"));
        }
    }
    void explore(const vars& v, std::size_t depth)
    {
        if (!h.empty()) replay();
        std::uint64_t hs = 17;
        for (auto& q : v) hs = hs * 131 + (q.there ? 2 + q.w * 16 + q.n : 0);
        c.state(hs);
        if (h.size() >= depth) return;
        auto go = [&](const op& o, const vars& n) { h.push_back(o); explore(n, depth); h.pop_back(); };
        for (int i = 0; i < 3; ++i)
        {
            vars n = v;
            if (!v[i].there)
            {
                bool first = true;
                for (int k = 0; k < i; ++k) first = first && v[k].there;
                if (!first) continue;
                n[i] = { true, -1, 0 };
                go({ 'N', i, 0 }, n);
                for (std::size_t w = 0; w < ways.size(); ++w) { n[i] = { true, int(w), 0 }; go({ 'B', i, int(w) }, n); }
                for (int k = 0; k < 3; ++k) if (v[k].there) { n[i] = v[k]; go({ 'C', i, k }, n); }
                continue;
            }
            for (int k = 0; k < 3; ++k) if (v[k].there) { n[i] = v[k]; go({ 'A', i, k }, n); }
            if (!end(v[i])) { n[i] = v[i]; ++n[i].n; go({ 'I', i, 0 }, n); go({ 'P', i, 0 }, n); }
            if (i > 0) { n[i] = var(); go({ 'D', i, 0 }, n); }
        }
    }
    // Straight iteration, in every usual way.
    void straight()
    {
        for (std::size_t w = 0; w < ways.size(); ++w)
        {
            ++c.traces;
            auto check = [&](const std::vector<snap>& got, const char* how)
            {
                c.transitions += got.size() + 1;
                if (got == seq[w]) return true;
                std::string s = name + " over \"" + shown + "\", way " + std::to_string(w) + ", " + how + ":";
                for (auto& g : got) s += "\n  got  " + g.show();
                for (auto& g : seq[w]) s += "\n  want " + g.show();
                c.fail("sequence", s);
                return false;
            };
            const std::size_t limit = seq[w].size() + 2;
            std::vector<snap> got;
            for (I i = begin(ways[w]), e; i != e && got.size() < limit; ++i) got.push_back(take(*i));
            if (!check(got, "prefix increments")) return;
            got.clear();
            for (I i = begin(ways[w]), e; !(i == e) && got.size() < limit; ) got.push_back(take(*i++));
            if (!check(got, "postfix increments")) return;
            got.clear();
            lexertl::range<I> r(begin(ways[w]), I());
            for (auto& t : r) { if (got.size() < limit) got.push_back(take(t)); else break; }
            if (!check(got, "range")) return;
            lexertl::range<I> r2(begin(ways[w]), I());
            got.clear();
            if (std::size_t(std::distance(r2.begin(), r2.end())) != seq[w].size()) { c.fail("sequence", name + ": std::distance of a range"); return; }
            for (const R& t : std::vector<R>(r2.begin(), r2.end())) got.push_back(take(t));
            if (!check(got, "copied results")) return;
            std::string o;
            for (auto& g : got) o += g.show() + ";";
            c.outcome(o);
        }
    }
};

template<typename R, typename ch> void type(mc::ctx& c, const char* name, const std::vector<std::string>& texts, std::size_t depth, std::size_t longest)
{
    using rules_t = lexertl::basic_rules<char, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;
    constexpr bool rec = !std::is_same<decltype(lc::stack_of(std::declval<R>())), void>::value && std::is_base_of<lexertl::recursive_match_results<typename R::iter_type>, R>::value;
    struct spec { const char* re; int id; const char* to; };
    const std::vector<std::vector<spec>> sets{
        { { "a", 1, "." }, { "b", 2, "." } }, { { "a+", 1, "." }, { "ab", -1, "." }, { "^b", 3, "." } }, { { "a", 0, "." }, { "b", 2, "." } },
        { { "a", 1, "IN" }, { "^a|b", 2, "INITIAL" } }, { { "a", 1, ">IN" }, { "b", 2, "<" } }, { { "a", 1, ">IN:IN" }, { "aab", 1, "." }, { "b", -1, "." } } };
    for (std::size_t k = 0; k < sets.size(); ++k)
    {
        const bool needs = sets[k][0].to[0] == '>';
        if (needs && !rec) continue;
        sm_t sm, other;
        bool states = false;
        {
            rules_t r;
            for (auto& s : sets[k]) if (s.to[0] != '.') states = true;
            if (states) r.push_state("IN");
            for (auto& s : sets[k])
            {
                const auto id = s.id < 0 ? rules_t::skip() : static_cast<std::uint16_t>(s.id);
                if (!states && s.id) r.push(s.re, id, 7);
                else if (states) { if (s.to == std::string("<")) { r.push("INITIAL", "b", 5, "."); r.push("IN", s.re, id, s.to); } else r.push("*", s.re, id, s.to); }
                else r.push("*", s.re, s.to);
            }
            lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
            lexertl::basic_generator<rules_t, sm_t>::build(r, other);
        }
        for (auto& t : texts)
        {
            if (!c.next()) continue;
            lab<R, sm_t> l{ c };
            l.sm[0] = &sm; l.sm[1] = &other;
            l.text = lc::widen<ch>(t);
            l.shown = mc::esc(t);
            l.name = std::string(name) + ", rules " + std::to_string(k);
            c.describe(l.name + " over \"" + l.shown + "\"");
            if (c.want_sample()) c.sample(l.name + " over \"" + l.shown + "\"");
            for (std::size_t f = 0; f <= t.size(); ++f)
                for (bool b : { true, false })
                    for (unsigned s = 0; s < (states ? 2u : 1u); ++s)
                        l.ways.push_back({ 0, f, b, s });
            l.sequences();
            l.straight();
            if (t.size() > longest) continue;
            // Fewer ways to start for the histories.
            l.ways.clear();
            l.ways.push_back({ 0, 0, true, 0 });
            l.ways.push_back({ 1, 0, true, 0 });
            if (!t.empty()) l.ways.push_back({ 0, 1, true, 0 });
            if (states) l.ways.push_back({ 0, 0, true, 1 });
            l.sequences();
            l.explore({}, depth);
        }
    }
}

void body(mc::ctx& c)
{
    using namespace lexertl;
    const auto texts = mc::strings("ab\n", 0, c.thorough ? 7 : 5);
    const std::size_t d = c.thorough ? 6 : 5, n = 3;
    type<srmatch, char>(c, "sriterator", texts, d, n);
    type<crmatch, char>(c, "criterator", texts, d - 1, n);
    type<smatch, char>(c, "siterator", texts, d, n);
    type<cmatch, char>(c, "citerator", texts, d - 1, n);
    type<wsmatch, wchar_t>(c, "wsiterator", texts, d - 1, n);
    type<wcmatch, wchar_t>(c, "wciterator", texts, d - 1, n);
    type<wsrmatch, wchar_t>(c, "wsriterator", texts, d - 1, n);
    type<wcrmatch, wchar_t>(c, "wcriterator", texts, d - 1, n);
    type<u32smatch, char32_t>(c, "u32siterator", texts, d - 1, n);
    type<u32cmatch, char32_t>(c, "u32citerator", texts, d - 1, n);
    type<u32srmatch, char32_t>(c, "u32sriterator", texts, d - 1, n);
    type<u32crmatch, char32_t>(c, "u32criterator", texts, d - 1, n);
}

int main(int argc, char** argv) { return mc::ctx().main(argc, argv, body); }
