// P22: replace, every overload, against the tokens of the reference model.
#include "machine.hpp"
#include "gen.hpp"
#include <deque>
#include <list>
#include <lexertl/replace.hpp>
#include <lexertl/state_machine.hpp>
using namespace ref;

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;
static rule mk(const re& r, unsigned id) { rule x; x.r = r; x.id = id; return x; }

// The texts a map gives to ids.
using texts = std::map<unsigned, std::string>;

// The model: the replacement of each token, all else kept.
struct model
{
    std::vector<token> toks;
    std::string in;
    model(const std::vector<rules>& st, const std::string& text) : in(text)
    {
        state s;
        for (;;)
        {
            const token t = step(st, in, s);
            if (t.id == 0 && s.pos == in.size()) return;
            toks.push_back(t);
        }
    }
    template<typename fn>
    std::string apply(fn f) const
    {
        std::string o;
        std::size_t last = 0;
        for (auto& t : toks)
        {
            o += in.substr(last, t.first - last) + f(t.id, in.substr(t.first, t.second - t.first));
            last = t.second;
        }
        return o + in.substr(last);
    }
    std::string by(const std::string& s) const { return apply([&](unsigned, const std::string&) { return s; }); }
    std::string by(const texts& m) const
    {
        return apply([&](unsigned id, const std::string& was) { auto i = m.find(id); return i == m.end() ? was : i->second; });
    }
};

// The callbacks: 1 doubles the token, 2 gives a fixed text, 3 gives nothing.
static std::string called(int n, const std::string& was) { return n == 1 ? "<" + was + was + ">" : n == 2 ? "ab" : ""; }
template<typename str, typename it>
static str call(int n, it f, it s)
{
    using ch = typename str::value_type;
    std::string was;
    for (; f != s; ++f) was += static_cast<char>(*f);
    const std::string r = called(n, was);
    str o;
    for (char c : r) o += static_cast<ch>(c);
    return o;
}
template<typename str, typename it, int n> static str by_value(it f, it s) { return call<str>(n, f, s); }
template<typename str, typename it, int n> static str by_ref(it& f, it& s) { return call<str>(n, f, s); }
template<typename ch, typename it, int n> static const ch* by_ptr(it f, it s)
{
    // The text stays valid until replace has copied it.
    static std::basic_string<ch> keep;
    keep = call<std::basic_string<ch>>(n, f, s);
    return keep.c_str();
}

template<typename ch> struct other_alloc : std::allocator<ch>
{
    template<typename u> struct rebind { using other = other_alloc<u>; };
    other_alloc() = default;
    template<typename u> other_alloc(const other_alloc<u>&) {}
};

template<typename str> static std::string narrow(const str& s) { std::string o; for (auto c : s) o += static_cast<char>(c); return o; }
template<typename str> static str make(const std::string& s) { str o; for (unsigned char c : s) o += static_cast<typename str::value_type>(c); return o; }

template<typename ch, typename idt>
struct tester
{
    using sm_t = lexertl::basic_state_machine<ch, idt>;
    using str = std::basic_string<ch>;
    using astr = std::basic_string<ch, std::char_traits<ch>, other_alloc<ch>>;
    mc::ctx& c;
    const sm_t& sm;
    const std::vector<rules>& st;
    std::string in, what;

    void expect(const std::string& got, const std::string& want, const char* how)
    {
        ++c.transitions;
        if (got != want)
            c.fail("replace", std::string("replace of ") + how + " by " + what + " on \"" + mc::esc(in) + "\" gives \"" + mc::esc(got) + "\", expected \"" + mc::esc(want) + "\" with " + lc::show(st));
    }
    // All iterator overloads for one kind of input.
    template<typename it, typename fmt_t>
    void iters(it b, it e, const fmt_t& f, const std::string& want, const char* how)
    {
        // a list that must not grow, with a mark at its end
        std::list<ch> l(want.size(), ch('?'));
        l.push_back(ch('!'));
        const auto end = lexertl::replace(l.begin(), b, e, sm, f);
        if (static_cast<std::size_t>(std::distance(l.begin(), end)) != want.size())
            c.fail("returned iterator", std::string("replace of ") + how + " by " + what + " on \"" + mc::esc(in) + "\" returns position " + std::to_string(std::distance(l.begin(), end)) + " of " + std::to_string(want.size()) + " with " + lc::show(st));
        if (l.back() != ch('!')) c.fail("writes too much", std::string("replace of ") + how + " by " + what + " on \"" + mc::esc(in) + "\" with " + lc::show(st));
        l.pop_back();
        expect(narrow(str(l.begin(), l.end())), want, how);
        std::vector<ch> v(want.size() + 1, ch('?'));
        ch* const p = lexertl::replace(v.data(), b, e, sm, f);
        if (p != v.data() + want.size()) c.fail("returned iterator", std::string("replace into an array of ") + how + " by " + what + " on \"" + mc::esc(in) + "\" with " + lc::show(st));
        expect(narrow(str(v.data(), v.data() + want.size())), want, how);
        str s;
        lexertl::replace(std::back_inserter(s), b, e, sm, f);
        expect(narrow(s), want, how);
    }
    template<typename fmt_t>
    void all_iters(const fmt_t& f, const std::string& want)
    {
        const str longer = make<str>(in + "abab");
        const auto n = static_cast<std::ptrdiff_t>(in.size());
        iters(longer.cbegin(), longer.cbegin() + n, f, want, "string iterators");
        iters(longer.data(), longer.data() + n, f, want, "pointers");
        const std::list<ch> l(longer.begin(), longer.begin() + n);
        iters(l.begin(), l.end(), f, want, "list iterators");
        const std::deque<ch> d(longer.begin(), longer.begin() + n);
        iters(d.begin(), d.end(), f, want, "deque iterators");
    }
    void run(const model& m, const std::vector<std::string>& fmts, const std::vector<texts>& maps)
    {
        in = m.in;
        ++c.traces;
        const bool nul = in.find('\0') != std::string::npos;
        const str s = make<str>(in);
        const astr as = make<astr>(in);
        const ch* const z = s.c_str();
        c.state(mc::hash(in.data(), in.size(), sizeof(ch)));
        for (auto& f : fmts)
        {
            const std::string want = m.by(f);
            c.outcome(want);
            what = "\"" + mc::esc(f) + "\"";
            const str fs = make<str>(f);
            const astr fa = make<astr>(f);
            const bool fnul = f.find('\0') != std::string::npos;
            all_iters(fs, want);
            if (!fnul) all_iters(fs.c_str(), want);
            expect(narrow(lexertl::replace(s, sm, fs)), want, "string, string");
            if (!fnul) expect(narrow(lexertl::replace(s, sm, fs.c_str())), want, "string, C string");
            if (!fnul) expect(narrow(lexertl::replace(as, sm, fs.c_str())), want, "string with allocator, C string");
            if (!nul) expect(narrow(lexertl::replace(z, sm, fs)), want, "C string, string");
            if (!nul) expect(narrow(lexertl::replace(z, sm, fa)), want, "C string, string with allocator");
            if (!nul && !fnul) expect(narrow(lexertl::replace(z, sm, fs.c_str())), want, "C string, C string");
        }
        for (auto& t : maps)
        {
            const std::string want = m.by(t);
            c.outcome(want);
            what = "{";
            std::map<idt, str> ms;
            std::map<idt, astr> ma;
            std::map<idt, const ch*> mz;
            bool fnul = false;
            for (auto& x : t)
            {
                const idt id = x.first == NPOS ? sm_t::npos() : static_cast<idt>(x.first);
                ms[id] = make<str>(x.second);
                ma[id] = make<astr>(x.second);
                mz[id] = ms[id].c_str();
                fnul = fnul || x.second.find('\0') != std::string::npos;
                what += std::to_string(x.first) + ": \"" + mc::esc(x.second) + "\" ";
            }
            what += "}";
            all_iters(ms, want);
            if (!fnul) all_iters(mz, want);
            expect(narrow(lexertl::replace(s, sm, ms)), want, "string, map of strings");
            if (!fnul) expect(narrow(lexertl::replace(s, sm, mz)), want, "string, map of C strings");
            if (!nul) expect(narrow(lexertl::replace(z, sm, ms)), want, "C string, map of strings");
            if (!nul) expect(narrow(lexertl::replace(z, sm, ma)), want, "C string, map of strings with allocator");
            if (!nul && !fnul) expect(narrow(lexertl::replace(z, sm, mz)), want, "C string, map of C strings");
        }
        // Callbacks: ids 1 and 2 (and no match in the second round) mapped.
        for (int round = 0; round < 3; ++round)
        {
            const std::string want = m.apply([&](unsigned id, const std::string& was)
            {
                if (id == 1) return called(round == 2 ? 3 : 1, was);
                if (id == 2 && round) return called(2, was);
                if (id == NPOS && round == 1) return called(1, was);
                return was;
            });
            c.outcome(want);
            what = "callbacks, round " + std::to_string(round);
            using cit = typename str::const_iterator;
            using cp = const ch*;
            std::map<idt, str(*)(cit&, cit&)> r1{ { idt(1), round == 2 ? by_ref<str, cit, 3> : by_ref<str, cit, 1> } };
            std::map<idt, str(*)(cp, cp)> r2{ { idt(1), round == 2 ? by_value<str, cp, 3> : by_value<str, cp, 1> } };
            std::map<idt, cp(*)(cp, cp)> r3{ { idt(1), round == 2 ? by_ptr<ch, cp, 3> : by_ptr<ch, cp, 1> } };
            std::map<idt, cp(*)(cit, cit)> r4{ { idt(1), round == 2 ? by_ptr<ch, cit, 3> : by_ptr<ch, cit, 1> } };
            if (round)
            {
                r1[2] = by_ref<str, cit, 2>; r2[2] = by_value<str, cp, 2>; r3[2] = by_ptr<ch, cp, 2>; r4[2] = by_ptr<ch, cit, 2>;
            }
            if (round == 1)
            {
                const idt np = sm_t::npos();
                r1[np] = by_ref<str, cit, 1>; r2[np] = by_value<str, cp, 1>; r3[np] = by_ptr<ch, cp, 1>; r4[np] = by_ptr<ch, cit, 1>;
            }
            iters(s.cbegin(), s.cend(), r1, want, "string iterators, string callback");
            // A C string cannot give a zero character back.
            if (!nul) iters(s.cbegin(), s.cend(), r4, want, "string iterators, C string callback");
            if (!nul) iters(cp(s.data()), cp(s.data() + s.size()), r3, want, "pointers, C string callback");
            expect(narrow(lexertl::replace(s, sm, r1)), want, "string, string callback");
            if (!nul) expect(narrow(lexertl::replace(s, sm, r3)), want, "string, C string callback");
            if (!nul) expect(narrow(lexertl::replace(z, sm, r2)), want, "C string, string callback");
            if (!nul) expect(narrow(lexertl::replace(z, sm, r3)), want, "C string, C string callback");
        }
    }
};

static void run(mc::ctx& c, const std::vector<rules>& st, const std::vector<std::string>& inputs, bool T)
{
    const std::string d = lc::show(st);
    c.describe(d);
    if (c.want_sample()) c.sample(d);
    lexertl::rules r(FLAGS);
    lexertl::state_machine sm;
    lc::push(r, st);
    lexertl::generator::build(r, sm);
    using wr = lexertl::basic_rules<char, char16_t, std::uint32_t>;
    lexertl::basic_state_machine<char16_t, std::uint32_t> wsm;
    wr q(FLAGS);
    lc::push(q, st);
    lexertl::basic_generator<wr, decltype(wsm)>::build(q, wsm);
    tester<char, std::uint16_t> t8{ c, sm, st };
    tester<char16_t, std::uint32_t> t16{ c, wsm, st };
    const std::vector<std::string> fmts{ "", "X", "ab", std::string("a\0b", 3) };
    const std::vector<texts> maps{ {}, { { 1, "X" } }, { { 1, "" }, { 2, "bab" } }, { { 2, "Y" }, { NPOS, "#" } }, { { 1, std::string("\0a", 2) }, { 3, "zz" }, { 7, "never" } } };
    for (auto& in : inputs)
    {
        const model m(st, in);
        t8.run(m, fmts, maps);
        t16.run(m, fmts, maps);
    }
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto a = lit('a'), b = lit('b'), ab = cls("[ab]", chars("ab"));
        const auto in = mc::strings("abc", 0, T ? 5 : 4);
        auto inn = mc::strings(std::string("a\0\n", 3), 0, T ? 5 : 4);
        const std::vector<unsigned> ids{ 1, 0, SKIP };
        const auto pool = gen::solid(gen::flat(gen::levels({ a, b, ab }, { gen::PLUS, gen::OPT, gen::STAR }, T ? 4 : 3)));
        const std::vector<re> few{ a, b, rep(a, 1, -1, "+"), str("ab"), cat(rep(ab, 0, -1, "*"), b), lit('c') };
        // 1. one rule of each kind
        for (auto& r : pool) for (auto i : ids) if (c.next()) run(c, { { mk(r, i) } }, in, T);
        // 2. two rules of every pair of kinds
        for (auto& r : few) for (auto& s : few) for (auto i : ids) for (auto j : ids)
            if (c.next()) run(c, { { mk(r, i), mk(s, j == 1 ? 2 : j) } }, in, T);
        // 3. with a catch-all rule
        for (auto& r : few) for (auto& s : few) for (auto i : ids)
            if (c.next()) run(c, { { mk(r, 1), mk(s, 2), mk(cls("(?s:.)", gen::all()), i ? i + (i == 1) * 2 : 0) } }, T ? in : mc::strings("abc", 0, 3), T);
        // 4. zero characters and line breaks, anchors
        for (auto& r : { a, cls("\\0", chars(std::string(1, '\0'))), cls("[^a]", ~chars("a")), rep(cls("(?s:.)", gen::all()), 2, 2, "{2}"), lit('\n', "\\n") })
            for (auto i : ids) for (auto j : ids) for (int k = 0; k < 4; ++k)
            {
                rule x = mk(r, i), y = mk(a, j == 1 ? 2 : j);
                x.bol = (k & 1) != 0;
                y.bol = (k & 2) != 0;
                if (c.next()) run(c, { { x, y } }, inn, T);
            }
        // 5. two lexer states
        for (auto& r : few) for (auto& s : few) for (auto i : ids) for (auto j : ids)
        {
            if (!c.next()) continue;
            rule p = mk(r, i), q = mk(s, j == 1 ? 2 : j), t = mk(b, 3);
            p.next = 1; t.next = 0; q.next = 0;
            run(c, { { p, t }, { q } }, T ? in : mc::strings("abc", 0, 4), T);
        }
    });
}
