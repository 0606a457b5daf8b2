// P30: everything that decides how lexing continues is in the result object.
#include "machine.hpp"
#include "sets.hpp"
#include <deque>
using namespace ref;

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;
enum : std::size_t
{
    BOL = +lexertl::feature_bit::bol, EOL = +lexertl::feature_bit::eol, SKIPS = +lexertl::feature_bit::skip, AGAIN = +lexertl::feature_bit::again,
    MULTI = +lexertl::feature_bit::multi_state, RECURSIVE = +lexertl::feature_bit::recursive, ADVANCE = +lexertl::feature_bit::advance
};

struct tok
{
    unsigned id, uid;
    std::ptrdiff_t a, b;
    bool thrown;
    bool operator ==(const tok& o) const { return id == o.id && uid == o.uid && a == o.a && b == o.b && thrown == o.thrown; }
};
static std::string show(const std::vector<tok>& v)
{
    std::ostringstream o;
    for (auto& t : v) o << (t.thrown ? std::string("error") : std::to_string(t.id) + "/" + std::to_string(t.uid) + "[" + std::to_string(t.a) + "," + std::to_string(t.b) + ")") << ' ';
    return o.str();
}
template<typename results, typename it, typename sm_t>
static tok call(const sm_t& sm, results& r, it begin)
{
    try { lexertl::lookup(sm, r); }
    catch (const lexertl::runtime_error&) { return { 0, 0, 0, 0, true }; }
    return { static_cast<unsigned>(r.id), static_cast<unsigned>(r.user_id), r.first - begin, r.second - begin, false };
}
// The tokens to the end (and once beyond), at most n.
template<typename results, typename it, typename sm_t>
static std::vector<tok> rest(mc::ctx& c, const sm_t& sm, results& r, it begin, std::size_t n)
{
    std::vector<tok> v;
    for (int end = 0; v.size() < n && end < 2; )
    {
        v.push_back(call(sm, r, begin));
        ++c.transitions;
        if (v.back().thrown) break;
        if (v.back().id == 0) ++end;
    }
    return v;
}

// All that is in a result object.
template<typename R>
struct fields
{
    typename R::id_type id, uid, state;
    typename R::iter_type first, second, eoi;
    bool bol;
    std::vector<std::pair<unsigned, unsigned>> stack;
    explicit fields(const R& r) : id(r.id), uid(r.user_id), state(r.state), first(r.first), second(r.second), eoi(r.eoi), bol(r.bol), stack(lc::stack_of(r)) {}
    bool operator ==(const fields& o) const
    {
        return id == o.id && uid == o.uid && state == o.state && first == o.first && second == o.second && eoi == o.eoi && bol == o.bol && stack == o.stack;
    }
};
template<typename R> static void give_stack(R&, const R&) {}
template<typename it, typename idt, std::size_t fl>
static void give_stack(lexertl::recursive_match_results<it, idt, fl>& to, const lexertl::recursive_match_results<it, idt, fl>& from) { to.stack = from.stack; }
template<typename R> static void spoil(R&) {}
template<typename it, typename idt, std::size_t fl>
static void spoil(lexertl::recursive_match_results<it, idt, fl>& r) { r.stack.emplace(static_cast<idt>(0), static_cast<idt>(5)); r.stack.emplace(static_cast<idt>(0), static_cast<idt>(0)); }
template<typename R> static bool differs_in_stack(const R&) { return true; }
template<typename it, typename idt, std::size_t fl>
static bool differs_in_stack(const lexertl::recursive_match_results<it, idt, fl>& r)
{
    auto a = r, b = r;
    a.stack.emplace(static_cast<idt>(0), static_cast<idt>(5));
    if (a == r) return false;
    b.stack.emplace(static_cast<idt>(0), static_cast<idt>(6));
    return !(a == b);
}

template<typename R, typename text>
static void everywhere(mc::ctx& c, const lexertl::basic_state_machine<typename R::char_type, typename R::id_type>& sm, const text& in, const text& other, bool bol0, unsigned s0, const std::string& d)
{
    using idt = typename R::id_type;
    const auto begin = typename R::iter_type(in.begin());
    const auto end = typename R::iter_type(in.end());
    const std::size_t limit = in.size() * 2 + 4;
    const auto say = [&](const std::string& key, const std::string& what) { c.fail(key, "lexing " + d + " from state " + std::to_string(s0) + (bol0 ? "" : ", not at a line start") + ": " + what); };
    R r(begin, end, bol0, static_cast<idt>(s0));
    if (!(r.id == 0 && r.user_id == R::npos() && r.first == begin && r.second == begin && r.eoi == end && r.bol == bol0 && r.state == s0)) say("made", "a new object holds something else");
    std::vector<tok> all;
    {
        R x(begin, end, bol0, static_cast<idt>(s0));
        all = rest(c, sm, x, begin, limit);
        c.outcome(std::to_string(all.size()));
    }
    std::vector<tok> plain;     // the other text from the start
    const auto obegin = typename R::iter_type(other.begin());
    const auto oend = typename R::iter_type(other.end());
    {
        R x(obegin, oend);
        plain = rest(c, sm, x, obegin, limit);
    }
    for (std::size_t k = 0; ; ++k)
    {
        ++c.traces;
        const std::vector<tok> want(all.begin() + k, all.end());
        const fields<R> before(r);
        const auto at = " after " + std::to_string(k) + " calls";
        c.state(mc::hash(show(want).data(), show(want).size(), before.bol + 2 * before.state));
        const auto go = [&](R& x, const char* how)
        {
            const auto got = rest(c, sm, x, begin, want.size());
            if (!(got == want)) say("continued", std::string(how) + at + " gives " + show(got) + "instead of " + show(want));
            if (!(fields<R>(r) == before)) say("shared", std::string(how) + at + " changes the object it came from");
        };
        const bool threw = k && all[k - 1].thrown;
        if (!threw)
        {
            R copy(r);
            if (!(fields<R>(copy) == before) || !(copy == r) || !(r == copy)) say("equal", "a copy" + at + " is not equal");
            go(copy, "a copy");
            if (!(fields<R>(copy) == before) && copy == r) say("equal", "a copy that went on" + at + " still compares equal");
            R assigned(obegin, oend, !r.bol, 0);
            spoil(assigned);
            call(sm, assigned, obegin);
            assigned = r;
            go(assigned, "an assigned object");
            R moved(r), target;
            spoil(target);
            target = std::move(moved);
            go(target, "a moved object");
            R resumed(r.second, end, r.bol, r.state);
            give_stack(resumed, r);
            go(resumed, "a new object at the same place");
            // What was reported last does not matter.
            R odd(r);
            odd.id = static_cast<idt>(77); odd.user_id = 0; odd.first = begin;
            go(odd, "an object with another id, user id and start of the last token");
            if (!differs_in_stack(r)) say("equal", "objects with different stacks compare equal" + at);
            {
                R a(r), b(r), e(r), f(r), g(r);
                a.id = static_cast<idt>(r.id + 1); b.user_id = static_cast<idt>(r.user_id + 1); e.state = static_cast<idt>(r.state + 1); f.bol = !r.bol;
                if (a == r || b == r || e == r || f == r) say("equal", "different objects compare equal" + at);
                if (begin != end)
                {
                    for (int q = 0; q < 3; ++q)
                    {
                        g = r;
                        auto& p = q == 0 ? g.first : q == 1 ? g.second : g.eoi;
                        if (p == end) --p; else ++p;
                        if (g == r) say("equal", "objects at different places compare equal" + at);
                    }
                }
            }
        }
        {
            R x(r);
            x.reset(obegin, oend);
            if (!(x == R(obegin, oend)) || !(fields<R>(x) == fields<R>(R(obegin, oend)))) say("reset", "an object reset" + at + " differs from a new one");
            const auto got = rest(c, sm, x, obegin, limit);
            if (!(got == plain)) say("reset", "an object reset" + at + " to another text gives " + show(got) + "instead of " + show(plain));
            R y(r);
            y.clear();
            if (!(y == R(end, end)) || !(fields<R>(y) == fields<R>(R(end, end)))) say("clear", "an object cleared" + at + " differs from a new one at the end");
            const auto nothing = rest(c, sm, y, begin, 2);
            for (auto& t : nothing) if (t.thrown || t.id != 0 || t.a != end - begin || t.b != end - begin) say("clear", "an object cleared" + at + " reports " + show(nothing));
            y.reset(begin, end);
            y.bol = bol0; y.state = static_cast<idt>(s0);
            const auto again = rest(c, sm, y, begin, limit);
            if (!(again == all)) say("reset", "an object cleared and reset" + at + " gives " + show(again) + "instead of " + show(all));
        }
        if (want.empty()) break;
        const tok t = call(sm, r, begin);
        if (!(t == want[0])) { say("differs", "call " + std::to_string(k + 1) + " of two objects made alike: " + show({ t }) + "and " + show({ want[0] })); break; }
    }
}

// Every set of features that has those of the machine.
template<typename R>
static std::vector<tok> with(const lexertl::state_machine& sm, const std::string& in, bool bol0, unsigned s0, std::size_t flags)
{
    R r(in.data(), in.data() + in.size(), bol0, static_cast<std::uint16_t>(s0));
    std::vector<tok> v;
    for (int end = 0; v.size() < in.size() * 2 + 4 && end < 2; )
    {
        tok t = call(sm, r, in.data());
        if (!t.thrown && t.id == R::npos() && !(flags & ADVANCE))
        {
            // Without this feature the caller steps over what does not match.
            if (t.b != t.a) t.uid = 12345;
            ++r.second;
            ++t.b;
        }
        v.push_back(t);
        if (t.thrown) break;
        if (t.id == 0) ++end;
    }
    return v;
}
using run_t = std::vector<tok>(*)(const lexertl::state_machine&, const std::string&, bool, unsigned, std::size_t);
template<std::size_t F> struct shape
{
    using type = std::conditional_t<(F & RECURSIVE) != 0, lexertl::recursive_match_results<const char*, std::uint16_t, F>, lexertl::match_results<const char*, std::uint16_t, F>>;
};
template<std::size_t F> static run_t runner()
{
    // A stack is of no use in a single lexer state
    if constexpr ((F & RECURSIVE) != 0 && (F & MULTI) == 0) return nullptr;
    else return &with<typename shape<F>::type>;
}
template<std::size_t... F> static std::array<run_t, sizeof...(F)> table(std::index_sequence<F...>) { return { runner<F>()... }; }
static const auto RUN = table(std::make_index_sequence<128>());

template<typename R, typename text>
static void views(mc::ctx& c, const text& in, const std::string& d)
{
    using str = typename R::string;
    for (std::size_t a = 0; a <= in.size(); ++a) for (std::size_t b = a; b <= in.size(); ++b)
    {
        R r(in.begin(), in.end());
        r.first = typename R::iter_type(in.begin() + a);
        r.second = typename R::iter_type(in.begin() + b);
        const str want(in.begin() + a, in.begin() + b);
        ++c.transitions;
        if (r.str() != want || r.length() != b - a) c.fail("text", "str or length of " + d);
        for (std::size_t x = 0; x <= b - a; ++x) for (std::size_t y = 0; x + y <= b - a; ++y)
        {
            const str part = want.substr(x, b - a - x - y);
            if (r.substr(x, y) != part) c.fail("text", "substr of " + d);
            if constexpr (!std::is_same_v<text, std::deque<typename R::char_type>>)
                if (r.view() != want || r.subview(x, y) != part || r.view().data() != &*in.begin() + a || r.subview(x, y).data() != &*in.begin() + a + x) c.fail("text", "view or subview of " + d);
        }
    }
    ++c.traces;
}
template<typename ch> struct range
{
    const ch* b; std::size_t n;
    const ch* begin() const { return b; }
    const ch* end() const { return b + n; }
    std::size_t size() const { return n; }
};

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto inputs = mc::strings("ab\n", 0, T ? 5 : 4), shorter = mc::strings("ab\n", 0, T ? 4 : 3);
        sets::each(T ? 2 : 1, [&](const std::vector<rules>& st)
        {
            if (!c.next() || !sets::usable(st)) return;
            const std::string d = lc::show(st);
            c.describe(d);
            if (c.want_sample()) c.sample(d);
            lexertl::state_machine sm;
            lexertl::basic_state_machine<char16_t, std::uint32_t> w;
            {
                lexertl::rules r(FLAGS);
                lc::push(r, st);
                lexertl::generator::build(r, sm);
                lexertl::basic_rules<char16_t, char16_t, std::uint32_t> q(FLAGS);
                lc::push(q, st);
                lexertl::basic_generator<decltype(q), decltype(w)>::build(q, w);
            }
            const std::size_t have = sm.data()._features;
            // 1. Sets of features.
            for (auto& in : inputs) for (unsigned s0 = 0; s0 < st.size(); ++s0) for (int bol0 = 0; bol0 < 2; ++bol0)
            {
                const auto want = RUN[127](sm, in, bol0 != 0, s0, 127);
                ++c.traces;
                c.transitions += want.size();
                for (std::size_t f = 0; f < 127; ++f)
                {
                    if ((f & have & 63) != (have & 63) || !RUN[f]) continue;
                    if (!(f & MULTI) && s0) continue;
                    const auto got = RUN[f](sm, in, bol0 != 0, s0, f);
                    c.transitions += got.size();
                    if (!(got == want)) c.fail("features", "with features " + std::to_string(f) + " of " + std::to_string(have) + " on \"" + mc::esc(in) + "\" from state " + std::to_string(s0) + ": " + show(got) + "instead of " + show(want));
                }
            }
            // 2. Copying, resuming, resetting at every point.
            const bool stack = (have & RECURSIVE) != 0;
            const std::string other("ba\nab");
            const std::deque<char> dother(other.begin(), other.end());
            const auto wother = lc::widen<char16_t>(other);
            const range<char> pother{ other.data(), other.size() };
            for (auto& in : shorter) for (unsigned s0 = 0; s0 < st.size(); ++s0) for (int bol0 = 0; bol0 < 2; ++bol0)
            {
                const std::string e = "\"" + mc::esc(in) + "\"";
                const std::deque<char> din(in.begin(), in.end());
                const auto win = lc::widen<char16_t>(in);
                if (!stack)
                {
                    everywhere<lexertl::smatch>(c, sm, in, other, bol0 != 0, s0, e);
                    everywhere<lexertl::match_results<std::deque<char>::const_iterator>>(c, sm, din, dother, bol0 != 0, s0, e);
                    if (T) everywhere<lexertl::match_results<std::u16string::const_iterator, std::uint32_t>>(c, w, win, wother, bol0 != 0, s0, e);
                }
                everywhere<lexertl::crmatch>(c, sm, range<char>{ in.data(), in.size() }, pother, bol0 != 0, s0, e);
                if (T) everywhere<lexertl::srmatch>(c, sm, in, other, bol0 != 0, s0, e);
                everywhere<lexertl::recursive_match_results<std::u16string::const_iterator, std::uint32_t>>(c, w, win, wother, bol0 != 0, s0, e);
            }
        });
        // 3. The text of a token in each of its forms.
        for (std::size_t n = 0; n < (T ? 13u : 9u); ++n)
        {
            if (!c.next()) continue;
            std::string s;
            for (std::size_t i = 0; i < n; ++i) s += char('a' + i);
            const std::string d = "a token in \"" + s + "\"";
            c.describe(d);
            const auto w = lc::widen<wchar_t>(s);
            const auto u = lc::widen<char32_t>(s);
            const auto h = lc::widen<char16_t>(s);
            views<lexertl::smatch>(c, s, d);
            views<lexertl::srmatch>(c, s, d);
            views<lexertl::cmatch>(c, range<char>{ s.data(), n }, d);
            views<lexertl::crmatch>(c, range<char>{ s.data(), n }, d);
            views<lexertl::wsmatch>(c, w, d);
            views<lexertl::wcrmatch>(c, range<wchar_t>{ w.data(), n }, d);
            views<lexertl::u32smatch>(c, u, d);
            views<lexertl::u32cmatch>(c, range<char32_t>{ u.data(), n }, d);
            views<lexertl::match_results<const char16_t*>>(c, range<char16_t>{ h.data(), n }, d);
            views<lexertl::match_results<std::string::const_iterator, std::uint8_t>>(c, s, d);
            views<lexertl::match_results<std::vector<char>::const_iterator>>(c, std::vector<char>(s.begin(), s.end()), d);
            views<lexertl::match_results<std::deque<char>::const_iterator>>(c, std::deque<char>(s.begin(), s.end()), d);
        }
    });
}
