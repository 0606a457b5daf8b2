// P16: the same rules built for 8-, 16- and 32-bit characters: all reachable pairs of rows compared over the shared characters.
#include "machine.hpp"
#include "sets.hpp"
#include "forms.hpp"
using namespace ref;

// Set for rule sets in which a $ rule may tie with its text plus exactly its line break.
static std::function<bool()> tie;

template<typename rules_t, typename sm_t, typename push>
static std::string build(push p, sm_t& sm, std::size_t flags)
{
    rules_t r(flags);
    try { p(r); lexertl::basic_generator<rules_t, sm_t>::build(r, sm); return std::string(); }
    catch (const lexertl::runtime_error& e) { return std::string(e.what()) + "."; }
}

template<typename ch, typename rch, typename push>
static void against(mc::ctx& c, const lexertl::state_machine& n, const std::string& err, push p, std::size_t flags, const std::vector<std::uint32_t>& alphabet, lexertl::basic_state_machine<ch>& w)
{
    static const std::string name = std::to_string(sizeof(ch) * 8) + "-bit machine" + (sizeof(rch) > 1 ? " from wide rules" : "");
    const std::string e = build<lexertl::basic_rules<rch, ch>>(p, w, flags);
    ++c.traces;
    ++c.transitions;
    if (!err.empty() && e.empty() && w.data()._dfa.size() == 1)
    {
        // A set without any of the shared characters is empty for one width only.
        const mac::table<ch, std::uint16_t> v(w);
        bool none = true;
        for (auto i : alphabet) if (v.step(0, v.start(0), i) != mac::DEAD) none = false;
        if (none) { c.outcome("empty"); return; }
    }
    if (e.empty() != err.empty()) return c.fail("verdict", "the narrow machine: " + (err.empty() ? "built" : err) + ", the " + name + ": " + (e.empty() ? "built" : e));
    if (!e.empty()) { c.outcome("rejected"); return; }
    const mac::table<char, std::uint16_t> a(n);
    const mac::table<ch, std::uint16_t> b(w);
    const std::string bad = mac::compare(c, a, b, alphabet, "the narrow machine", name.c_str());
    if (!bad.empty() && tie && tie()) { c.count("left open: line break tie"); return; }
    if (!bad.empty()) c.fail("differs", bad);
    if (n.data()._features != w.data()._features) c.fail("features", "the features of the " + name + " differ");
    c.outcome(std::to_string(a.rows(0)) + "," + std::to_string(b.rows(0)));
}

template<typename push>
static void all(mc::ctx& c, push p, std::size_t flags, const std::vector<std::uint32_t>& alphabet, bool wide_rules, lexertl::state_machine& n, lexertl::basic_state_machine<char16_t>& s, lexertl::basic_state_machine<char32_t>& t)
{
    const std::string err = build<lexertl::rules>(p, n, flags);
    against<char16_t, char>(c, n, err, p, flags, alphabet, s);
    against<char32_t, char>(c, n, err, p, flags, alphabet, t);
    if (!wide_rules) return;
    lexertl::basic_state_machine<wchar_t> u;
    lexertl::basic_state_machine<char16_t> s2;
    lexertl::basic_state_machine<char32_t> t2;
    against<wchar_t, char>(c, n, err, p, flags, alphabet, u);
    against<wchar_t, wchar_t>(c, n, err, p, flags, alphabet, u);
    against<char16_t, char16_t>(c, n, err, p, flags, alphabet, s2);
    against<char32_t, char32_t>(c, n, err, p, flags, alphabet, t2);
}

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;

static void set(mc::ctx& c, const std::vector<rules>& st, const std::vector<std::string>& inputs, bool wide_rules)
{
    const std::string d = lc::show(st);
    c.describe(d);
    if (c.want_sample()) c.sample(d);
    lexertl::state_machine n;
    lexertl::basic_state_machine<char16_t> s;
    lexertl::basic_state_machine<char32_t> t;
    static const auto bytes = mac::bytes();
    tie = [&] { static const auto longer = []
        {
            // All short texts, and the repetitions that nested repeats match.
            auto v = mc::strings("ab\n", 0, 7);
            for (auto& w : mc::strings("ab\n", 1, 3)) for (auto& u : mc::strings("ab\n", 0, 1))
                for (std::string x = u + w; x.size() <= 30; x += w) if (x.size() > 7) v.push_back(x);
            return v;
        }(); for (auto& x : st) if (clash(x, longer)) return true; return false; };
    all(c, [&](auto& r) { lc::push(r, st); }, FLAGS, bytes, wide_rules, n, s, t);
    tie = nullptr;
    bool dollar = false;
    for (auto& x : st) { if (any_nullable(x)) return; if (clash(x, inputs)) dollar = true; }
    if (dollar) return;
    for (auto& in : inputs) for (unsigned s0 = 0; s0 < st.size(); ++s0)
    {
        lc::run<lexertl::recursive_match_results<const char16_t*>>(c, s, st, in, lc::widen<char16_t>(in), true, s0, 1, false, "16-bit lookup");
        lc::run<lexertl::recursive_match_results<const char32_t*>>(c, t, st, in, lc::widen<char32_t>(in), true, s0, 1, false, "32-bit lookup");
    }
}

// Rules given as texts.
static void texts(mc::ctx& c, const std::vector<std::string>& ts, std::size_t flags, bool ascii, bool wide_rules)
{
    std::string d;
    for (auto& t : ts) d += "\"" + mc::esc(t) + "\" ";
    d += "flags " + std::to_string(flags);
    c.describe(d);
    if (c.want_sample()) c.sample(d);
    lexertl::state_machine n;
    lexertl::basic_state_machine<char16_t> s;
    lexertl::basic_state_machine<char32_t> t;
    std::vector<std::uint32_t> alphabet;
    for (unsigned i = 0; i < (ascii ? 128u : 256u); ++i) alphabet.push_back(i);
    all(c, [&](auto& r)
    {
        using ch = typename std::remove_reference_t<decltype(r)>::rules_char_type;
        using idt = typename std::remove_reference_t<decltype(r)>::id_type;
        idt id = 1;
        for (auto& x : ts) r.push(lc::widen<ch>(x), id++);
    }, flags, alphabet, wide_rules, n, s, t);
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        // 1. The catalogue of rule sets.
        const auto in = mc::strings("ab\n", 0, T ? 4 : 3);
        sets::each(T ? 2 : 1, [&](const std::vector<rules>& st)
        {
            if (c.next() && sets::usable(st)) set(c, st, in, T);
        });
        // 2. Every spelling of a single-character regex, alone, repeated, followed by another, with and without case.
        const std::size_t I = +lexertl::regex_flags::icase;
        const auto one = [&](const std::string& t, bool ascii, bool list)
        {
            for (std::size_t f : { FLAGS, FLAGS | I })
            {
                // Under case folding characters of Latin-1 are only related in wide machines.
                const bool only = ascii || (f & I);
                if (!c.next()) continue;
                texts(c, { t }, f, only, true);
                texts(c, { t + "+", t + "[b]" }, f, only, false);
                if (!list) texts(c, { "[" + t + "]", "[^" + t + "]" }, f, only, false);
            }
        };
        for (unsigned x = 0; x < 128; ++x) if (!forms::raw(x).empty()) one(forms::raw(x), false, true);
        // A character beyond ASCII stands for itself, however wide the machine is.
        for (unsigned x = 128; x < 256; ++x)
        {
            const std::string r(1, static_cast<char>(x));
            one(r, false, false);
            for (auto& t : { "\"" + r + "\"", "\"a" + r + "\"", "\\" + r, "[\\" + r + "]", "[^" + r + "]", "[" + r + "b]", "[\\0-" + r + "]", "[" + r + "-\\377]", "[ab]{-}[" + r + "b]", "(?# " + r + ")a" }) one(t, false, true);
            for (unsigned y = x; y < 256; y += T ? 1 : 9) one("[" + r + "-" + static_cast<char>(y) + "]", false, true);
        }
        for (auto& f : forms::escapes(T)) if (f.valid) one(f.text, false, false);
        for (auto& f : forms::shortcuts()) one(f.text, true, false);
        std::vector<std::string> items{ "a", "A", "-", "a-f", "X-c", "\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "\\n", "\\200-\\377", "\\0-\\177", "k-s" };
        for (auto& f : forms::posix()) items.push_back(f.text);
        for (auto& x : items) for (auto& neg : { "", "^" })
        {
            one("[" + std::string(neg) + x + "]", true, true);
            for (auto& y : items) { if (!T && x > y) continue; one("[" + std::string(neg) + x + y + "]", true, true); one("[" + x + "]{-}[" + neg + y + "]", true, true); one("[" + x + "]{+}[" + neg + y + "]", true, true); }
        }
        for (unsigned x = 0; x < 256; x += T ? 1 : 3) for (unsigned y = x; y < 256; y += T ? 1 : 5)
        {
            char t[40];
            std::snprintf(t, sizeof t, "[\\x%x-\\x%x]", x, y);
            one(t, false, true);
        }
        for (std::size_t f = 0; f < 64; f += 1) for (auto& t : { ".", "[^a]", "a b", "\"a b\"", "(?s:.)", "(?-s:.)", "(?i:a).", "a#b" })
        {
            // The newline options and white space mode.
            const std::size_t used = f & (+lexertl::regex_flags::icase | +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::dot_not_cr_lf | +lexertl::regex_flags::skip_ws);
            if (used == f && c.next()) texts(c, { t }, f | +lexertl::regex_flags::allow_suppressed_rules, true, true);
        }
        // 3. Non-greedy rules, anchors and macros.
        const auto a = lit('a'), b = lit('b');
        for (auto& o : { "*?", "+?", "??", "{1,2}?", "{2,}?" }) for (auto& m : { "a", "[ab]", ".", "(?s:.)", "[^b]", "(ab)" }) for (auto& p : { "", "a", "^", "^b" }) for (auto& q : { "b", "ab", "[^a]", "\\n" }) for (auto& z : { "", "$" }) for (auto& g : { "", "a+", "[^c]+", "^b", "\\n+" })
        {
            if (*z && g == std::string("\\n+")) continue;      // a tie with the line break
            if (!c.next()) continue;
            std::vector<std::string> v{ std::string(p) + m + o + q + z };
            if (*g) v.push_back(g);
            texts(c, v, FLAGS, false, false);
            if (*g) { std::swap(v[0], v[1]); texts(c, v, FLAGS, false, false); }
        }
    });
}
