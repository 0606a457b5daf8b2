// P12: minimising never changes what a machine matches.
#include "machine.hpp"
#include "sets.hpp"
using namespace ref;

template<typename ch, typename M>
static bool same(const M& a, const M& b);
template<typename ch, typename idt>
static std::string dump(const lexertl::basic_state_machine<ch, idt>& m)
{
    std::ostringstream o;
    auto& d = m.data();
    o << d._eoi << ' ' << d._features << ' ' << d._dfa.size();
    for (auto& v : d._lookup) { for (auto x : v) o << ' ' << +x; o << '/'; }
    for (auto x : d._dfa_alphabet) o << ' ' << +x;
    for (auto& v : d._dfa) { for (auto x : v) o << ' ' << +x; o << '/'; }
    return o.str();
}

template<typename ch>
static void tables(mc::ctx& c, const std::vector<rules>& st, const std::vector<std::string>& inputs, const std::vector<std::uint32_t>& alphabet)
{
    using rules_t = lexertl::basic_rules<ch, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;
    rules_t r(+lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules);
    lc::push(r, st);
    sm_t sm;
    lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
    sm_t m = sm;
    m.minimise();
    const mac::table<ch, std::uint16_t> a(sm), b(m);
    const auto bad = mac::compare(c, a, b, alphabet, "the built machine", "the minimised machine");
    const std::string kind = sizeof(ch) == 1 ? "table" : sizeof(ch) == 2 ? "16-bit table" : "32-bit table";
    if (!bad.empty()) c.fail("differs", kind + ": " + bad);
    for (std::size_t d = 0; d < a.states(); ++d)
        if (b.rows(d) > a.rows(d)) c.fail("grew", kind + " has more rows after minimising");
    if (m.data()._features != sm.data()._features || m.data()._eoi != sm.data()._eoi) c.fail("features", kind + ": features changed");
    std::size_t less = 0;
    for (std::size_t d = 0; d < a.states(); ++d) less += a.rows(d) - b.rows(d);
    if (less) c.count("machines_that_shrank");
    c.outcome(kind + std::to_string(less));
    sm_t m2 = m;
    m2.minimise();
    if (dump(m2) != dump(m)) c.fail("twice", kind + ": minimising twice changes the machine again");
    // Runs of the minimised machine against the reference model.
    static const auto texts = mc::strings("ab\n", 1, 3);
    if (!inputs.empty()) for (auto& rs : st) if (clash(rs, texts)) return;
    for (auto& in : inputs)
    {
        const auto w = lc::widen<ch>(in);
        if (lc::recursive(st)) lc::run<lexertl::recursive_match_results<const ch*>>(c, m, st, in, w);
        else lc::run<lexertl::match_results<const ch*>>(c, m, st, in, w);
    }
}

template<typename ch>
static void chars(mc::ctx& c, const std::vector<rules>& st, const std::vector<std::uint32_t>& alphabet)
{
    using rules_t = lexertl::basic_rules<ch, ch>;
    using csm_t = lexertl::basic_char_state_machine<ch>;
    rules_t r(+lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules);
    lc::push(r, st);
    csm_t sm;
    lexertl::basic_generator<rules_t, csm_t>::build(r, sm);
    csm_t m = sm;
    m.minimise();
    const mac::chars<ch, std::uint16_t> a(sm), b(m);
    const std::string kind = sizeof(ch) == 1 ? "character machine" : "wide character machine";
    const auto bad = mac::compare(c, a, b, alphabet, "the built machine", "the minimised machine");
    if (!bad.empty()) c.fail("differs", kind + ": " + bad);
    for (std::size_t d = 0; d < a.states(); ++d)
        if (b.rows(d) > a.rows(d)) c.fail("grew", kind + " has more rows after minimising");
    csm_t m2 = m;
    m2.minimise();
    bool same = m2._sm_vector.size() == m._sm_vector.size();
    for (std::size_t d = 0; same && d < m._sm_vector.size(); ++d)
    {
        auto& x = m._sm_vector[d];
        auto& y = m2._sm_vector[d];
        same = x._bol_index == y._bol_index && x._states == y._states;
    }
    if (!same) c.fail("twice", kind + ": minimising twice changes the machine again");
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto inputs = mc::strings("ab\n", 0, T ? 5 : 4);
        const std::vector<std::uint32_t> wide{ 'a', 'b', 'c', '\r', '\n', 0, 0xff, 0x100, 0x0a0a, 0x0d0a, 0x6161, 0xffff };
        std::vector<std::uint32_t> wide32 = wide;
        wide32.insert(wide32.end(), { 0x10000, 0x10ffff, 0x6161, 0x616161 });
        const auto narrow = mac::bytes();
        sets::each(T ? 2 : 1, [&](const std::vector<rules>& st)
        {
            if (!sets::usable(st) || !c.next()) return;
            c.describe(lc::show(st));
            if (c.want_sample()) c.sample(lc::show(st) + "minimised in table and character form");
            tables<char>(c, st, inputs, narrow);
            tables<char16_t>(c, st, {}, wide);
            tables<char32_t>(c, st, {}, wide32);
            chars<char>(c, st, narrow);
            chars<char32_t>(c, st, wide32);
        });
        // Machines that differ only in one field of an end row, and machines that minimise in several passes.
        const std::vector<re> twins{ lit('a'), lit('b'), cat(lit('a'), lit('a')), cat(lit('b'), lit('a')), cat(lit('a'), cat(lit('b'), lit('a'))), cat(lit('b'), cat(lit('b'), lit('a'))) };
        for (auto& x : twins) for (auto& y : twins) for (int k = 0; k < 5 * 5 * 4 * 16; ++k)
        {
            if (x->text == y->text) continue;
            auto p = sets::mk(x, 1), q = sets::mk(y, 1);
            p = sets::act(p, 0, k % 5); q = sets::act(q, 0, k / 5 % 5);
            p.uid = k / 25 % 2 ? 4 : NPOS; q.id = k / 50 % 2 ? 2 : 1;
            const int f = k / 100;
            p.bol = f & 1; p.eol = f & 2; q.bol = f & 4; q.eol = f & 8;
            if (!T && f != 0 && f != 1 && f != 2 && f != 8 && f != 5 && f != 10) continue;
            const std::vector<rules> st{ { p, q }, { sets::act(sets::mk(lit('c'), 3), 1, 3) } };
            if (!c.next()) continue;
            c.describe(lc::show(st));
            tables<char>(c, st, inputs, narrow);
            tables<char16_t>(c, st, {}, wide);
            chars<char>(c, st, narrow);
        }
    });
}
