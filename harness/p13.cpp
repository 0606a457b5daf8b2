// P13: the character machine built from rules, the one converted from a table machine, and lookup agree.
#include "machine.hpp"
#include "sets.hpp"
#include <lexertl/sm_to_csm.hpp>
using namespace ref;

template<typename ch>
static std::vector<std::uint32_t> units(const std::string& s)
{
    std::vector<std::uint32_t> v;
    for (unsigned char x : s) v.push_back(x);
    return v;
}

template<typename ch>
static void one(mc::ctx& c, const lexertl::basic_rules<ch, ch>& r, std::size_t nstates, bool recursive, const std::function<std::string()>& text,
    const std::vector<std::string>& inputs, const std::vector<std::uint32_t>& alphabet)
{
    using rules_t = lexertl::basic_rules<ch, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;
    using csm_t = lexertl::basic_char_state_machine<ch>;
    sm_t sm;
    csm_t csm;
    lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
    lexertl::basic_generator<rules_t, csm_t>::build(r, csm);
    const mac::table<ch, std::uint16_t> a(sm);
    const mac::chars<ch, std::uint16_t> b(csm);
    const std::string kind = sizeof(ch) == 1 ? "8-bit" : sizeof(ch) == 2 ? "16-bit" : "32-bit";
    auto bad = mac::compare(c, a, b, alphabet, "the table machine", "the character machine built from the rules");
    if (!bad.empty()) c.fail("built", kind + ": " + bad);
    // Conversion is byte for byte.
    using csmb_t = lexertl::basic_char_state_machine<char>;
    csmb_t conv;
    lexertl::sm_to_csm(sm, conv);
    const mac::byte_table<ch, std::uint16_t> ab(sm);
    const mac::chars<char, std::uint16_t> d(conv);
    bad = mac::compare(c, ab, d, mac::bytes(), "the table machine", "the converted character machine", true);
    if (!bad.empty()) c.fail("converted", kind + ": " + bad);
    for (std::size_t i = 0; i < ab.states(); ++i)
        if (d.rows(i) != ab.rows(i)) c.fail("rows", kind + ": the converted machine has a different number of rows");
    // The character machines interpreted, beside real lookup with the table machine.
    for (auto& in : inputs)
    {
        const auto u = units<ch>(in);
        const auto w = lc::widen<ch>(in);
        auto go = [&](auto view, const char* what)
        {
            auto step = [&](state& s) { return mac::step(view, u, s); };
            if (recursive) lc::run_with<lexertl::recursive_match_results<const ch*>>(c, sm, nstates, step, text, in, w, true, 0, 1, what);
            else lc::run_with<lexertl::match_results<const ch*>>(c, sm, nstates, step, text, in, w, true, 0, 1, what);
        };
        go(b, "lookup against the interpreted character machine");
        if (sizeof(ch) == 1) go(d, "lookup against the interpreted converted machine");
    }
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto inputs = mc::strings("ab\n", 0, T ? 5 : 4), crs = mc::strings("a\r\n", 0, 4);
        const std::vector<std::uint32_t> wide{ 'a', 'b', 'c', '\r', '\n', 0, 0xff, 0x100, 0x0a0a, 0x0d0a, 0x6161, 0xffff };
        std::vector<std::uint32_t> wide32 = wide;
        wide32.insert(wide32.end(), { 0x10000, 0x10ffff });
        const auto narrow = mac::bytes();
        sets::each(T ? 2 : 1, [&](const std::vector<rules>& st)
        {
            if (!sets::usable(st) || !c.next()) return;
            c.describe(lc::show(st));
            if (c.want_sample()) c.sample(lc::show(st) + "as table machine, built and converted character machine");
            const bool rec = lc::recursive(st);
            const auto text = [&]() { return lc::show(st); };
            auto flags = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;
            bool dollar = false;
            for (auto& s : st) for (auto& r : s) dollar = dollar || r.eol;
            lexertl::rules r(flags);
            lc::push(r, st);
            one<char>(c, r, st.size(), rec, text, dollar ? crs : inputs, narrow);
            if (!dollar)      // $ against an explicit newline is settled differently in wide table machines
            {
                lexertl::basic_rules<char16_t, char16_t> r16(flags);
                lc::push(r16, st);
                one<char16_t>(c, r16, st.size(), rec, text, {}, wide);
            }
            else
            {
                bool tie = false;
                static const auto texts = mc::strings("ab\n", 1, 3);
                for (auto& s : st) tie = tie || clash(s, texts);
                if (tie) return;
            }
            lexertl::u32rules r32(flags);
            lc::push(r32, st);
            one<char32_t>(c, r32, st.size(), rec, text, { "", "ab", "a\n", "\nab", "b\r\na" }, wide32);
        });
        // Wide sets with ends at and around byte boundaries: every pair of ranges.
        const std::vector<std::pair<std::uint32_t, std::uint32_t>> ranges{ { 0, 0 }, { 0x41, 0x5a }, { 0xff, 0xff }, { 0xff, 0x100 }, { 0x100, 0x1ff }, { 0xfe, 0x201 }, { 0x1234, 0x5678 }, { 0xffff, 0xffff },
            { 0, 0xffff }, { 0x10000, 0x10000 }, { 0xffff, 0x10000 }, { 0x1ffff, 0x20001 }, { 0xff00, 0x200ff }, { 0x100, 0x10ffff }, { 0x10fffe, 0x10ffff } };
        auto text = [](std::pair<std::uint32_t, std::uint32_t> p) { char b[40]; std::snprintf(b, sizeof b, "[\\x%x-\\x%x]", p.first, p.second); return std::string(b); };
        for (auto& p : ranges) for (auto& q : ranges) for (int k = 0; k < 4; ++k)
        {
            const bool w16 = p.second <= 0xffff && q.second <= 0xffff;
            if (!c.next()) continue;
            const std::string t1 = text(p) + (k & 1 ? "+" : ""), t2 = (k & 2 ? "a" : "") + text(q) + "b";
            c.describe("\"" + t1 + "\" id=1; \"" + t2 + "\" id=2;");
            std::vector<std::uint32_t> al{ 'a', 'b' };
            for (auto v : { p.first, p.second, q.first, q.second }) for (int x = -1; x < 2; ++x) if (static_cast<long>(v) + x >= 0 && v + x <= (w16 ? 0xffffu : 0x10ffffu)) al.push_back(v + x);
            for (auto v : { 0x101u, 0x5600u, 0x5679u, 0xfffeu }) al.push_back(v);
            if (!w16) for (auto v : { 0x101u, 0x1fffeu, 0x2ffffu, 0x100000u, 0x10ff00u }) al.push_back(v);
            const auto flags = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;
            const auto say = [&]() { return t1 + " " + t2; };
            lexertl::u32rules r32(flags);
            r32.push(lc::widen<char32_t>(t1), 1); r32.push(lc::widen<char32_t>(t2), 2);
            one<char32_t>(c, r32, 1, false, say, {}, al);
            ++c.traces;
            if (w16)
            {
                lexertl::basic_rules<char16_t, char16_t> r16(flags);
                r16.push(lc::widen<char16_t>(t1), 1); r16.push(lc::widen<char16_t>(t2), 2);
                one<char16_t>(c, r16, 1, false, say, {}, al);
            }
        }
    });
}
