// P14: save and load round trip; data for another character or id width is refused.
#include "machine.hpp"
#include "sets.hpp"
#include <lexertl/serialise.hpp>
#include <cwchar>
using namespace ref;

template<typename ch, typename idt>
static std::string dump(const lexertl::basic_state_machine<ch, idt>& m)
{
    std::ostringstream o;
    auto& d = m.data();
    o << +d._eoi << ' ' << +d._features << ' ' << d._lookup.size() << ' ' << d._dfa_alphabet.size() << ' ' << d._dfa.size();
    for (auto& v : d._lookup) { for (auto x : v) o << ' ' << +x; o << '/'; }
    for (auto x : d._dfa_alphabet) o << ' ' << +x;
    for (auto& v : d._dfa) { for (auto x : v) o << ' ' << +x; o << '/'; }
    return o.str();
}

template<typename ch, typename idt>
static lexertl::basic_state_machine<ch, idt> make(const std::vector<rules>& st)
{
    using rules_t = lexertl::basic_rules<ch, ch, idt>;
    using sm_t = lexertl::basic_state_machine<ch, idt>;
    rules_t r(+lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules);
    lc::push(r, st);
    sm_t sm;
    lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
    return sm;
}

template<typename ch, typename idt, typename stream_ch>
static void trip(mc::ctx& c, const lexertl::basic_state_machine<ch, idt>& sm, const std::vector<rules>& st,
    const std::vector<std::string>& inputs, const std::vector<std::uint32_t>& alphabet, int state)
{
    using sm_t = lexertl::basic_state_machine<ch, idt>;
    const std::string kind = std::to_string(sizeof(ch) * 8) + "-bit characters, " + std::to_string(sizeof(idt) * 8) + "-bit ids" + (sizeof(stream_ch) > 1 ? ", wide stream" : "");
    std::basic_stringstream<stream_ch> s;
    lexertl::save(sm, s);
    const auto text = s.str();
    sm_t l;
    if (state == 1) l = make<ch, idt>({ { sets::mk(lit('z'), 9) }, { sets::mk(lit('y'), 8) } });   // loading over another machine
    std::string err;
    try { lexertl::load(s, l); } catch (const lexertl::runtime_error& e) { err = e.what(); }
    ++c.transitions;
    if (!err.empty()) c.fail("refused", kind + ": loading what was saved is refused: " + err);
    const std::string x = dump(sm), y = dump(l);
    if (x != y) c.fail("differs", kind + ": the loaded machine differs from the saved one\n saved  " + x.substr(0, 300) + "\n loaded " + y.substr(0, 300));
    const mac::table<ch, idt> a(sm), b(l);
    const auto bad = mac::compare(c, a, b, alphabet, "the saved machine", "the loaded machine");
    if (!bad.empty()) c.fail("behaves", kind + ": " + bad);
    std::basic_stringstream<stream_ch> s2;
    lexertl::save(l, s2);
    ++c.transitions;
    if (s2.str() != text) c.fail("text", kind + ": saving the loaded machine gives a different text");
    for (auto& in : inputs)
    {
        const auto w = lc::widen<ch>(in);
        if (lc::recursive(st)) lc::run<lexertl::recursive_match_results<const ch*, idt>>(c, l, st, in, w);
        else lc::run<lexertl::match_results<const ch*, idt>>(c, l, st, in, w);
    }
    ++c.traces;
    // Two machines one after the other in one stream.
    std::basic_stringstream<stream_ch> s3;
    lexertl::save(sm, s3);
    lexertl::save(sm, s3);
    sm_t m1, m2;
    lexertl::load(s3, m1);
    lexertl::load(s3, m2);
    if (dump(m1) != x || dump(m2) != x) c.fail("sequence", kind + ": two machines saved to one stream do not load back");
}

// The saved text is made of numbers at most 80 characters to a line, whatever the values.
template<typename idt>
static void raw(mc::ctx& c, const std::vector<unsigned long long>& values)
{
    lexertl::basic_state_machine<char, idt> sm, l;
    auto& d = sm.data();
    d._eoi = static_cast<idt>(values[0]);
    d._features = static_cast<idt>(values[1]);
    d._lookup.push_back({});
    for (std::size_t i = 0; i < 256; ++i) d._lookup[0].push_back(static_cast<idt>(values[i % values.size()]));
    d._dfa_alphabet.push_back(static_cast<idt>(values.size()));
    d._dfa.push_back({});
    for (std::size_t i = 0; i < values.size() * 3; ++i) d._dfa[0].push_back(static_cast<idt>(values[(i * 7 + i / 3) % values.size()]));
    std::stringstream s;
    lexertl::save(sm, s);
    lexertl::load(s, l);
    ++c.transitions; ++c.traces;
    c.state(mc::hash(s.str().data(), s.str().size()));
    if (dump(sm) != dump(l)) c.fail("values", std::to_string(sizeof(idt) * 8) + "-bit ids: values do not survive saving and loading");
}

template<typename A, typename I, typename B, typename J>
static void foreign(mc::ctx& c)
{
    if (!c.next()) return;
    c.describe("saving a machine of " + std::to_string(sizeof(A)) + "-byte characters and " + std::to_string(sizeof(I)) + "-byte ids, loading it as " + std::to_string(sizeof(B)) + "/" + std::to_string(sizeof(J)));
    ++c.traces; ++c.transitions; c.state(c.traces);
    auto sm = make<A, I>({ { sets::mk(lit('a'), 1) }, { sets::mk(lit('b'), 2) } });
    std::stringstream s;
    lexertl::save(sm, s);
    lexertl::basic_state_machine<B, J> l;
    bool threw = false;
    try { lexertl::load(s, l); } catch (const lexertl::runtime_error&) { threw = true; }
    const bool same = sizeof(A) == sizeof(B) && sizeof(I) == sizeof(J);
    if (threw == same) c.fail("foreign", same ? "data of the same widths is refused" : "data of other widths is loaded");
}
template<typename A, typename I, typename B>
static void foreign1(mc::ctx& c) { foreign<A, I, B, std::uint8_t>(c); foreign<A, I, B, std::uint16_t>(c); foreign<A, I, B, std::uint32_t>(c); foreign<A, I, B, std::uint64_t>(c); }
template<typename A, typename I>
static void foreign2(mc::ctx& c) { foreign1<A, I, char>(c); foreign1<A, I, char16_t>(c); foreign1<A, I, char32_t>(c); }
template<typename A>
static void foreign3(mc::ctx& c) { foreign2<A, std::uint8_t>(c); foreign2<A, std::uint16_t>(c); foreign2<A, std::uint32_t>(c); foreign2<A, std::uint64_t>(c); }

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto inputs = mc::strings("ab\n", 0, T ? 4 : 3);
        const std::vector<std::uint32_t> wide{ 'a', 'b', '\r', '\n', 0, 0x100, 0x0a0a, 0xffff };
        const auto narrow = mac::bytes();
        foreign3<char>(c); foreign3<char16_t>(c); foreign3<char32_t>(c);
        sets::each(T ? 1 : 0, [&](const std::vector<rules>& st)
        {
            if (!sets::usable(st)) return;
            static const auto texts = mc::strings("ab\n", 1, 3);
            for (auto& s : st) if (clash(s, texts)) return;
            if (!c.next()) return;
            c.describe(lc::show(st));
            if (c.want_sample()) c.sample(lc::show(st) + "saved and loaded for every character and id width");
            trip<char, std::uint16_t, char>(c, make<char, std::uint16_t>(st), st, inputs, narrow, 0);
            trip<char, std::uint8_t, char>(c, make<char, std::uint8_t>(st), st, inputs, narrow, 0);
            trip<char, std::uint32_t, char>(c, make<char, std::uint32_t>(st), st, { "ab\n" }, { 'a', 'b', '\n' }, 1);
            trip<char, std::uint64_t, char>(c, make<char, std::uint64_t>(st), st, { "ab\n" }, { 'a', 'b', '\n' }, 0);
            trip<wchar_t, std::uint16_t, wchar_t>(c, make<wchar_t, std::uint16_t>(st), st, { "ab\n" }, wide, 1);
            trip<wchar_t, std::uint8_t, wchar_t>(c, make<wchar_t, std::uint8_t>(st), st, { "ab\n" }, wide, 0);
            trip<char16_t, std::uint16_t, char>(c, make<char16_t, std::uint16_t>(st), st, { "ab\n" }, wide, 0);
            trip<char32_t, std::uint16_t, char>(c, make<char32_t, std::uint16_t>(st), st, { "ab\n" }, wide, 0);
            trip<char32_t, std::uint64_t, char>(c, make<char32_t, std::uint64_t>(st), st, {}, wide, 0);
            auto m = make<char, std::uint16_t>(st);
            m.minimise();
            trip<char, std::uint16_t, char>(c, m, st, { "ab\n" }, { 'a', 'b', '\n' }, 0);
        });
        // Every value of each digit count in each position of a line.
        const unsigned long long edge[] = { 0, 1, 9, 10, 32, 48, 99, 100, 127, 128, 254, 255, 256, 999, 65534, 65535, 65536, 99999, 4294967294ull, 4294967295ull, 4294967296ull, 18446744073709551614ull, 18446744073709551615ull };
        for (auto x : edge) for (auto y : edge) for (std::size_t n = 2; n < (T ? 90u : 45u); ++n)
        {
            if (!c.next()) continue;
            c.describe("raw tables of " + std::to_string(n) + " columns with values " + std::to_string(x) + " and " + std::to_string(y));
            std::vector<unsigned long long> v;
            for (std::size_t i = 0; i < n; ++i) v.push_back(i % 2 ? y : x);
            raw<std::uint8_t>(c, v); raw<std::uint16_t>(c, v); raw<std::uint32_t>(c, v); raw<std::uint64_t>(c, v);
        }
    });
}
