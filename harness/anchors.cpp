// P06 (-DPROP=6): ^ rules.   P07 (-DPROP=7): $ rules.
#include "lexcmp.hpp"
#include "gen.hpp"
using namespace ref;

static const std::string BREAKS = "\r\n";

template<typename ch>
static void one(mc::ctx& c, const std::vector<std::string>& inputs, const std::vector<rules>& st, const std::vector<std::string>& texts)
{
    for (auto& rs : st)
    {
        for (auto& r : rs) if (nullable(*r.r)) return;
        if (clash(rs, texts)) return;
    }
    if (!c.next()) return;
    c.describe(std::string(sizeof(ch) == 1 ? "8" : sizeof(ch) == 2 ? "16" : "32") + "-bit rules " + lc::show(st));
    if (c.want_sample()) c.sample(lc::show(st) + "on all " + std::to_string(inputs.size()) + " inputs");
    using rules_t = lexertl::basic_rules<ch, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;
    rules_t r(+lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules);
    lc::push(r, st);
    sm_t sm;
    lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
    for (auto& in : inputs)
    {
        const auto w = lc::widen<ch>(in);
        for (int bol = 1; bol >= (PROP == 6 ? 0 : 1); --bol)
            lc::run<lexertl::match_results<const ch*>>(c, sm, st, in, w, bol != 0);
    }
}

// The wide characters that stand for the marks \x80 to \x87 in rules and inputs. The bytes of
// the first three are only those of CR and LF; of the rest, some byte is, or is in part.
template<typename ch>
static ch mark(const ch x)
{
    static const char32_t m16[] = { 0x0d0a, 0x0a0a, 0x0a0d, 0x010a, 0x010d, 0x0a01, 0x8a, 0x8d };
    static const char32_t m32[] = { 0x0d0a, 0x0a0a, 0x0a0d, 0x1000a, 0x1000d, 0xa0000, 0xd0a0d, 0x8a };
    return x >= 0x80 && x <= 0x87 ? static_cast<ch>((sizeof(ch) == 2 ? m16 : m32)[x - 0x80]) : x;
}

template<typename ch>
static void wide8(mc::ctx& c, const std::vector<std::string>& inputs, const std::vector<rules>& st)
{
    using rules_t = lexertl::basic_rules<ch, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;
    rules_t r(+lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules);
    lc::push(r, st);
    sm_t sm;
    lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
    for (auto& in : inputs)
    {
        auto w = lc::widen<ch>(in);
        for (auto& x : w) x = mark<ch>(x);
        for (int bol = 1; bol >= (PROP == 6 ? 0 : 1); --bol)
            lc::run<lexertl::match_results<const ch*>>(c, sm, st, in, w, bol != 0);
    }
}

static rule mk(const re& r, unsigned id, bool bol, bool eol)
{
    rule x; x.r = r; x.id = id; x.bol = bol; x.eol = eol; return x;
}

// The tie between x$ and x followed by exactly a line break is settled by rule order.
static void tie(mc::ctx& c, const std::string& x, const std::string& br, bool dollar_first, bool suppress)
{
    if (!c.next()) return;
    c.describe("tie of " + x + "$ and " + mc::esc(x + br) + (dollar_first ? ", $ first" : ", $ second"));
    lexertl::rules r(+lexertl::regex_flags::dot_not_newline | (suppress ? +lexertl::regex_flags::allow_suppressed_rules : 0));
    if (dollar_first) r.push(x + "$", 1);
    r.push(x + br, 2);
    if (!dollar_first) r.push(x + "$", 1);
    lexertl::state_machine sm;
    bool threw = false;
    try { lexertl::generator::build(r, sm); } catch (const lexertl::runtime_error&) { threw = true; }
    ++c.traces; ++c.transitions; c.state(c.traces);
    if (threw)
    {
        if (suppress) c.fail("tie", "build refused although suppressed rules are allowed");
        return;
    }
    if (!suppress) { c.fail("tie", "the rule that can never win was not reported"); return; }
    const std::string in = x + br;
    lexertl::cmatch m(in.data(), in.data() + in.size());
    lexertl::lookup(sm, m);
    const unsigned want = dollar_first ? 1 : 2;
    const std::size_t len = dollar_first ? x.size() : in.size();
    if (m.id != want || m.length() != len)
        c.fail("tie", "on \"" + mc::esc(in) + "\" got id " + std::to_string(m.id) + " length " + std::to_string(m.length()) + ", expected id " + std::to_string(want) + " length " + std::to_string(len));
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto texts = mc::strings(PROP == 6 ? "ab\n" : "ab\r\n", 1, 3);
        const auto in = mc::strings(PROP == 6 ? "ab\n" : "ab\r\n", 0, PROP == 6 ? (T ? 7 : 6) : (T ? 6 : 5));
        const auto in4 = mc::strings(PROP == 6 ? "ab\n" : "ab\r\n", 0, PROP == 6 ? 5 : 4);
        const auto nl = lit('\n', "\\n"), a = lit('a'), b = lit('b'), ab = cls("[ab]", chars("ab"));
        const auto an = cls("[a\\n]", chars("a\n")), any = cls("(?s:.)", gen::all()), dot = cls(".", gen::dot()), na = cls("[^a]", ~chars("a"));
        const auto cr = lit('\r', "\\r"), crnl = cls("[\\r\\n]", chars("\r\n"));
        std::vector<re> atoms;
        if (PROP == 6) atoms = { a, b, nl, an, any }; else atoms = { a, b, ab, nl, cr, dot };
        const std::vector<gen::op> ops{ gen::PLUS, gen::STAR };
        const auto pool = gen::solid(gen::flat(gen::levels(atoms, ops, 3)));
        const auto tiny = gen::solid(gen::flat(gen::levels(PROP == 6 ? std::vector<re>{ a, nl, any } : std::vector<re>{ a, ab, nl }, { gen::PLUS }, 3)));
        auto anch = [](int k) { return k; };
        (void)anch;
        const int FL = PROP == 6 ? 1 : 2;               // the anchor this property is about
        auto has = [&](int f) { return (f & FL) != 0; };
        // 1. one rule, every anchor combination
        for (auto& r : pool) for (int f = 0; f < 4; ++f) if (has(f)) one<char>(c, in, { { mk(r, 1, f & 1, f & 2) } }, texts);
        // 2. two rules, every anchor combination (at least one of this property's anchor)
        for (auto& r : pool) for (auto& s : (T ? pool : tiny))
            for (int f = 0; f < 4; ++f) for (int g = 0; g < 4; ++g)
                if (has(f | g))
                {
                    one<char>(c, in4, { { mk(r, 1, f & 1, f & 2), mk(s, 2, g & 1, g & 2) } }, texts);
                    if (!T) one<char>(c, in4, { { mk(s, 2, g & 1, g & 2), mk(r, 1, f & 1, f & 2) } }, texts);
                }
        // 3. three rules
        std::vector<re> t3 = PROP == 6 ? std::vector<re>{ a, rep(a, 1, -1, "+"), nl, cat(a, nl), rep(any, 1, -1, "+"), cat(a, b) } :
            std::vector<re>{ a, rep(ab, 1, -1, "+"), nl, cat(a, cat(nl, b)), cat(a, b), crnl, cat(cr, nl), cat(b, rep(crnl, 1, -1, "+")) };
        for (auto& r : t3) for (auto& s : t3) for (auto& t : t3)
            for (int f = 0; f < 64; ++f)
                if (has(f | f >> 2 | f >> 4))
                    one<char>(c, in4, { { mk(r, 1, f & 1, f & 2), mk(s, 2, f & 4, f & 8), mk(t, 3, f & 16, f & 32) } }, texts);
        // 4. with a skip rule, and two lexer states of which one or both use the anchor
        for (auto& r : tiny) for (auto& s : tiny) for (int f = 0; f < 4; ++f) for (int g = 0; g < 4; ++g)
        {
            if (!has(f | g)) continue;
            auto x = mk(r, 1, f & 1, f & 2), y = mk(s, 2, g & 1, g & 2), z = mk(nl, SKIP, false, false), w = mk(b, SKIP, false, false);
            one<char>(c, in4, { { x, y, z, w } }, texts);
            auto k = mk(s, SKIP, g & 1, g & 2);
            one<char>(c, in4, { { x, k } }, texts);
            auto sw = mk(b, 5, false, false), back = mk(b, 6, false, false);
            sw.next = 1; back.next = 0;
            rule y1 = y; y1.next = 1;
            rule z1 = mk(nl, 7, false, false); z1.next = 1;
            one<char>(c, in4, { { x, sw, mk(nl, 4, false, false) }, { y1, back, z1 } }, texts);
        }
        // 5. the same in wide machines
        for (auto& r : pool) for (int f = 0; f < 4; ++f) if (has(f))
        {
            one<char16_t>(c, in4, { { mk(r, 1, f & 1, f & 2) } }, texts);
            one<char32_t>(c, in4, { { mk(r, 1, f & 1, f & 2) } }, texts);
            for (auto& s : (T ? pool : t3)) for (int g = 0; g < 4; ++g)
            {
                one<char16_t>(c, in4, { { mk(r, 1, f & 1, f & 2), mk(s, 2, g & 1, g & 2) } }, texts);
                one<char32_t>(c, in4, { { mk(s, 2, g & 1, g & 2), mk(r, 1, f & 1, f & 2) } }, texts);
            }
        }
        if (PROP == 7)
            for (auto& x : { "a", "ab", "b" }) for (auto& br : { "\n", "\r\n" }) for (int f = 0; f < 4; ++f) tie(c, x, br, f & 1, f & 2);
        // 6. ungrouped alternatives: ^ belongs to the first, $ to the last
        for (auto& r : tiny) for (auto& s : tiny) for (auto& t : t3) for (int g = 0; g < 4; ++g)
        {
            auto x = mk(r, 1, PROP == 6, false), y = mk(s, 1, false, PROP == 7), z = mk(t, 2, g & 1, g & 2);
            const rules model{ x, y, z };
            if (clash(model, texts)) continue;
            if (!c.next()) continue;
            const std::string text = (PROP == 6 ? "^" : "") + r->text + "|" + s->text + (PROP == 7 ? "$" : "");
            if (r->prec < 1 || s->prec < 1) continue;
            c.describe("rules \"" + mc::esc(text) + "\" id=1; " + lc::show({ { z } }));
            lexertl::rules ru(+lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules);
            ru.push(text, 1);
            ru.push(z.text(), 2);
            lexertl::state_machine sm;
            lexertl::generator::build(ru, sm);
            for (auto& i : in4) lc::run<lexertl::cmatch>(c, sm, { model }, i, i);
        }
        // 7. the anchored alternative of a rule that is split because it is non-greedy
        const re apb = cat(rep(a, 1, -1, "+?"), b);
        for (auto& t : t3) for (int g = 0; g < 4; ++g) for (int two = 0; two < 2; ++two)
        {
            auto x = mk(apb, 1, PROP == 6, PROP == 7), y = mk(cat(b, b), 1, false, false), z = mk(t, 2, g & 1, g & 2), w = mk(nl, 3, false, false);
            const rules model = PROP == 6 ? rules{ x, y, z } : rules{ y, x, z };
            if (clash(model, texts) || ((t->text + "  ")[0] == 'a')) continue;
            if (!c.next()) continue;
            const std::string text = PROP == 6 ? "^a+?b|bb" : "bb|a+?b$";
            c.describe("rules \"" + mc::esc(text) + "\" id=1; " + lc::show({ { z } }) + (two ? "pushed with a state" : ""));
            lexertl::rules ru(+lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules);
            if (two)
            {
                ru.push("INITIAL", text, 1, ".");
                ru.push("INITIAL", z.text(), 2, ".");
            }
            else { ru.push(text, 1); ru.push(z.text(), 2); }
            lexertl::state_machine sm;
            lexertl::generator::build(ru, sm);
            for (auto& i : in4) lc::run<lexertl::cmatch>(c, sm, { model }, i, i);
        }
        // 8. wide characters whose bytes are those of CR and LF
        {
            const auto D = lit('\x80', "[\\x0d0a]"), A = lit('\x81', "[\\x0a0a]"), E = lit('\x82', "[\\x0a0d]");
            const auto pool8 = gen::solid(gen::flat(gen::levels({ a, D, A, E, nl }, { gen::PLUS }, 3)));
            const auto in8 = mc::strings("a\n\x80\x81\x82", 0, 3);
            for (auto& r : pool8) for (auto& s : pool8) for (int f = 1; f < 4; ++f)
            {
                const bool b6 = PROP == 6, b7 = PROP == 7;
                const std::vector<rules> st{ { mk(r, 1, b6 && f & 1, b7 && f & 1), mk(s, 2, b6 && f & 2, b7 && f & 2) } };
                if (clash(st[0], texts)) continue;
                if (!c.next()) continue;
                c.describe("wide rules " + lc::show(st));
                wide8<char16_t>(c, in8, st);
                wide8<char32_t>(c, in8, st);
            }
            // ... and where only the inputs have them
            const auto pool9 = gen::solid(gen::flat(gen::levels({ a, na, nl, dot }, { gen::PLUS }, 3)));
            const auto in9 = mc::strings("a\n\x83\x84\x85\x86\x87", 0, T ? 4 : 3);
            for (auto& r : pool9) for (auto& s : { a, na, rep(a, 1, -1, "+"), cat(na, a) }) for (int f = 1; f < 4; ++f) for (int two = 0; two < 2; ++two)
            {
                const bool b6 = PROP == 6, b7 = PROP == 7;
                rules st{ mk(r, 1, b6 && f & 1, b7 && f & 1), mk(s, 2, b6 && f & 2, b7 && f & 2) };
                if (two) std::swap(st[0], st[1]);
                if (clash(st, texts)) continue;
                if (!c.next()) continue;
                c.describe("wide rules " + lc::show({ st }) + "on wide inputs");
                wide8<char16_t>(c, in9, { st });
                wide8<char32_t>(c, in9, { st });
            }
            // ... and first of all, so that the bytes of the line breaks are numbered differently, beside rules that go on across them
            const auto F = lit('\x83', "[\\x010a]"), G = lit('\x86', "[\\x8a]");
            std::vector<re> across, ends9;
            const auto texts9 = mc::strings("a\n\x80\x81\x82", 1, 4);
            for (auto& r : gen::solid(gen::flat(gen::levels({ a, nl, dot, na }, { gen::PLUS }, 3)))) { across.push_back(cat(r, a)); ends9.push_back(r); across.push_back(cat(a, cat(nl, r))); }
            for (auto& z : { D, A, E, F, G, cat(D, nl), cls("[^a\\x0d0a]", ~chars("a\x80")) }) for (auto& r : ends9) for (auto& s : across) for (int k = 0; k < 3; ++k)
            {
                const bool b6 = PROP == 6, b7 = PROP == 7;
                rules st{ mk(r, 1, b6, b7), mk(s, 2, b6 && k == 2, b7 && k == 2) };
                st.insert(k ? st.begin() : st.end(), mk(z, 3, false, false));
                if (clash(st, texts9)) continue;
                if (!c.next()) continue;
                c.describe("wide rules " + lc::show({ st }));
                wide8<char16_t>(c, in8, { st });
                wide8<char32_t>(c, in8, { st });
            }
        }
    });
}
