// P19: the UTF iterators, against encoders and decoders written from the definition of the encodings.
#include "lexcmp.hpp"
#include <lexertl/utf_iterators.hpp>

using u32 = std::uint32_t;
using points = std::vector<u32>;

// Reference encodings.
std::string enc8(u32 c)
{
    std::string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xc0 + c / 64); s += char(0x80 + c % 64); }
    else if (c < 0x10000) { s += char(0xe0 + c / 4096); s += char(0x80 + c / 64 % 64); s += char(0x80 + c % 64); }
    else { s += char(0xf0 + c / 262144); s += char(0x80 + c / 4096 % 64); s += char(0x80 + c / 64 % 64); s += char(0x80 + c % 64); }
    return s;
}
template<typename ch> std::basic_string<ch> enc16(u32 c)
{
    std::basic_string<ch> s;
    if (c < 0x10000) s += ch(c);
    else { s += ch(0xd800 + (c - 0x10000) / 1024); s += ch(0xdc00 + (c - 0x10000) % 1024); }
    return s;
}
template<typename ch> std::basic_string<ch> encode(const points& p)
{
    std::basic_string<ch> s;
    for (u32 c : p)
        if constexpr (sizeof(ch) == 1) s += enc8(c);
        else s += enc16<ch>(c);
    return s;
}

std::string show(const points& p)
{
    std::string s;
    char b[16];
    for (u32 c : p) { std::snprintf(b, sizeof b, "%sU+%04X", s.empty() ? "" : " ", unsigned(c)); s += b; }
    return s;
}
template<typename ch> std::string units(const std::basic_string<ch>& t)
{
    std::string s;
    char b[16];
    for (auto c : t) { std::snprintf(b, sizeof b, "%s%02x", s.empty() ? "" : " ", unsigned(typename std::make_unsigned<ch>::type(c))); s += b; }
    return s;
}
bool is_surrogate(u32 c) { return c >= 0xd800 && c < 0xe000; }
const points REPS{ 0, 'a', 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0xfffff, 0x10ffff };

struct lab
{
    mc::ctx& c;

    // A copy with exactly the characters and nothing readable behind them (address checking tells).
    template<typename ch> static std::vector<ch> exact(const std::basic_string<ch>& s) { std::vector<ch> v(s.begin(), s.end()); v.shrink_to_fit(); return v; }

    // Decoding: every position reached in every way.
    template<typename iter, typename ch> void decode(const points& p, const char* name, bool full)
    {
        const auto s = encode<ch>(p);
        const auto v = exact(s);
        const ch* const b = v.data();
        const ch* const e = b + v.size();
        std::vector<std::size_t> off(1, 0);
        for (u32 x : p) off.push_back(off.back() + encode<ch>(points(1, x)).size());
        ++c.traces;
        auto bad = [&](const std::string& what) { c.fail("decode", std::string(name) + " over " + show(p) + ": " + what); };
        const iter end(e, e);
        std::vector<iter> at;
        {
            iter it(b, e);
            for (std::size_t i = 0; ; ++i)
            {
                at.push_back(it);
                c.state(i * 7 + 1);
                if ((it == end) != (i == p.size()) || (it != end) != (i != p.size())) return bad("the end is reported after " + std::to_string(i) + " characters");
                if (i == p.size()) break;
                if (u32(*it) != p[i]) return bad("character " + std::to_string(i) + " is " + show(points(1, u32(*it))));
                if constexpr (sizeof(ch) == 1)
                    if (it.get() != b + off[i]) return bad("get() of character " + std::to_string(i) + " is not its first unit");
                ++it;
                ++c.transitions;
            }
            if constexpr (sizeof(ch) == 1) if (it.get() != e) return bad("get() of the end");
        }
        if (!full) return;
        {
            iter it(b, e);
            for (std::size_t i = 0; i < p.size(); ++i)
            {
                iter old = it++;
                if (old != at[i] || u32(*old) != p[i] || it != at[i + 1]) return bad("postfix increment at " + std::to_string(i));
            }
        }
        for (std::size_t i = 0; i <= p.size(); ++i)
            for (std::size_t j = 0; j <= p.size(); ++j)
            {
                ++c.transitions;
                if ((at[i] == at[j]) != (i == j) || (at[i] != at[j]) != (i != j)) return bad("comparing " + std::to_string(i) + " with " + std::to_string(j));
                if constexpr (sizeof(ch) == 1) if ((at[i] > at[j]) != (i > j)) return bad("> of " + std::to_string(i) + " and " + std::to_string(j));
                // Move from i to j, then on to the end.
                iter it = j >= i ? at[i] + (j - i) : at[i] - (i - j);
                for (std::size_t k = j; ; ++k)
                {
                    if (it != at[k]) return bad("moving from " + std::to_string(i) + " to " + std::to_string(j) + " and on to " + std::to_string(k) + ": wrong position");
                    if (k == p.size()) break;
                    if (u32(*it) != p[k]) return bad("moving from " + std::to_string(i) + " to " + std::to_string(j) + " and on to " + std::to_string(k) + ": wrong character");
                    ++it;
                }
            }
    }

    // Encoding: in is any iterator over code points.
    template<typename out, typename ch, typename in> void encode_from(const points& p, in first, in last, const char* name, bool full)
    {
        const auto want = encode<ch>(p);
        ++c.traces;
        auto bad = [&](const std::string& what) { c.fail("encode", std::string(name) + " over " + show(p) + ": " + what); };
        const out end(last, last);
        std::basic_string<ch> got;
        std::vector<out> at;
        out it(first, last);
        for (; ; ++it)
        {
            at.push_back(it);
            c.state(got.size() * 7 + 3);
            if (!(it != end)) break;
            if (got.size() > want.size()) return bad("does not end");
            got += *it;
            ++c.transitions;
        }
        if (got != want) return bad("gives " + units(got) + " instead of " + units(want));
        if (!(it == end)) return bad("not equal to the end at the end");
        if (!full) return;
        out post(first, last);
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            out old = post++;
            if (*old != want[i]) return bad("postfix increment at " + std::to_string(i));
        }
        if (post != end) return bad("postfix increments do not reach the end");
        for (std::size_t i = 0; i <= want.size(); ++i)
            for (std::size_t j = 0; j <= want.size(); ++j)
            {
                ++c.transitions;
                if ((at[i] == at[j]) != (i == j) || (at[i] != at[j]) != (i != j)) return bad("comparing unit " + std::to_string(i) + " with unit " + std::to_string(j));
            }
    }

    void all(const points& p, bool full)
    {
        using namespace lexertl;
        std::vector<char32_t> u(p.begin(), p.end());
        u.shrink_to_fit();
        const char32_t* b = u.data();
        const char32_t* e = b + u.size();
        decode<cutf8_in_utf32_out_iterator, char>(p, "UTF-8 input", full);
        decode<cutf16_in_utf32_out_iterator, char16_t>(p, "UTF-16 input", full);
        decode<cwchar_t_in_utf32_out_iterator, wchar_t>(p, "wchar_t input", full);
        encode_from<basic_utf8_out_iterator<const char32_t*>, char>(p, b, e, "UTF-8 output", full);
        encode_from<basic_utf16_out_iterator<const char32_t*, char16_t>, char16_t>(p, b, e, "UTF-16 output", full);
        encode_from<basic_utf16_out_iterator<const char32_t*, wchar_t>, wchar_t>(p, b, e, "wchar_t output", full);
        const auto v8 = exact(encode<char>(p));
        const auto v16 = exact(encode<char16_t>(p));
        const auto vw = exact(encode<wchar_t>(p));
        const char* b8 = v8.data(), * e8 = b8 + v8.size();
        const char16_t* b16 = v16.data(), * e16 = b16 + v16.size();
        const wchar_t* bw = vw.data(), * ew = bw + vw.size();
        encode_from<cutf8_in_utf16_out_iterator, char16_t>(p, cutf8_in_utf32_out_iterator(b8, e8), cutf8_in_utf32_out_iterator(e8, e8), "UTF-8 to UTF-16", full);
        encode_from<cutf8_in_wchar_t_out_iterator, wchar_t>(p, cutf8_in_utf32_out_iterator(b8, e8), cutf8_in_utf32_out_iterator(e8, e8), "UTF-8 to wchar_t", full);
        encode_from<cutf16_in_utf8_out_iterator, char>(p, cutf16_in_utf32_out_iterator(b16, e16), cutf16_in_utf32_out_iterator(e16, e16), "UTF-16 to UTF-8", full);
        encode_from<cwchar_t_in_utf8_out_iterator, char>(p, cwchar_t_in_utf32_out_iterator(bw, ew), cwchar_t_in_utf32_out_iterator(ew, ew), "wchar_t to UTF-8", full);
    }

    // Damaged text: an error exactly when a unit is missing or not of the kind that must stand there.
    template<typename iter, typename ch> void damaged(const std::basic_string<ch>& s, const char* name)
    {
        const auto v = exact(s);
        const ch* const b = v.data();
        const ch* const e = b + v.size();
        ++c.traces;
        bool err = false;
        points got;
        try
        {
            iter it(b, e);
            const iter end(e, e);
            for (; it != end; ++it) { got.push_back(u32(*it)); ++c.transitions; if (got.size() > s.size()) break; }
        }
        catch (const std::range_error&) { err = true; }
        points want;
        bool werr = false;
        for (std::size_t i = 0; i < s.size() && !werr; )
        {
            c.state(i * 7 + 5);
            if constexpr (sizeof(ch) == 1)
            {
                const unsigned char l = static_cast<unsigned char>(s[i]);
                const std::size_t n = l < 0x80 ? 1 : l < 0xc0 ? 0 : l < 0xe0 ? 2 : l < 0xf0 ? 3 : l < 0xf8 ? 4 : 0;
                if (n == 0 || i + n > s.size()) { werr = true; break; }
                u32 x = n == 1 ? l : l & (0xff >> (n + 1));
                for (std::size_t k = 1; k < n; ++k)
                {
                    const unsigned char t = static_cast<unsigned char>(s[i + k]);
                    if (t / 64 != 2) werr = true;
                    x = x * 64 + t % 64;
                }
                if (werr) break;
                want.push_back(x);
                i += n;
            }
            else
            {
                const u32 x = u32(s[i]);
                if (!is_surrogate(x)) { want.push_back(x); ++i; continue; }
                if (x >= 0xdc00 || i + 1 == s.size() || u32(s[i + 1]) < 0xdc00 || u32(s[i + 1]) > 0xdfff) { werr = true; break; }
                want.push_back((x - 0xd800) * 1024 + (u32(s[i + 1]) - 0xdc00) + 0x10000);
                i += 2;
            }
        }
        c.outcome((werr ? "e" : "o") + std::to_string(want.size()));
        if (err != werr || got != want)
            c.fail("damaged", std::string(name) + " over " + units(s) + ": expected " + show(want) + (werr ? " then an error" : "") + ", got " + show(got) + (err ? " then an error" : ""));
    }

    // Tokens through the iterators and of the plain text in the machine's encoding.
    template<typename sm_t, typename iter, typename ch> std::vector<std::string> tokens(const sm_t& sm, iter b, iter e)
    {
        std::vector<std::string> v;
        lexertl::match_results<iter, std::uint16_t> r(b, e);
        for (int k = 0; k < 40; ++k)
        {
            lexertl::lookup(sm, r);
            ++c.transitions;
            std::basic_string<ch> t(r.first, r.second);
            v.push_back(std::to_string(r.id) + ":" + units(t));
            if (r.id == 0) break;
        }
        return v;
    }
    static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "[" + x + "] "; return s; }
    template<typename ch> bool machine(const std::vector<std::string>& rs, lexertl::basic_state_machine<ch>& sm)
    {
        lexertl::basic_rules<char, ch> r;
        for (std::size_t i = 0; i < rs.size(); ++i)
        {
            if (rs[i][0] == '-') r.push(rs[i].substr(1), r.skip());
            else r.push(rs[i], static_cast<std::uint16_t>(i + 1));
        }
        lexertl::basic_generator<lexertl::basic_rules<char, ch>, lexertl::basic_state_machine<ch>>::build(r, sm);
        return true;
    }

    template<typename ch, typename iter> void lex(const std::vector<std::string>& rs, const lexertl::basic_state_machine<ch>& sm, const points& p, const std::basic_string<ch>& plain, iter b, iter e, const char* name)
    {
        ++c.traces;
        const auto want = tokens<lexertl::basic_state_machine<ch>, const ch*, ch>(sm, plain.data(), plain.data() + plain.size());
        const auto got = tokens<lexertl::basic_state_machine<ch>, iter, ch>(sm, b, e);
        c.state(mc::hash(join(want).data(), join(want).size()));
        c.outcome(join(want));
        if (want != got) c.fail("lex", std::string(name) + " over " + show(p) + ", rules " + join(rs) + "\n  decoded text " + join(want) + "\n  iterators    " + join(got));
    }
};

void body(mc::ctx& c)
{
    lab l{ c };
    using namespace lexertl;
    // With address checking only the part where reads beyond the end can be expected.
#ifndef PART_ASAN
    // Every code point, alone and between others.
    for (u32 base = 0; base < 0x110000; base += 0x400)
    {
        if (!c.next()) continue;
        c.describe("code points from " + show(points(1, base)));
        if (c.want_sample()) c.sample("every code point from " + show(points(1, base)) + " to " + show(points(1, base + 0x3ff)));
        for (u32 x = base; x < base + 0x400; ++x)
        {
            if (is_surrogate(x)) continue;
            l.all({ x }, false);
            l.all({ 'a', x, 0x10ffff }, c.thorough);
        }
        c.count("blocks of 1024 code points");
    }
    const std::size_t len = c.thorough ? 4 : 3;
#else
    const std::size_t len = c.thorough ? 3 : 2;
#endif
    // Every sequence of representatives.
    std::vector<points> seqs{ {} }, cur{ {} };
    for (std::size_t n = 1; n <= len; ++n)
    {
        std::vector<points> nx;
        for (auto& s : cur) for (u32 x : REPS) { auto t = s; t.push_back(x); nx.push_back(t); }
        cur = nx;
        seqs.insert(seqs.end(), cur.begin(), cur.end());
    }
    for (auto& s : seqs)
    {
        if (!c.next()) continue;
        c.describe(show(s));
        if (c.want_sample()) c.sample("all moves over " + show(s));
        l.all(s, true);
    }
    // Damaged text.
    {
        const std::string reps("\x00\x41\x7f\x80\x8f\xbf\xc0\xc2\xdf\xe0\xe1\xed\xef\xf0\xf1\xf4\xf7\xf8\xff", 19);
        for (auto& s : mc::strings(reps, 0, c.thorough ? 5 : 4))
        {
            if (!c.next()) continue;
            c.describe("UTF-8 units " + units(s));
            l.damaged<cutf8_in_utf32_out_iterator>(s, "UTF-8 input");
        }
        std::vector<std::u16string> all{ {} };
        for (std::size_t i = 0, b = 0; i < (c.thorough ? 6u : 4u); ++i)
        {
            const std::size_t e = all.size();
            for (; b < e; ++b) for (char16_t x : { 0, 0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff }) all.push_back(all[b] + char16_t(x));
        }
        for (auto& s : all)
        {
            if (!c.next()) continue;
            c.describe("UTF-16 units " + units(s));
            l.damaged<cutf16_in_utf32_out_iterator>(s, "UTF-16 input");
            l.damaged<cwchar_t_in_utf32_out_iterator>(std::wstring(s.begin(), s.end()), "wchar_t input");
        }
    }
    // Byte swapping.
    if (c.next())
    {
        c.describe("flip iterator");
        std::u16string s;
        for (u32 x = 0; x < 0x10000; ++x) s += char16_t(x);
        basic_flip_iterator<const char16_t*> it(s.data()), end(s.data() + s.size());
        ++c.traces;
        for (u32 x = 0; x < 0x10000; ++x)
        {
            if (!(it != end) || it == end) c.fail("flip", "16 bit: ends early");
            auto old = x % 2 ? it++ : it;
            if (!(x % 2)) ++it;
            if (u32(*old) != (x % 256 * 256 + x / 256)) c.fail("flip", "16 bit: " + std::to_string(x));
            ++c.transitions;
            c.state(x);
        }
        if (it != end || !(it == end)) c.fail("flip", "16 bit: does not end");
        for (u32 k = 0; k < 625; ++k)
        {
            const unsigned char v[5] = { 0, 1, 0x7f, 0x80, 0xff };
            const u32 d[4] = { v[k % 5], v[k / 5 % 5], v[k / 25 % 5], v[k / 125] };
            const char32_t x = d[0] << 24 | d[1] << 16 | d[2] << 8 | d[3];
            if (*basic_flip_iterator<const char32_t*>(&x) != (d[3] << 24 | d[2] << 16 | d[1] << 8 | d[0])) c.fail("flip", "32 bit: " + std::to_string(x));
            const char b = char(v[k % 5]);
            if (*basic_flip_iterator<const char*>(&b) != b) c.fail("flip", "8 bit");
        }
        // Swapped UTF-16 read through both.
        std::u16string t;
        points p;
        for (u32 x = 0; x < 0x110000; x += 0xfb) if (!is_surrogate(x)) { p.push_back(x); t += enc16<char16_t>(x); }
        for (auto& u : t) u = char16_t((u & 0xff) << 8 | u >> 8);
        using fl = basic_flip_iterator<const char16_t*>;
        basic_utf16_in_iterator<fl, char32_t> i(fl(t.data()), fl(t.data() + t.size())), e(fl(t.data() + t.size()), fl(t.data() + t.size()));
        for (u32 x : p) { if (!(i != e) || u32(*i) != x) c.fail("flip", "swapped UTF-16 at " + show(points(1, x))); ++i; ++c.transitions; }
        if (i != e) c.fail("flip", "swapped UTF-16 does not end");
    }
    // Lexing.
    const std::vector<std::vector<std::string>> sets32{
        { "(?s:.)" }, { "[^a]+" }, { "[\\x80-\\x7ff]", "[\\x800-\\xffff]+", "[\\x10000-\\x10ffff]", "-(?s:.)" },
        { "a+", "[^a][^a]" }, { "[\\x0-\\x7f]+", "-\\x1f600", "[^\\x0-\\x7f]" }, { "\\x80", "\\x80\\x10000", "\\x10000|\\x10ffff" } };
    const std::vector<std::vector<std::string>> sets16{
        { "(?s:.)" }, { "[^a]+" }, { "[\\xd800-\\xdbff]", "[\\xdc00-\\xdfff]", "[^\\xd800-\\xdfff]" }, { "[\\xd800-\\xdbff][\\xdc00-\\xdfff]", "-[^\\xd800-\\xdfff]" },
        { "a?[\\xd800-\\xdbff]", "[\\xdc00-\\xdfff]a?" }, { "(?s:.)(?s:.)" } };
    const std::vector<std::vector<std::string>> sets8{
        { "(?s:.)" }, { "[^a]+" }, { "[\\x80-\\xbf]", "[\\xc0-\\xff]", "[\\x0-\\x7f]" }, { "[\\xc0-\\xff][\\x80-\\xbf]", "[\\x80-\\xbf]+" }, { "a?[\\xc0-\\xff]", "-[\\x80-\\xbf]a?" }, { "(?s:.)(?s:.)" } };
    auto each = [&](auto& sets, auto tag, auto run)
    {
        using ch = decltype(tag);
        for (auto& rs : sets)
        {
            basic_state_machine<ch> sm;
            bool built = false;
            for (auto& p : seqs)
            {
                if (!c.next()) continue;
                c.describe("lex " + show(p) + " with " + lab::join(rs));
                if (c.want_sample()) c.sample("lex " + show(p) + " with " + lab::join(rs));
                if (!built) built = l.machine(rs, sm);
                run(rs, sm, p);
            }
        }
    };
    each(sets32, char32_t(), [&](auto& rs, auto& sm, auto& p)
    {
        const std::u32string plain(p.begin(), p.end());
        const auto t8 = encode<char>(p);
        const auto t16 = encode<char16_t>(p);
        const char* b = t8.data(), * e = b + t8.size();
        const char16_t* b16 = t16.data(), * e16 = b16 + t16.size();
        l.lex(rs, sm, p, plain, cutf8_in_utf32_out_iterator(b, e), cutf8_in_utf32_out_iterator(e, e), "UTF-8 to UTF-32");
        l.lex(rs, sm, p, plain, cutf16_in_utf32_out_iterator(b16, e16), cutf16_in_utf32_out_iterator(e16, e16), "UTF-16 to UTF-32");
    });
    each(sets16, char16_t(), [&](auto& rs, auto& sm, auto& p)
    {
        const auto t8 = encode<char>(p);
        const char* b = t8.data(), * e = b + t8.size();
        using in = cutf8_in_utf32_out_iterator;
        l.lex(rs, sm, p, encode<char16_t>(p), cutf8_in_utf16_out_iterator(in(b, e), in(e, e)), cutf8_in_utf16_out_iterator(in(e, e), in(e, e)), "UTF-8 to UTF-16");
    });
    each(sets8, char(), [&](auto& rs, auto& sm, auto& p)
    {
        const auto t16 = encode<char16_t>(p);
        const char16_t* b = t16.data(), * e = b + t16.size();
        using in = cutf16_in_utf32_out_iterator;
        l.lex(rs, sm, p, encode<char>(p), cutf16_in_utf8_out_iterator(in(b, e), in(e, e)), cutf16_in_utf8_out_iterator(in(e, e), in(e, e)), "UTF-16 to UTF-8");
    });
}

int main(int argc, char** argv) { return mc::ctx().main(argc, argv, body); }
