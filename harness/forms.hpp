// Every way of writing a single-character regex, with the set the documentation gives for it (8-bit characters).
#ifndef FORMS_HPP
#define FORMS_HPP
#include "mc.hpp"
#include <bitset>

namespace forms
{
    using set = std::bitset<256>;
    struct form
    {
        std::string text;
        set s;
        bool valid = true;            // false: must be rejected
        bool neg = false;             // negated: case variants are excluded, not added
    };

    inline set one(unsigned c) { set s; s.set(c & 255); return s; }
    inline set range(unsigned a, unsigned b) { set s; for (unsigned i = a; i <= b; ++i) s.set(i); return s; }
    inline set of(const std::string& t) { set s; for (unsigned char c : t) s.set(c); return s; }
    inline set digits() { return range('0', '9'); }
    inline set ascii() { return range('a', 'z') | range('A', 'Z'); }
    inline set spaces() { return of(" \t\n\r\f\v"); }
    inline set word() { return ascii() | digits() | of("_"); }

    // The letters of a locale and their case pairs.
    struct letters
    {
        set lo = range('a', 'z'), up = range('A', 'Z'), other;
        unsigned char pair[256];
        letters() { for (unsigned i = 0; i < 256; ++i) pair[i] = static_cast<unsigned char>(ascii()[i] ? i ^ 32 : i); }
        void join(unsigned l, unsigned u) { pair[l] = static_cast<unsigned char>(u); pair[u] = static_cast<unsigned char>(l); lo.set(l); up.set(u); }
    };
    inline letters& current() { static letters l; return l; }
    inline set lower() { return current().lo; }
    inline set upper() { return current().up; }
    inline set alpha() { return lower() | upper() | current().other; }

    // Case variants of the members.
    inline set fold(const set& s)
    {
        set r = s;
        for (unsigned i = 0; i < 256; ++i) if (s[i]) r.set(current().pair[i]);
        return r;
    }

    inline bool alnum(unsigned c) { return (ascii() | digits())[c & 255]; }

    // Raw spelling outside brackets (empty when there is none) and inside.
    inline std::string raw(unsigned c)
    {
        if (std::strchr("\"()?*+{|^$.[/\\", static_cast<int>(c)) && c) return std::string();
        return std::string(1, static_cast<char>(c));
    }
    inline std::string in_set(unsigned c)       // safe at any place of a bracket list
    {
        if (c == '\\' || c == ']' || c == '[' || c == '^' || c == '-') return std::string("\\") + static_cast<char>(c);
        return std::string(1, static_cast<char>(c));
    }

    // Escapes that denote one character, usable outside and inside brackets.
    inline std::vector<form> escapes(bool T)
    {
        std::vector<form> v;
        // A backslash before anything that has no meaning of its own.
        for (unsigned c = 0; c < 256; ++c)
            if (!c || !std::strchr("01234567abcefnrtvxdDpsSwW", static_cast<int>(c))) v.push_back({ std::string("\\") + static_cast<char>(c), one(c) });
        const char* named = "abefnrtv";
        const char val[] = "\a\b\x1b\f\n\r\t\v";
        for (int i = 0; named[i]; ++i) v.push_back({ std::string("\\") + named[i], one(static_cast<unsigned char>(val[i])) });
        for (unsigned a = 0; a < 8; ++a)
        {
            v.push_back({ "\\" + std::to_string(a), one(a) });
            for (unsigned b = 0; b < 8; ++b)
            {
                v.push_back({ "\\" + std::to_string(a) + std::to_string(b), one(a * 8 + b) });
                for (unsigned c = 0; c < 8; ++c)
                    v.push_back({ "\\" + std::to_string(a) + std::to_string(b) + std::to_string(c), one(a * 64 + b * 8 + c), a * 64 + b * 8 + c < 256 });
            }
        }
        const std::string hx = "0123456789abcdefABCDEF";
        const auto hv = [&](std::size_t i) { return static_cast<unsigned>(i < 16 ? i : i - 6); };
        for (std::size_t a = 0; a < hx.size(); ++a)
        {
            v.push_back({ std::string("\\x") + hx[a], one(hv(a)) });
            for (std::size_t b = 0; b < hx.size(); ++b)
            {
                v.push_back({ std::string("\\x") + hx[a] + hx[b], one(hv(a) * 16 + hv(b)) });
                for (std::size_t c = 0; c < hx.size(); c += (T || a == 0 || (a == 1 && b == 0)) ? 1 : 7)
                {
                    const unsigned n = hv(a) * 256 + hv(b) * 16 + hv(c);
                    v.push_back({ std::string("\\x") + hx[a] + hx[b] + hx[c], one(n), n < 256 });
                }
            }
        }
        for (const char* t : { "\\x0041", "\\x000061", "\\x00000000ff" }) v.push_back({ t, one(static_cast<unsigned>(std::strtoul(t + 2, nullptr, 16))) });
        for (const char* t : { "\\x10041", "\\x0100", "\\x100000041", "\\xffffffffffffffff", "\\x10000000000000041", "\\x1000000000000000000000041" }) v.push_back({ t, set(), false });
        for (unsigned c = 0; c < 256; ++c)
        {
            const std::string t = std::string("\\c") + static_cast<char>(c);
            if (c >= 'a' && c <= 'z') v.push_back({ t, one(c - 'a' + 1) });
            else if (c >= 'A' && c <= 'Z') v.push_back({ t, one(c - 'A' + 1) });
            else if (c == '@') v.push_back({ t, one(0) });
            else v.push_back({ t, set(), false });
        }
        return v;
    }
    // Shortcut classes, usable outside and inside brackets.
    inline std::vector<form> shortcuts()
    {
        return { { "\\d", digits() }, { "\\D", ~digits(), true, true }, { "\\s", spaces() }, { "\\S", ~spaces(), true, true }, { "\\w", word() }, { "\\W", ~word(), true, true } };
    }
    // POSIX classes, usable inside brackets.
    inline std::vector<form> posix()
    {
        const set graph = range(0x21, 0x7e);
        const std::vector<std::pair<const char*, set>> p{ { "alnum", alpha() | digits() }, { "alpha", alpha() }, { "blank", of(" \t") },
            { "cntrl", range(0, 0x1f) | one(0x7f) }, { "digit", digits() }, { "graph", graph }, { "lower", lower() }, { "print", graph | of(" ") },
            { "punct", graph & ~ascii() & ~digits() }, { "space", spaces() }, { "upper", upper() }, { "xdigit", digits() | range('a', 'f') | range('A', 'F') } };
        std::vector<form> v;
        for (auto& x : p)
        {
            v.push_back({ std::string("[:") + x.first + ":]", x.second });
            v.push_back({ std::string("[:^") + x.first + ":]", ~x.second, true, true });
        }
        return v;
    }
}
#endif
