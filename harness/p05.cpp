// P05: every text over several alphabets is added as a rule and built; acceptance and meaning against the grammar of regexref.hpp.
#include <fstream>
#include <set>
#include "regexref.hpp"
#include "lexcmp.hpp"
#include <lexertl/state_machine.hpp>

static const std::size_t ALLOW = +lexertl::regex_flags::allow_suppressed_rules;
static const rx::macros& macro_table()
{
    static rx::macros m;
    if (m.empty())
    {
        std::string why;
        for (auto& d : { std::make_pair("M", "a|b"), std::make_pair("K", "[ab]"), std::make_pair("a", "(b)") })
            if (!rx::parse(d.second, 2, m[d.first], why)) throw std::logic_error("macro");
    }
    return m;
}

template<typename rules_t>
static void define(rules_t& r)
{
    using ch = typename rules_t::rules_char_type;
    for (auto& m : { std::make_pair("M", "a|b"), std::make_pair("K", "[ab]"), std::make_pair("a", "(b)") })
        r.insert_macro(lc::widen<ch>(m.first).c_str(), lc::widen<ch>(m.second));
}

struct tester
{
    mc::ctx& c;
    std::vector<std::string> inputs;
    bool mine = false;
    std::size_t n = 0, size;
    tester(mc::ctx& c_, const std::string& alphabet, std::size_t len, std::size_t batch) : c(c_), inputs(mc::strings(alphabet, 0, len)), size(batch) {}

    void operator ()(const std::string& text, std::size_t flags = 2, bool wide = false)
    {
        if (n++ % size == 0) mine = c.next();
        if (!mine) return;
        check(text, flags);
        if (wide || n % (c.thorough ? 256 : 16) == 0)
        {
            robust<char, char16_t>(text, flags);
            robust<char, char32_t>(text, flags);
            robust<char16_t, char16_t>(text, flags);
            robust<wchar_t, wchar_t>(text, flags);
        }
    }
    // Whether the text reads the same for wide characters: it has no characters beyond ASCII, by number or name, and no
    // class from which those that are wide could be left.
    bool same = false, valid_text = false;
    void judge(const std::string& text, const std::string& why)
    {
        same = true;
        for (unsigned char c : text) if (c > 127) same = false;
        for (std::size_t i = 0; i + 1 < text.size(); ++i)
            if (text[i] == '\\') { if (std::strchr("01234567xp", text[i + 1]) || (why == "empty set" && std::strchr("dDwWsS", text[i + 1]))) same = false; ++i; }
        if (why == "empty set" && text.find("[:") != std::string::npos) same = false;
    }
    std::string desc(const std::string& text, std::size_t flags) { return "\"" + mc::esc(text) + "\" flags=" + std::to_string(flags); }

    void check(const std::string& text, std::size_t flags)
    {
        const std::string d = desc(text, flags);
        c.describe(d);
        if (c.want_sample()) c.sample(d);
        ++c.traces;
        rx::result r;
        std::string why, err;
        bool valid = false;
        try { valid = rx::parse(text, static_cast<unsigned>(flags), r, why, &macro_table()); }
        catch (const rx::unexplored&) { same = false; c.outcome("unexplored"); return; }
        judge(text, why);
        lexertl::rules rules(flags | ALLOW);
        lexertl::state_machine sm;
        define(rules);
        bool pushed = false, built = false;
        try
        {
            rules.push(text, 1);
            pushed = true;
            lexertl::generator::build(rules, sm);
            built = true;
        }
        catch (const lexertl::runtime_error& e) { err = e.what(); if (err.empty()) c.fail("message", "the error has no message"); }
        valid_text = pushed;
        ++c.transitions;
        c.state(mc::hash(text.data(), text.size(), flags));
        if (!valid)
        {
            c.outcome("rejected " + why);
            if (pushed) c.fail("accepted", "the grammar has no such text (" + why + "), but " + (built ? "it is accepted" : "only the build rejects it: " + err));
            return;
        }
        if (r.lazy) return;
        if (!pushed) { c.fail("rejected", "a text of the grammar is rejected: " + err); return; }
        bool null = false, anchored_null = false;
        for (auto& a : r.alts) if (ref::nullable(*a.r)) { null = true; if (a.bol || a.eol) anchored_null = true; }
        if (r.odd) return;
        if (null && !(flags & rx::ZEROLEN))
        {
            bool plain = false;
            for (auto& a : r.alts) if (ref::nullable(*a.r) && !a.bol) plain = true;
            if (built && plain) c.fail("zero", "the rule can match the empty text, but it is built");
            c.outcome("nullable");
            return;
        }
        if (!built) { c.fail("build", "a usable rule is not built: " + err); return; }
        ref::rules rs;
        for (auto& a : r.alts) { ref::rule x; x.r = a.r; x.bol = a.bol; x.eol = a.eol; rs.push_back(x); }
        const std::vector<ref::rules> st{ rs };
        c.outcome(std::to_string(r.toks.size()) + (r.alts.size() > 1 ? "|" : ""));
        (void)anchored_null;
        if (flags & rx::ZEROLEN) return;
        if (ref::clash(rs, inputs)) return;
        for (auto& in : inputs)
            lc::run_with<lexertl::cmatch>(c, sm, 1, [&](ref::state& s) { return ref::step(st, in, s); }, [&] { return d; }, in, in);
    }
    template<typename ch>
    void names(const std::string& name, bool good, bool must)
    {
        for (auto& text : { "\\p{" + name + "}", "[\\p{" + name + "}]", "[^\\p{" + name + "}]", "a{+}\\p{" + name + "}b" })
        {
            c.describe(desc(text, 2));
            lexertl::basic_rules<char, ch> r(2);
            bool ok = false;
            try { r.push(text, 1); ok = true; }
            catch (const lexertl::runtime_error&) {}
            ++c.transitions;
            c.state(mc::hash(text.data(), text.size(), sizeof(ch)));
            if (ok && !good) c.fail("name", "accepted: " + text);
            if (!ok && must) c.fail("name", "rejected: " + text);
        }
    }
    // Wide machines, and the same text as a macro: no crash, and the same verdict on acceptance as far as the text goes.
    template<typename rch, typename ch>
    void robust(const std::string& text, std::size_t flags)
    {
        using rules_t = lexertl::basic_rules<rch, ch>;
        using sm_t = lexertl::basic_state_machine<ch>;
        rules_t rules(flags | ALLOW);
        sm_t sm;
        const std::string d = desc(text, flags) + " rules of " + std::to_string(sizeof(rch)) + " bytes, machine of " + std::to_string(sizeof(ch));
        c.describe(d);
        define(rules);
        const auto wtext = lc::widen<rch>(text);
        bool pushed = false;
        std::string err;
        try { rules.push(wtext.c_str(), wtext.c_str() + wtext.size(), 1); pushed = true; lexertl::basic_generator<rules_t, sm_t>::build(rules, sm); }
        catch (const lexertl::runtime_error& e) { err = e.what(); }
        if (same && pushed != valid_text) c.fail("wide", d + ": " + (pushed ? "accepted, but not for narrow characters" : "rejected, but not for narrow characters: " + err));
        rules_t r2(flags | ALLOW);
        try { r2.insert_macro(lc::widen<rch>("T").c_str(), wtext.c_str(), wtext.c_str() + wtext.size()); r2.push(lc::widen<rch>("x{T}y"), 1); lexertl::basic_generator<rules_t, sm_t>::build(r2, sm); }
        catch (const lexertl::runtime_error&) {}
        c.transitions += 2;
    }
};

// All sequences over the tokens, with prefix and suffix.
template<typename F>
static void words(const std::vector<std::string>& toks, std::size_t lo, std::size_t hi, const F& f)
{
    for (std::size_t l = lo; l <= hi; ++l)
    {
        std::vector<std::size_t> ix(l, 0);
        for (;;)
        {
            std::string s;
            for (auto i : ix) s += toks[i];
            f(s);
            std::size_t k = l;
            while (k && ++ix[k - 1] == toks.size()) ix[--k] = 0;
            if (!k) break;
        }
    }
}
static std::vector<std::string> each(const std::string& s) { std::vector<std::string> v; for (char c : s) v.push_back(std::string(1, c)); return v; }

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const std::size_t k = T ? 2 : 1;
        tester t(c, "ab", 3, 256), nl(c, "a\n^$", 2, 256), str(c, "a\"*", 2, 256), sp(c, "a /*", 2, 256), icase(c, "aA\n", 2, 256);
        // Structure.
        words(each("a()|*?+"), 0, 5 + k, [&](const std::string& s) { t(s, 2, s.size() < 4); });
        words(each("a()|*?^$."), 0, 4 + k, [&](const std::string& s) { nl(s, 2, s.size() < 4); });
        words(each("a|*^$\n\r"), 4, 5, [&](const std::string& s) { nl(s); });
        words(each("a()|*?"), 0, 4 + k, [&](const std::string& s) { t(s, 2 | rx::ZEROLEN, s.size() < 4); });
        // Brackets.
        words(each("[]^-a\\:b"), 0, 4 + k, [&](const std::string& s) { t(s, 2, s.size() < 4); t("[" + s, 2); t("[" + s + "]", 2); });
        words({ "a", "b", "-", "^", "]", "\\d", "\\n", "[:alpha:]", "[:^digit:]", "\\]", "\\x61", "[", "\\101" }, 1, 3 + k, [&](const std::string& s) { icase("[" + s + "]"); if (s.size() < 9) icase("[^" + s + "]", 3, s.size() < 6); });
        // Curly brackets.
        words(each("a}012,-+?M"), 0, 4 + k, [&](const std::string& s) { t("a{" + s); if (s.size() < 4) { t("a{" + s + "b{2}"); t("[ab]{" + s + "}a", 2, true); t("(a){" + s + "}"); t("{" + s + "}", 2, true); } });
        for (const char* n : { "0", "00", "01", "1", "2", "3", "7", "18446744073709551616", "18446744073709551617", "18446744073709551618", "36893488147419103233", "99999999999999999999999" })
            for (const char* m : { "", ",", ",1", ",2", ",3", ",8", ",18446744073709551616", ",18446744073709551617", ",18446744073709551619" })
                for (const char* q : { "}", "}?", "" }) { t(std::string("a{") + n + m + q); t(std::string("(a|b){") + n + m + q + "b"); }
        // Strings and comments.
        words(each("a\"*()?#\\"), 0, 5 + k, [&](const std::string& s) { str(s, 2, s.size() < 4); });
        // Option groups.
        words(each("isx-:)a(?"), 0, 4 + k, [&](const std::string& s) { icase("(?" + s); if (s.size() <= 3) { icase("(?" + s + ":A.)", 2, true); icase("a(?" + s + ":(a)A)A.", 4); } });
        words({ "(?i:", "(?-i:", "(?s:", "(", ")", "A", ".", "|" }, 1, 5 + k, [&](const std::string& s) { icase(s); });
        // White space mode.
        words(each("a /*\n(?\""), 0, 4 + k, [&](const std::string& s) { sp(s, 10, s.size() < 4); sp("a/*" + s, 10); });
        words({ "(?x:", "(?-x:", " ", ")", "a", "/**/", "*", "\"" }, 1, 4 + k, [&](const std::string& s) { sp(s); sp(s, 10); });
        // Tokens of all kinds.
        words({ "a", "b", "(", ")", "|", "*", "+?", "{2}", "{0,2}", "{1,}?", ".", "[ab]", "[^a]", "\\n", "\\x61", "\"a*\"", "(?#x)", "(?i:", "{M}", "{K}", "{a}", "{N}", "{-}", "{+}", "^", "$", "\"", "/", "[[:alpha:]]", "??" }, 1, 3,
            [&](const std::string& s) { t(s, 2, s.size() < 7); });
        if (T) words({ "a", "b", "(", ")", "|", "*", "{0,2}", "[ab]", "\"", "(?i:", "{M}", "{K}", "{-}", "{+}", "^", "$" }, 4, 4, [&](const std::string& s) { t(s); });
        words({ "a", "{M}", "{K}", "{-}", "{+}", "{a}", "[b]", "*", "(", ")" }, 3, 4 + k, [&](const std::string& s) { t(s); });
        // POSIX names: every prefix, every one-character change, what follows.
        for (auto& f : forms::posix())
        {
            const std::string n = f.text + "]";
            for (std::size_t i = 0; i <= n.size(); ++i)
            {
                t("[" + n.substr(0, i), 2, true);
                for (char x : std::string("x:]^-a[")) { t("[" + n.substr(0, i) + x, 2); t("[" + n.substr(0, i) + x + n.substr(i), 2); if (i < n.size()) t("[" + n.substr(0, i) + x + n.substr(i + 1), 2); }
                if (i < n.size()) t("[" + n.substr(0, i) + n.substr(i + 1));
            }
            for (const char* e : { "-a]", "a-]", "-]", "--a]", "[:alpha:]]", "-[:alpha:]]" }) t("[" + f.text + e);
            t("[a-" + f.text + "]"); t("[^" + f.text + "]");
        }
        // Escapes: backslash and any two characters; any two and three characters.
        for (unsigned x = 0; x < 256; ++x) for (unsigned y = 0; y < 256; ++y)
        {
            const std::string a(1, static_cast<char>(x)), b(1, static_cast<char>(y));
            if (!T && x > 130 && y > 130 && (x + y) % 8) continue;
            if (y == 0 && x != 'p') t(a, 2, true);
            t(a + b, 2, (x * 5 + y) % 16 == 0);
            if (x != 'p') { t("\\" + a + b); t("[\\" + a + b + "]"); t("[" + a + b + "]"); t("[a-\\" + a + b); }
        }
        words(each("\\x04cf1[-]8"), 1, 4 + k, [&](const std::string& s) { t("\\" + s, 2, s.size() < 4); });
        // Property names (their meaning is P18): errors only.
        for (const char* s : { "\\p", "\\p{", "\\p{}", "\\p{L", "\\pL", "\\p{Xx}", "\\p{LL}", "\\p{ L}", "[\\p", "[\\p{", "[\\p{L", "[\\p{Q}]", "[a-\\p{L}]", "[\\p{L}-a]", "\\p{Ll}{-}\\p{L}", "\\p{-}", "\\p{Ll}", "[\\p{Ll}", "\\p}", "\"\\p{\"" })
        {
            if (!c.next()) continue;
            c.describe(s);
            ++c.traces;
            t.same = false;
            t.robust<char, char16_t>(s, 2); t.robust<char, char32_t>(s, 2); t.robust<char, char>(s, 2);
        }
        // Every name of a property is accepted (unless it is empty in 16 bits); what is not quite one is not.
        {
            std::vector<std::string> names;
            const char* e = std::getenv("VERIF_REPO");
            std::ifstream in(std::string(e ? e : "/repo") + "/include/lexertl/parser/tokeniser/table.inc");
            for (std::string l; std::getline(in, l); )
            {
                const auto q = l.find('"');
                if (q != std::string::npos) names.push_back(l.substr(q + 1, l.find('"', q + 1) - q - 1));
            }
            if (names.size() < 100) { if (c.next()) c.fail("names", "no names found"); }
            const std::set<std::string> known(names.begin(), names.end());
            for (auto& n : names)
            {
                if (!c.next()) continue;
                std::set<std::string> near{ n + "x", n + " ", " " + n, n + n, "^" + n, "-" + n };
                for (std::size_t i = 0; i < n.size(); ++i)
                {
                    near.insert(n.substr(0, i));
                    near.insert(n.substr(i + 1));
                    near.insert(n.substr(0, i) + n.substr(i + 1));
                    std::string x = n;
                    x[i] ^= 32;
                    near.insert(x);
                    x[i] = '}';
                    near.insert(x);
                }
                t.names<char16_t>(n, true, false);
                t.names<char32_t>(n, true, true);
                for (auto& x : near) if (!known.count(x) && !known.count(x.substr(0, x.find('}')))) { t.names<char16_t>(x, false, false); t.names<char32_t>(x, false, false); }
            }
        }
        // Long and deep texts.
        for (int n : { 100, 1000 })
        {
            if (!c.next()) continue;
            std::string open(n, '('), close(n, ')'), many, opts;
            for (int i = 0; i < n; ++i) { many += "a|"; opts += "(?i:"; }
            for (auto& s : { open + "a" + close, open + "a" + close + ")", open, many + "b", opts + "a" + close, std::string(n, 'a'), "[" + std::string(n, 'a') + "]", "\"" + std::string(n, '"') })
                t.check(s, 2);
        }
    });
}
