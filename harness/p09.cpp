// P09: a reference to a macro against its definition in parentheses; sequences of definitions, good and bad.
#include "machine.hpp"
#include <lexertl/state_machine.hpp>
#include <optional>

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;

struct def
{
    std::string text;
    std::string one;      // if it is a single set of characters: the set, spelt for use as an operand
    bool alt = false;     // has an ungrouped |
    bool bol = false, eol = false;
    std::string body;     // without anchors
    bool many = false;    // more than one item besides the anchors
};

// A context: text with a hole; quant: the reference is repeated; operand: it is an operand of {-} or {+}.
struct ctxt { std::string pre, post; bool quant = false, operand = false, literal = false; std::string shield; };

template<typename ch>
struct lab
{
    using rules_t = lexertl::basic_rules<char, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;
    mc::ctx& c;
    std::vector<std::uint32_t> alphabet;
    lab(mc::ctx& c_) : c(c_) { for (unsigned char x : std::string("abcdABC^$\n{}MN|*1_-\"")) alphabet.push_back(x); alphabet.push_back('\r'); alphabet.push_back(0); alphabet.push_back(200); }

    static std::optional<std::string> build(rules_t& r, sm_t& sm)
    {
        try { lexertl::basic_generator<rules_t, sm_t>::build(r, sm); return std::nullopt; }
        catch (const lexertl::runtime_error& e) { return std::string(e.what()); }
    }
    // Rules ref are built with the macros, rules plain without.
    void same(const std::vector<std::pair<std::string, std::string>>& macros, const std::vector<std::string>& refs, const std::vector<std::string>& plain, std::size_t flags = FLAGS)
    {
        std::string d;
        for (auto& m : macros) d += m.first + " = " + mc::esc(m.second) + "; ";
        for (auto& x : refs) d += "\"" + mc::esc(x) + "\" ";
        d += " against";
        for (auto& x : plain) d += " \"" + mc::esc(x) + "\"";
        c.describe(d);
        if (c.want_sample()) c.sample(d);
        ++c.traces;
        std::string e1, e2;
        rules_t a(flags), b(flags);
        sm_t x, y;
        try { for (auto& m : macros) a.insert_macro(m.first.c_str(), m.second); typename rules_t::id_type id = 1; for (auto& t : refs) a.push(t, id++); lexertl::basic_generator<rules_t, sm_t>::build(a, x); }
        catch (const lexertl::runtime_error& e) { e1 = e.what(); if (e1.empty()) e1 = "?"; }
        try { typename rules_t::id_type id = 1; for (auto& t : plain) b.push(t, id++); lexertl::basic_generator<rules_t, sm_t>::build(b, y); }
        catch (const lexertl::runtime_error& e) { e2 = e.what(); if (e2.empty()) e2 = "?"; }
        ++c.transitions;
        if (e1.empty() != e2.empty())
        {
            c.fail("verdict", d + "\n  with macros: " + (e1.empty() ? "accepted" : e1) + "\n  written out: " + (e2.empty() ? "accepted" : e2));
            return;
        }
        if (!e1.empty()) { c.outcome("rejected"); return; }
        const mac::table<ch, typename sm_t::traits::id_type> u(x), v(y);
        const std::string w = mac::compare(c, u, v, alphabet, "the machine with macros", "the machine written out");
        if (!w.empty()) c.fail("differs", d + "\n  " + w);
        c.outcome(std::to_string(u.rows(0)));
    }
    void rejects(const std::vector<std::pair<std::string, std::string>>& macros, const std::string& ref, const std::string& why)
    {
        std::string d;
        for (auto& m : macros) d += m.first + " = " + mc::esc(m.second) + "; ";
        d += "\"" + mc::esc(ref) + "\" " + why;
        c.describe(d);
        ++c.traces;
        rules_t a(FLAGS);
        for (auto& m : macros) a.insert_macro(m.first.c_str(), m.second);
        bool threw = false;
        try { a.push(ref, 1); } catch (const lexertl::runtime_error&) { threw = true; }
        ++c.transitions;
        if (!threw) c.fail("accepted", d + ": not rejected");
        if (!a.empty()) c.fail("trace", d + ": rejected but a rule was added");
    }
};

static std::string fill(const ctxt& x, const def& d, bool whole_start = true, bool whole_end = true)
{
    if (x.operand) return x.pre + d.one + x.post;
    if (x.literal) return x.pre + x.shield + x.post;
    const bool s = x.pre.empty() && whole_start, e = x.post.empty() && whole_end;
    std::string b;
    if (d.bol && s) b += "^";
    std::string in;
    if (d.bol && !s) in += "\\^";
    in += d.body;
    if (d.eol && !e) in += "\\$";
    if (!in.empty()) b += (x.shield.empty() ? "(" : x.shield) + in + ")";
    if (d.eol && e) b += "$";
    return x.pre + b + x.post;
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        lab<char> n(c);
        lab<char16_t> w(c);
        std::vector<def> defs;
        auto D = [&](const std::string& t, const std::string& one = "", bool alt = false) { def d; d.text = d.body = t; d.one = one; d.alt = alt; d.many = one.empty(); defs.push_back(d); };
        D("a", "[a]"); D("\\n", "\\n"); D(".", "[^\\n]"); D("[ab]", "[ab]"); D("[^a]", "[^a]"); D("(a)", "[a]"); D("((b))", "[b]"); D("\"a\"", "[a]"); D("\"|\"", "[|]"); D("(?i:a)", "[aA]"); D("(?s:.)", "?");
        D("(?#x)a", "[a]"); D("a(?#x)", "[a]"); D("[ab]{-}[a]", "[b]"); D("[a]{+}[b]", "[ab]"); D("\\^", "[\\^]"); D("\\$", "[$]"); D("[[:alpha:]]", "[[:alpha:]]"); D("\\d", "\\d"); D("{L}", "[c]"); D("({L})", "[c]"); D("(?x: a /* b */ )", "[a]");
        D("ab"); D("a|b", "", true); D("(a|b)"); D("(a)|(b)", "", true); D("a|bc", "", true); D("ab|c", "", true); D("a*"); D("a+"); D("a?"); D("a{2}"); D("a{1,2}"); D("a*?b"); D("a+?b|c", "", true); D("(a|b)*"); D("(a|b)(b|c)"); D("\"a|b\""); D("\"a*\"");
        D("(?i:ab|c)"); D("(?i:a)b"); D("a(b|c)*"); D("(ab)+c"); D("{L}a"); D("{L}|a", "", true); D("a{L}"); D("(a)(b)"); D("((a)(b))"); D("[ab]{2}"); D("(?s:.)b"); D("\"a\"b"); D("a\"\"", "[a]");
        const std::size_t plain_defs = defs.size();
        auto A = [&](const std::string& body, bool bol, bool eol, bool many) { def d; d.body = body; d.bol = bol; d.eol = eol; d.many = many || (bol && eol); d.text = (bol ? "^" : "") + body + (eol ? "$" : ""); defs.push_back(d); };
        for (int k = 1; k < 4; ++k) { A("a", k & 1, k & 2, false); A("ab", k & 1, k & 2, true); A("a+b", k & 1, k & 2, true); A("(a|b)", k & 1, k & 2, true); A("[ab]", k & 1, k & 2, false); A("a(b|c)", k & 1, k & 2, true); A("{L}", k & 1, k & 2, false); }
        A("", true, false, false);

        std::vector<ctxt> cs;
        for (auto& p : { std::pair<std::string, std::string>{ "", "" }, { "", "c" }, { "c", "" }, { "c", "c" }, { "c|", "" }, { "", "|c" }, { "(", ")" }, { "(", ")c" }, { "c(", ")" }, { "(", "|c)+" }, { "(c", ")" }, { "b|", "|c" },
            { "\"x\"", "" }, { "", "\"\"" }, { "\"\"", "" }, { "(?#c)", "" }, { "", "(?#c)" }, { "^", "" }, { "", "$" }, { "^", "c$" }, { "[ab]", "" }, { "", "[ab]" }, { "(c|", "b)" }, { "\\\\", "" } }) cs.push_back({ p.first, p.second });
        for (auto& p : { std::pair<std::string, std::string>{ "", "*c" }, { "", "+" }, { "", "?c" }, { "", "{2}" }, { "", "{1,2}" }, { "c", "*" }, { "c", "{0,2}" }, { "", "*?c" }, { "c", "+?c" }, { "c", "??c" }, { "(", "*c)+" }, { "", "{2,}" } }) { ctxt x{ p.first, p.second }; x.quant = true; cs.push_back(x); }
        for (auto& p : { std::pair<std::string, std::string>{ "(?i:c", ")" }, { "(?i:", "c)" }, { "(?s:.", ".)" } }) { ctxt x{ p.first, p.second }; x.shield = p.first == "(?s:." ? "(?-s:" : "(?-i:"; cs.push_back(x); }
        for (auto& p : { std::pair<std::string, std::string>{ "(?x: c ", " c )" }, { "(?x:", " )" }, { "(?-i:", ")" } }) { ctxt x{ p.first, p.second }; cs.push_back(x); }
        for (auto& p : { std::pair<std::string, std::string>{ "[abc]{-}", "" }, { "", "{-}[a]" }, { "", "{+}[bc]" }, { "[bc]{+}", "" }, { "[abc]{-}", "{+}[d]" }, { "c[abcd]{-}", "*" }, { "", "{-}[b]{+}[d]" }, { "a|[^b]{-}", "|b" } }) { ctxt x{ p.first, p.second }; x.operand = true; cs.push_back(x); }
        for (auto& p : { std::pair<std::string, std::string>{ "\"", "\"" }, { "[", "]" }, { "\\", "" }, { "(?#", ")a" } }) { ctxt x{ p.first, p.second }; x.literal = true; x.shield = "{M}"; cs.push_back(x); }

        auto fits = [](const ctxt& x, const def& d)
        {
            // Anchored definitions are put in without parentheses at the anchored end (as in flex).
            if ((d.bol || d.eol) && x.quant && (d.many || d.body.empty()) && ((d.bol && x.pre.empty()) || (d.eol && x.post.empty()))) return false;
            if ((d.bol || d.eol) && !x.shield.empty()) return false;
            // Text that stands for nothing before or after it: whether the reference is then at the start or end is left open.
            for (const char* e : { "\"\"", "(?#c)" }) if ((d.bol || d.eol) && (x.pre == e || x.post == e)) return false;
            return true;
        };
        // 1. One reference.
        for (auto& d : defs) for (auto& x : cs)
        {
            if (!c.next() || !fits(x, d) || (x.operand && d.one == "?")) continue;
            const std::string ref = x.pre + "{M}" + x.post;
            const std::string L = "[c]";
            auto sub = [&](std::string s) { for (std::size_t p; (p = s.find("{L}")) != std::string::npos; ) s.replace(p, 3, L); return s; };
            if (x.literal) { n.same({ { "L", "c" }, { "M", d.text } }, { ref }, { fill(x, d) }); continue; }
            if (x.operand && d.one.empty()) { n.rejects({ { "L", "c" }, { "M", d.text } }, ref, "has an operand that is not a single set"); continue; }
            n.same({ { "L", "c" }, { "M", d.text } }, { ref }, { sub(fill(x, d)) });
            n.same({ { "L", "c" }, { "M", d.text } }, { "a", ref, "[abc]+" }, { "a", sub(fill(x, d)), "[abc]+" });
            w.same({ { "L", "c" }, { "M", d.text } }, { ref }, { sub(fill(x, d)) });
            // The reference under other flags than the definition's is still the definition's meaning: the other way round.
            if (!d.bol && !d.eol && x.shield.empty() && !x.operand) n.same({ { "L", "c" }, { "M", "(?i:" + d.text + ")" } }, { ref }, { sub(fill(x, [&] { def e = d; e.body = "(?i:" + sub(d.text) + ")"; if (d.text.find("{L}") != std::string::npos) e.body = "(?i:" + [&] { std::string s = d.text; s.replace(s.find("{L}"), 3, "(?-i:c)"); return s; }() + ")"; return e; }())) });
        }
        // 2. Two references and macros of macros.
        std::vector<def> some;
        for (std::size_t i = 0; i < plain_defs; ++i) if (defs[i].text.find("{L}") == std::string::npos) some.push_back(defs[i]);
        for (auto& d : some) for (auto& e : some)
        {
            if (!c.next()) continue;
            n.same({ { "M", d.text }, { "K", e.text } }, { "{M}{K}" }, { "(" + d.text + ")(" + e.text + ")" });
            n.same({ { "M", d.text }, { "K", e.text } }, { "{M}|{K}c" }, { "(" + d.text + ")|(" + e.text + ")c" });
            n.same({ { "M", d.text }, { "K", e.text } }, { "({M}{K})+", "{K}" }, { "((" + d.text + ")(" + e.text + "))+", "(" + e.text + ")" });
            if (!d.one.empty() && !e.one.empty() && d.one != "?" && e.one != "?")
                for (const char* o : { "{-}", "{+}" })
                {
                    n.same({ { "M", d.text }, { "K", e.text } }, { std::string("{M}") + o + "{K}" }, { d.one + o + e.one });
                    n.same({ { "M", d.text }, { "K", std::string("{M}") + o + e.one } }, { "x{K}" }, { "x(" + d.one + o + e.one + ")" });
                    n.same({ { "M", d.text }, { "K", e.one + o + "{M}" } }, { "{K}" }, { e.one + o + d.one });
                }
        }
        for (auto& d : some) for (auto& x : cs) for (auto& y : cs)
        {
            if (!c.next() || x.literal || y.literal || (x.operand && (d.one.empty() || d.one == "?")) || y.operand) continue;
            // The middle macro, and the rule that uses it.
            const bool anchored = (!x.pre.empty() && x.pre[0] == '^') || (!x.post.empty() && x.post.back() == '$' );
            if (anchored) continue;
            const std::string mid = fill(x, d);
            def m; m.body = mid;
            std::string text = fill(y, m);
            if (y.shield == "(?-i:") text = y.pre + "(?-i:" + mid + ")" + y.post;
            n.same({ { "M", d.text }, { "N", x.pre + "{M}" + x.post } }, { y.pre + "{N}" + y.post }, { text });
        }
        // 3. Names.
        for (const char* name : { "a", "Z", "_", "a-b", "a_1", "A9-", "__", "INITIAL", "digit", "p" })
            if (c.next()) { n.same({ { name, "a|b" } }, { std::string("x{") + name + "}" }, { "x(a|b)" }); }
        for (const char* name : { "", "1", "-a", "a b", "a.", "{", "a}", "a,", "*", "9a", "a\x80" })
            if (c.next())
            {
                c.describe(std::string("macro name ") + name);
                lexertl::rules r(FLAGS);
                bool threw = false;
                try { r.insert_macro(name, "a"); } catch (const lexertl::runtime_error&) { threw = true; }
                ++c.traces; ++c.transitions;
                if (!threw) c.fail("name", std::string("macro name \"") + mc::esc(name) + "\" is accepted");
                if (!r.macros().empty()) c.fail("name", std::string("macro name \"") + mc::esc(name) + "\" is rejected but left behind");
            }
        // 3b. Every sequence of references, sets, operators and repeats up to the bound, sensible or not.
        {
            const std::vector<std::pair<std::string, std::string>> items{ { "{M}", "(ab)" }, { "{S}", "[ab]" }, { "{R}", "(c*)" }, { "[a-c]", "[a-c]" }, { "b", "b" }, { "{-}", "{-}" }, { "{+}", "{+}" }, { "(", "(" }, { ")", ")" }, { "|", "|" }, { "*", "*" }, { "\"ab\"", "\"ab\"" } };
            const std::size_t depth = T ? 6 : 5;
            for (std::size_t l = 1; l <= depth; ++l)
            {
                std::vector<std::size_t> ix(l, 0);
                for (;;)
                {
                    if (c.next())
                        for (ix[l - 1] = 0; ix[l - 1] < items.size(); ++ix[l - 1])
                        {
                            std::string ref, plain;
                            for (auto i : ix) { ref += items[i].first; plain += items[i].second; }
                            n.same({ { "M", "ab" }, { "S", "[ab]" }, { "R", "c*" } }, { ref }, { plain });
                        }
                    ix[l - 1] = 0;
                    std::size_t k = l - 1;
                    while (k && ++ix[k - 1] == items.size()) ix[--k] = 0;
                    if (!k) break;
                }
            }
        }
        // 4. Every sequence of definitions and rules up to the bound.
        {
            const std::vector<std::string> texts{ "a", "{A}b", "{B}|c", "{A}{-}[b]", "*", "[a", "\"\"", "(a|b", "{C}", "{B}{2,1}" };
            const std::vector<std::string> uses{ "{A}", "x{B}", "{B}*y{A}", "z(" };
            struct op { int kind; std::string name, text; };
            std::vector<op> ops;
            for (auto& t : texts) for (const char* nm : { "A", "B" }) ops.push_back({ 0, nm, t });
            for (auto& u : uses) ops.push_back({ 1, "", u });
            ops.push_back({ 0, "1", "a" });
            const std::size_t depth = T ? 5 : 4;
            for (std::size_t l = 1; l <= depth; ++l)
            {
                std::vector<std::size_t> ix(l, 0);
                for (;;)
                {
                    // One case per choice of all but the last operation.
                    if (c.next())
                        for (ix[l - 1] = 0; ix[l - 1] < ops.size(); ++ix[l - 1])
                        {
                            std::map<std::string, std::string> known;      // name -> text written out
                            std::map<std::string, bool> single;
                            std::vector<std::string> model;
                            lexertl::rules r(FLAGS), q(FLAGS);
                            std::string d;
                            for (auto i : ix)
                            {
                                const op& o = ops[i];
                                d += o.kind ? "rule " + o.text + "; " : o.name + " = " + o.text + "; ";
                                // What the text stands for, if it is one.
                                std::string s = o.text;
                                bool ok = o.name != "1" && !(o.kind == 0 && known.count(o.name));
                                bool one = s == "a" || s == "{A}{-}[b]";
                                for (const char* nm : { "A", "B", "C" })
                                {
                                    const std::string ref = std::string("{") + nm + "}";
                                    for (std::size_t p; (p = s.find(ref)) != std::string::npos; )
                                    {
                                        if (!known.count(nm)) { ok = false; break; }
                                        if (o.text == "{A}{-}[b]" && !single[nm]) ok = false;
                                        s.replace(p, 3, o.text == "{A}{-}[b]" ? known[nm] : "(" + known[nm] + ")");
                                    }
                                }
                                if (s.find_first_of("[*(\"") == 0 && (o.text == "*" || o.text == "[a" || o.text == "\"\"" || o.text == "(a|b")) ok = false;
                                if (o.text == "{B}{2,1}" || o.text == "z(") ok = false;
                                c.describe(d);
                                bool threw = false;
                                std::string err;
                                try
                                {
                                    if (o.kind == 1) r.push(o.text, static_cast<lexertl::rules::id_type>(model.size() + 1));
                                    else if (i % 3 == 0) r.insert_macro(o.name.c_str(), o.text.c_str());
                                    else if (i % 3 == 1) r.insert_macro(o.name.c_str(), o.text.c_str(), o.text.c_str() + o.text.size());
                                    else r.insert_macro(o.name.c_str(), o.text);
                                }
                                catch (const lexertl::runtime_error& e) { threw = true; err = e.what(); }
                                ++c.transitions;
                                if (threw == ok) { c.fail("sequence", d + (threw ? "rejected: " + err : "accepted") + ", expected the opposite"); return; }
                                if (threw) continue;
                                if (o.kind == 1) model.push_back(s); else { known[o.name] = s; single[o.name] = one; }
                            }
                            ++c.traces;
                            c.state(mc::hash(d.data(), d.size()));
                            if (r.macros().size() != known.size()) { c.fail("sequence", d + "leaves " + std::to_string(r.macros().size()) + " macros"); return; }
                            if (model.empty()) { if (!r.empty()) c.fail("sequence", d + "leaves a rule"); continue; }
                            lexertl::state_machine x, y;
                            lexertl::rules::id_type id = 1;
                            for (auto& m : model) q.push(m, id++);
                            const auto e1 = lab<char>::build(r, x), e2 = lab<char>::build(q, y);
                            if (e1.has_value() != e2.has_value()) { c.fail("sequence", d + "builds differently from the rules written out: " + e1.value_or("ok") + " / " + e2.value_or("ok")); return; }
                            if (e1) continue;
                            const mac::table<char, lexertl::state_machine::traits::id_type> u(x), v(y);
                            const auto diff = mac::compare(c, u, v, n.alphabet, "the machine with macros", "the machine written out");
                            if (!diff.empty()) { c.fail("sequence", d + diff); return; }
                        }
                    ix[l - 1] = 0;
                    std::size_t k = l - 1;
                    while (k && ++ix[k - 1] == ops.size()) ix[--k] = 0;
                    if (!k) break;
                }
            }
        }
    });
}
