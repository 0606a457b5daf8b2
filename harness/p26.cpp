// P26: debug dumps.
#include "machine.hpp"
#include "sets.hpp"
#include "wide.hpp"
#include <lexertl/debug.hpp>
#include <lexertl/dot.hpp>
#include <locale>
using namespace ref;
using wide::u32;
using wide::cset;

// The C++ library comes without a ctype facet for char32_t, which std::endl and narrow literals need.
namespace std
{
    template<> ctype<char32_t>::~ctype() {}
    template<> bool ctype<char32_t>::do_is(mask, char32_t) const { return false; }
    template<> const char32_t* ctype<char32_t>::do_is(const char32_t*, const char32_t* h, mask*) const { return h; }
    template<> const char32_t* ctype<char32_t>::do_scan_is(mask, const char32_t*, const char32_t* h) const { return h; }
    template<> const char32_t* ctype<char32_t>::do_scan_not(mask, const char32_t* l, const char32_t*) const { return l; }
    template<> char32_t ctype<char32_t>::do_toupper(char32_t c) const { return c; }
    template<> const char32_t* ctype<char32_t>::do_toupper(char32_t*, const char32_t* h) const { return h; }
    template<> char32_t ctype<char32_t>::do_tolower(char32_t c) const { return c; }
    template<> const char32_t* ctype<char32_t>::do_tolower(char32_t*, const char32_t* h) const { return h; }
    template<> char32_t ctype<char32_t>::do_widen(char c) const { return static_cast<unsigned char>(c); }
    template<> const char* ctype<char32_t>::do_widen(const char* l, const char* h, char32_t* d) const { while (l < h) *d++ = static_cast<unsigned char>(*l++); return h; }
    template<> char ctype<char32_t>::do_narrow(char32_t c, char d) const { return c < 128 ? static_cast<char>(c) : d; }
    template<> const char32_t* ctype<char32_t>::do_narrow(const char32_t* l, const char32_t* h, char d, char* t) const { while (l < h) { *t++ = *l < 128 ? static_cast<char>(*l) : d; ++l; } return h; }
}

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;

// The characters of a printed class, by the documented syntax. Anything but one class is refused.
struct reader
{
    const std::string& s;
    u32 max;
    std::size_t i = 0;
    bool bad = false;
    u32 one()
    {
        if (i >= s.size()) { bad = true; return 0; }
        const unsigned char c = s[i++];
        if (c != '\\') return c;
        if (i >= s.size()) { bad = true; return 0; }
        const unsigned char e = s[i++];
        if (e >= '0' && e <= '7')
        {
            u32 v = e - '0';
            for (int k = 0; k < 2 && i < s.size() && s[i] >= '0' && s[i] <= '7'; ++k) v = v * 8 + (s[i++] - '0');
            return v;
        }
        switch (e)
        {
        case 'a': return 7; case 'b': return 8; case 'f': return 12; case 'n': return 10; case 'r': return 13; case 't': return 9; case 'v': return 11; case 'e': return 27;
        case 'x':
        {
            std::uint64_t v = 0;
            int k = 0;
            for (; i < s.size() && std::isxdigit(static_cast<unsigned char>(s[i])); ++k)
            {
                v = v * 16 + (std::isdigit(static_cast<unsigned char>(s[i])) ? s[i] - '0' : (s[i] | 32) - 'a' + 10);
                if (v > max) bad = true;
                ++i;
            }
            if (!k) bad = true;
            return static_cast<u32>(v);
        }
        default:
            if (std::isalnum(e)) bad = true;
            return e;
        }
    }
    bool read(cset& o)
    {
        bool neg = false;
        if (!s.empty() && s[0] == '[')
        {
            ++i;
            if (i < s.size() && s[i] == '^') { neg = true; ++i; }
            bool first = true;
            for (;; first = false)
            {
                if (i >= s.size()) return false;
                if (s[i] == ']' && !first) { ++i; break; }
                if (s[i] == '[' && i + 1 < s.size() && s[i + 1] == ':') return false;
                const u32 a = one();
                u32 b = a;
                if (i + 1 < s.size() && s[i] == '-' && s[i + 1] != ']') { ++i; b = one(); }
                if (bad || b < a) return false;
                o.add(a, b);
            }
        }
        else
        {
            if (s.empty() || std::strchr("|()?*+{}[].$^\"", s[0])) return false;
            const u32 a = one();
            o.add(a, a);
        }
        if (bad || i != s.size()) return false;
        o.norm();
        if (neg) o = wide::negate(o, max);
        return true;
    }
};

// What a graph label shows: the text without its entities and its second level of backslashes.
static bool unlabel(const std::string& s, std::string& o)
{
    for (std::size_t i = 0; i < s.size(); )
    {
        if (s[i] == '<' || s[i] == '>') return false;
        if (s[i] == '&')
        {
            bool ok = false;
            for (auto& [e, c] : { std::pair<std::string, char>{ "&lt;", '<' }, { "&gt;", '>' }, { "&amp;", '&' }, { "&quot;", '"' } })
                if (!ok && !s.compare(i, e.size(), e)) { o += c; i += e.size(); ok = true; }
            if (!ok) return false;
            continue;
        }
        if (s[i] == '\\')
        {
            if (i + 1 >= s.size() || s[i + 1] != '\\') return false;
            ++i;
        }
        o += s[i++];
    }
    return true;
}

template<typename ch, typename idt>
struct kit
{
    using rules_t = lexertl::basic_rules<ch, ch, idt>;
    using sm_t = lexertl::basic_state_machine<ch, idt>;
    using csm_t = lexertl::basic_char_state_machine<ch, idt>;
    using debug_t = lexertl::basic_debug<sm_t, ch, idt>;
    using dot_t = lexertl::basic_dot<sm_t, ch, idt>;
    using token = typename csm_t::string_token;
    using str = std::basic_string<ch>;
    static constexpr u32 max() { return sizeof(ch) == 1 ? 0xffu : sizeof(ch) == 2 ? 0xffffu : 0x10ffffu; }
    static constexpr idt NP = static_cast<idt>(~idt(0));

    static std::string narrow(mc::ctx& c, const str& s)
    {
        std::string o;
        for (auto x : s)
        {
            if (static_cast<u32>(x) > 126) c.fail("characters", "the dump contains a character outside ASCII");
            o += static_cast<char>(x);
        }
        return o;
    }
    template<typename F>
    static std::string text(mc::ctx& c, F f)
    {
        std::basic_ostringstream<ch> o;
        f(o);
        if (!o.good()) c.fail("stream", "the dump left the stream in a failed state");
        return narrow(c, o.str());
    }
    static cset of(const token& t)
    {
        cset o;
        for (auto& r : t._ranges) o.add(static_cast<u32>(r.first), static_cast<u32>(r.second));
        o.norm();
        return o;
    }
    static token back(const cset& s)
    {
        token t;
        for (auto& r : s.r) t._ranges.push_back({ static_cast<typename token::index_type>(r.first), static_cast<typename token::index_type>(r.second) });
        return t;
    }

    // Reading a textual dump; names: the lexer states as printed.
    static bool number(const std::string& s, std::size_t& i, unsigned long long& v)
    {
        const std::size_t b = i;
        v = 0;
        while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) v = v * 10 + (s[i++] - '0');
        return i > b;
    }
    static bool eat(const std::string& s, std::size_t& i, const char* w)
    {
        const std::size_t n = std::strlen(w);
        if (s.compare(i, n, w)) return false;
        i += n;
        return true;
    }
    static csm_t parse(mc::ctx& c, const std::string& dump, std::vector<std::string>& names)
    {
        csm_t m;
        std::istringstream in(dump);
        std::string l;
        auto bad = [&](const std::string& why) { c.fail("format", "the textual dump has the line \"" + mc::esc(l) + "\" (" + why + ")\n" + dump); };
        typename csm_t::state* st = nullptr;
        while (std::getline(in, l))
        {
            std::size_t i = 0;
            unsigned long long v = 0;
            auto num = [&]() { if (!number(l, i, v) || v > NP) bad("number expected"); return static_cast<idt>(v); };
            auto end = [&]() { if (i != l.size()) bad("end of line expected"); };
            if (l.empty()) continue;
            if (eat(l, i, "Lexer state: ")) { names.push_back(l.substr(i)); m._sm_vector.emplace_back(0); st = nullptr; continue; }
            if (m._sm_vector.empty()) bad("before any lexer state");
            auto& d = m._sm_vector.back();
            if (eat(l, i, "State: "))
            {
                if (num() != d._states.size()) bad("row out of order");
                d._states.emplace_back();
                st = &d._states.back();
                end();
                continue;
            }
            if (!st) bad("before any row");
            if (eat(l, i, "  END STATE"))
            {
                if (st->_end_state) bad("a second end marker");
                st->_end_state = true;
                if (eat(l, i, ", PUSH ")) { st->_push_pop_dfa = csm_t::state::push_pop_dfa::push_dfa; st->_push_dfa = num(); }
                else if (eat(l, i, ", POP")) st->_push_pop_dfa = csm_t::state::push_pop_dfa::pop_dfa;
                if (!eat(l, i, ", Id = ")) bad("Id expected");
                st->_id = num();
                if (!eat(l, i, ", User Id = ")) bad("User Id expected");
                st->_user_id = num();
                if (!eat(l, i, ", dfa = ")) bad("dfa expected");
                st->_next_dfa = num();
                end();
                continue;
            }
            if (eat(l, i, "  BOL -> ")) { if (d._bol_index != NP) bad("a second line start"); d._bol_index = num(); end(); continue; }
            if (eat(l, i, "  EOL -> ")) { if (st->_eol_index != NP) bad("a second line end"); st->_eol_index = num(); end(); continue; }
            const auto p = l.rfind(" -> ");
            if (l.compare(0, 2, "  ") || p == std::string::npos || p < 2) bad("no transition");
            const std::string cl = l.substr(2, p - 2);
            i = p + 4;
            const idt to = num();
            end();
            cset s;
            reader r{ cl, max() };
            if (!r.read(s)) bad("unreadable class");
            if (st->_transitions.count(to)) bad("a second transition to the same row");
            st->_transitions[to] = back(s);
        }
        return m;
    }
    static std::string line(const typename csm_t::state& s)
    {
        std::ostringstream o;
        o << s._end_state << " action " << int(s._push_pop_dfa) << " id " << +s._id << " uid " << +s._user_id << " push " << +s._push_dfa << " next " << +s._next_dfa << " eol " << +s._eol_index;
        for (auto& t : s._transitions) o << " {" << of(t.second).show() << "}->" << +t.first;
        return o.str();
    }
    static void equal(mc::ctx& c, const csm_t& got, const csm_t& want, const std::string& what, const std::string& dump)
    {
        ++c.traces;
        if (got._sm_vector.size() != want._sm_vector.size()) c.fail("differs", what + " lists " + std::to_string(got._sm_vector.size()) + " lexer states\n" + dump);
        for (std::size_t d = 0; d < want._sm_vector.size(); ++d)
        {
            auto& x = got._sm_vector[d];
            auto& y = want._sm_vector[d];
            if (x._bol_index != y._bol_index || x.size() != y.size()) c.fail("differs", what + ": rows or line start of lexer state " + std::to_string(d) + " differ\n" + dump);
            for (std::size_t i = 0; i < y.size(); ++i)
            {
                auto w = y._states[i];
                if (!w._end_state)
                {
                    // Nothing is said of these for other rows.
                    const typename csm_t::state blank;
                    w._push_pop_dfa = blank._push_pop_dfa; w._id = blank._id; w._user_id = blank._user_id; w._push_dfa = blank._push_dfa; w._next_dfa = blank._next_dfa;
                }
                if (w._push_pop_dfa != csm_t::state::push_pop_dfa::push_dfa) w._push_dfa = NP;
                if (line(x._states[i]) != line(w)) c.fail("differs", what + " says of row " + std::to_string(i) + " of lexer state " + std::to_string(d) + ": " + line(x._states[i]) + "; the machine has " + line(w) + "\n" + dump);
                ++c.states;
                c.transitions += w._transitions.size();
            }
        }
    }

    // Reading a graph.
    static void graph(mc::ctx& c, const csm_t& m, const std::vector<std::string>& names, const std::string& dump)
    {
        std::map<std::string, std::string> nodes;
        std::map<std::pair<std::string, std::string>, cset> edges;
        std::set<std::pair<std::string, std::string>> dashed;
        std::istringstream in(dump);
        std::string l;
        auto bad = [&](const std::string& why) { c.fail("format", "the graph has the line \"" + mc::esc(l) + "\" (" + why + ")\n" + dump); };
        int stage = 0;
        const std::string open = " [label = <<TABLE BORDER=\"0\" CELLBORDER=\"0\"><TR><TD>", close = "</TD></TR></TABLE>>];";
        while (std::getline(in, l))
        {
            if (l.empty()) continue;
            if (stage == 2) bad("after the end");
            if (!stage) { if (l != "digraph DFAs {") bad("header expected"); stage = 1; continue; }
            if (l == "}") { stage = 2; continue; }
            if (l == "    rankdir = LR;") continue;
            if (l.compare(0, 4, "    ")) bad("indent");
            const auto sp = l.find(' ', 4);
            if (sp == std::string::npos) bad("node expected");
            const std::string a = l.substr(4, sp - 4);
            if (!l.compare(sp, 4, " -> "))
            {
                const auto sp2 = l.find(' ', sp + 4);
                if (sp2 == std::string::npos) bad("target expected");
                const std::string b = l.substr(sp + 4, sp2 - sp - 4), rest = l.substr(sp2);
                if (rest == " [style = \"dashed\"];") { if (!dashed.insert({ a, b }).second) bad("twice"); continue; }
                if (rest.size() < open.size() + close.size() || rest.compare(0, open.size(), open) || rest.compare(rest.size() - close.size(), close.size(), close)) bad("label expected");
                std::string cl;
                if (!unlabel(rest.substr(open.size(), rest.size() - open.size() - close.size()), cl)) bad("the label is not well-formed");
                cset s;
                reader r{ cl, max() };
                if (!r.read(s)) bad("unreadable class");
                if (!edges.insert({ { a, b }, s }).second) bad("twice");
                continue;
            }
            if (!nodes.insert({ a, l.substr(sp) }).second) bad("twice");
        }
        ++c.traces;
        if (stage != 2) c.fail("format", "the graph is not closed\n" + dump);
        auto node = [](std::size_t d, std::size_t i) { return "L" + std::to_string(d) + "_S" + std::to_string(i); };
        std::size_t n = 0, e = 0, ds = 0;
        for (std::size_t d = 0; d < m._sm_vector.size(); ++d) for (std::size_t i = 0; i < m._sm_vector[d].size(); ++i)
        {
            auto& s = m._sm_vector[d]._states[i];
            const std::string want = i == 0 ? " [shape = circle, xlabel=\"" + names[d] + "\"];" : s._end_state ? " [shape = doublecircle, xlabel=\"id = " + std::to_string(s._id) + "\"];" : " [shape = circle];";
            const auto it = nodes.find(node(d, i));
            if (it == nodes.end() || it->second != want) c.fail("graph", "node " + node(d, i) + " is " + (it == nodes.end() ? "missing" : it->second) + ", expected" + want + "\n" + dump);
            ++n;
            for (auto& t : s._transitions)
            {
                const auto x = edges.find({ node(d, i), node(d, t.first) });
                if (x == edges.end() || !(x->second == of(t.second))) c.fail("graph", "the edge from " + node(d, i) + " to " + node(d, t.first) + " shows " + (x == edges.end() ? "nothing" : x->second.show()) + ", expected " + of(t.second).show() + "\n" + dump);
                ++e;
            }
            if (s._end_state && m._sm_vector.size() > 1 && s._push_pop_dfa != csm_t::state::push_pop_dfa::pop_dfa)
            {
                if (!dashed.count({ node(d, i), node(s._next_dfa, 0) })) c.fail("graph", "no edge from " + node(d, i) + " to the lexer state that follows\n" + dump);
                ++ds;
            }
        }
        if (n != nodes.size() || e != edges.size() || ds != dashed.size()) c.fail("graph", "the graph has " + std::to_string(nodes.size()) + " nodes, " + std::to_string(edges.size()) + " edges and " + std::to_string(dashed.size()) + " dashed edges, expected " + std::to_string(n) + ", " + std::to_string(e) + " and " + std::to_string(ds) + "\n" + dump);
    }

    static std::string name(std::size_t i) { return i == 0 ? "INITIAL" : "S" + std::to_string(i); }
    static void machine(mc::ctx& c, rules_t& r, const std::vector<std::uint32_t>& alphabet, const std::vector<std::string>& names)
    {
        csm_t m;
        lexertl::basic_generator<rules_t, csm_t>::build(r, m);
        std::vector<std::string> numbers;
        for (std::size_t i = 0; i < names.size(); ++i) numbers.push_back(std::to_string(i));
        auto both = [&](const csm_t& want, const std::string& plain, const std::string& named, const std::string& what)
        {
            std::vector<std::string> n1, n2;
            equal(c, parse(c, plain, n1), want, "the dump of " + what, plain);
            equal(c, parse(c, named, n2), want, "the dump with names of " + what, named);
            if (n1 != numbers) c.fail("names", "the dump of " + what + " numbers the lexer states differently\n" + plain);
            if (n2 != names) c.fail("names", "the dump of " + what + " names the lexer states differently\n" + named);
        };
        both(m, text(c, [&](auto& o) { debug_t::dump(m, o); }), text(c, [&](auto& o) { debug_t::dump(m, r, o); }), "the character machine");
        graph(c, m, names, text(c, [&](auto& o) { dot_t::dump(m, r, o); }));
        sm_t t;
        lexertl::basic_generator<rules_t, sm_t>::build(r, t);
        const std::string a = text(c, [&](auto& o) { debug_t::dump(t, o); }), b = text(c, [&](auto& o) { debug_t::dump(t, r, o); });
        std::vector<std::string> n;
        const csm_t p = parse(c, a, n);
        if (n != numbers) c.fail("names", "the dump of the table machine numbers the lexer states differently\n" + a);
        both(p, a, b, "the table machine");
        for (std::size_t d = 0; d < p._sm_vector.size(); ++d)
            if (p._sm_vector[d].size() != mac::table<ch, idt>(t).rows(d)) c.fail("differs", "the dump of the table machine does not list every row\n" + a);
        if constexpr (sizeof(ch) == 1)
        {
            const auto why = mac::compare(c, mac::table<ch, idt>(t), mac::chars<ch, idt>(p), alphabet, "the table machine", "its dump");
            if (!why.empty()) c.fail("differs", why + "\n" + a);
        }
        else
        {
            const auto why = mac::compare(c, mac::byte_table<ch, idt>(t), mac::chars<ch, idt>(p), mac::bytes(), "the table machine (by bytes)", "its dump", true);
            if (!why.empty()) c.fail("differs", why + "\n" + a);
        }
        graph(c, p, names, text(c, [&](auto& o) { dot_t::dump(t, r, o); }));
        c.outcome(std::to_string(m._sm_vector[0].size()) + ',' + std::to_string(p._sm_vector[0].size()));
        reread(c, r, t, names, alphabet);
    }

    // The dump of the rules themselves, read back into another rule set.
    static void reread(mc::ctx& c, rules_t& r, const sm_t& want, const std::vector<std::string>& names, const std::vector<std::uint32_t>& alphabet)
    {
        const std::string dump = text(c, [&](auto& o) { debug_t::dump(r, o); });
        auto bad = [&](const std::string& why) { c.fail("rules", "the dump of the rules " + why + "\n" + dump); };
        std::vector<std::string> lines;
        { std::istringstream in(dump); std::string l; while (std::getline(in, l)) lines.push_back(l); }
        rules_t n(FLAGS);
        std::size_t at = 0;
        auto w = [](const std::string& s) { return lc::widen<ch>(s); };
        auto index = [&](const std::string& s) { const auto i = std::find(names.begin(), names.end(), s); if (i == names.end()) bad("refers to an unknown state"); return static_cast<idt>(i - names.begin()); };
        if (names.size() > 1)
        {
            std::string x = "%x";
            for (std::size_t i = 1; i < names.size(); ++i) { x += ' ' + names[i]; n.push_state(w(names[i]).c_str()); }
            if (at >= lines.size() || lines[at++] != x) bad("does not declare the states");
        }
        if (at >= lines.size() || lines[at++] != "%%") bad("has no separator before the macros");
        try
        {
            for (; at < lines.size() && lines[at] != "%%"; ++at)
            {
                const auto sp = lines[at].find(' ');
                if (sp == std::string::npos) bad("has a macro without a definition");
                n.insert_macro(w(lines[at].substr(0, sp)).c_str(), w(lines[at].substr(sp + 1)).c_str());
            }
            if (at >= lines.size()) bad("has no separator after the macros");
            std::vector<std::size_t> count(names.size());
            for (++at; at < lines.size() && lines[at] != "%%"; ++at)
            {
                std::string l = lines[at];
                std::string state = "INITIAL";
                for (auto& s : names) if (!l.compare(0, s.size() + 2, '<' + s + '>')) { state = s; l.erase(0, s.size() + 2); break; }
                const auto p = l.rfind(" {");
                if (p == std::string::npos || p == 0) bad("has a rule without an action");
                const std::string regex = l.substr(0, p);
                std::string a = l.substr(p + 2);
                // What the action does to the state and the stack, step by step.
                const idt from = index(state);
                idt cur = from, push = NP, id = 0;
                bool pop = false;
                std::size_t i = 0;
                auto arg = [&]() { const auto e = a.find(");", i); if (e == std::string::npos) bad("has an unreadable action"); const idt v = index(a.substr(i, e - i)); i = e + 2; return v; };
                while (i < a.size() && a.compare(i, std::string::npos, " }"))
                {
                    unsigned long long v = 0;
                    if (eat(a, i, " BEGIN(")) cur = arg();
                    else if (eat(a, i, " yy_push_state(")) { push = cur; cur = arg(); }
                    else if (eat(a, i, " yy_pop_state(); ")) pop = true;
                    else if (eat(a, i, " return ") && number(a, i, v) && eat(a, i, ";")) id = static_cast<idt>(v);
                    else bad("has an unreadable action: " + a);
                }
                if (i >= a.size()) bad("has an action that is not closed");
                const std::size_t k = count[from]++;
                auto expect = [&](const char* what, unsigned long long got, unsigned long long w) { if (got != w) bad("gives rule " + std::to_string(k) + " of " + names[from] + " the wrong " + what); };
                if (k >= r.ids()[from].size()) bad("has too many rules");
                expect("id", id, r.ids()[from][k]);
                expect("pop", pop, r.pops()[from][k]);
                expect("push", push, r.pushes()[from][k]);
                if (!pop) expect("state", cur, r.next_dfas()[from][k]);
                std::string exit = pop ? "<" : push != NP ? ">" + names[cur] + ":" + names[push] : names[cur];
                if (id) n.push(w(names[from]).c_str(), w(regex), id, w(exit).c_str());
                else n.push(w(names[from]).c_str(), w(regex), w(exit).c_str());
            }
            if (at + 1 != lines.size()) bad("has no separator after the rules");
            for (std::size_t i = 0; i < names.size(); ++i) if (count[i] != r.ids()[i].size()) bad("lacks rules");
        }
        catch (const lexertl::runtime_error& e)
        {
            c.fail("rules", std::string("the dumped rules are refused: ") + e.what() + "\n" + dump);
        }
        sm_t m;
        lexertl::basic_generator<rules_t, sm_t>::build(n, m);
        // User ids are not part of the dump.
        struct no_uid : mac::table<ch, idt>
        {
            using mac::table<ch, idt>::table;
            mac::attr at(std::size_t d, std::uint32_t r) const { auto a = mac::table<ch, idt>::at(d, r); a.uid = 0; return a; }
        };
        const auto why = mac::compare(c, no_uid(want), no_uid(m), alphabet, "the machine", "the machine of the dumped rules");
        if (!why.empty()) c.fail("rules", why + "\n" + dump);
    }

    // One character set: printed and read back by the reader above, by the graph, and by the library.
    static void set(mc::ctx& c, const cset& s)
    {
        csm_t m;
        m._sm_vector.emplace_back(2);
        m._sm_vector[0]._states[0]._transitions[1] = back(s);
        m._sm_vector[0]._states[1]._end_state = true;
        m._sm_vector[0]._states[1]._id = 1;
        const std::string d = text(c, [&](auto& o) { debug_t::dump(m, o); });
        std::vector<std::string> names;
        equal(c, parse(c, d, names), m, "the dump of the set " + s.show(), d);
        rules_t none(FLAGS);
        graph(c, m, { "INITIAL" }, text(c, [&](auto& o) { dot_t::dump(m, none, o); }));
        const auto p = d.find("\n  ") + 3, q = d.find(" -> 1\n");
        const std::string cl = d.substr(p, q - p);
        rules_t r(FLAGS);
        try { r.push(lc::widen<ch>(cl), 1); }
        catch (const lexertl::runtime_error& e) { c.fail("read", "the dumped class " + cl + " is refused as a regex: " + e.what()); }
        auto& t = r.regexes()[0][0];
        if (r.regexes()[0].size() != 1 || t.size() != 3 || t[1]._type != lexertl::detail::token_type::CHARSET || !(of(t[1]._str) == s))
            c.fail("read", "the dumped class " + cl + " is read by the library as " + (t.size() > 1 ? of(t[1]._str).show() : std::string("nothing")) + " instead of " + s.show());
        c.outcome(cl.substr(0, 3));
        ++c.states;
    }
    static void sets(mc::ctx& c)
    {
        std::vector<u32> u;
        for (unsigned char x : std::string("\x01\x07\x0a\x0b\x0f\x1b\x1f !\"$&'()*+,-./0178:;<=>?@ABFG[\\]^_`abefgnx{|}~\x7f\x80", 58)) u.push_back(x);
        u.insert(u.begin(), 0);
        u.push_back(0xff);
        if (sizeof(ch) > 1) u.insert(u.end(), { 0x100, 0x1b2, 0xfff, 0xd800, 0xffff });
        if (sizeof(ch) > 2) u.insert(u.end(), { 0x10000, 0x10fffe, 0x10ffff });
        auto both = [&](cset s)
        {
            s.norm();
            for (int neg = 0; neg < 2; ++neg)
            {
                if (!s.empty() && c.next())
                {
                    c.describe((sizeof(ch) == 1 ? "8" : sizeof(ch) == 2 ? "16" : "32") + std::string("-bit set ") + s.show());
                    if (c.want_sample()) c.sample(s.show() + " dumped and read back");
                    set(c, s);
                }
                s = wide::negate(s, max());
            }
        };
        const std::size_t n = u.size();
        // up to three ranges with consecutive end points of the universe
        for (std::size_t a = 0; a < n; ++a) for (std::size_t b = a; b < n; ++b)
        {
            both(wide::range(u[a], u[b]));
            for (std::size_t e = b + 1; e < n; ++e)
            {
                cset s = wide::range(u[a], u[b]);
                s.add(u[e], u[e]);
                both(s);
                if (c.thorough || b - a < 2) for (std::size_t f = e + 1; f < n; f += c.thorough ? 1 : 2)
                {
                    cset x = wide::range(u[a], u[b]);
                    x.add(u[e], u[f]);
                    both(x);
                    if (b - a < 2) { cset y = s; y.add(u[f], u[f]); both(y); }
                    if (c.thorough && f + 1 < n) { cset y = x; y.add(u[f + 1], u[f + 1]); both(y); }
                }
            }
        }
        // Sets that touch the greatest characters
        both(wide::range(0, max()));
        both(wide::range(max(), max()));
        both(wide::range(0, max() / 2));
        both(wide::range(0, max() / 2 + 1));
    }
};

int main(int argc, char** argv)
{
    std::locale::global(std::locale(std::locale(), new std::ctype<char32_t>));
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto narrow = mac::bytes();
        const std::vector<std::uint32_t> wide{ 'a', 'b', 'c', '\r', '\n', 0, 0xff, 0x100, 0x0a0a, 0x0d0a, 0x6161, 0xffff, 0x10000, 0x10ffff };
        // Rule sets
        sets::each(T ? 2 : 1, [&](const std::vector<rules>& st)
        {
            if (!sets::usable(st) || !c.next()) return;
            c.describe(lc::show(st));
            if (c.want_sample()) c.sample(lc::show(st) + "dumped as text, graph and rules and read back");
            std::vector<std::string> names;
            for (std::size_t i = 0; i < st.size(); ++i) names.push_back(i ? "S" + std::to_string(i) : "INITIAL");
            auto go = [&](auto k, const std::vector<std::uint32_t>& alphabet)
            {
                using K = decltype(k);
                typename K::rules_t r(FLAGS);
                lc::push(r, st);
                names.clear();
                for (std::size_t i = 0; i < st.size(); ++i) names.push_back(K::narrow(c, r.state(static_cast<typename K::rules_t::id_type>(i))));
                K::machine(c, r, alphabet, names);
            };
            go(kit<char, std::uint16_t>(), narrow);
            go(kit<wchar_t, std::uint16_t>(), wide);
            go(kit<char32_t, std::uint32_t>(), wide);
            bool fits = true;
            for (auto& s : st) for (auto& x : s) fits = fits && x.id != SKIP;
            if (fits) go(kit<char, std::uint8_t>(), narrow);
        });
        // Regexes with structure the catalogue lacks, also through macros
        {
            const std::vector<std::string> parts{ "a", "(a|b)", "a{2}", "a{2,}", "a{2,3}", "(ab)*", "(a|bc)+", "a??", "(ab)*?", "b+?", "a{1,2}?", "(?i:a)", "[^a]", "\\x1", "\\0", "b", "1", "\\\"", "\"[]\"", "\\$", "\\^", "-", " ", "\\n", "(a(b|c)?)", "(?s:.)", ".", "\\/", "\\{", "[\\]]", "[\\x1b]", "," };
            for (auto& x : parts) for (auto& y : parts) for (auto& z : parts) for (int f = 0; f < 4; ++f)
            {
                if (!T && f && &z != &parts[15]) continue;
                if (!c.next()) continue;
                const std::string re = std::string(f & 1 ? "^" : "") + x + y + z + (f & 2 ? "$" : "");
                c.describe("\"" + mc::esc(re) + "\"");
                lexertl::rules r(FLAGS);
                try { r.push(re, 1); } catch (const lexertl::runtime_error&) { c.count("not_rules"); continue; }
                try { lexertl::state_machine m; lexertl::generator::build(r, m); } catch (const lexertl::runtime_error&) { c.count("not_rules"); continue; }
                kit<char, std::uint16_t>::machine(c, r, narrow, { "INITIAL" });
            }
            const std::vector<std::string> defs{ "a", "ab", "a|b", "[a-c]", "(ab)*a", "a{2}", "\\x1", "a*", "a(b|c)", "\\0", "^a", "a$", "^ab", "ab$", "^" };
            const std::vector<std::string> uses{ "{X}", "{X}c", "c{X}", "{X}{X}", "({X}|c)d", "{X}*c", "{X}{2}", "aab{X}", "{X}{Y}", "{Y}|{X}", "({X})b", "{X}1" };
            for (auto& x : defs) for (auto& y : defs) for (auto& u : uses) for (auto& v : uses)
            {
                if (!c.next()) continue;
                c.describe("X=" + x + " Y=" + y + " \"" + u + "\" \"" + v + "\"");
                lexertl::rules r(FLAGS);
                r.insert_macro("X", x);
                r.insert_macro("Y", y);
                try { r.push(u, 1); r.push(v, 2); lexertl::state_machine m; lexertl::generator::build(r, m); }
                catch (const lexertl::runtime_error&) { c.count("not_rules"); continue; }
                kit<char, std::uint16_t>::machine(c, r, narrow, { "INITIAL" });
            }
        }
        kit<char, std::uint16_t>::sets(c);
        kit<wchar_t, std::uint16_t>::sets(c);
        kit<char32_t, std::uint16_t>::sets(c);
    });
}
