// P24: a rule set reflects exactly the calls that succeeded.
#include "machine.hpp"
#include "gen.hpp"
#include <lexertl/state_machine.hpp>
using namespace ref;

// The model of a rule set.
struct mrule { std::string text; unsigned long long id, uid, next, push; bool pop, bol, eol, rec; };
struct model
{
    std::vector<std::string> names{ "INITIAL" };
    std::set<std::string> macros;
    std::vector<std::vector<mrule>> rules{ 1 };
    std::size_t flags = 2;
    bool icase = false;
    int find(const std::string& n) const { for (std::size_t i = 0; i < names.size(); ++i) if (names[i] == n) return static_cast<int>(i); return -1; }
};
constexpr unsigned long long NP = ~0ull, SK = ~0ull - 1;

template<typename ch, typename idt>
struct kit
{
    using rules_t = lexertl::basic_rules<ch, ch, idt>;
    using sm_t = lexertl::basic_state_machine<ch, idt>;
    using str = std::basic_string<ch>;
    static str w(const std::string& s) { return lc::widen<ch>(s); }
    static idt n(unsigned long long v) { return v == NP ? rules_t::npos() : v == SK ? rules_t::skip() : static_cast<idt>(v); }

    struct op
    {
        std::string name;
        std::function<void(rules_t&)> real;
        std::function<bool(model&)> ref;    // false: the call must throw and change nothing
        bool clears = false;
    };
    std::vector<op> ops;

    static bool valid(const std::string& s)
    {
        if (s.empty() || !(std::isalpha(static_cast<unsigned char>(s[0])) || s[0] == '_')) return false;
        for (char c : s) if (!(std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '-')) return false;
        return true;
    }
    void state(const std::string& s)
    {
        ops.push_back({ "push_state(" + s + ")", [s](rules_t& r)
            {
                const str x = w(s);
                const idt k = r.push_state(x.c_str());
                if (r.state(x.c_str()) != k) throw std::logic_error("push_state returns another number than state()");
            },
            [s](model& m)
            {
                if (!valid(s)) return false;
                if (m.find(s) < 0) { m.names.push_back(s); m.rules.emplace_back(); }
                return true;
            } });
    }
    // ok: the text is a well-formed regex given that the macro M exists if it is used
    void macro(const std::string& s, const std::string& text, bool ok, bool uses = false)
    {
        ops.push_back({ "insert_macro(" + s + ", " + text + ")", [s, text](rules_t& r) { const str x = w(s), t = w(text); if (text.size() & 1) r.insert_macro(x.c_str(), t.c_str()); else r.insert_macro(x.c_str(), t.c_str(), t.c_str() + t.size()); },
            [=](model& m) { if (!valid(s) || !ok || m.macros.count(s) || (uses && !m.macros.count("M"))) return false; m.macros.insert(s); return true; } });
    }
    // copies: rules kept, as a non-greedy rule is kept as one per alternative
    void rule(const std::string& text, unsigned long long id, unsigned long long uid, bool ok, int copies = 1, bool bol = false, bool eol = false, bool uses = false)
    {
        ops.push_back({ "push(" + text + ", " + std::to_string(id) + ")", [=](rules_t& r)
            {
                const str t = w(text);
                if (uid == NP) r.push(t.c_str(), n(id));
                else if (uid & 1) r.push(t, n(id), n(uid));
                else r.push(t.c_str(), t.c_str() + t.size(), n(id), n(uid));
            },
            [=](model& m)
            {
                if (!ok || id == 0 || id == NP || (uses && !m.macros.count("M"))) return false;
                for (int i = 0; i < copies; ++i) m.rules[0].push_back({ text, id, uid, 0, NP, false, bol, eol, false });
                return true;
            } });
    }
    // to: exit state; noid: the overload without an id
    void rule(const std::string& in, const std::string& text, unsigned long long id, const std::string& to, unsigned long long uid, bool ok, bool noid = false, bool bol = false, bool eol = false)
    {
        ops.push_back({ "push(" + in + ", " + text + ", " + (noid ? "" : std::to_string(id) + ", ") + to + ")", [=](rules_t& r)
            {
                const str i = w(in), t = w(text), o = w(to);
                if (noid) r.push(i.c_str(), t.c_str(), o.c_str());
                else if (uid == NP) r.push(i.c_str(), t.c_str(), n(id), o.c_str());
                else if (uid & 1) r.push(i.c_str(), t, n(id), o.c_str(), n(uid));
                else r.push(i.c_str(), t.c_str(), t.c_str() + t.size(), n(id), o.c_str(), n(uid));
            },
            [=](model& m)
            {
                if (!ok || (!noid && (id == 0 || id == NP))) return false;
                std::vector<int> states;
                if (in == "*") for (std::size_t i = 0; i < m.names.size(); ++i) states.push_back(static_cast<int>(i));
                else
                {
                    std::string part;
                    std::istringstream s(in);
                    while (std::getline(s, part, ',')) { if (m.find(part) < 0) return false; states.push_back(m.find(part)); }
                }
                unsigned long long next = NP, push = NP;
                const bool pop = to == "<", dot = to == ".", ps = to[0] == '>';
                if (!pop && !dot)
                {
                    std::string t = ps ? to.substr(1) : to;
                    const auto colon = t.find(':');
                    if (colon != std::string::npos)
                    {
                        if (!ps || m.find(t.substr(colon + 1)) < 0) return false;
                        push = static_cast<unsigned long long>(m.find(t.substr(colon + 1)));
                        t.resize(colon);
                    }
                    if (m.find(t) < 0) return false;
                    next = static_cast<unsigned long long>(m.find(t));
                }
                for (int s : states)
                    m.rules[static_cast<std::size_t>(s)].push_back({ text, noid ? 0 : id, uid, dot ? static_cast<unsigned long long>(s) : next, ps ? (push == NP ? static_cast<unsigned long long>(s) : push) : NP, pop, bol, eol, pop || ps });
                return true;
            } });
    }
    void clear()
    {
        ops.push_back({ "clear()", [](rules_t& r) { r.clear(); }, [](model& m) { m = model(); return true; }, true });
        for (unsigned i : { 0u, 1u, 9u })
            ops.push_back({ "clear(" + std::to_string(i) + ")", [i](rules_t& r) { r.clear(static_cast<idt>(i)); }, [i](model& m) { if (i < m.rules.size()) m.rules[i].clear(); return true; } });
    }
    void flags(std::size_t f)
    {
        ops.push_back({ "flags(" + std::to_string(f) + ")", [f](rules_t& r) { r.flags(f); }, [f](model& m) { m.flags = f; return true; } });
    }
    void all(bool T)
    {
        state("A"); state("B"); state("INITIAL"); state("1x"); state("");
        macro("M", "a|b", true); macro("N", "{M}c", true, true); macro("O", "(a", false); macro("2", "a", false);
        rule("a", 1, NP, true); rule("^b$", 2, 7, true, 1, true, true); rule("{M}c", 3, 4, true, 1, false, false, true); rule("z", SK, NP, true);
        rule("a", 0, NP, false); rule("a", NP, NP, false); rule("(a", 1, 3, false); rule("[b-a]", 1, 4, false); rule("c*?a|d", 6, NP, true, 2);
        rule("A", "a", 1, ".", NP, true); rule("*", "[ab]c", 4, "INITIAL", 5, true); rule("INITIAL,A", "b", SK, "A", NP, true);
        rule("A", "c", 8, ">INITIAL", 6, true); rule("A", "d", 5, "<", NP, true); rule("INITIAL", "e$", 0, ">A:INITIAL", NP, true, true, false, true);
        rule("INITIAL,A,C", "a", 1, ".", NP, true); rule("INITIAL,A", "a)", 1, ".", NP, false); rule("A", "a", 1, "C", NP, true); rule("A", "a", 1, ">A:C", 3, true);
        rule("A", "a", 1, "A:INITIAL", NP, true); rule("*", "a", 0, ".", NP, true); rule("*", "a", NP, ".", NP, true); rule("*", "{Q}", 3, ".", NP, false); rule("*", "q*", 0, "B", NP, true, true);
        clear(); flags(32); flags(16 + 1);
        if (T) { flags(2); macro("M", "x*", true); rule("B", "^x", 9, ".", NP, true, false, true); rule("B,INITIAL", "y", 0, ">INITIAL:B", NP, true, true); rule("1", "a", 1, ".", NP, true); rule("A", "a", 1, "1", NP, true); }
    }

    static std::string image(const sm_t& sm)
    {
        auto& in = sm.data();
        std::string o;
        auto add = [&](unsigned long long v) { o.append(reinterpret_cast<const char*>(&v), 4); };
        add(in._eoi); add(in._features);
        for (auto x : in._dfa_alphabet) add(x);
        for (auto& l : in._lookup) for (auto x : l) add(x);
        for (auto& d : in._dfa) { add(d.size()); for (auto x : d) add(x); }
        return o;
    }
    static std::string built(const rules_t& r)
    {
        sm_t sm;
        try { lexertl::basic_generator<rules_t, sm_t>::build(r, sm); }
        catch (const lexertl::runtime_error& e) { return std::string("error: ") + e.what(); }
        return image(sm);
    }

    // Compares everything the rule set shows with the model.
    static std::string differ(const rules_t& r, const model& m)
    {
        if (r.flags() != m.flags) return "flags";
        if (r.statemap().size() != m.names.size()) return "number of states";
        for (std::size_t i = 0; i < m.names.size(); ++i)
        {
            const auto x = r.state(static_cast<idt>(i));
            if (!x || str(x) != w(m.names[i])) return "name of state " + std::to_string(i);
            if (r.state(w(m.names[i]).c_str()) != static_cast<idt>(i)) return "number of state " + m.names[i];
            const auto it = r.statemap().find(w(m.names[i]));
            if (it == r.statemap().end() || it->second != static_cast<idt>(i)) return "state map";
        }
        if (r.state(static_cast<idt>(m.names.size())) != nullptr) return "a state beyond the last";
        if (r.state(w("Zz").c_str()) != rules_t::npos()) return "number of an unknown state";
        if (r.macros().size() != m.macros.size()) return "number of macros";
        for (auto& x : m.macros) if (!r.macros().count(w(x))) return "macro " + x;
        const std::size_t k = m.names.size();
        if (r.regexes().size() != k || r.regex_strings().size() != k || r.features().size() != k || r.ids().size() != k || r.user_ids().size() != k ||
            r.next_dfas().size() != k || r.pushes().size() != k || r.pops().size() != k) return "size of a table";
        bool empty = true;
        for (std::size_t i = 0; i < k; ++i)
        {
            const auto& x = m.rules[i];
            const std::string at = " of state " + std::to_string(i);
            if (r.regexes()[i].size() != x.size() || r.regex_strings()[i].size() != x.size() || r.ids()[i].size() != x.size() || r.user_ids()[i].size() != x.size() ||
                r.next_dfas()[i].size() != x.size() || r.pushes()[i].size() != x.size() || r.pops()[i].size() != x.size()) return "number of rules" + at;
            std::size_t f = 0;
            for (std::size_t j = 0; j < x.size(); ++j)
            {
                empty = false;
                if (r.regex_strings()[i][j] != x[j].text) return "text of rule " + std::to_string(j) + at;
                if (r.ids()[i][j] != n(x[j].id)) return "id of rule " + std::to_string(j) + at;
                if (r.user_ids()[i][j] != n(x[j].uid)) return "user id of rule " + std::to_string(j) + at;
                if (r.next_dfas()[i][j] != n(x[j].next)) return "next state of rule " + std::to_string(j) + at;
                if (r.pushes()[i][j] != n(x[j].push)) return "pushed state of rule " + std::to_string(j) + at;
                if (r.pops()[i][j] != x[j].pop) return "pop of rule " + std::to_string(j) + at;
                f |= (x[j].bol ? 1 : 0) | (x[j].eol ? 2 : 0) | (x[j].id == SK ? 4 : x[j].id == 0 ? 8 : 0) | (x[j].rec ? 32 : 0);
            }
            if (r.features()[i] != f) return "features" + at + ": " + std::to_string(r.features()[i]) + " instead of " + std::to_string(f);
        }
        if (r.empty() != empty) return "empty()";
        return std::string();
    }

    // Depth-first over all sequences; the rule set of the prefix is copied.
    void walk(mc::ctx& c, const rules_t& r, const model& m, std::size_t depth, const std::string& done, const std::vector<std::size_t>& good, const char* what)
    {
        for (std::size_t k = 0; k < ops.size(); ++k)
        {
            const op& o = ops[k];
            ++c.transitions;
            rules_t r2(r);
            model m2(m);
            std::string err;
            bool threw = false;
            auto fail = [&](const std::string& e) { c.fail("edit", std::string(what) + ": after " + done + o.name + ": " + e); };
            try { o.real(r2); }
            catch (const lexertl::runtime_error& e) { threw = true; err = e.what(); }
            catch (const std::logic_error& e) { return fail(e.what()); }
            const bool ok = o.ref(m2);
            if (ok == threw) return fail(threw ? "refused: " + err : "accepted");
            const std::string d = differ(r2, m2);
            if (!d.empty()) return fail((threw ? "refused, but changed: " : "differs from the model: ") + d);
            // A copy is independent of what it was copied from.
            std::vector<std::size_t> g2 = o.clears ? std::vector<std::size_t>() : good;
            if (!threw && !o.clears) g2.push_back(k);
            const std::string image = built(r2);
            c.state(mc::hash(image.data(), image.size(), m2.flags));
            if (threw || o.clears || depth == 1)
            {
                // Only the calls that succeeded, on a new rule set.
                rules_t q;
                for (auto x : g2) ops[x].real(q);
                if (built(q) != image) return fail("the machine differs from that of the successful calls alone");
                ++c.traces;
            }
            if (depth == 1) c.outcome(image.substr(0, 64));
            else walk(c, r2, m2, depth - 1, done + o.name + "; ", g2, what);
            const std::string e = differ(r, m);
            if (!e.empty()) return fail("the copied rule set changed: " + e);
        }
    }
    void root(mc::ctx& c, std::size_t depth, const char* what)
    {
        // One case per pair of first operations.
        for (std::size_t i = 0; i < ops.size(); ++i) for (std::size_t j = 0; j < ops.size(); ++j)
        {
            if (!c.next()) continue;
            const std::string d = std::string(what) + ": " + ops[i].name + "; " + ops[j].name + "; and " + std::to_string(depth - 2) + " more";
            c.describe(d);
            if (c.want_sample()) c.sample(d);
            rules_t r;
            model m;
            std::vector<std::size_t> good;
            for (auto k : { i, j })
            {
                bool threw = false;
                try { ops[k].real(r); } catch (const lexertl::runtime_error&) { threw = true; }
                if (ops[k].ref(m) == threw) { c.fail("edit", d + ": " + (threw ? "refused" : "accepted") + " at " + ops[k].name); return; }
                const std::string e = differ(r, m);
                if (!e.empty()) { c.fail("edit", d + ": " + e); return; }
                if (ops[k].clears) good.clear(); else if (!threw) good.push_back(k);
            }
            walk(c, r, m, depth - 2, ops[i].name + "; " + ops[j].name + "; ", good, what);
        }
    }
};

// As many lexer states as an 8-bit id can number, and beyond.
template<typename ch>
static void many_states(mc::ctx& c, unsigned extra)
{
    using rules_t = lexertl::basic_rules<ch, ch, std::uint8_t>;
    using sm_t = lexertl::basic_state_machine<ch, std::uint8_t>;
    c.describe("8-bit ids, 255 states and " + std::to_string(extra) + " refused");
    rules_t r;
    ++c.traces;
    for (unsigned i = 1; i < 255; ++i)
    {
        ++c.transitions;
        if (r.push_state(lc::widen<ch>("S" + std::to_string(i)).c_str()) != i) return c.fail("states", "state " + std::to_string(i) + " gets another number");
    }
    for (unsigned i = 0; i < extra; ++i)
    {
        bool threw = false;
        try { r.push_state(lc::widen<ch>("T" + std::to_string(i)).c_str()); } catch (const lexertl::runtime_error&) { threw = true; }
        ++c.transitions;
        if (!threw) return c.fail("states", "state 255 is accepted with 8-bit ids");
        if (r.statemap().size() != 255 || r.regexes().size() != 255 || r.ids().size() != 255) return c.fail("states", "a refused state is kept");
        if (r.state(lc::widen<ch>("T" + std::to_string(i)).c_str()) != rules_t::npos()) return c.fail("states", "a refused state has a number");
        if (r.push_state(lc::widen<ch>("S7").c_str()) != 7) return c.fail("states", "adding a known state gives another number");
    }
    r.push(r.all_states(), lc::widen<ch>("a"), 1, r.dot());
    r.push(lc::widen<ch>("S253").c_str(), lc::widen<ch>("b"), 2, lc::widen<ch>("S254").c_str());
    sm_t sm;
    lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
    if (sm.data()._dfa.size() != 255) return c.fail("states", "the machine has " + std::to_string(sm.data()._dfa.size()) + " states");
    const auto in = lc::widen<ch>("aba");
    lexertl::match_results<const ch*, std::uint8_t> m(in.data(), in.data() + in.size(), true, 253);
    std::string got;
    for (int i = 0; i < 4; ++i) { lexertl::lookup(sm, m); got += std::to_string(m.id) + "@" + std::to_string(m.state) + " "; }
    if (got != "1@253 2@254 1@254 0@254 ") c.fail("states", "lexing in the last states gives " + got);
    c.outcome(got);
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        for (unsigned i = 0; i < 5; ++i) if (c.next()) { many_states<char>(c, i); many_states<char16_t>(c, i); }
        kit<char, std::uint16_t> k;
        k.all(T);
        k.root(c, 3, "char");
        kit<char16_t, std::uint32_t> k2;
        k2.all(false);
        k2.root(c, 3, "char16_t, 32-bit ids");
        k.root(c, 4, "char");
        kit<wchar_t, std::uint8_t> k3;
        k3.all(T);
        if (T) k3.root(c, 4, "wchar_t, 8-bit ids");
    });
}
