// P32: rule sets and machines are values.
#include "machine.hpp"
#include <lexertl/serialise.hpp>
#include <lexertl/sm_to_csm.hpp>
#include <map>
#include <memory>

// A field by field copy of a machine, for comparing.
template<typename ch, typename idt>
static std::string image(const lexertl::basic_state_machine<ch, idt>& sm)
{
    auto& in = sm.data();
    std::ostringstream o;
    o << +in._eoi << '/' << +in._features << '/';
    for (auto x : in._dfa_alphabet) o << +x << ',';
    for (auto& l : in._lookup) { o << "L"; for (auto x : l) o << +x << ','; }
    for (auto& d : in._dfa) { o << "D"; for (auto x : d) o << +x << ','; }
    return o.str();
}
template<typename ch, typename idt>
static std::string image(const lexertl::basic_char_state_machine<ch, idt>& sm)
{
    std::ostringstream o;
    for (auto& d : sm._sm_vector)
    {
        o << "D" << +d._bol_index << ':';
        for (auto& s : d._states)
        {
            o << s._end_state << ',' << int(s._push_pop_dfa) << ',' << +s._id << ',' << +s._user_id << ',' << +s._push_dfa << ',' << +s._next_dfa << ',' << +s._eol_index << '[';
            for (auto& t : s._transitions)
            {
                o << +t.first << '{';
                for (auto& g : t.second._ranges) o << static_cast<unsigned>(g.first) << '-' << static_cast<unsigned>(g.second) << ' ';
                o << '}';
            }
            o << ']';
        }
    }
    return o.str();
}

template<typename sm_t> struct is_table : std::false_type { };
template<typename ch, typename idt> struct is_table<lexertl::basic_state_machine<ch, idt>> : std::true_type { };

static const int EDITS = 5;
template<typename rules_t>
static bool edit(rules_t& r, int k)
{
    try
    {
        switch (k)
        {
        case 0: r.push("a+|b", 1); break;
        case 1: r.push_state("A"); r.push("INITIAL", "^x", 2, ">A"); r.push("A", "y$", 3, "<"); break;
        case 2: r.insert_macro("m", "[cd]"); r.push("{m}+e", 4, 7); break;
        case 3: r.flags(static_cast<std::size_t>(+lexertl::regex_flags::icase)); break;
        case 4: r.clear(); break;
        }
        return true;
    }
    catch (const lexertl::runtime_error&) { return false; }
}

template<typename rules_t, typename sm_t>
struct world
{
    struct rval { bool known = true; std::vector<int> edits; };
    struct mval { bool known = true; int built = -1; bool operator ==(const mval& o) const { return known == o.known && built == o.built; } };
    struct made { bool ok; int value; };
    // Values of machines seen so far: images of machines built afresh.
    static std::map<std::vector<int>, made>& memo() { static std::map<std::vector<int>, made> m; return m; }
    static std::vector<std::string>& values() { static std::vector<std::string> v; return v; }
    static std::map<int, int>& mini() { static std::map<int, int> m; return m; }
    static int intern(const std::string& s)
    {
        auto& v = values();
        for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == s) return static_cast<int>(i);
        v.push_back(s);
        return static_cast<int>(v.size() - 1);
    }
    static made fresh(const std::vector<int>& e)
    {
        auto i = memo().find(e);
        if (i != memo().end()) return i->second;
        rules_t r;
        for (int k : e) edit(r, k);
        sm_t sm;
        made m{ true, -1 };
        try { lexertl::basic_generator<rules_t, sm_t>::build(r, sm); } catch (const lexertl::runtime_error&) { m.ok = false; }
        if (m.ok)
        {
            m.value = intern(image(sm));
            sm.minimise();
            mini()[m.value] = intern(image(sm));
            mini()[mini()[m.value]] = mini()[m.value];
        }
        return memo()[e] = m;
    }

    std::unique_ptr<rules_t> r[2] = { std::make_unique<rules_t>(), std::make_unique<rules_t>() };
    std::unique_ptr<sm_t> m[3] = { std::make_unique<sm_t>(), std::make_unique<sm_t>(), std::make_unique<sm_t>() };
    rval rv[2];
    mval mv[3];
    std::string done;

    // Operations on rule sets: 5 edits each, then between the two, then on machines.
    static int count() { return 2 * EDITS + 2 * 5 + 3 * 2 + 6 * 6 + 3 * 3; }
    // False: the operation is not defined here, or changes nothing that is new.
    bool apply(int op)
    {
        if (op < 2 * EDITS)
        {
            const int i = op / EDITS, k = op % EDITS;
            if (!rv[i].known) return false;
            done += "r" + std::to_string(i) + ".edit" + std::to_string(k) + " ";
            edit(*r[i], k);
            rv[i].edits.push_back(k);
            return true;
        }
        op -= 2 * EDITS;
        if (op < 10)
        {
            const int i = op / 5, j = 1 - i;
            done += "r" + std::to_string(i);
            switch (op % 5)
            {
            case 0: if (!rv[j].known) return false; done += "=r "; *r[i] = *r[j]; rv[i] = rv[j]; return true;
            case 1: if (!rv[j].known) return false; done += "(r) "; r[i] = std::make_unique<rules_t>(*r[j]); rv[i] = rv[j]; return true;
            case 2: if (!rv[j].known) return false; done += "=move(r) "; *r[i] = std::move(*r[j]); rv[i] = rv[j]; rv[j].known = false; return true;
            case 3: if (!rv[j].known) return false; done += "(move(r)) "; r[i] = std::make_unique<rules_t>(std::move(*r[j])); rv[i] = rv[j]; rv[j].known = false; return true;
            default: done += "=rules() "; *r[i] = rules_t(); rv[i] = rval(); return true;
            }
        }
        op -= 10;
        if (op < 6)
        {
            const int i = op / 2, j = op % 2;
            if (!rv[j].known || i == 2) return false;
            done += "build(r" + std::to_string(j) + ",m" + std::to_string(i) + ") ";
            bool ok = true;
            try { lexertl::basic_generator<rules_t, sm_t>::build(*r[j], *m[i]); } catch (const lexertl::runtime_error&) { ok = false; }
            const made f = fresh(rv[j].edits);
            if (ok != f.ok) { done += ok ? "(built)" : "(refused)"; throw std::logic_error("a build goes otherwise than with the same rules made afresh"); }
            if (ok) { mv[i].known = true; mv[i].built = f.value; }
            return true;
        }
        op -= 6;
        if (op < 36)
        {
            static const int pairs[6][2] = { { 0, 1 }, { 1, 0 }, { 0, 2 }, { 2, 0 }, { 1, 2 }, { 2, 1 } };
            const int i = pairs[op / 6][0], j = pairs[op / 6][1];
            done += "m" + std::to_string(i);
            const std::string n = "m" + std::to_string(j);
            if (!mv[j].known) return false;
            switch (op % 6)
            {
            case 0: done += "=" + n + " "; *m[i] = *m[j]; mv[i] = mv[j]; return true;
            case 1: done += "(" + n + ") "; m[i] = std::make_unique<sm_t>(*m[j]); mv[i] = mv[j]; return true;
            case 2: done += "=move(" + n + ") "; *m[i] = std::move(*m[j]); mv[i] = mv[j]; mv[j].known = false; return true;
            case 3: done += "(move(" + n + ")) "; m[i] = std::make_unique<sm_t>(std::move(*m[j])); mv[i] = mv[j]; mv[j].known = false; return true;
            case 4: if (!mv[i].known || i > j) return false; done += ".swap(" + n + ") "; m[i]->swap(*m[j]); std::swap(mv[i], mv[j]); return true;
            default:
                if constexpr (is_table<sm_t>::value)
                {
                    if (mv[j].built < 0) return false;
                    done += ".load(" + n + ".save) ";
                    std::stringstream s;
                    lexertl::save(*m[j], s);
                    lexertl::load(s, *m[i]);
                    mv[i] = mv[j];
                    return true;
                }
                else return false;
            }
        }
        op -= 36;
        const int i = op / 3;
        done += "m" + std::to_string(i);
        switch (op % 3)
        {
        case 0: if (!mv[i].known || mv[i].built < 0) return false; done += ".minimise "; m[i]->minimise(); mv[i].built = mini()[mv[i].built]; return true;
        case 1: done += ".clear "; m[i]->clear(); mv[i].known = true; mv[i].built = -1; return true;
        default: if (!mv[i].known) return false; { done += "=itself "; auto& self = *m[i]; *m[i] = self; } return true;
        }
    }
    // Empty: as the model says.
    std::string judge() const
    {
        for (int i = 0; i < 3; ++i)
        {
            if (!mv[i].known) continue;
            static const std::string none = image(sm_t());
            if (image(*m[i]) != (mv[i].built < 0 ? none : values()[mv[i].built])) return "m" + std::to_string(i) + " is not the machine expected";
            if (m[i]->empty() != (mv[i].built < 0)) return "empty() of m" + std::to_string(i);
        }
        // Rule sets show in the machines they build.
        for (int j = 0; j < 2; ++j)
        {
            if (!rv[j].known) continue;
            const made f = fresh(rv[j].edits);
            sm_t sm;
            bool ok = true;
            try { lexertl::basic_generator<rules_t, sm_t>::build(*r[j], sm); } catch (const lexertl::runtime_error&) { ok = false; }
            if (ok != f.ok || (ok && image(sm) != values()[f.value])) return "r" + std::to_string(j) + " does not build the machine of its rules";
        }
        return "";
    }
};

template<typename rules_t, typename sm_t>
static void run(mc::ctx& c, std::size_t depth, const char* what, std::size_t first = 0, std::size_t last = 3)
{
    using w_t = world<rules_t, sm_t>;
    // From machines already built, so that a bounded history reaches far.
    static const std::vector<std::vector<int>> starts{ {}, { 0, EDITS + 1, 2 * EDITS + 10, 2 * EDITS + 13 }, { 0, 2, EDITS + 3, EDITS + 1, 2 * EDITS + 10, 2 * EDITS + 13 } };
    const int n = w_t::count();
    for (std::size_t s = first; s < last; ++s)
    {
        auto& st = starts[s];
        // The first operations are the case, all continuations belong to it.
        for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y)
        {
            if (!c.next()) continue;
            c.describe(std::string(what) + ": history " + std::to_string(x) + " " + std::to_string(y) + " ...");
            std::vector<int> rest(depth - 2, 0);
            for (;;)
            {
                w_t w;
                for (int k : st) w.apply(k);
                std::size_t at = 0;
                bool valid = true;
                std::string bad;
                try
                {
                    for (; at < depth; ++at)
                    {
                        valid = w.apply(at == 0 ? x : at == 1 ? y : rest[at - 2]);
                        if (!valid) break;
                        ++c.transitions;
                    }
                    if (valid) bad = w.judge();
                }
                catch (const std::logic_error& e) { bad = e.what(); valid = true; }
                if (valid)
                {
                    ++c.traces;
                    if (!bad.empty()) { c.fail("history", std::string(what) + " after " + w.done + ": " + bad); break; }
                    c.state(mc::hash(w.done.data(), w.done.size()));
                    if (c.want_sample()) c.sample(std::string(what) + ": " + w.done);
                    std::string o;
                    for (auto& v : w.mv) o += std::to_string(v.built) + ",";
                    c.outcome(o);
                }
                // An invalid step makes all its continuations invalid.
                if (!valid && at < 2) break;
                if (!valid) for (std::size_t k = at - 1; k < rest.size(); ++k) rest[k] = n - 1;
                std::size_t k = rest.size();
                while (k && ++rest[k - 1] == n) rest[--k] = 0;
                if (!k) break;
            }
            c.beat();
        }
    }
}

int main(int argc, char** argv)
{
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        using r8 = lexertl::basic_rules<char, char>;
        using r32 = lexertl::basic_rules<char, char32_t, std::uint32_t>;
        run<r8, lexertl::basic_state_machine<char>>(c, 3, "table machine");
        run<r8, lexertl::basic_char_state_machine<char>>(c, 3, "character machine");
        run<r32, lexertl::basic_state_machine<char32_t, std::uint32_t>>(c, 3, "32-bit table machine", 1);
        // The lexer states of a character machine can be exchanged, too, and its rows compared: equal exactly if nothing differs.
        using csm = lexertl::basic_char_state_machine<char>;
        static const char* texts[] = { "a", "a+|b", "^a", "a$", "[a-c]d", "(ab){3}", "^a$" };
        for (auto& x : texts) for (auto& y : texts)
        {
            if (!c.next()) continue;
            c.describe(std::string("the lexer states of ") + x + " and " + y + " exchanged");
            ++c.traces;
            const auto build = [](const char* u, const char* v)
            {
                r8 r;
                r.push_state("A");
                r.push("INITIAL", u, 1, ">A");
                r.push("A", v, 2, "<", 3);
                csm m;
                lexertl::basic_generator<r8, csm>::build(r, m);
                return m;
            };
            csm m = build(x, y), n = build(x, y);
            const auto part = [](const csm& o, std::size_t i) { csm p; p._sm_vector.push_back(o._sm_vector[i]); return image(p); };
            const std::string i0 = part(n, 0), i1 = part(n, 1);
            m._sm_vector[0].swap(m._sm_vector[1]);
            ++c.transitions;
            c.state(mc::hash(x, std::strlen(x), mc::hash(y, std::strlen(y))));
            if (part(m, 0) != i1 || part(m, 1) != i0) c.fail("exchange", "swapping the states gives " + image(m) + " from " + image(n));
            if (m._sm_vector[0].size() != n._sm_vector[1].size()) c.fail("size", "the number of rows is not exchanged");
            for (auto& s : n._sm_vector[0]._states) for (auto& t : n._sm_vector[1]._states)
            {
                csm p, q;
                p._sm_vector.emplace_back(0); q._sm_vector.emplace_back(0);
                p._sm_vector[0]._states.push_back(s); q._sm_vector[0]._states.push_back(t);
                ++c.transitions;
                if ((s == t) != (image(p) == image(q))) c.fail("equal", "rows " + image(p) + " and " + image(q) + (s == t ? " are equal" : " differ"));
                // A row that differs in one thing only.
                for (int k = 0; k < 8; ++k)
                {
                    auto u = s;
                    switch (k)
                    {
                    case 0: u._end_state = !u._end_state; break;
                    case 1: u._push_pop_dfa = u._push_pop_dfa == csm::state::push_pop_dfa::neither ? csm::state::push_pop_dfa::push_dfa : csm::state::push_pop_dfa::neither; break;
                    case 2: ++u._id; break;
                    case 3: ++u._user_id; break;
                    case 4: ++u._push_dfa; break;
                    case 5: ++u._next_dfa; break;
                    case 6: ++u._eol_index; break;
                    case 7: u._transitions[9].insert(lexertl::basic_string_token<char>('q', 'r')); break;
                    }
                    if (u == s || !(s == s)) c.fail("field", "rows that differ in field " + std::to_string(k) + " are equal");
                }
            }
        }
        if (T)
        {
            run<r8, lexertl::basic_state_machine<char>>(c, 4, "table machine", 1, 2);
            run<r8, lexertl::basic_char_state_machine<char>>(c, 4, "character machine", 1, 2);
        }
    });
}
