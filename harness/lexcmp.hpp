// Runs lexertl::lookup beside the reference model, call by call.
#ifndef LEXCMP_HPP
#define LEXCMP_HPP
#include "mc.hpp"
#include "refre.hpp"
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include <lexertl/runtime_error.hpp>

namespace lc
{
    template<typename ch>
    std::basic_string<ch> widen(const std::string& s)
    {
        std::basic_string<ch> r;
        for (unsigned char c : s) r += static_cast<ch>(c);
        return r;
    }

    inline std::string show(const ref::token& t, const ref::state& s)
    {
        std::ostringstream o;
        if (t.underflow) return "stack underflow error";
        o << "id=" << t.id << " uid=" << t.uid << " [" << t.first << ',' << t.second << ") bol=" << s.bol << " state=" << s.st << " stack=";
        for (auto& p : s.stack) o << '(' << p.first << ',' << p.second << ')';
        return o.str();
    }
    inline std::string show(const std::vector<ref::rules>& states)
    {
        std::ostringstream o;
        for (std::size_t i = 0; i < states.size(); ++i)
        {
            if (states.size() > 1) o << "state " << i << ": ";
            for (auto& r : states[i])
            {
                o << '"' << mc::esc(r.text()) << "\" id=";
                if (r.id == ref::SKIP) o << "skip"; else o << r.id;
                if (r.uid != ref::NPOS) o << " uid=" << r.uid;
                if (r.pop) o << " pop";
                else if (r.next != i || r.push != ref::NONE) o << " next=" << r.next;
                if (r.push != ref::NONE) o << " push=" << r.push;
                o << "; ";
            }
        }
        return o.str();
    }

    inline unsigned norm(unsigned long long v, unsigned long long all)
    {
        // ids are compared in 16 bits: npos and skip map to the 16-bit constants.
        if (v == all) return ref::NPOS;
        if (v == all - 1) return ref::SKIP;
        return static_cast<unsigned>(v);
    }

    template<typename results>
    std::vector<std::pair<unsigned, unsigned>> stack_of(const results&) { return {}; }
    template<typename it, typename idt, std::size_t fl>
    std::vector<std::pair<unsigned, unsigned>> stack_of(const lexertl::recursive_match_results<it, idt, fl>& r)
    {
        std::vector<std::pair<unsigned, unsigned>> v;
        auto c = r.stack;
        const unsigned long long all = static_cast<idt>(~idt(0));
        while (!c.empty()) { v.push_back({ static_cast<unsigned>(c.top().first), norm(c.top().second, all) }); c.pop(); }
        std::reverse(v.begin(), v.end());
        return v;
    }

    // Lex the whole input with the library and a model of one lookup call; compares after every call.
    template<typename results, typename sm_t, typename model, typename text, typename str>
    void run_with(mc::ctx& c, const sm_t& sm, std::size_t nstates, model step, text rules_text, const str& in8, const std::basic_string<
        typename results::char_type>& in, bool bol0 = true, unsigned st0 = 0, int extra = 1, const char* what = "lookup")
    {
        using idt = typename results::id_type;
        const unsigned long long all = static_cast<idt>(~idt(0));
        results r(&in[0], &in[0] + in.size(), bol0, static_cast<idt>(st0));
        ref::state s;
        s.bol = bol0; s.st = st0;
        std::string trace;
        ++c.traces;
        const std::size_t limit = in8.size() * 2 + 4;
        for (std::size_t call = 0; ; ++call)
        {
            // A state: the rule set of the case, the text still to come, and the lexer's own state.
            {
                std::uint64_t h = mc::hash(in8.data() + s.pos, in8.size() - s.pos, 7 + s.bol + 2 * s.st);
                for (auto& p : s.stack) h = h * 31 + p.first * 7 + p.second;
                c.state(h);
            }
            const ref::token t = step(s);
            bool threw = false;
            std::string err;
            try { lexertl::lookup(sm, r); }
            catch (const lexertl::runtime_error& e) { threw = true; err = e.what(); }
            ++c.transitions;
            ref::token g;
            ref::state gs;
            if (threw) g.underflow = true;
            else
            {
                g.id = norm(r.id, all); g.uid = norm(r.user_id, all);
                g.first = static_cast<std::size_t>(r.first - &in[0]);
                g.second = static_cast<std::size_t>(r.second - &in[0]);
                gs.pos = g.second; gs.bol = r.bol; gs.st = static_cast<unsigned>(r.state);
                gs.stack = stack_of(r);
                // A machine without ^ does not maintain the line-start flag, one without states not the state.
            }
            const bool cmp_bol = (sm.data()._features & +lexertl::feature_bit::bol) != 0;
            std::string diff;
            if (t.underflow != g.underflow) diff = "error behaviour";
            else if (!t.underflow)
            {
                if (t.id != g.id) diff = "id";
                else if (t.uid != g.uid) diff = "user id";
                else if (t.first != g.first || t.second != g.second) diff = "token";
                else if (cmp_bol && s.bol != gs.bol) diff = "line start flag";
                else if (nstates > 1 && s.st != gs.st) diff = "lexer state";
                else if (s.stack != gs.stack && !gs.stack.empty()) diff = "stack";
                else if (s.stack != gs.stack) diff = "stack";
            }
            if (!diff.empty())
            {
                c.fail("differs", std::string(what) + ": " + diff + " differs on input \"" + mc::esc(in8) + "\" at call " + std::to_string(call + 1) +
                    "\n  rules    " + rules_text() + "\n  start    bol=" + std::to_string(bol0) + " state=" + std::to_string(st0) +
                    "\n  expected " + show(t, s) + "\n  got      " + (threw ? "runtime_error: " + err : show(g, gs)));
                return;
            }
            trace += std::to_string(t.id) + ":" + std::to_string(t.second - t.first) + " ";
            if (t.underflow) break;
            if (t.id == 0 && s.pos == in8.size() && extra-- <= 0) break;
            if (call > limit) { c.fail("loops", "lexing does not end on \"" + mc::esc(in8) + "\" with " + rules_text()); return; }
        }
        c.outcome(trace);
    }

    // The same with the reference model.
    // extra: further calls made after the first end-of-input report.
    template<typename results, typename sm_t, typename str>
    void run(mc::ctx& c, const sm_t& sm, const std::vector<ref::rules>& states, const str& in8, const std::basic_string<
        typename results::char_type>& in, bool bol0 = true, unsigned st0 = 0, int extra = 1, bool zero = false,
        const char* what = "lookup")
    {
        run_with<results>(c, sm, states.size(), [&](ref::state& s) { return ref::step(states, in8, s, zero); }, [&]() { return show(states); },
            in8, in, bol0, st0, extra, what);
    }

    enum class built { ok, rejected };

    inline std::string state_name(std::size_t i) { return i == 0 ? "INITIAL" : "S" + std::to_string(i); }

    // Pushes the model's rules into a library rule set.
    template<typename rules_t>
    void push(rules_t& rules, const std::vector<ref::rules>& states)
    {
        using ch = typename rules_t::rules_char_type;
        using idt = typename rules_t::id_type;
        for (std::size_t i = 1; i < states.size(); ++i) rules.push_state(widen<ch>(state_name(i)).c_str());
        for (std::size_t i = 0; i < states.size(); ++i)
            for (auto& r : states[i])
            {
                const auto text = widen<ch>(r.text());
                const idt id = r.id == ref::SKIP ? rules_t::skip() : static_cast<idt>(r.id);
                const idt uid = r.uid == ref::NPOS ? rules_t::npos() : static_cast<idt>(r.uid);
                if (states.size() == 1 && !r.pop && r.push == ref::NONE && r.id != 0)
                {
                    rules.push(text, id, uid);
                    continue;
                }
                std::string to;
                if (r.pop) to = "<";
                else if (r.push != ref::NONE)
                {
                    to = ">" + state_name(r.next);
                    if (r.push != i) to += ":" + state_name(r.push);
                }
                else to = r.next == i ? "." : state_name(r.next);
                if (r.id == 0) rules.push(widen<ch>(state_name(i)).c_str(), text, widen<ch>(to).c_str());
                else rules.push(widen<ch>(state_name(i)).c_str(), text, id, widen<ch>(to).c_str(), uid);
            }
    }

    // The same rules for a wide machine, on the inputs up to a length, against the same model.
    template<typename rch, typename ch, typename step_t, typename text_t>
    void run_wide(mc::ctx& c, const std::vector<ref::rules>& states, std::size_t flags, const std::vector<std::string>& inputs, std::size_t longest, step_t step, text_t text)
    {
        static const std::string what = "lookup with " + std::to_string(sizeof(ch) * 8) + " bit characters" + (sizeof(rch) > 1 ? ", wide rules" : "");
        lexertl::basic_rules<rch, ch> r(flags);
        push(r, states);
        lexertl::basic_state_machine<ch> sm;
        lexertl::basic_generator<lexertl::basic_rules<rch, ch>, lexertl::basic_state_machine<ch>>::build(r, sm);
        for (auto& in : inputs)
            if (in.size() <= longest)
                run_with<lexertl::match_results<const ch*>>(c, sm, states.size(), [&](ref::state& s) { return step(in, s); }, text, in, widen<ch>(in), true, 0, 1, what.c_str());
    }

    inline bool recursive(const std::vector<ref::rules>& states)
    {
        for (auto& s : states) for (auto& r : s) if (r.pop || r.push != ref::NONE) return true;
        return false;
    }
}
#endif
