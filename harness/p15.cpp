// P15: generated C++ code against runtime lookup.
// p15 --gen DIR --chunks N writes the generated functions of every machine of the enumeration; the runner compiles
// them, and the second run (environment P15_DIR, P15_CHUNKS) loads them and steps both side by side.
#include "machine.hpp"
#include "sets.hpp"
#include <dlfcn.h>
#include <lexertl/generate_cpp.hpp>
#include <memory>
using namespace ref;

struct job { int kind = 0; bool ptr = false, min = false; std::vector<rules> st; };
// kind: 0 char/u16, 1 char16_t/u16, 2 char32_t/u16, 3 char/u8, 4 char/u32, 5 wchar_t/u64
static const char* CH[] = { "char", "char16_t", "char32_t", "char", "char", "wchar_t" };
static const char* ID[] = { "std::uint16_t", "std::uint16_t", "std::uint16_t", "std::uint8_t", "std::uint32_t", "std::uint64_t" };

static std::vector<job> jobs(bool T)
{
    using sets::mk; using sets::act;
    std::vector<std::vector<rules>> all;
    const auto a = lit('a'), b = lit('b'), c = lit('c'), nl = lit('\n', "\\n"), ap = rep(a, 1, -1, "+"), ab = cls("[ab]", chars("ab"));
    const auto any = cls("(?s:.)", gen::all()), cr = lit('\r', "\\r"), na = cls("[^a]", ~chars("a"));
    // 1. every combination of the six features
    for (int f = 0; f < 64; ++f) for (int v = 0; v < 3; ++v)
    {
        rules s0{ mk(v == 1 ? cat(a, b) : ap, 1) }, s1;
        if (f & 1) s0.push_back(mk(v == 2 ? cat(ab, b) : b, 2, true, false, 5));
        if (f & 2) s0.push_back(mk(v == 1 ? ap : b, 3, false, true));
        if (f & 4) s0.push_back(mk(v == 2 ? na : nl, SKIP));
        if (f & 8) s0.push_back(mk(v == 0 ? cat(b, b) : cat(a, cat(a, b)), 0));
        if (f & 32)
        {
            rule p = mk(c, v == 1 ? 0 : 6), q = mk(cat(b, a), 7);
            p.push = 0; p.next = f & 16 ? 1 : 0; q.pop = true;
            s0.push_back(p); s0.push_back(q);
        }
        if (f & 16)
        {
            rule p = mk(f & 32 ? cat(c, a) : c, 8), q = mk(b, 9), r = mk(ap, 10, v == 1 && f & 1, v == 2 && f & 2);
            p.next = 1; q.next = 0; r.next = 1;
            s0.push_back(p);
            s1 = { q, r };
            if (f & 32) { rule z = mk(c, v == 2 ? SKIP : 11); z.pop = true; z.next = 1; s1.push_back(z); }
        }
        if (s1.empty()) all.push_back({ s0 }); else all.push_back({ s0, s1 });
    }
    // 2. anchors of one and two rules
    const std::vector<re> few{ a, ap, cat(a, b), nl, any, cat(a, nl), rep(any, 1, -1, "+"), cat(rep(a, 0, -1, "*"), b), cat(cr, a), ab };
    for (auto& r : few) for (int k = 0; k < 4; ++k) all.push_back({ { mk(r, 1, k & 1, k & 2) } });
    for (std::size_t i = 0; i < few.size(); ++i) for (std::size_t j = 0; j < few.size(); ++j) for (int k = 1; k < 16; ++k)
    {
        if (!T && (i > 6 || j > 6 || (k != 1 && k != 2 && k != 6 && k != 9 && k != 12 && k != 3))) continue;
        all.push_back({ { mk(few[i], 1, k & 1, k & 2), mk(few[j], 2, k & 4, k & 8) } });
    }
    // 3. actions in two lexer states
    for (int x = 0; x < 6; ++x) for (int y = 0; y < 6; ++y) for (int z = 0; z < 6; ++z) for (int k = 0; k < (T ? 9 : 1); ++k)
    {
        if (!T && (x + 2 * y + 3 * z) % 3) continue;
        const unsigned i1 = k % 3 == 0 ? 1u : k % 3 == 1 ? 0u : SKIP, i2 = k / 3 == 0 ? ((x + y) % 3 == 0 ? 0u : 2u) : k / 3 == 1 ? 0u : SKIP;
        all.push_back({ { act(mk(a, i1), 0, x), act(mk(b, i2, false, false, 6), 0, y) }, { act(mk(ab, 3), 1, z) } });
    }
    // 4. many lexer states, with links between the first and the last ones
    for (unsigned n : { 2u, 3u, 9u, 10u, 11u, 12u, 16u, 17u, 33u }) for (int k = 0; k < 2; ++k)
    {
        std::vector<rules> st(n);
        for (unsigned i = 0; i < n; ++i)
        {
            rule p = mk(a, 1 + i, k && i % 2, false), q = mk(b, 200, false, k && i % 3 == 0), r = mk(cat(b, b), 100 + i);
            p.next = (i + 1) % n; q.next = n - 1 - i; r.next = (i * 7) % n;
            st[i] = { p, r, q };
        }
        all.push_back(st);
    }
    // 5. zero-alphabet shapes: wide classes, large ids
    for (unsigned id : { 9u, 10u, 16u, 99u, 0x7fu, 0xfcu }) for (unsigned uid : { 0u, 10u, 0xfdu }) { all.push_back({ { mk(a, id, false, false, uid), mk(nl, id + 1, true, false) } }); }
    std::vector<job> r;
    std::size_t no = 0;
    for (auto& st : all)
    {
        bool bad = !sets::usable(st);
        for (auto& s : st) if (s.empty()) bad = true;
        if (bad) continue;
        ++no;
        for (int p = 0; p < 2; ++p)
        {
            r.push_back({ 0, p != 0, false, st });
            if (T || no % 2 || no < 200) { r.push_back({ 1, p != 0, false, st }); r.push_back({ 2, p != 0, false, st }); }
            if (T || no % 3 == 0) r.push_back({ 3, p != 0, false, st });
            if (T || no % 5 == 0) { r.push_back({ 4, p != 0, true, st }); r.push_back({ 5, p != 0, true, st }); }
        }
    }
    return r;
}

template<typename ch, typename idt>
static void make(const job& j, lexertl::basic_state_machine<ch, idt>& sm)
{
    using rules_t = lexertl::basic_rules<ch, ch, idt>;
    using sm_t = lexertl::basic_state_machine<ch, idt>;
    rules_t r(+lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules);
    lc::push(r, j.st);
    lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
    if (j.min) sm.minimise();
}

template<typename ch, typename idt>
static std::string code(const job& j, const std::string& name, bool& rec)
{
    lexertl::basic_state_machine<ch, idt> sm;
    make(j, sm);
    rec = (sm.data()._features & +lexertl::feature_bit::recursive) != 0;
    std::ostringstream o;
    lexertl::table_based_cpp::generate(name, sm, j.ptr, o);
    return o.str();
}

static std::string say(const job& j)
{
    return lc::show(j.st) + CH[j.kind] + ", " + ID[j.kind] + (j.ptr ? ", pointers" : ", indexes") + (j.min ? ", minimised" : "");
}

static int generate(const std::string& dir, std::size_t chunks, bool T)
{
    const auto js = jobs(T);
    std::vector<std::unique_ptr<std::ofstream>> f;
    for (std::size_t i = 0; i < chunks; ++i)
    {
        f.emplace_back(new std::ofstream(dir + "/chunk" + std::to_string(i) + ".cpp"));
        *f.back() << "#include <lexertl/match_results.hpp>\n#include <cstddef>\n";
    }
    for (std::size_t n = 0; n < js.size(); ++n)
    {
        const auto& j = js[n];
        std::ostream& o = *f[n % chunks];
        const std::string name = "lex" + std::to_string(n);
        bool rec = false;
        std::string t;
        switch (j.kind)
        {
        case 0: t = code<char, std::uint16_t>(j, name, rec); break;
        case 1: t = code<char16_t, std::uint16_t>(j, name, rec); break;
        case 2: t = code<char32_t, std::uint16_t>(j, name, rec); break;
        case 3: t = code<char, std::uint8_t>(j, name, rec); break;
        case 4: t = code<char, std::uint32_t>(j, name, rec); break;
        case 5: t = code<wchar_t, std::uint64_t>(j, name, rec); break;
        }
        o << "// job " << n << ": " << say(j) << "\n" << t << "extern \"C\" void w" << n << "(void* r) { " << name << "(*static_cast<lexertl::" <<
            (rec ? "recursive_match_results" : "match_results") << "<const " << CH[j.kind] << "*, " << ID[j.kind] << ">*>(r)); }\n";
    }
    for (auto& x : f) if (!x->flush()) return 3;
    return 0;
}

using fn = void (*)(void*);

template<typename ch, typename idt, typename results>
static void compare(mc::ctx& c, const job& j, fn f, const lexertl::basic_state_machine<ch, idt>& sm, const std::vector<std::string>& inputs)
{
    // Without ^ in the machine the line-start flag means nothing and generated code leaves it alone.
    const bool cmp_bol = (sm.data()._features & +lexertl::feature_bit::bol) != 0;
    for (auto& in8 : inputs)
    {
        const auto in = lc::widen<ch>(in8);
        for (std::size_t st = 0; st < std::min<std::size_t>(j.st.size(), 3); ++st) for (int bol = 1; bol >= 0; --bol)
        {
            results x(&in[0], &in[0] + in.size(), bol != 0, static_cast<idt>(st)), y(&in[0], &in[0] + in.size(), bol != 0, static_cast<idt>(st));
            ++c.traces;
            for (std::size_t call = 0; call < in.size() + 3; ++call)
            {
                std::string ex, ey;
                auto show = [&](const results& r, const std::string& e)
                {
                    if (!e.empty()) return std::string("runtime_error");
                    std::ostringstream o;
                    o << "id=" << +r.id << " uid=" << +r.user_id << " [" << r.first - &in[0] << ',' << r.second - &in[0] << ')' << (cmp_bol ? r.bol ? " bol=1" : " bol=0" : "") << " state=" << +r.state;
                    for (auto& p : lc::stack_of(r)) o << " (" << p.first << ',' << p.second << ')';
                    return o.str();
                };
                c.state(mc::hash(in8.data(), in8.size(), static_cast<std::uint64_t>(x.second - &in[0]) * 131 + x.state * 7 + x.bol));
                try { lexertl::lookup(sm, x); } catch (const lexertl::runtime_error&) { ex = "e"; }
                try { f(&y); } catch (const lexertl::runtime_error&) { ey = "e"; }
                ++c.transitions;
                const auto a = show(x, ex), b = show(y, ey);
                if (a != b)
                {
                    c.fail("differs", "on input \"" + mc::esc(in8) + "\" (bol=" + std::to_string(bol) + ", state " + std::to_string(st) + ") at call " + std::to_string(call + 1) +
                        "\n  lookup    " + a + "\n  generated " + b);
                    return;
                }
                if (call == 0) c.outcome(a);
                if (!ex.empty() || (x.id == 0 && x.second == x.eoi && call > in.size())) break;
            }
        }
    }
}

template<typename ch, typename idt>
static void one(mc::ctx& c, const job& j, fn f, const std::vector<std::string>& inputs)
{
    lexertl::basic_state_machine<ch, idt> sm;
    make(j, sm);
    if (sm.data()._features & +lexertl::feature_bit::recursive)
        compare<ch, idt, lexertl::recursive_match_results<const ch*, idt>>(c, j, f, sm, inputs);
    else compare<ch, idt, lexertl::match_results<const ch*, idt>>(c, j, f, sm, inputs);
}

int main(int argc, char** argv)
{
    if (argc >= 5 && std::string(argv[1]) == "--gen") return generate(argv[2], std::stoul(argv[3]), std::string(argv[4]) == "thorough");
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const std::string dir = std::getenv("P15_DIR");
        const std::size_t chunks = std::stoul(std::getenv("P15_CHUNKS"));
        const auto js = jobs(T);
        const auto base = mc::strings("abc\r\n", 0, T ? 5 : 4), small = mc::strings("abc\n", 0, 4);
        std::map<std::size_t, void*> lib;
        for (std::size_t n = 0; n < js.size(); ++n)
        {
            if (!c.next()) continue;
            const auto& j = js[n];
            c.describe(say(j));
            if (c.want_sample()) c.sample(say(j));
            void*& h = lib[n % chunks];
            if (!h) h = dlopen((dir + "/chunk" + std::to_string(n % chunks) + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
            fn f = h ? reinterpret_cast<fn>(dlsym(h, ("w" + std::to_string(n)).c_str())) : nullptr;
            if (!f) throw std::runtime_error(std::string("cannot load the compiled code: ") + dlerror());
            const auto& in = j.kind == 0 ? base : small;
            switch (j.kind)
            {
            case 0: one<char, std::uint16_t>(c, j, f, in); break;
            case 1: one<char16_t, std::uint16_t>(c, j, f, in); break;
            case 2: one<char32_t, std::uint16_t>(c, j, f, in); break;
            case 3: one<char, std::uint8_t>(c, j, f, in); break;
            case 4: one<char, std::uint32_t>(c, j, f, in); break;
            case 5: one<wchar_t, std::uint64_t>(c, j, f, in); break;
            }
        }
    });
}
