// P18: \p classes, wide POSIX classes and case folding against the data files shipped with the project.
#include "wide.hpp"
using wide::u32;
using wide::cset;

struct data
{
    std::map<std::string, cset> cls;      // every \p name
    std::map<u32, u32> fold;              // simple case mapping: lower of Lu, upper of Ll
    std::set<std::string> categories;
};
static std::vector<std::string> split(const std::string& l, char sep)
{
    std::vector<std::string> v(1);
    for (char x : l) if (x == sep) v.emplace_back(); else v.back() += x;
    return v;
}
static std::string trim(const std::string& s)
{
    const auto a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
    return a == std::string::npos ? std::string() : s.substr(a, b - a + 1);
}
static u32 hexv(const std::string& s) { return static_cast<u32>(std::strtoul(s.c_str(), nullptr, 16)); }

static data read()
{
    const char* e = std::getenv("VERIF_REPO");
    const std::string dir = std::string(e ? e : "/repo") + "/gen_unicode_hpp/";
    data d;
    std::string l;
    std::ifstream u(dir + "UnicodeData.txt"), b(dir + "Blocks.txt"), s(dir + "Scripts.txt");
    if (!u || !b || !s) throw std::runtime_error("cannot read " + dir);
    u32 first = 0;
    bool open = false;
    while (std::getline(u, l))
    {
        const auto f = split(trim(l), ';');
        if (f.size() < 14) continue;
        const u32 c = hexv(f[0]);
        if (f[1].size() > 8 && f[1].substr(f[1].size() - 8) == ", First>") { first = c; open = true; continue; }
        d.cls[f[2]].add(open ? first : c, c);
        open = false;
        d.categories.insert(f[2]);
        if (f[2] == "Ll" && !f[12].empty()) d.fold[c] = hexv(f[12]);
        if (f[2] == "Lu" && !f[13].empty()) d.fold[c] = hexv(f[13]);
    }
    for (auto& n : d.categories) { auto& g = d.cls[n.substr(0, 1)]; const auto x = d.cls[n]; g.r.insert(g.r.end(), x.r.begin(), x.r.end()); }
    for (auto n : { "Ll", "Lt", "Lu" }) { auto& g = d.cls["LC"]; const auto x = d.cls[n]; g.r.insert(g.r.end(), x.r.begin(), x.r.end()); }
    while (std::getline(b, l))
    {
        l = trim(l);
        if (l.empty() || l[0] == '#') continue;
        const auto f = split(l, ';');
        const auto dots = f[0].find("..");
        std::string n = trim(f[1]);
        for (auto& x : n) if (x == ' ') x = '_';
        d.cls["In" + n].add(hexv(f[0]), hexv(f[0].substr(dots + 2)));
    }
    while (std::getline(s, l))
    {
        l = trim(l.substr(0, l.find('#')));
        if (l.empty()) continue;
        const auto f = split(l, ';');
        const auto dots = f[0].find("..");
        d.cls["Is" + trim(f[1])].add(hexv(f[0]), hexv(dots == std::string::npos ? f[0] : f[0].substr(dots + 2)));
    }
    for (auto& x : d.cls) x.second.norm();
    return d;
}

template<typename ch>
struct lab
{
    using rules_t = lexertl::basic_rules<char, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;
    mc::ctx& c;
    const data& d;
    static u32 top() { return wide::top(sizeof(ch)); }
    static std::string width() { return std::to_string(sizeof(ch) * 8) + " bit"; }
    static std::string x(u32 v) { char b[16]; std::snprintf(b, sizeof b, "\\x%x", v); return b; }
    cset clip(const cset& s) const { return s & wide::range(0, top()); }
    cset folded(const cset& s) const
    {
        cset o = s;
        for (auto& r : s.r) for (auto i = d.fold.lower_bound(r.first); i != d.fold.end() && i->first <= r.second; ++i) o.add(i->second, i->second);
        o.norm();
        return clip(o);
    }
    void one(const std::string& t, const cset& want0, bool icase = false, bool look = true, bool all = false)
    {
        const cset want = clip(want0);
        rules_t r(+lexertl::regex_flags::dot_not_newline | (icase ? +lexertl::regex_flags::icase : 0));
        sm_t sm;
        const std::string what = width() + " \"" + t + "\"" + (icase ? " icase" : "");
        c.describe(what);
        if (c.want_sample()) c.sample(what);
        ++c.traces;
        try { r.push(t, 1); lexertl::basic_generator<rules_t, sm_t>::build(r, sm); }
        catch (const lexertl::runtime_error& e)
        {
            if (!want.empty()) c.fail("rejected", what + ": " + e.what());
            c.outcome("empty");
            return;
        }
        if (want.empty()) return c.fail("accepted", what + " matches nothing but is accepted");
        wide::steps<ch, std::uint16_t> st(c, sm);
        const cset got = st.with_id(1, 1);
        if (!(got == want)) return c.fail("set", what + ": should also match " + wide::minus(want, got).show() + "\n  should not match " + wide::minus(got, want).show());
        if (look) { const auto e = wide::probe<ch>(c, sm, want, 1, all); if (!e.empty()) c.fail("lookup", what + ": " + e); }
        c.outcome(want.show());
    }
    void reject(const std::string& t)
    {
        c.describe(width() + " \"" + t + "\"");
        ++c.traces;
        rules_t r;
        try { r.push(t, 1); }
        catch (const lexertl::runtime_error&) { c.state(mc::hash(t.data(), t.size())); ++c.transitions; return; }
        c.fail("unknown", width() + " \"" + t + "\" is not rejected");
    }

    void run(bool T)
    {
        const cset all = wide::range(0, top());
        // 1. Every name: alone, in brackets, negated, with the case option, beside another item.
        for (auto& n : d.cls)
        {
            if (!c.next()) continue;
            const std::string t = "\\p{" + n.first + "}";
            const cset neg = wide::negate(clip(n.second), top());
            one(t, n.second, false, true, T);
            one("[" + t + "]", n.second);
            if (!neg.empty()) one("[^" + t + "]", neg);
            one("[a" + t + "]", n.second | wide::range('a', 'a'), false, false);
            one("[" + t + "\\x41-\\x5b]", n.second | wide::range(0x41, 0x5b), false, false);
            one(t, folded(clip(n.second)), true, false);
            one("(?i:[" + t + "])", folded(clip(n.second)), false, false);
            if (!wide::minus(clip(n.second), wide::range(0, 0x7f)).empty()) one("[" + t + "]{-}[\\x0-\\x7f]", wide::minus(n.second, wide::range(0, 0x7f)), false, false);
            // Names are matched exactly.
            reject("\\p{" + n.first + "x}");
            std::string cut = n.first.substr(0, n.first.size() - 1);
            if (!cut.empty() && !d.cls.count(cut)) reject("\\p{" + cut + "}");
            std::string low = n.first;
            for (auto& q : low) q = static_cast<char>(std::tolower(q));
            if (!d.cls.count(low)) reject("\\p{" + low + "}");
        }
        // 2. Pairs of categories.
        for (auto& a : d.categories) for (auto& b : d.categories)
        {
            if (!c.next()) continue;
            one("[\\p{" + a + "}\\p{" + b + "}]", d.cls.at(a) | d.cls.at(b), false, false);
            if (a != b) { one("[\\p{" + a + "}]{+}\\p{" + b + "}", d.cls.at(a) | d.cls.at(b), false, false); one("\\p{" + a + "}{-}\\p{" + b + "}", d.cls.at(a), false, false); }
        }
        // 3. POSIX classes.
        const auto L = [&](std::initializer_list<const char*> n) { cset s; for (auto i : n) s = s | d.cls.at(i); return s; };
        const auto chars = [](const char* t) { cset s; for (; *t; ++t) s.add(static_cast<u32>(*t), static_cast<u32>(*t)); s.norm(); return s; };
        const std::vector<std::pair<std::string, cset>> posix{ { "alnum", L({ "Ll", "Lu", "Nd" }) }, { "alpha", L({ "Ll", "Lu" }) }, { "blank", L({ "Zs" }) | chars("\t") },
            { "cntrl", L({ "Cc" }) }, { "digit", L({ "Nd" }) }, { "graph", wide::negate(L({ "Z", "C" }), 0x10ffff) }, { "lower", L({ "Ll" }) }, { "print", wide::negate(L({ "C" }), 0x10ffff) },
            { "punct", L({ "P", "S" }) }, { "space", L({ "Z" }) | chars("\t\r\n\v\f") }, { "upper", L({ "Lu" }) }, { "xdigit", chars("0123456789abcdefABCDEF") } };
        for (auto& p : posix)
        {
            if (!c.next()) continue;
            const cset s = clip(p.second), n = wide::negate(s, top());
            one("[[:" + p.first + ":]]", s, false, true, T);
            one("[[:^" + p.first + ":]]", n);
            one("[^[:" + p.first + ":]]", n);
            one("[^[:^" + p.first + ":]]", s);
            one("[[:" + p.first + ":]\\p{Lm}]", s | d.cls.at("Lm"), false, false);
            if (p.first != "graph" && p.first != "print") one("[[:" + p.first + ":]]", folded(s), true, false);
            for (auto& q : posix) one("[[:" + p.first + ":][:^" + q.first + ":]]", s | wide::negate(clip(q.second), top()), false, false);
        }
        // Shortcuts are ASCII.
        if (c.next())
        {
            const cset dg = wide::range('0', '9'), w = dg | wide::range('a', 'z') | wide::range('A', 'Z') | chars("_"), sp = chars(" \t\n\r\f\v");
            one("\\d", dg); one("\\D", wide::negate(dg, top())); one("\\w", w); one("\\W", wide::negate(w, top())); one("\\s", sp); one("\\S", wide::negate(sp, top()));
        }
        // 4. Case folding of every single character (quick: those with a mapping, targets and neighbours).
        std::set<u32> pick;
        for (auto& f : d.fold) for (u32 v : { f.first, f.second }) for (int k = -1; k <= 1; ++k) pick.insert(static_cast<u32>(static_cast<int>(v) + k));
        if (T) for (u32 v = 0; v < 0x20000; ++v) pick.insert(v);
        for (u32 v = 0; v < 0x180; ++v) pick.insert(v);
        for (u32 v = 0; v <= 0x10ffff; v += 0x111) pick.insert(v);
        std::size_t n = 0;
        for (u32 v : pick)
        {
            if (v > top()) break;
            if (n++ % 16 == 0 ? !c.next() : !_mine) { _mine = false; continue; }
            _mine = true;
            const cset s = wide::range(v, v), f = folded(s);
            one(x(v), f, true, false);
            one("[" + x(v) + "]", f, true, false);
            one("[^" + x(v) + "]", wide::negate(f, top()), true, false);
            one("(?-i:" + x(v) + ")", s, true, false);
        }
        // 5. Case folding of ranges between the borders of the mapped runs.
        std::vector<u32> edge;
        for (u32 v : pick) if (v <= top() && (d.fold.count(v) != d.fold.count(v - 1) || (d.fold.count(v) && d.fold.at(v) - d.fold.at(v - 1) != 1))) { edge.push_back(v); if (v) edge.push_back(v - 1); edge.push_back(v + 1); }
        std::sort(edge.begin(), edge.end());
        edge.erase(std::unique(edge.begin(), edge.end()), edge.end());
        for (std::size_t i = 0; i < edge.size(); ++i)
        {
            if (!c.next()) continue;
            const std::size_t reach = T ? 40 : 7;
            for (std::size_t j = i; j < edge.size() && j < i + reach; ++j) range(edge[i], edge[j]);
            for (u32 far : { 0x7fu, 0x17fu, 0x3ffu, 0x1fffu, 0xffffu, 0x103ffu, 0x10410u, 0x1e930u, 0x10ffffu }) if (far > edge[i] && far <= top()) range(edge[i], far);
        }
    }
    void range(u32 a, u32 b)
    {
        const cset s = wide::range(a, b);
        const std::string t = x(a) + "-" + x(b);
        one("[" + t + "]", folded(s), true, false);
        const cset n = wide::negate(folded(s), top());
        if (!n.empty()) one("[^" + t + "]", n, true, false);
    }
    bool _mine = false;
    lab(mc::ctx& a, const data& b) : c(a), d(b) {}
};

int main(int argc, char** argv)
{
    const data d = read();
    mc::ctx ctx;
    return ctx.main(argc, argv, [&](mc::ctx& c)
    {
        c.count("class names", 0);
        lab<char16_t>(c, d).run(c.thorough);
        lab<char32_t>(c, d).run(c.thorough);
        if (c.thorough) lab<wchar_t>(c, d).run(false);
        // The table has no further names: an entry without data would be accepted.
        if (c.next())
        {
            const char* e = std::getenv("VERIF_REPO");
            std::ifstream t(std::string(e ? e : "/repo") + "/include/lexertl/parser/tokeniser/table.inc");
            std::string l;
            while (std::getline(t, l))
            {
                const auto q = l.find('"');
                if (q == std::string::npos) continue;
                const std::string n = l.substr(q + 1, l.find('"', q + 1) - q - 1);
                ++c.transitions; ++c.traces;
                c.state(mc::hash(n.data(), n.size()));
                if (!d.cls.count(n)) c.fail("extra", "\\p{" + n + "} is not in the data");
            }
        }
    });
}
