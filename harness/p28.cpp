// P28: lexers that share a machine.
//
// Compiled with the compiler's thread-sanitizer instrumentation, but linked to the hooks below instead of its run-time
// library: every memory access of the library calls a hook. The hooks decide two things. First, whether an operation
// writes to anything but its own stack and memory (its arena): if no operation does, operations on distinct objects and
// lexers on one machine have no conflicting accesses, and all of their interleavings give the same results. Second, the
// hooks are the points at which the explorer below switches between lexers that really run interleaved.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>

#define NO_TSAN __attribute__((no_sanitize_thread, noinline))
namespace rt
{
    constexpr int N = 3;
    constexpr std::size_t STACK = 1 << 20, SIZE = std::size_t(1) << 28;
    static char* base[N];
    static char* at[N];
    static int cur = -1;                    // the logical thread that runs, -1: the explorer
    static bool yielding = false;
    static std::uint64_t step = 0, switch_at = 0;      // accesses to shared memory of this schedule, and the one before which to switch
    static int in_guard = 0, locks = 0;
    static std::uint64_t accesses = 0, shared_reads = 0;
    static const void* bad = nullptr;       // the first write to shared memory
    static const void* bad_pc = nullptr;
    static std::uint64_t bad_writes = 0;
    static ucontext_t main_ctx, ctx[N];
    static char* tls = nullptr;

    NO_TSAN static void yield()
    {
        const int k = cur;
        cur = -1;
        swapcontext(&ctx[k], &main_ctx);
    }
    NO_TSAN static void access(const void* p, bool write, const void* pc)
    {
        ++accesses;
        const char* a = static_cast<const char*>(p);
        const char* b = base[cur];
        if (a >= b && a < b + SIZE) return;
        if (a > tls - 65536 && a < tls + 8192) return;
        if (write)
        {
            if (in_guard || locks) return;
            if (!bad_writes++) { bad = p; bad_pc = pc; }
        }
        else ++shared_reads;
        if (yielding && !in_guard && !locks && ++step == switch_at) yield();
    }
    NO_TSAN static void* take(std::size_t n)
    {
        n = (n + 31) & ~std::size_t(15);
        if (at[cur] + n > base[cur] + SIZE) return nullptr;
        *reinterpret_cast<std::size_t*>(at[cur]) = n - 16;
        void* p = at[cur] + 16;
        at[cur] += n;
        return p;
    }
    NO_TSAN static void stop() { cur = -1; }
    NO_TSAN static bool mine(const void* p)
    {
        for (int k = 0; k < N; ++k) if (base[k] && p >= base[k] && p < base[k] + SIZE) return true;
        return false;
    }
}
extern "C"
{
    void* __libc_malloc(std::size_t);
    void __libc_free(void*);
    void* __libc_calloc(std::size_t, std::size_t);
    void* __libc_realloc(void*, std::size_t);
    NO_TSAN void* malloc(std::size_t n) noexcept { return rt::cur < 0 ? __libc_malloc(n) : rt::take(n); }
    NO_TSAN void free(void* p) noexcept { if (p && !rt::mine(p)) __libc_free(p); }
    NO_TSAN void* calloc(std::size_t n, std::size_t m) noexcept
    {
        if (rt::cur < 0) return __libc_calloc(n, m);
        char* p = static_cast<char*>(rt::take(n * m));
        for (volatile std::size_t i = 0; p && i < n * m; i = i + 1) p[i] = 0;
        return p;
    }
    NO_TSAN void* realloc(void* p, std::size_t n) noexcept
    {
        if (rt::cur < 0 && !rt::mine(p)) return __libc_realloc(p, n);
        char* q = static_cast<char*>(malloc(n));
        if (p && q)
        {
            const std::size_t o = rt::mine(p) ? static_cast<std::size_t*>(p)[-2] : n;
            for (volatile std::size_t i = 0; i < n && i < o; i = i + 1) q[i] = static_cast<char*>(p)[i];
        }
        free(p);
        return q;
    }
#define PC __builtin_return_address(0)
    NO_TSAN void* memcpy(void* d, const void* s, std::size_t n) noexcept
    {
        if (rt::cur >= 0 && n) { rt::access(s, false, PC); rt::access(d, true, PC); }
        void* r = d;
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        return r;
    }
    NO_TSAN void* memmove(void* d, const void* s, std::size_t n) noexcept
    {
        if (rt::cur >= 0 && n) { rt::access(s, false, PC); rt::access(d, true, PC); }
        void* r = d;
        if (d <= s || static_cast<char*>(d) >= static_cast<const char*>(s) + n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
        char* x = static_cast<char*>(d) + n - 1;
        const char* y = static_cast<const char*>(s) + n - 1;
        __asm__ volatile("std\n rep movsb\n cld" : "+D"(x), "+S"(y), "+c"(n) : : "memory");
        return r;
    }
    NO_TSAN void* memset(void* d, int c, std::size_t n) noexcept
    {
        if (rt::cur >= 0 && n) rt::access(d, true, PC);
        void* r = d;
        __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
        return r;
    }
    NO_TSAN void __tsan_init() {}
    NO_TSAN void __tsan_func_entry(void*) {}
    NO_TSAN void __tsan_func_exit() {}
#define RW(n) \
    NO_TSAN void __tsan_read##n(void* p) { if (rt::cur >= 0) rt::access(p, false, PC); } \
    NO_TSAN void __tsan_write##n(void* p) { if (rt::cur >= 0) rt::access(p, true, PC); } \
    NO_TSAN void __tsan_unaligned_read##n(void* p) { if (rt::cur >= 0) rt::access(p, false, PC); } \
    NO_TSAN void __tsan_unaligned_write##n(void* p) { if (rt::cur >= 0) rt::access(p, true, PC); } \
    NO_TSAN void __tsan_volatile_read##n(void* p) { if (rt::cur >= 0) rt::access(p, false, PC); } \
    NO_TSAN void __tsan_volatile_write##n(void* p) { if (rt::cur >= 0) rt::access(p, true, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    NO_TSAN void __tsan_read_range(void* p, long n) { if (rt::cur >= 0 && n) rt::access(p, false, PC); }
    NO_TSAN void __tsan_write_range(void* p, long n) { if (rt::cur >= 0 && n) rt::access(p, true, PC); }
    NO_TSAN void __tsan_vptr_update(void** p, void*) { if (rt::cur >= 0) rt::access(p, true, PC); }
    NO_TSAN void __tsan_vptr_read(void** p) { if (rt::cur >= 0) rt::access(p, false, PC); }
    // Atomic operations are no conflicts; they are switching points.
#define AT(b, T) \
    NO_TSAN T __tsan_atomic##b##_load(const volatile T* p, int) { if (rt::cur >= 0) rt::access(const_cast<const T*>(p), false, PC); return __atomic_load_n(p, 5); } \
    NO_TSAN void __tsan_atomic##b##_store(volatile T* p, T v, int) { if (rt::cur >= 0) rt::access(const_cast<const T*>(p), false, PC); __atomic_store_n(p, v, 5); } \
    NO_TSAN T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { return __atomic_exchange_n(p, v, 5); } \
    NO_TSAN T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { return __atomic_fetch_add(p, v, 5); } \
    NO_TSAN T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { return __atomic_fetch_sub(p, v, 5); } \
    NO_TSAN T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { return __atomic_fetch_and(p, v, 5); } \
    NO_TSAN T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { return __atomic_fetch_or(p, v, 5); } \
    NO_TSAN T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { return __atomic_fetch_xor(p, v, 5); } \
    NO_TSAN bool __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
    NO_TSAN bool __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, false, 5, 5); }
    AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
    NO_TSAN void __tsan_atomic_thread_fence(int) {}
    // Initialisation of function-local statics and critical sections are synchronised.
    NO_TSAN int __cxa_guard_acquire(long long* g) { if (*reinterpret_cast<char*>(g)) return 0; ++rt::in_guard; return 1; }
    NO_TSAN void __cxa_guard_release(long long* g) { *reinterpret_cast<char*>(g) = 1; --rt::in_guard; }
    NO_TSAN void __cxa_guard_abort(long long*) { --rt::in_guard; }
    NO_TSAN int pthread_mutex_lock(pthread_mutex_t*) noexcept { ++rt::locks; return 0; }
    NO_TSAN int pthread_mutex_unlock(pthread_mutex_t*) noexcept { --rt::locks; return 0; }
    extern char __data_start[], _end[];
}

#include "machine.hpp"
#include "sets.hpp"
#include <lexertl/debug.hpp>
#include <lexertl/dot.hpp>
#include <lexertl/generate_cpp.hpp>
#include <lexertl/iterator.hpp>
#include <lexertl/replace.hpp>
#include <lexertl/serialise.hpp>
using namespace ref;

static const std::size_t FLAGS = +lexertl::regex_flags::dot_not_newline | +lexertl::regex_flags::allow_suppressed_rules;

// Logical threads.
namespace th
{
    using fn = std::function<void()>;
    static const fn* body[rt::N];
    static bool done[rt::N];
    static std::exception_ptr* err[rt::N];
    static void entry(int k)
    {
        try { (*body[k])(); }
        catch (...) { rt::stop(); *err[k] = std::current_exception(); }
        rt::stop();
        done[k] = true;
        swapcontext(&rt::ctx[k], &rt::main_ctx);
    }
    static void init()
    {
        for (int k = 0; k < rt::N; ++k)
        {
            rt::base[k] = static_cast<char*>(mmap(nullptr, rt::SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (rt::base[k] == MAP_FAILED) std::abort();
            err[k] = new std::exception_ptr;
        }
        static thread_local int t;
        rt::tls = reinterpret_cast<char*>(&t);
    }
    static void start(int k, const fn& f)
    {
        rt::at[k] = rt::base[k] + rt::STACK;
        body[k] = &f;
        done[k] = false;
        *err[k] = nullptr;
        getcontext(&rt::ctx[k]);
        rt::ctx[k].uc_stack.ss_sp = rt::base[k];
        rt::ctx[k].uc_stack.ss_size = rt::STACK;
        rt::ctx[k].uc_link = nullptr;
        makecontext(&rt::ctx[k], reinterpret_cast<void(*)()>(entry), 1, k);
    }
    static void resume(int k)
    {
        rt::cur = k;
        swapcontext(&rt::main_ctx, &rt::ctx[k]);
        rt::cur = -1;
    }
    static void reset() { rt::bad = nullptr; rt::bad_writes = 0; rt::in_guard = rt::locks = 0; }
    // Runs f as a thread of its own and says where it wrote to memory that is not its own.
    static std::string alone(const fn& f)
    {
        reset();
        rt::yielding = false;
        start(0, f);
        resume(0);
        if (!rt::bad_writes) return std::string();
        const char* a = static_cast<const char*>(rt::bad);
        std::ostringstream o;
        o << "it makes " << rt::bad_writes << " unsynchronised writes to memory that others share, the first to "
            << (a >= __data_start && a < _end ? "a static variable" : "the shared object or memory allocated before");
        return o.str();
    }
}

struct tok
{
    unsigned id, uid, a, b, st;
    bool bol, thrown;
    bool operator ==(const tok& o) const { return id == o.id && uid == o.uid && a == o.a && b == o.b && st == o.st && bol == o.bol && thrown == o.thrown; }
};
// What one lexer sees; lives in the arena of its thread.
struct tape
{
    tok t[24];
    unsigned n = 0;
};
NO_TSAN static void publish(tape*& to, tape* t) { to = t; }
static bool same(const tape& a, const tape& b)
{
    if (a.n != b.n) return false;
    for (unsigned i = 0; i < a.n; ++i) if (!(a.t[i] == b.t[i])) return false;
    return true;
}
static std::string show(const tape& a)
{
    std::ostringstream o;
    for (unsigned i = 0; i < a.n; ++i) o << (a.t[i].thrown ? std::string("error") : std::to_string(a.t[i].id) + "/" + std::to_string(a.t[i].uid) + "[" + std::to_string(a.t[i].a) + "," + std::to_string(a.t[i].b) + ")s" + std::to_string(a.t[i].st)) << ' ';
    return o.str();
}
template<typename results, typename sm_t>
static bool one(const sm_t& sm, results& r, const typename results::char_type* s, tape& t)
{
    tok& x = t.t[t.n++];
    x.thrown = false;
    try { lexertl::lookup(sm, r); } catch (const lexertl::runtime_error&) { x = tok(); x.thrown = true; return false; }
    x.id = r.id; x.uid = r.user_id; x.a = static_cast<unsigned>(r.first - s); x.b = static_cast<unsigned>(r.second - s); x.st = r.state; x.bol = r.bol;
    return r.id != 0 && t.n < 23;
}

template<typename ch, typename results>
struct kit
{
    using rules_t = lexertl::basic_rules<ch, ch>;
    using sm_t = lexertl::basic_state_machine<ch>;
    using str = std::basic_string<ch>;
    static tape* lex(const sm_t& sm, const str& s)
    {
        tape* t = new tape;
        results r(s.data(), s.data() + s.size());
        while (one(sm, r, s.data(), *t));
        return t;
    }
    // Every interleaving of the lexers' accesses to shared memory with at most `bound` switches away from a lexer that could go on.
    static void schedules(mc::ctx& c, const sm_t& sm, const std::vector<str>& in, const std::vector<tape>& want, unsigned bound)
    {
        const int n = static_cast<int>(in.size());
        // A schedule: who starts, and at which step to switch to whom. Depth first over the choices.
        struct choice { unsigned step; int to; };
        std::vector<choice> path;
        std::function<void(int, unsigned)> rec;
        std::vector<th::fn> f(n);
        std::vector<tape*> got(n);
        for (int k = 0; k < n; ++k) f[k] = [&, k]() { publish(got[k], lex(sm, in[k])); };
        std::vector<unsigned char> who;         // who made each access
        std::vector<unsigned> fin(n, 0);        // how many had been made when each finished
        auto run = [&](int first) -> unsigned
        {
            th::reset();
            for (int k = 0; k < n; ++k) { got[k] = nullptr; th::start(k, f[k]); }
            rt::yielding = true;
            rt::step = 0;
            who.clear();
            int k = first;
            std::size_t next = 0;
            for (;;)
            {
                rt::switch_at = next < path.size() ? path[next].step : 0;
                th::resume(k);
                who.resize(rt::step, static_cast<unsigned char>(k));
                if (th::done[k])
                {
                    fin[k] = static_cast<unsigned>(rt::step);
                    int left = -1;
                    for (int j = 1; j < n && left < 0; ++j) if (!th::done[(k + j) % n]) left = (k + j) % n;
                    if (left < 0) break;
                    k = left;
                }
                else k = path[next++].to;
            }
            rt::yielding = false;
            ++c.traces;
            c.transitions += rt::step;
            for (int j = 0; j < n; ++j)
                if (*th::err[j] || !got[j] || !same(*got[j], want[j]))
                {
                    std::ostringstream o;
                    o << "lexers " << n << ", lexer " << first << " first";
                    for (auto& p : path) o << ", before access " << p.step << " lexer " << p.to;
                    o << ": lexer " << j << " sees " << (got[j] ? show(*got[j]) : "nothing") << "instead of " << show(want[j]);
                    c.fail("schedule", o.str());
                }
            return static_cast<unsigned>(rt::step);
        };
        rec = [&](int first, unsigned from)
        {
            const unsigned total = run(first);
            if (path.size() >= bound) return;
            const auto by = who;
            const auto last = fin;
            for (unsigned s = from + 1; s <= total; ++s)
                for (int to = 0; to < n; ++to)
                {
                    if (to == by[s - 1] || last[to] < s) continue;
                    path.push_back({ s, to });
                    rec(first, s);
                    path.pop_back();
                }
        };
        for (int first = 0; first < n; ++first) rec(first, 0);
    }
    // Every interleaving of whole lookup calls.
    static void calls(mc::ctx& c, const sm_t& sm, const std::vector<str>& in, const std::vector<tape>& want)
    {
        const std::size_t n = in.size();
        std::vector<std::size_t> order;
        for (std::size_t k = 0; k < n; ++k) order.insert(order.end(), want[k].n, k);
        do
        {
            std::vector<results> r;
            std::vector<tape> t(n);
            for (auto& s : in) r.emplace_back(s.data(), s.data() + s.size());
            for (auto k : order) one(sm, r[k], in[k].data(), t[k]);
            ++c.traces;
            c.transitions += order.size();
            for (std::size_t k = 0; k < n; ++k) if (!same(t[k], want[k]))
            {
                std::string o;
                for (auto x : order) o += std::to_string(x);
                c.fail("calls", "calls in the order " + o + ": lexer " + std::to_string(k) + " sees " + show(t[k]) + "instead of " + show(want[k]));
            }
        } while (std::next_permutation(order.begin(), order.end()));
    }
    static void shared(mc::ctx& c, const std::vector<rules>& st, const std::vector<std::string>& inputs, const std::vector<std::vector<std::string>>& groups, unsigned bound)
    {
        rules_t r(FLAGS);
        lc::push(r, st);
        sm_t sm;
        lexertl::basic_generator<rules_t, sm_t>::build(r, sm);
        std::map<std::string, tape> tapes;
        for (auto& i : inputs)
        {
            const str s = lc::widen<ch>(i);
            tape* t = nullptr;
            const auto why = th::alone([&]() { publish(t, lex(sm, s)); });
            ++c.traces;
            if (!why.empty()) c.fail("writes", "lexing \"" + mc::esc(i) + "\": " + why);
            tapes[i] = *t;
            c.state(mc::hash(show(*t).data(), show(*t).size()));
            c.outcome(std::to_string(t->n));
        }
        for (auto& g : groups)
        {
            std::vector<str> in;
            std::vector<tape> want;
            for (auto& i : g) { in.push_back(lc::widen<ch>(i)); want.push_back(tapes.at(i)); }
            bool thrown = false;
            for (auto& w : want) for (unsigned i = 0; i < w.n; ++i) thrown = thrown || w.t[i].thrown;
            unsigned total = 0;
            for (auto& w : want) total += w.n;
            if (total <= (in.size() > 2 ? 9u : 12u)) calls(c, sm, in, want);
            if (bound && !thrown) schedules(c, sm, in, want, in.size() > 2 ? bound - 1 : bound);
        }
    }
};

// Operations on objects of their own.
static void build_all(const std::string& regex, bool wide)
{
    using namespace lexertl;
    auto go = [&](auto z)
    {
        using ch = decltype(z);
        using rules_t = basic_rules<char, ch>;
        using sm_t = basic_state_machine<ch>;
        rules_t r(FLAGS);
        try
        {
            r.push_state("S");
            r.insert_macro("M", "[a-c]+");
            r.push("INITIAL,S", regex, 1, ".");
            r.push("S", "{M}x", 2, "INITIAL");
            r.push("*", "y", 3, ">S");
            r.push("S", "z", 4, "<");
            sm_t sm;
            basic_generator<rules_t, sm_t>::build(r, sm);
            sm.minimise();
            basic_char_state_machine<ch> csm;
            basic_generator<rules_t, decltype(csm)>::build(r, csm);
            csm.minimise();
            r.reverse();
        }
        catch (const runtime_error&) {}
    };
    if (wide) { go(char16_t()); go(char32_t()); }
    else go(char());
}
static void outputs(const std::string& regex, const std::string& text)
{
    using namespace lexertl;
    lexertl::rules r(FLAGS);
    try
    {
        r.push(regex, 1);
        r.push("(?s:.)", 2);
        state_machine sm, sm2;
        generator::build(r, sm);
        std::stringstream ss;
        save(sm, ss);
        load(ss, sm2);
        std::ostringstream o;
        debug::dump(sm, r, o);
        debug::dump(r, o);
        dot::dump(sm, r, o);
        table_based_cpp::generate("f", sm, false, o);
        table_based_cpp::generate("f", sm, true, o);
        std::size_t n = 0;
        for (siterator i(text.begin(), text.end(), sm), e; i != e && n < 20; ++i) n += i->id;
        replace(text, sm2, "x");
    }
    catch (const runtime_error&) {}
}

int main(int argc, char** argv)
{
    th::init();
    mc::ctx ctx;
    return ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        const auto inputs = mc::strings("ab\n", 0, T ? 5 : 4);
        const std::vector<std::vector<std::string>> groups{ { "a", "b" }, { "ab", "ba" }, { "aa", "\na" }, { "a\nb", "ab" }, { "aab", "aab" }, { "b\n", "a\n" }, { "ab", "a", "b" }, { "aa", "b\n", "ab" } };
        // Preparing and printing: every operation writes to its own memory only. First in the process, so that
        // anything initialised lazily is seen at its first use.
        {
            const std::vector<std::string> texts{ "a", "a|b", "(a|b)*c", "a{2,4}", "a*?b", "^a", "b$", "[a-z]+", "[^a]", "(?i:ab)", "(?s:.)", "\\p{Lu}", "\\p{L}+", "\\w+", "\\d{2}", "[[:alpha:]]+", "\\x41", "\\101", "\\cA", "\"ab\"", "(?#c)a", "[a-z]{-}[b]", "[a]{+}[b]", "{M}+", "a??b", "(?x:a b)", "[[:nope:]]", "a**", "(", "\\x100000000", "[b-a]", "{N}", "(?i:\\xe9)", "\\p{IsGreek}", "\\p{InBasic_Latin}", "[\\p{Ll}A]" };
            for (int w = 0; w < 2; ++w) for (auto& t : texts)
            {
                if (!c.next()) continue;
                c.describe((w ? "wide: " : "narrow: ") + t);
                if (c.want_sample()) c.sample("building with " + t);
                for (int again = 0; again < 2; ++again)
                {
                    auto why = th::alone([&]() { build_all(t, w != 0); });
                    if (!why.empty()) c.fail("writes", "building rules and machines of their own: " + why);
                    if (!w)
                    {
                        why = th::alone([&]() { outputs(t, "aab\nbAB 12"); });
                        if (!why.empty()) c.fail("writes", "saving, loading, dumping, generating code, iterating or replacing: " + why);
                    }
                    ++c.traces;
                    c.state(rt::accesses);
                    c.transitions += 1;
                }
            }
        }
        std::uint64_t i = 0;
        sets::each(T ? 1 : 0, [&](const std::vector<rules>& st)
        {
            if (!sets::usable(st)) return;
            ++i;
            if (!c.next()) return;
            c.describe(lc::show(st));
            if (c.want_sample()) c.sample(lc::show(st) + "lexed alone and by two and three interleaved lexers");
            // every access of the library is a point to switch for a part of the rule sets, whole calls for all of them
            const unsigned bound = T && i % 101 == 0 ? 3 : i % (T ? 7 : 15) == 0 || st.size() > 1 && i % 5 == 0 ? 2 : 0;
            if (lc::recursive(st)) kit<char, lexertl::recursive_match_results<const char*>>::shared(c, st, inputs, groups, bound);
            else kit<char, lexertl::match_results<const char*>>::shared(c, st, inputs, groups, bound);
            if (i % 3 == 0)
            {
                if (lc::recursive(st)) kit<char16_t, lexertl::recursive_match_results<const char16_t*>>::shared(c, st, inputs, groups, 0);
                else kit<char16_t, lexertl::match_results<const char16_t*>>::shared(c, st, inputs, groups, 0);
            }
        });
    });
}
