// P27: memory-mapped files.
#include "mc.hpp"
#include <lexertl/memory_file.hpp>
#include <dirent.h>
#include <memory>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>

// The system calls of the library go through here, so that any one of them can be made to fail.
enum fault { NONE, OPEN, FSTAT, MMAP };
static fault failing = NONE;
static unsigned hit = 0;
extern "C" int open(const char* p, int f, ...)
{
    va_list a; va_start(a, f); const int m = va_arg(a, int); va_end(a);
    if (failing == OPEN) { ++hit; errno = EMFILE; return -1; }
    return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, f, m));
}
extern "C" int fstat(int fd, struct stat* s) noexcept
{
    if (failing == FSTAT) { ++hit; errno = EOVERFLOW; return -1; }
    return static_cast<int>(syscall(SYS_fstat, fd, s));
}
extern "C" void* mmap(void* p, std::size_t n, int pr, int fl, int fd, off_t o) noexcept
{
    if (failing == MMAP && fd >= 0) { ++hit; errno = ENOMEM; return MAP_FAILED; }
    return reinterpret_cast<void*>(syscall(SYS_mmap, p, n, pr, fl, fd, o));
}

static const std::size_t PAGE = 4096;
struct file { std::string name; long size; };   // size -1: cannot be opened, -2: a directory
static std::vector<file> files;
static std::string dir;
static std::string bytes(std::size_t n, std::size_t salt)
{
    std::string s(n, 0);
    for (std::size_t i = 0; i < n; ++i) s[i] = static_cast<char>((i * 7 + i / 251 + salt * 13) & 0x7f);
    return s;
}

// What this process holds of the scratch directory, as the kernel sees it.
struct held
{
    std::map<std::string, std::size_t> maps, fds;
};
static held look()
{
    held h;
    {
        std::ifstream in("/proc/self/maps");
        std::string l;
        while (std::getline(in, l))
        {
            const auto p = l.find(dir + "/");
            if (p == std::string::npos) continue;
            unsigned long long a = 0, b = 0;
            std::sscanf(l.c_str(), "%llx-%llx", &a, &b);
            h.maps[l.substr(p + dir.size() + 1)] += b - a;
        }
    }
    if (DIR* d = opendir("/proc/self/fd"))
    {
        while (dirent* e = readdir(d))
        {
            char b[512];
            const auto n = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof b);
            if (n <= 0) continue;
            const std::string t(b, static_cast<std::size_t>(n));
            if (!t.compare(0, dir.size() + 1, dir + "/")) ++h.fds[t.substr(dir.size() + 1)];
        }
        closedir(d);
    }
    return h;
}

struct op { int obj, kind, file; fault f; };   // kind 0 open, 1 close, 2 destroy and make a new one, 3 destroy and make a new one with a path
static std::string show(const op& o)
{
    static const char* fl[] = { "", " (open fails)", " (fstat fails)", " (mmap fails)" };
    const std::string n = std::string(1, char('A' + o.obj));
    if (o.kind == 1) return n + ".close(); ";
    if (o.kind == 2) return "destroy " + n + "; ";
    return (o.kind == 0 ? n + ".open(" : "destroy " + n + "; " + n + "(") + files[o.file].name + ")" + fl[o.f] + "; ";
}

template<typename ch>
static void run(mc::ctx& c, const std::vector<op>& ops, bool low, bool guards)
{
    using mf = lexertl::basic_memory_file<ch>;
    std::unique_ptr<mf> obj[2] = { std::make_unique<mf>(), std::make_unique<mf>() };
    int at[2] = { -1, -1 };         // the file an object shows
    bool may_hold[2] = { false, false };
    std::vector<int> gfd;
    std::vector<void*> gmap;
    const std::string gpath = dir + "/guard";
    int saved = -1;
    if (low) { saved = fcntl(0, F_DUPFD, 100); close(0); }
    struct cleanup
    {
        std::vector<int>& f; std::vector<void*>& m; int s;
        ~cleanup() { for (auto x : f) close(x); for (auto x : m) munmap(x, PAGE); if (s >= 0) { dup2(s, 0); close(s); } }
    } cl{ gfd, gmap, saved };
    auto guard = [&]()
    {
        if (!guards) return;
        const int g = open(gpath.c_str(), O_RDONLY);
        gfd.push_back(g);
        gmap.push_back(mmap(nullptr, PAGE, PROT_READ, MAP_SHARED, g, 0));
    };
    auto check = [&](const std::string& when)
    {
        const held h = look();
        std::map<std::string, std::size_t> want;
        for (int k = 0; k < 2; ++k) if (obj[k] && at[k] >= 0) want[files[at[k]].name] += (static_cast<std::size_t>(files[at[k]].size) + PAGE - 1) / PAGE * PAGE;
        if (guards) want["guard"] = gmap.size() * PAGE;
        if (!guards || gmap.empty()) want.erase("guard");
        for (auto& x : h.maps) if (x.second != want[x.first]) c.fail("mapping", when + " " + std::to_string(x.second) + " bytes of " + x.first + " are mapped, expected " + std::to_string(want[x.first]));
        for (auto& x : want) if (x.second && !h.maps.count(x.first)) c.fail("mapping", when + " " + x.first + " is not mapped any more");
        std::size_t fds = 0;
        for (auto& x : h.fds) if (x.first != "guard") fds += x.second;
        std::size_t allowed = 0;
        for (int k = 0; k < 2; ++k) allowed += obj[k] && may_hold[k];
        if (fds > allowed) c.fail("descriptor", when + " " + std::to_string(fds) + " descriptors are open, at most " + std::to_string(allowed) + " expected");
        const auto g = h.fds.find("guard");
        if ((g == h.fds.end() ? 0 : g->second) != gfd.size()) c.fail("descriptor", when + " a descriptor of somebody else was closed");
        std::uint64_t key = 0;
        for (int k = 0; k < 2; ++k)
        {
            key = key * 64 + unsigned(obj[k] ? at[k] + 2 : 0) * 2 + may_hold[k];
            if (!obj[k]) continue;
            const ch* d = obj[k]->data();
            const std::size_t n = obj[k]->size();
            if (at[k] < 0)
            {
                if (d || n) c.fail("contents", when + " an object without a file shows " + std::to_string(n) + " characters");
                continue;
            }
            const auto& f = files[at[k]];
            const std::size_t m = static_cast<std::size_t>(f.size) / sizeof(ch);
            if (n != m) c.fail("contents", when + " the size is " + std::to_string(n) + ", expected " + std::to_string(m));
            if (n && !d) c.fail("contents", when + " there is no data");
            if (n && std::memcmp(d, bytes(static_cast<std::size_t>(f.size), at[k]).data(), n * sizeof(ch))) c.fail("contents", when + " the characters differ from the file");
        }
        c.state(key * 4 + fds);
        ++c.transitions;
    };
    std::string past;
    for (auto& o : ops)
    {
        guard();
        past += show(o);
        auto& x = obj[o.obj];
        hit = 0;
        if (o.kind == 2 || o.kind == 3) x.reset();
        const std::string path = dir + "/" + (o.file >= 0 ? files[o.file].name : "");
        failing = o.f;
        if (o.kind == 0) x->open(path.c_str());
        else if (o.kind == 1) x->close();
        else if (o.kind == 2) x = std::make_unique<mf>();
        else x = std::make_unique<mf>(path.c_str());
        failing = NONE;
        const bool opens = o.kind == 0 || o.kind == 3;
        may_hold[o.obj] = opens;
        at[o.obj] = opens && files[o.file].size > 0 && !hit ? o.file : -1;
        check("after " + past);
        ++c.traces;
    }
    for (int k = 0; k < 2; ++k)
    {
        obj[k].reset();
        check("after " + past + "destroying " + std::string(1, char('A' + k)));
    }
    c.outcome(std::to_string(at[0]) + ',' + std::to_string(at[1]));
}

int main(int argc, char** argv)
{
    char t[] = "/tmp/lexertl-p27-XXXXXX";
    if (!mkdtemp(t)) return 2;
    dir = t;
    files = { { "missing", -1 }, { "empty", 0 }, { "dir", -2 }, { "one", 1 }, { "three", 3 }, { "five", 5 }, { "page-1", long(PAGE) - 1 }, { "page", PAGE }, { "page+1", PAGE + 1 }, { "two", 2 * PAGE }, { "large", 5 * PAGE + 2 } };
    for (std::size_t i = 0; i < files.size(); ++i)
    {
        if (files[i].size == -2) mkdir((dir + "/dir").c_str(), 0700);
        else if (files[i].size >= 0) std::ofstream(dir + "/" + files[i].name, std::ios::binary) << bytes(static_cast<std::size_t>(files[i].size), i);
    }
    std::ofstream(dir + "/guard", std::ios::binary) << bytes(PAGE, 77);
    mc::ctx ctx;
    const int rc = ctx.main(argc, argv, [](mc::ctx& c)
    {
        const bool T = c.thorough;
        auto types = [&](const std::vector<op>& ops, bool low, bool guards)
        {
            std::string d = low ? "descriptor 0 free: " : guards ? "others open: " : "";
            for (auto& o : ops) d += show(o);
            for (int k = 0; k < 4; ++k)
            {
                if (!c.next()) continue;
                static const char* n[] = { "8", "16", "32", "wide" };
                c.describe(std::string(n[k]) + "-bit characters: " + d);
                if (c.want_sample()) c.sample(d);
                if (k == 0) run<char>(c, ops, low, guards);
                else if (k == 1) run<char16_t>(c, ops, low, guards);
                else if (k == 2) run<char32_t>(c, ops, low, guards);
                else run<wchar_t>(c, ops, low, guards);
            }
        };
        auto alphabet = [&](int objs, bool all)
        {
            std::vector<op> v;
            for (int o = 0; o < objs; ++o)
            {
                v.push_back({ o, 1, -1, NONE });
                v.push_back({ o, 2, -1, NONE });
                for (int f = 0; f < static_cast<int>(files.size()); ++f)
                {
                    if (!all && f != 0 && f != 1 && f != 5 && f != 8) continue;
                    for (int k : { 0, 3 }) v.push_back({ o, k, f, NONE });
                    if (files[f].size > 0 && (all ? f == 3 || f == 10 : f == 5)) for (fault x : { OPEN, FSTAT, MMAP }) for (int k : { 0, 3 }) { if (!all && k == 3) continue; v.push_back({ o, k, f, x }); }
                }
            }
            return v;
        };
        auto each = [&](const std::vector<op>& a, std::size_t depth, bool low, bool guards)
        {
            for (std::size_t n = 1; n <= depth; ++n)
            {
                std::vector<std::size_t> ix(n);
                for (;;)
                {
                    std::vector<op> ops;
                    for (auto i : ix) ops.push_back(a[i]);
                    types(ops, low, guards);
                    std::size_t i = n;
                    while (i && ++ix[i - 1] == a.size()) ix[--i] = 0;
                    if (!i) break;
                }
            }
        };
        // one object, all files, all failures; two objects with fewer files
        for (int k = 0; k < 3; ++k) each(alphabet(1, true), k == 1 ? 3 : 2, k == 2, k == 1);
        for (int k = 0; k < 3; ++k) each(alphabet(2, false), T ? 4 : k == 1 ? 3 : 2, k == 2, k == 1);
        each(alphabet(1, false), T ? 6 : 4, false, true);
        each(alphabet(1, false), T ? 5 : 4, true, false);
    });
    for (auto& f : files) { if (f.size == -2) rmdir((dir + "/dir").c_str()); else unlink((dir + "/" + f.name).c_str()); }
    unlink((dir + "/guard").c_str());
    rmdir(dir.c_str());
    return rc;
}
