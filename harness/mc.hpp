// Worker-side support for the exhaustive explorers in /verif/harness.
//
// A harness enumerates its bounded space in one fixed, simplest-first order.
// tools/runner.py starts N copies; copy k handles the cases whose number is k modulo N.
// The case in progress is kept in a memory-mapped status file, so that a crash, a hang or
// a runaway allocation in the library is attributed to the case that caused it.
#ifndef MC_HPP
#define MC_HPP
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc
{
    struct violation : std::exception { };

    inline std::string esc(const std::string& s)
    {
        std::string o;
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '\\' || c == '"') { o += '\\'; o += static_cast<char>(c); }
            else if (c >= 32 && c < 127) o += static_cast<char>(c);
            else if (c == '\n') o += "\\n";
            else if (c == '\r') o += "\\r";
            else if (c == '\t') o += "\\t";
            else { std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        }
        return o;
    }

    inline std::string json(const std::string& s)
    {
        std::string o = "\"";
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
            else if (c >= 32 && c < 127) o += static_cast<char>(c);
            else { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        }
        return o + "\"";
    }

    struct status
    {
        volatile std::uint64_t case_no;
        volatile std::uint64_t beats;
        char desc[16000];
    };

    class ctx
    {
    public:
        std::uint64_t states = 0, transitions = 0, traces = 0;

        // Counts a state of the current case once, however often it is reached.
        void state(std::uint64_t h)
        {
            h = h * 0x9e3779b97f4a7c15ull | 1;
            if (_tab.empty() || _used * 2 > _tab.size())
            {
                std::vector<std::uint64_t> old(_tab.empty() ? 1024 : _tab.size() * 2);
                old.swap(_tab);
                _used = 0;
                for (auto x : old) if (x) put(x);
            }
            if (put(h)) ++states;
        }
        bool thorough = false;
        unsigned seed = 1;
        std::string workdir;

        // True when the next case of the enumeration belongs to this worker.
        bool next()
        {
            const auto no = _next++;
            if (_only >= 0) { _mine = no == static_cast<std::uint64_t>(_only); }
            else _mine = (no * 0x9E3779B97F4A7C15ull >> 40) % _n == _k;   // scattered, as costs often follow a period
            if (_mine && _used) { std::fill(_tab.begin(), _tab.end(), 0); _used = 0; }
            if (_mine) { _st->case_no = no; ++_st->beats; ++_cases; _st->desc[0] = 0; }
            return _mine;
        }
        void describe(const std::string& d)
        {
            const auto n = std::min(d.size(), sizeof(_st->desc) - 1);
            std::memcpy(_st->desc, d.data(), n);
            _st->desc[n] = 0;
        }
        void beat() { ++_st->beats; }
        void sample(const std::string& s) { if (_samples.size() < 3) _samples.push_back(s); }
        // Every so often, keep an actual case for the evidence file.
        bool want_sample() const { return _samples.size() < 3 && (_cases == 5 || _cases % 97 == 0); }
        void outcome(const std::string& s) { if (_outcomes.size() < 200000) _outcomes.insert(std::hash<std::string>()(s)); }
        void count(const std::string& name, std::uint64_t by = 1) { _extra[name] += by; }

        // Reports a violation found in the current case. key identifies the failure
        // so that a listed known finding can be told from anything else.
        void fail(const std::string& key, const std::string& text)
        {
            for (const auto& k : _known)
                if (k == key) { ++_known_hits[k]; return; }
            _viol_key = key;
            _viol_text = text;
            throw violation();
        }

        int main(int argc, char** argv, const std::function<void(ctx&)>& body)
        {
            std::string out, st, known;
            for (int i = 1; i + 1 < argc; i += 2)
            {
                const std::string a = argv[i], v = argv[i + 1];
                if (a == "--worker") { _k = std::stoul(v); _n = std::stoul(v.substr(v.find('/') + 1)); }
                else if (a == "--tier") thorough = v == "thorough";
                else if (a == "--seed") seed = static_cast<unsigned>(std::stoul(v));
                else if (a == "--out") out = v;
                else if (a == "--status") st = v;
                else if (a == "--known") known = v;
                else if (a == "--case") _only = std::stoll(v);
                else if (a == "--workdir") workdir = v;
            }
            if (!known.empty())
            {
                std::ifstream f(known);
                std::string l;
                while (std::getline(f, l)) if (!l.empty()) _known.push_back(l);
            }
            if (!st.empty())
            {
                const int fd = open(st.c_str(), O_RDWR | O_CREAT, 0644);
                if (fd < 0 || ftruncate(fd, sizeof(status)) != 0) { std::perror("status"); return 3; }
                void* p = mmap(nullptr, sizeof(status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p == MAP_FAILED) { std::perror("mmap"); return 3; }
                _st = static_cast<status*>(p);
            }
            else _st = new status();
            _st->case_no = ~0ull;

            bool bad = false;
            try { body(*this); }
            catch (const violation&) { bad = true; }
            catch (const std::exception& e)
            {
                bad = true;
                _viol_key = "exception";
                _viol_text = std::string("unexpected exception escaped the library: ") + e.what();
            }
            catch (...)
            {
                bad = true;
                _viol_key = "exception";
                _viol_text = "unexpected exception of an unknown type escaped the library";
            }
            std::ostringstream j;
            j << "{\"cases\":" << _cases << ",\"total\":" << _next << ",\"states\":" << states << ",\"transitions\":" <<
                transitions << ",\"traces\":" << traces << ",\"outcomes\":[";
            { bool f = true; for (auto h : _outcomes) { j << (f ? "" : ",") << h; f = false; } }
            j << "],\"samples\":[";
            for (std::size_t i = 0; i < _samples.size(); ++i) j << (i ? "," : "") << json(_samples[i]);
            j << "],\"extra\":{";
            { bool f = true; for (auto& p : _extra) { j << (f ? "" : ",") << json(p.first) << ':' << p.second; f = false; } }
            j << "},\"known\":{";
            { bool f = true; for (auto& p : _known_hits) { j << (f ? "" : ",") << json(p.first) << ':' << p.second; f = false; } }
            j << "}";
            if (bad)
                j << ",\"violation\":{\"case\":" << _st->case_no << ",\"key\":" << json(_viol_key) << ",\"desc\":" <<
                    json(_st->desc) << ",\"text\":" << json(_viol_text) << "}";
            j << "}\n";
            if (out.empty()) std::fputs(j.str().c_str(), stdout);
            else { std::ofstream f(out); f << j.str(); f.close(); if (!f) return 3; }
            std::fflush(stdout);
            return 0;
        }

    private:
        std::vector<std::uint64_t> _tab;
        std::size_t _used = 0;
        bool put(std::uint64_t h)
        {
            std::size_t i = (h >> 20) & (_tab.size() - 1);
            while (_tab[i]) { if (_tab[i] == h) return false; i = (i + 1) & (_tab.size() - 1); }
            _tab[i] = h;
            ++_used;
            return true;
        }
        std::uint64_t _k = 0, _n = 1, _next = 0, _cases = 0;
        long long _only = -1;
        bool _mine = false;
        status* _st = nullptr;
        std::vector<std::string> _samples, _known;
        std::unordered_set<std::size_t> _outcomes;
        std::map<std::string, std::uint64_t> _extra, _known_hits;
        std::string _viol_key, _viol_text;
    };

    inline std::uint64_t hash(const char* p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
    {
        for (std::size_t i = 0; i < n; ++i) h = (h ^ static_cast<unsigned char>(p[i])) * 1099511628211ull;
        return h ^ (h >> 29);
    }

    // All strings over alphabet a with length lo..hi, shortest first.
    inline std::vector<std::string> strings(const std::string& a, std::size_t lo, std::size_t hi)
    {
        std::vector<std::string> r, cur{ "" };
        for (std::size_t l = 0; l <= hi; ++l)
        {
            if (l >= lo) r.insert(r.end(), cur.begin(), cur.end());
            if (l == hi) break;
            std::vector<std::string> nx;
            nx.reserve(cur.size() * a.size());
            for (auto& s : cur) for (char c : a) nx.push_back(s + c);
            cur.swap(nx);
        }
        return r;
    }
}
#endif
