// Shared code of the replay / falsification harnesses: they run the real functions of /repo against the
// executable form of the contracts and report a concrete failing input.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#include <functional>
#include <chrono>
#include <iostream>
#include <fstream>
#include <unistd.h>
#include <signal.h>
#include <limits>
#include <algorithm>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*callback)(void));
#endif

namespace vp {
    inline uint64_t seed = 1;
    inline double secs = 20;
    inline std::string outpath, only;
    inline std::set<std::string> known, hit;
    inline uint64_t cases = 0;
    inline std::map<std::string, uint64_t> per;
    inline std::vector<std::string> samples;
    inline std::chrono::steady_clock::time_point t0;
    inline std::string section = "start";
    inline std::function<std::string()> describe;

    inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
        uint64_t u64() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
        uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
        int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
        bool coin(unsigned den = 2) { return below(den) == 0; }
        template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
        // boundary-heavy 32 bit value
        uint32_t b32() {
            switch (below(8)) {
                case 0: return 0; case 1: return 1; case 2: return 0xffffffffu; case 3: return 0xfffffffeu;
                case 4: return (uint32_t)below(5); case 5: { uint32_t p = 1u << below(32); return p + (uint32_t)range(-1, 1); }
                case 6: return (uint32_t)u64(); default: return (uint32_t)below(300);
            }
        }
    };

    inline void write_replay(const std::string& obl, const std::string& msg) {
        std::string in = describe ? describe() : std::string("(none)");
        std::ostringstream s;
        s << "obligation: " << obl << "\nsection: " << section << "\ninput: " << in << "\nobserved: " << msg
          << "\nseed: " << seed << "\n";
        if (!outpath.empty()) { std::ofstream f(outpath); f << s.str(); }
        std::cout << "FAIL " << obl << "\n" << s.str() << std::flush;
    }

    // reports a failing input; returns only if the failure is a listed known finding
    inline void fail(const std::string& obl, const std::string& msg) {
        if (known.count(obl)) { if (hit.insert(obl).second) { std::cout << "KNOWN " << obl << "\t" << (describe ? describe() : "") << "\t" << msg << std::endl; } return; }
        write_replay(obl, msg);
        _exit(3);
    }
    inline void check(bool ok, const char* obl, const std::string& msg = "") { if (!ok) fail(obl, msg); }

    inline void died() { static bool once = false; if (once) return; once = true; write_replay("runs without memory error or abort", "sanitizer report / abort (see stderr)"); }
    inline void onsig(int s) { if (s == SIGALRM) { write_replay("terminates", "no result after the time limit"); _exit(3); } died(); _exit(3); }

    // start a new case
    inline void begin(std::function<std::string()> d) {
        describe = std::move(d);
        ++cases; ++per[section];
        if (per[section] == 3 && samples.size() < 12) samples.push_back(section + ": " + describe());
        alarm(60);
    }

    // run a section for its share of the budget: body(rng, i) is called until time is up (at least minit times)
    inline void random_section(const std::string& name, double share, uint64_t minit, const std::function<void(Rng&, uint64_t)>& body, uint64_t maxit = UINT64_MAX) {
        if (!only.empty() && only != name) return;
        section = name;
        double end = elapsed() + secs * share;
        for (uint64_t i = 0; i < maxit && (i < minit || elapsed() < end); ++i) {
            Rng r(seed * 1000003 + i * 7919 + std::hash<std::string>{}(name) % 1000);
            body(r, i);
        }
    }
    inline void section_once(const std::string& name, const std::function<void()>& body) {
        if (!only.empty() && only != name) return;
        section = name; body();
    }

    template<class V> std::string str(const V& v) { std::ostringstream s; s << "["; bool f = true; for (auto&& x : v) { if (!f) s << ","; f = false; s << +x; } s << "]"; return s.str(); }
    template<class... A> std::string cat(A&&... a) { std::ostringstream s; ((s << a), ...); return s.str(); }

    inline int finish() {
        alarm(0);
        std::cout << "CASES " << cases << "\n";
        for (auto& [k, v] : per) std::cout << "SECTION " << k << " " << v << "\n";
        for (auto& s : samples) std::cout << "SAMPLE " << s.substr(0, 400) << "\n";
        std::cout << std::flush;
        _exit(0);
    }

    inline void init(int argc, char** argv) {
        t0 = std::chrono::steady_clock::now();
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--seed") seed = std::stoull(v);
            else if (a == "--secs") secs = std::stod(v);
            else if (a == "--out") outpath = v;
            else if (a == "--only") only = v;
            else if (a == "--known") known.insert(v);
        }
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(s, onsig);
#if defined(__SANITIZE_ADDRESS__)
        __sanitizer_set_death_callback(died);
#endif
    }
}
