// Small explicit-enumeration framework shared by all harnesses.
// A harness is a list of named cases.  Every case is an exhaustive enumeration of a stated, bounded
// space; it runs in its own forked process so that a crash, a hang or an uncaught exception of the code
// under test is attributed to the input that was being explored (vc::note) and reported as a violation.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <exception>
#include <typeinfo>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>

namespace vc {

struct Shared { char note[4096]; };
inline Shared *shared_ = nullptr;
inline bool thorough_ = false;
inline bool thorough() { return thorough_; }

struct Violation { std::string key, detail; };
struct Result {
    uint64_t states = 0, transitions = 0, traces = 0, evaluations = 0;
    std::unordered_set<uint64_t> seen;
    std::map<std::string, Violation> violations;      // one per key, first witness
    std::map<std::string, uint64_t> violation_counts;
    std::vector<std::string> samples;
    bool exhaustive = true;
    std::map<std::string, uint64_t> counters;
};
inline Result R;

inline std::string esc(std::string const &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
inline uint64_t fnv(std::string const &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
template <class... A> std::string cat(A const &...a) {
    std::ostringstream o; o.precision(17);
    (void)std::initializer_list<int>{((o << a), 0)...};
    return o.str();
}
// what is being explored right now (survives a crash)
inline void note(std::string const &s) {
    if (!shared_) return;
    strncpy(shared_->note, s.c_str(), sizeof(shared_->note) - 1);
}
// a (new) state of the explored space; returns true when it was not seen before
inline bool state(std::string const &s) {
    bool n = R.seen.insert(fnv(s)).second;
    if (n) { ++R.states; if (R.samples.size() < 3) R.samples.push_back(s.substr(0, 300)); }
    return n;
}
inline void step(uint64_t n = 1) { R.transitions += n; }      // one operation executed on the real code
inline void trace(uint64_t n = 1) { R.traces += n; }          // one complete execution compared with the oracle
inline void eval(uint64_t n = 1) { R.evaluations += n; }      // one oracle comparison
inline void count(std::string const &k, uint64_t n = 1) { R.counters[k] += n; }

inline void fail(std::string const &key, std::string const &detail) {
    if (R.violations.size() < 200 && !R.violations.count(key)) R.violations[key] = {key, detail};
    ++R.violation_counts[key];
}
inline void expect(bool ok, std::string const &key, std::function<std::string()> const &detail) {
    ++R.evaluations;
    if (!ok) fail(key, detail());
}
#define VC_EXPECT(cond, key, ...) do { ++vc::R.evaluations; if (!(cond)) vc::fail((key), vc::cat(__VA_ARGS__)); } while (0)

inline bool close(double a, double b, double rel = 1e-9, double abs_ = 0) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return false;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

struct Case { std::string name; std::function<void()> fn; unsigned limit_s; };

inline void dump(FILE *f, std::string const &name, double wall) {
    fprintf(f, "{\"case\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"evaluations\":%llu,\"exhaustive\":%s,\"wall_s\":%.3f,",
        esc(name).c_str(), (unsigned long long)R.states, (unsigned long long)R.transitions, (unsigned long long)R.traces,
        (unsigned long long)R.evaluations, R.exhaustive ? "true" : "false", wall);
    fprintf(f, "\"counters\":{");
    bool first = true;
    for (auto &k : R.counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &s : R.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto &v : R.violations) {
        fprintf(f, "%s{\"key\":\"%s\",\"count\":%llu,\"detail\":\"%s\"}", first ? "" : ",", esc(v.second.key).c_str(),
            (unsigned long long)R.violation_counts[v.first], esc(v.second.detail).c_str());
        first = false;
    }
    fprintf(f, "]}\n");
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// main loop: `harness --out FILE [--tier quick|thorough] [--only CASE]`
inline int run(int argc, char **argv, std::vector<Case> cases) {
    std::string out = "/dev/stdout", only; unsigned jobs = 8;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--out" && i + 1 < argc) out = argv[++i];
        else if (a == "--tier" && i + 1 < argc) thorough_ = std::string(argv[++i]) == "thorough";
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
    }
    if (!only.empty()) { std::vector<Case> c; for (auto &x : cases) if (x.name.find(only) != std::string::npos) c.push_back(x); cases = c; }
    struct Live { size_t idx; Shared *sh; std::string part; double t0; bool killed = false; };
    std::map<pid_t, Live> live;
    size_t next = 0;
    FILE *f = fopen(out.c_str(), "w");
    if (!f) { perror("out"); return 2; }
    auto reap = [&](pid_t pid, int st) {
        Live l = live[pid]; live.erase(pid);
        FILE *p = fopen(l.part.c_str(), "r");
        std::string body; char b[65536]; size_t n;
        if (p) { while ((n = fread(b, 1, sizeof b, p)) > 0) body.append(b, n); fclose(p); unlink(l.part.c_str()); }
        bool complete = !body.empty() && body.back() == '\n';
        if (complete) fwrite(body.data(), 1, body.size(), f);
        if (!complete || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            std::string how = l.killed ? "hang" : WIFSIGNALED(st) ? cat("crash-signal-", WTERMSIG(st)) : cat("exit-", WEXITSTATUS(st));
            std::string nt = l.sh->note;
            R = Result(); R.violations["x"] = {how + ":" + cases[l.idx].name, how + " while exploring: " + nt}; R.violation_counts["x"] = 1; R.exhaustive = false;
            dump(f, cases[l.idx].name, now() - l.t0);
        }
        munmap(l.sh, sizeof(Shared));
    };
    while (next < cases.size() || !live.empty()) {
        while (next < cases.size() && live.size() < jobs) {
            Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            std::string part = out == "/dev/stdout" ? cat("/tmp/vc-part-", getpid(), "-", next) : cat(out, ".part", next);
            fflush(f); fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                fclose(f);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
                rlimit mem = {6ull << 30, 6ull << 30};          // a runaway allocation of the code under test ends here
                setrlimit(RLIMIT_DATA, &mem);
#endif
                shared_ = sh; R = Result();
                double t0 = now();
                int devnull = open("/dev/null", O_WRONLY);
                if (!getenv("VC_VERBOSE")) { dup2(devnull, 1); dup2(devnull, 2); }
                try { cases[next].fn(); }
                catch (std::exception const &e) { fail("exception:" + cases[next].name, cat("uncaught ", typeid(e).name(), ": ", e.what(), " while exploring: ", sh->note)); }
                catch (...) { fail("exception:" + cases[next].name, cat("uncaught exception while exploring: ", sh->note)); }
                FILE *p = fopen(part.c_str(), "w");
                dump(p, cases[next].name, now() - t0); fclose(p);
                _exit(0);
            }
            live[pid] = {next, sh, part, now()};
            ++next;
        }
        int st; pid_t pid = waitpid(-1, &st, WNOHANG);
        if (pid > 0 && live.count(pid)) { reap(pid, st); continue; }
        for (auto &l : live) {
            unsigned lim = cases[l.second.idx].limit_s ? cases[l.second.idx].limit_s : (thorough_ ? 3000 : 400);
            if (now() - l.second.t0 > lim && !l.second.killed) { l.second.killed = true; kill(l.first, SIGKILL); }
        }
        usleep(2000);
    }
    fclose(f);
    return 0;
}
} // namespace vc
