// P01: particle identifiers are unique under every thread schedule and across forks.
// Scenario = (ids made before fork, threads, ids per thread, fork or not, ids made by parent afterwards).
// For every scenario all schedules up to the preemption bound are executed on the real GenerateID().
#include "vc.h"
#include "vsched.h"
#include "SIREN/dataclasses/ParticleID.h"
using siren::dataclasses::ParticleID;
typedef std::pair<uint64_t, int32_t> Id;
struct Scn { int before, threads, per, forkdepth, after, bound; bool midthreads; };
#undef getpid

static void put(std::vector<Id> const &v, int fd) { for (auto &i : v) { (void)!write(fd, &i, sizeof(Id)); } }
static Id gen() { ParticleID p = ParticleID::GenerateID(); return Id(p.GetMajorID(), p.IsSet() ? p.GetMinorID() : -12345); }

// executes one schedule in a fresh process tree, returns all ids and the recorded choice points
static bool one(Scn const &s, std::vector<int> const &prefix, vsched::Run &out, std::vector<Id> &ids, std::string &err) {
    int pi[2], pr[2]; (void)!pipe(pi); (void)!pipe(pr);
    pid_t w = fork();
    if (w == 0) {
        std::vector<Id> mine;
        for (int i = 0; i < s.before; ++i) mine.push_back(gen());
        auto leaf = [&](int fd_ids, int fd_run) {
            vsched::Run r; r.prefix = prefix;
            std::vector<std::vector<Id>> got(s.threads);
            std::vector<std::function<void()>> fns;
            for (int t = 0; t < s.threads; ++t) fns.push_back([&, t] { for (int k = 0; k < s.per; ++k) got[t].push_back(gen()); });
            vsched::execute(r, fns, s.bound);
            for (auto &g : got) put(g, fd_ids);
            int hdr[3] = {r.deadlock, (int)r.points.size(), (int)r.steps}; (void)!write(fd_run, hdr, sizeof hdr);
            for (auto &p : r.points) { int q[2] = {p.nopt, p.chosen}; (void)!write(fd_run, q, sizeof q); }
        };
        std::function<void(int)> nest = [&](int d) {
            if (d == 0) { leaf(pi[1], pr[1]); return; }
            pid_t c = fork();
            if (c == 0) {
                if (d > 1 ) { std::vector<Id> v; v.push_back(gen()); put(v, pi[1]); }
                nest(d - 1); _exit(0);
            }
            int st; waitpid(c, &st, 0);
        };
        nest(s.forkdepth);
        for (int i = 0; i < s.after; ++i) mine.push_back(gen());
        put(mine, pi[1]);
        _exit(0);
    }
    close(pi[1]); close(pr[1]);
    std::string a, b; char buf[65536]; ssize_t n;
    while ((n = read(pr[0], buf, sizeof buf)) > 0) b.append(buf, n);
    while ((n = read(pi[0], buf, sizeof buf)) > 0) a.append(buf, n);
    close(pi[0]); close(pr[0]);
    int st; waitpid(w, &st, 0);
    if (b.size() < 12) { err = "process died"; return false; }
    int const *h = (int const *)b.data();
    out = vsched::Run(); out.deadlock = h[0]; out.steps = h[2];
    for (int i = 0; i < h[1]; ++i) out.points.push_back({h[3 + 2 * i], h[4 + 2 * i], true});
    ids.assign((Id const *)a.data(), (Id const *)(a.data() + a.size() / sizeof(Id) * sizeof(Id)));
    return true;
}
static void explore(Scn s, std::string name) {
    std::vector<int> prefix; uint64_t runs = 0;
    for (;;) {
        vsched::Run r; std::vector<Id> ids; std::string err;
        std::string sch; for (int c : prefix) sch += char('0' + c);
        vc::note(name + " schedule=" + sch);
        if (!one(s, prefix, r, ids, err)) { vc::fail("died:" + name, "process tree died, schedule=" + sch); return; }
        ++runs; vc::trace(); vc::step(r.steps);
        std::string full; for (auto &p : r.points) full += char('0' + p.chosen);
        vc::state(name + ":" + full);
        VC_EXPECT(!r.deadlock, "deadlock", name, " schedule=", full);
        size_t want = s.before + s.after + size_t(s.threads) * s.per + (s.forkdepth > 1 ? s.forkdepth - 1 : 0);
        VC_EXPECT(ids.size() == want, "lost-ids", name, " schedule=", full, " got ", ids.size(), " want ", want);
        std::set<Id> u(ids.begin(), ids.end());
        std::string l; for (auto &i : ids) l += vc::cat(" ", i.first, ":", i.second);
        VC_EXPECT(u.size() == ids.size(), "duplicate-id", name, " schedule=", full, " ids:", l);
        bool set = true; for (auto &i : ids) set = set && i.second != -12345 && i.first != 0;
        VC_EXPECT(set, "unset-id", name, " schedule=", full, " ids:", l);
        if (!vsched::next_prefix(r, prefix)) break;
    }
    vc::count("schedules", runs);
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; ++i) th = th || std::string(argv[i]) == "thorough";
    std::vector<vc::Case> cases;
    auto add = [&](Scn s) {
        std::string n = vc::cat("before", s.before, "_threads", s.threads, "_per", s.per, "_fork", s.forkdepth, "_after", s.after, "_pb", s.bound);
        cases.push_back({n, [s, n] { explore(s, n); }, 0});
    };
    int pb2 = th ? 4 : 2;
    for (int before : {0, 1, 2}) for (int f : {0, 1, 2}) {
        add({before, 1, 3, f, 2, 0, false});
        add({before, 2, 1, f, 2, pb2, false});
        add({before, 2, 2, f, 3, th ? 3 : 2, false});
        add({before, 3, 1, f, 3, th ? 3 : 1, false});
    }
    return vc::run(argc, argv, cases);
}
