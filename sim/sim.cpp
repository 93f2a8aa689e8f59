#include "sim.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <stdexcept>

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <boost/assert.hpp>
#include <boost/random/random_device.hpp>
#include <random>

// ---------------------------------------------------------------------------------------------------------------------
// allocation seam
namespace sim {
    extern void (*alloc_hook)(void *, std::size_t);
}
namespace {
    bool g_alloc_armed = false;
    bool g_alloc_paused = false;
    bool g_alloc_fired = false;
    sim::u64 g_alloc_count = 0;
    sim::i64 g_alloc_nth = 0;
    unsigned char g_alloc_fill = 0;
    bool g_alloc_filling = false;

    void *sim_alloc(std::size_t n) {
        if (g_alloc_armed && !g_alloc_paused) {
            g_alloc_count++;
            if (g_alloc_nth > 0 && g_alloc_count == sim::u64(g_alloc_nth)) {
                g_alloc_fired = true;
                throw std::bad_alloc();
            }
        }
        if (n > (std::size_t(1) << 34))
            throw std::bad_alloc();
        void *p = std::malloc(n ? n : 1);
        if (!p)
            throw std::bad_alloc();
        if (g_alloc_filling)
            std::memset(p, g_alloc_fill, n);
        if (sim::alloc_hook)
            sim::alloc_hook(p, n);
        return p;
    }
}    // namespace

void *operator new(std::size_t n) {
    return sim_alloc(n);
}
void *operator new[](std::size_t n) {
    return sim_alloc(n);
}
void operator delete(void *p) noexcept {
    std::free(p);
}
void operator delete[](void *p) noexcept {
    std::free(p);
}
void operator delete(void *p, std::size_t) noexcept {
    std::free(p);
}
void operator delete[](void *p, std::size_t) noexcept {
    std::free(p);
}

namespace sim {
    void (*alloc_hook)(void *, std::size_t) = nullptr;

    void alloc::arm(i64 nth) {
        g_alloc_count = 0;
        g_alloc_nth = nth;
        g_alloc_fired = false;
        g_alloc_paused = false;
        g_alloc_armed = true;
    }
    u64 alloc::disarm() {
        g_alloc_armed = false;
        return g_alloc_count;
    }
    bool alloc::fired() {
        return g_alloc_fired;
    }
    void alloc::fill(unsigned char b) {
        g_alloc_fill = b;
        g_alloc_filling = true;
    }
    alloc_pause::alloc_pause() : saved(g_alloc_paused) {
        g_alloc_paused = true;
    }
    alloc_pause::~alloc_pause() {
        g_alloc_paused = saved;
    }

    // entropy seam
    namespace {
        u64 g_entropy_state = 0x1234;
        u64 g_entropy_draws = 0;
        i64 g_entropy_fail = 0;
    }    // namespace
    void entropy::seed(u64 s) {
        g_entropy_state = s;
        g_entropy_draws = 0;
        g_entropy_fail = 0;
    }
    u64 entropy::draws() {
        return g_entropy_draws;
    }
    void entropy::fail_at(i64 nth) {
        g_entropy_fail = nth;
    }
    static unsigned entropy_draw() {
        g_entropy_draws++;
        if (g_entropy_fail > 0 && g_entropy_draws == u64(g_entropy_fail))
            throw std::runtime_error("simulated entropy source failure");
        return unsigned(splitmix(g_entropy_state) >> 32);
    }
}    // namespace sim

namespace boost {
    void assertion_failed(char const *expr, char const *function, char const *file, long line) {
        std::ostringstream os;
        const char *base = std::strrchr(file, '/');
        os << "assertion failed: " << expr << " (" << (base ? base + 1 : file) << ")";
        (void)function;
        (void)line;
        throw std::logic_error(os.str());
    }
    void assertion_failed_msg(char const *expr, char const *msg, char const *function, char const *file, long line) {
        (void)msg;
        assertion_failed(expr, function, file, line);
    }
    namespace random {
        class random_device::impl { };
        random_device::random_device() : pimpl(nullptr) {
        }
        random_device::random_device(const std::string &) : pimpl(nullptr) {
        }
        random_device::~random_device() {
        }
        double random_device::entropy() const {
            return 10;
        }
        unsigned int random_device::operator()() {
            return sim::entropy_draw();
        }
    }    // namespace random
}    // namespace boost

namespace std {
    void random_device::_M_init(const std::string &) {
    }
    void random_device::_M_fini() {
    }
    random_device::result_type random_device::_M_getval() {
        return sim::entropy_draw();
    }
    double random_device::_M_getentropy() const noexcept {
        return 32;
    }
}    // namespace std

// ---------------------------------------------------------------------------------------------------------------------
namespace sim {
    std::string Scenario::text() const {
        std::ostringstream os;
        for (auto &kv : cfg)
            os << "config " << kv.first << " " << kv.second << "\n";
        for (auto &st : steps) {
            os << "step " << st.op;
            for (i64 x : st.a)
                os << " " << x;
            os << "\n";
        }
        return os.str();
    }

    bool Scenario::parse(std::istream &in, Scenario &out, std::map<std::string, std::string> &meta) {
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            std::string w;
            if (!(ls >> w) || w[0] == '#')
                continue;
            if (w == "config") {
                std::string k;
                i64 v;
                if (!(ls >> k >> v))
                    return false;
                out.cfg[k] = v;
            } else if (w == "step") {
                Step st;
                if (!(ls >> st.op))
                    return false;
                i64 v;
                while (ls >> v)
                    st.a.push_back(v);
                out.steps.push_back(st);
            } else {
                std::string rest;
                std::getline(ls, rest);
                std::size_t p = rest.find_first_not_of(' ');
                meta[w] = p == std::string::npos ? "" : rest.substr(p);
            }
        }
        return true;
    }

    namespace {
        struct Outcome {
            bool violated = false;
            bool error = false;    // the simulator itself failed (fork, pipe)
            std::string cls, msg;
            std::string decisions;
            Ctx c;
        };

        std::string g_decisions;

        void put(std::string &b, const std::string &s) {
            u64 n = s.size();
            b.append(reinterpret_cast<const char *>(&n), sizeof n);
            b += s;
        }
        void put(std::string &b, u64 v) {
            b.append(reinterpret_cast<const char *>(&v), sizeof v);
        }
        struct Reader {
            const std::string &b;
            std::size_t p = 0;
            bool ok = true;
            u64 num() {
                if (p + 8 > b.size()) {
                    ok = false;
                    return 0;
                }
                u64 v;
                std::memcpy(&v, b.data() + p, 8);
                p += 8;
                return v;
            }
            std::string str() {
                u64 n = num();
                if (!ok || p + n > b.size()) {
                    ok = false;
                    return "";
                }
                std::string s = b.substr(p, n);
                p += n;
                return s;
            }
        };

        std::string pack(const Outcome &o) {
            std::string b;
            put(b, u64(o.violated));
            put(b, o.cls);
            put(b, o.msg);
            put(b, o.decisions);
            put(b, o.c.hash);
            put(b, o.c.events);
            put(b, o.c.sim_steps);
            put(b, u64(o.c.nontrivial));
            put(b, u64(o.c.faults.size()));
            for (auto &kv : o.c.faults) {
                put(b, kv.first);
                put(b, kv.second);
            }
            put(b, u64(o.c.probes.size()));
            for (auto &kv : o.c.probes) {
                put(b, kv.first);
                put(b, kv.second);
            }
            put(b, u64(o.c.states.size()));
            for (u64 s : o.c.states)
                put(b, s);
            return b;
        }
        bool unpack(const std::string &b, Outcome &o) {
            Reader r {b};
            o.violated = r.num();
            o.cls = r.str();
            o.msg = r.str();
            o.decisions = r.str();
            o.c.hash = r.num();
            o.c.events = r.num();
            o.c.sim_steps = r.num();
            o.c.nontrivial = r.num();
            u64 n = r.num();
            for (u64 i = 0; r.ok && i < n; i++) {
                std::string k = r.str();
                o.c.faults[k] = r.num();
            }
            n = r.num();
            for (u64 i = 0; r.ok && i < n; i++) {
                std::string k = r.str();
                o.c.probes[k] = r.num();
            }
            n = r.num();
            for (u64 i = 0; r.ok && i < n; i++)
                o.c.states.insert(r.num());
            return r.ok;
        }

        int g_child_fd = -1;
        Outcome *g_child_outcome = nullptr;

        [[noreturn]] void deliver(const Outcome &o) {
            std::string b = pack(o);
            std::size_t off = 0;
            while (off < b.size()) {
                ssize_t n = write(g_child_fd, b.data() + off, b.size() - off);
                if (n <= 0)
                    break;
                off += n;
            }
            std::fflush(stdout);
            _exit(0);
        }

        void run_here(Harness &h, const Scenario &s, Outcome &o) {
            alloc::fill(static_cast<unsigned char>(s.get("memfill", 0xA5)));
            try {
                h.execute(s, o.c);
            } catch (const Violation &v) {
                o.violated = true;
                o.cls = v.cls;
                o.msg = v.msg;
            } catch (const std::exception &e) {
                o.violated = true;
                o.cls = "unexpected-exception";
                o.msg = e.what();
            } catch (...) {
                o.violated = true;
                o.cls = "unexpected-exception";
                o.msg = "not a std::exception";
            }
            alloc::disarm();
            o.decisions = g_decisions;
            if (o.violated) {
                o.c.hash = fnv(o.cls, o.c.hash);
                o.c.hash = fnv(o.msg, o.c.hash);
            }
        }

        // one simulated run in a process of its own
        Outcome run_forked(Harness &h, const Scenario &s, bool verbose = false) {
            Outcome o;
            int fd[2];
            if (pipe(fd) != 0) {
                o.error = true;
                o.msg = "pipe failed";
                return o;
            }
            std::fflush(stdout);
            pid_t pid = fork();
            if (pid < 0) {
                close(fd[0]);
                close(fd[1]);
                o.error = true;
                o.msg = "fork failed";
                return o;
            }
            if (pid == 0) {
                close(fd[0]);
                int dn = open("/dev/null", O_RDWR);
                if (!verbose) {
                    dup2(dn, 1);
                }
                dup2(dn, 2);
                dup2(dn, 0);
                struct rlimit rl;
                rl.rlim_cur = h.cpu_limit_s();
                rl.rlim_max = h.cpu_limit_s() + 5;
                setrlimit(RLIMIT_CPU, &rl);
                rl.rlim_cur = rl.rlim_max = 0;
                setrlimit(RLIMIT_CORE, &rl);
                rl.rlim_cur = rl.rlim_max = 3ull << 30;
                setrlimit(RLIMIT_AS, &rl);
                alarm(h.cpu_limit_s() * 4);
                Outcome mine;
                mine.c.verbose = verbose;
                g_child_fd = fd[1];
                g_child_outcome = &mine;
                run_here(h, s, mine);
                deliver(mine);
            }
            close(fd[1]);
            std::string b;
            char buf[65536];
            for (;;) {
                ssize_t n = read(fd[0], buf, sizeof buf);
                if (n < 0 && errno == EINTR)
                    continue;
                if (n <= 0)
                    break;
                b.append(buf, n);
            }
            close(fd[0]);
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
            }
            if (WIFSIGNALED(st)) {
                int sig = WTERMSIG(st);
                o.violated = true;
                if (sig == SIGXCPU || sig == SIGALRM) {
                    o.cls = "no-progress";
                    o.msg = "run did not finish within its processor time limit";
                } else if (sig == SIGKILL) {
                    o.violated = false;
                    o.error = true;
                    o.msg = "run was killed from outside";
                } else {
                    o.cls = "crash";
                    o.msg = std::string("process died with signal ") + std::to_string(sig);
                }
                o.c.hash = fnv(o.cls + o.msg);
                return o;
            }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 7) {
                o.error = true;
                o.msg = "a limit of the simulator was reached";
                return o;
            }
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                o.violated = true;
                o.cls = "crash";
                o.msg = "process ended early";
                o.c.hash = fnv(o.cls + o.msg);
                return o;
            }
            if (!unpack(b, o)) {
                o = Outcome();
                o.error = true;
                o.msg = "incomplete report from run";
            }
            return o;
        }

        struct Shared {
            volatile u64 first_violation;
            volatile u64 error;
        };

        std::string json_str(const std::string &s) {
            std::string o = "\"";
            for (unsigned char ch : s) {
                if (ch == '"' || ch == '\\') {
                    o += '\\';
                    o += ch;
                } else if (ch == '\n') {
                    o += "\\n";
                } else if (ch < 32 || ch > 126) {
                    char t[8];
                    std::snprintf(t, sizeof t, "\\u%04x", ch);
                    o += t;
                } else
                    o += ch;
            }
            return o + "\"";
        }
        std::string json_list(const std::vector<std::string> &v) {
            std::string o = "[";
            for (std::size_t i = 0; i < v.size(); i++)
                o += (i ? ", " : "") + json_str(v[i]);
            return o + "]";
        }
        std::string json_map(const std::map<std::string, u64> &m) {
            std::string o = "{";
            bool first = true;
            for (auto &kv : m) {
                o += (first ? "" : ", ") + json_str(kv.first) + ": " + std::to_string(kv.second);
                first = false;
            }
            return o + "}";
        }

        double now() {
            return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
        }

        Scenario make(Harness &h, u64 seed, u64 run) {
            u64 s = seed * 0x9E3779B97F4A7C15ull + fnv(h.property());
            splitmix(s);
            s ^= run * 0xD1342543DE82EF95ull;
            splitmix(s);
            Rng rng(s);
            return h.generate(rng, run);
        }

        struct Minimiser {
            Harness &h;
            std::string cls;
            int budget;
            double until;
            u64 tried = 0;
            bool fails(const Scenario &s) {
                if (budget <= 0 || now() > until)
                    return false;
                budget--;
                tried++;
                Outcome o = run_forked(h, s);
                return o.violated && o.cls == cls;
            }
            Scenario steps(Scenario s) {
                std::size_t chunk = std::max<std::size_t>(1, s.steps.size() / 2);
                for (;;) {
                    bool any = false;
                    for (std::size_t i = 0; i < s.steps.size();) {
                        Scenario t = s;
                        std::size_t e = std::min(i + chunk, t.steps.size());
                        t.steps.erase(t.steps.begin() + i, t.steps.begin() + e);
                        if (fails(t)) {
                            s = t;
                            any = true;
                        } else
                            i += chunk;
                    }
                    if (chunk == 1 && !any)
                        break;
                    if (chunk > 1)
                        chunk /= 2;
                    if (budget <= 0 || now() > until)
                        break;
                }
                return s;
            }
            Scenario args(Scenario s) {
                for (auto &kv : s.cfg) {
                    for (i64 cand : {i64(0), i64(1), kv.second / 2}) {
                        if (cand == kv.second || (cand != 0 && std::llabs(cand) >= std::llabs(kv.second)))
                            continue;
                        Scenario t = s;
                        t.cfg[kv.first] = cand;
                        if (fails(t)) {
                            kv.second = cand;
                            break;
                        }
                    }
                }
                for (std::size_t i = 0; i < s.steps.size(); i++)
                    for (std::size_t j = 0; j < s.steps[i].a.size(); j++) {
                        i64 cur = s.steps[i].a[j];
                        for (i64 cand : {i64(0), i64(1), cur / 2}) {
                            if (cand == cur || (cand != 0 && std::llabs(cand) >= std::llabs(cur)))
                                continue;
                            Scenario t = s;
                            t.steps[i].a[j] = cand;
                            if (fails(t)) {
                                s = t;
                                break;
                            }
                        }
                    }
                return s;
            }
        };

        // hash sets too big for a report are kept as sorted vectors in files of the worker
        void save_hashes(const std::string &path, const std::set<u64> &a) {
            std::ofstream f(path, std::ios::binary);
            for (u64 x : a)
                f.write(reinterpret_cast<const char *>(&x), 8);
        }
        void load_hashes(const std::string &path, std::set<u64> &a) {
            std::ifstream f(path, std::ios::binary);
            u64 x;
            while (f.read(reinterpret_cast<char *>(&x), 8))
                a.insert(x);
        }
    }    // namespace

    void decisions(const std::string &s) {
        g_decisions = s;
    }

    // ends the run at once with a violation, from whatever thread notices it
    [[noreturn]] void fatal(const std::string &cls, const std::string &msg) {
        Outcome o = *g_child_outcome;
        o.violated = true;
        o.cls = cls;
        o.msg = msg;
        o.decisions = g_decisions;
        o.c.hash = fnv(cls + msg, o.c.hash);
        if (cls == "simulator-limit") {
            o.violated = false;
            _exit(7);
        }
        deliver(o);
    }

    static int replay(Harness &h, const std::string &path) {
        std::ifstream f(path);
        Scenario s;
        std::map<std::string, std::string> meta;
        if (!f || !Scenario::parse(f, s, meta)) {
            std::cerr << "cannot read replay file " << path << "\n";
            return 2;
        }
        Outcome o = run_forked(h, s, std::getenv("VERIF_VERBOSE") != nullptr);
        if (o.error) {
            std::cerr << "simulator error: " << o.msg << "\n";
            return 2;
        }
        char hs[32];
        std::snprintf(hs, sizeof hs, "%016llx", (unsigned long long)o.c.hash);
        if (o.violated) {
            std::cout << "REPRODUCED class=" << o.cls << " hash=" << hs << "\n" << o.msg << "\n";
            return 1;
        }
        std::cout << "HELD hash=" << hs << "\n";
        return 0;
    }

    int main(Harness &h, int argc, char **argv) {
        // addresses must not differ from run to run
        if (!std::getenv("VERIF_NO_ASLR_SET")) {
            setenv("VERIF_NO_ASLR_SET", "1", 1);
            int p = personality(0xffffffff);
            if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) {
                execv("/proc/self/exe", argv);
            }
        }
        if (argc >= 3 && std::string(argv[1]) == "--replay")
            return replay(h, argv[2]);

        const char *e;
        u64 seed = (e = std::getenv("VERIF_SEED")) ? std::strtoull(e, nullptr, 10) : 1;
        std::string tier = (e = std::getenv("VERIF_TIER")) ? e : "quick";
        if (tier != "thorough")
            tier = "quick";
        bool thorough = tier == "thorough";
        std::string dir = (e = std::getenv("VERIF_DIR")) ? e : "/verif";
        std::string work = (e = std::getenv("VERIF_WORK")) ? e : dir + "/build";
        u64 runs = (e = std::getenv("VERIF_RUNS")) ? std::strtoull(e, nullptr, 10) : h.default_runs(thorough);
        double limit = (e = std::getenv("VERIF_TIME")) ? std::strtod(e, nullptr) : (thorough ? 5400 : 300);
        int workers = (e = std::getenv("VERIF_WORKERS")) ? std::atoi(e) : int(sysconf(_SC_NPROCESSORS_ONLN));
        if (workers < 1)
            workers = 1;
        if (workers > 64)
            workers = 64;
        const std::string id = h.property();

        if (argc >= 3 && std::string(argv[1]) == "--show") {
            Scenario s = make(h, seed, std::strtoull(argv[2], nullptr, 10));
            std::cout << s.text();
            return 0;
        }
        if (argc >= 3 && std::string(argv[1]) == "--run") {
            Scenario s = make(h, seed, std::strtoull(argv[2], nullptr, 10));
            Outcome o = run_forked(h, s, true);
            std::cout << (o.violated ? "VIOLATED " + o.cls + ": " + o.msg : o.error ? "ERROR " + o.msg : "HELD")
                      << " hash=" << std::hex << o.c.hash << "\n";
            return o.violated ? 1 : 0;
        }
        // print one event-log hash per run: used to prove determinism across processes and worker counts
        if (argc >= 4 && std::string(argv[1]) == "--hashes") {
            u64 a = std::strtoull(argv[2], nullptr, 10), b = std::strtoull(argv[3], nullptr, 10);
            for (u64 r = a; r < b; r++) {
                Outcome o = run_forked(h, make(h, seed, r));
                std::printf("%llu %016llx %s\n", (unsigned long long)r, (unsigned long long)o.c.hash,
                            o.violated ? o.cls.c_str() : "held");
            }
            return 0;
        }

        double t0 = now();
        mkdir(work.c_str(), 0777);
        Shared *sh = static_cast<Shared *>(
            mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        sh->first_violation = ~0ull;
        sh->error = 0;

        std::vector<pid_t> pids;
        auto wfile = [&](int w, const char *k) { return work + "/" + id + "." + std::to_string(w) + "." + k; };
        std::fflush(stdout);
        for (int w = 0; w < workers; w++) {
            pid_t pid = fork();
            if (pid < 0) {
                std::cerr << "fork failed\n";
                return 2;
            }
            if (pid == 0) {
                Outcome agg;
                std::set<u64> logs;
                u64 done = 0, nontrivial = 0, rechecks = 0, mismatches = 0;
                std::string mismatch_msg, sample;
                Outcome bad;
                u64 bad_run = ~0ull;
                for (u64 r = w; r < runs; r += workers) {
                    if (r > sh->first_violation || sh->error || now() - t0 > limit)
                        break;
                    Scenario s = make(h, seed, r);
                    Outcome o = run_forked(h, s);
                    if (o.error) {
                        std::cerr << "run " << r << ": " << o.msg << "\n";
                        sh->error = 1;
                        break;
                    }
                    done++;
                    for (auto &kv : o.c.faults)
                        agg.c.faults[kv.first] += kv.second;
                    for (auto &kv : o.c.probes)
                        agg.c.probes[kv.first] += kv.second;
                    agg.c.sim_steps += o.c.sim_steps;
                    agg.c.events += o.c.events;
                    agg.c.states.insert(o.c.states.begin(), o.c.states.end());
                    if (o.c.nontrivial && !o.violated && logs.insert(o.c.hash).second)
                        nontrivial++;
                    if (o.c.nontrivial && sample.empty() && r >= 3) {
                        std::ostringstream os;
                        os << "run " << r << "\n" << s.text();
                        sample = os.str().substr(0, 1500);
                    }
                    if (o.violated) {
                        bad = o;
                        bad_run = r;
                        // keep the smallest run number so that the report does not depend on the worker count
                        u64 cur;
                        while (r < (cur = sh->first_violation) &&
                               !__sync_bool_compare_and_swap(&sh->first_violation, cur, r)) {
                        }
                        break;
                    }
                    if ((r / workers) % 16 == 0) {
                        Outcome o2 = run_forked(h, s);
                        rechecks++;
                        if (o2.c.hash != o.c.hash || o2.violated != o.violated) {
                            mismatches++;
                            mismatch_msg = "run " + std::to_string(r) + " gave two different event logs";
                        }
                    }
                }
                std::string b = pack(agg);
                std::string extra;
                put(extra, done);
                put(extra, rechecks);
                put(extra, mismatches);
                put(extra, mismatch_msg);
                put(extra, sample);
                put(extra, bad_run);
                put(extra, b);
                put(extra, pack(bad));
                std::ofstream f(wfile(w, "rep"), std::ios::binary);
                f << extra;
                f.close();
                save_hashes(wfile(w, "logs"), logs);
                save_hashes(wfile(w, "states"), agg.c.states);
                _exit(f ? 0 : 3);
            }
            pids.push_back(pid);
        }
        bool worker_error = false;
        for (pid_t p : pids) {
            int st;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
            }
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
                worker_error = true;
        }
        Ctx total;
        for (auto &k : h.fault_kinds())
            total.faults[k] = 0;
        for (auto &k : h.probe_names())
            total.probes[k] = 0;
        std::set<u64> logs, states;
        u64 done = 0, rechecks = 0, mismatches = 0, bad_run = ~0ull;
        std::string mismatch_msg;
        std::vector<std::string> samples;
        Outcome bad;
        for (int w = 0; w < workers; w++) {
            std::ifstream f(wfile(w, "rep"), std::ios::binary);
            std::string b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            Reader r {b};
            done += r.num();
            rechecks += r.num();
            mismatches += r.num();
            std::string mm = r.str();
            if (!mm.empty())
                mismatch_msg = mm;
            std::string sm = r.str();
            if (!sm.empty() && samples.size() < 3)
                samples.push_back(sm);
            u64 br = r.num();
            std::string pa = r.str(), pb = r.str();
            Outcome a, bo;
            if (!r.ok || !unpack(pa, a) || !unpack(pb, bo)) {
                worker_error = true;
                continue;
            }
            if (br < bad_run) {
                bad_run = br;
                bad = bo;
            }
            for (auto &kv : a.c.faults)
                total.faults[kv.first] += kv.second;
            for (auto &kv : a.c.probes)
                total.probes[kv.first] += kv.second;
            total.sim_steps += a.c.sim_steps;
            total.events += a.c.events;
            load_hashes(wfile(w, "logs"), logs);
            load_hashes(wfile(w, "states"), states);
            for (const char *k : {"rep", "logs", "states"})
                unlink(wfile(w, k).c_str());
        }
        if (worker_error || sh->error) {
            std::cerr << "ERROR: a simulation worker failed\n";
            return 2;
        }

        int rc = 0;
        std::string replay_path;
        u64 min_tried = 0;
        bool violated = bad_run != ~0ull;
        if (violated) {
            Scenario s = make(h, seed, bad_run);
            if (h.reports_decisions() && !bad.decisions.empty()) {
                Scenario t = h.with_decisions(s, bad.decisions);
                Outcome o = run_forked(h, t);
                if (o.violated && o.cls == bad.cls)
                    s = t;
            }
            Minimiser m {h, bad.cls, 1500, now() + 120};
            Scenario best = m.steps(s);
            best = m.args(best);
            best = m.steps(best);
            min_tried = m.tried;
            // gate: the same scenario twice, then once more in a fresh process
            Outcome a = run_forked(h, best), b = run_forked(h, best);
            mkdir((dir + "/evidence").c_str(), 0777);
            mkdir((dir + "/evidence/replay").c_str(), 0777);
            replay_path = dir + "/evidence/replay/" + id + ".replay";
            char hs[32];
            std::snprintf(hs, sizeof hs, "%016llx", (unsigned long long)a.c.hash);
            auto write = [&](const Scenario &x, const std::string &cls, const std::string &hash, const std::string &msg) {
                std::ofstream f(replay_path);
                f << "# " << id << ": minimised from run " << bad_run << " of seed " << seed << " ("
                  << make(h, seed, bad_run).steps.size() << " steps, now " << x.steps.size() << ")\n";
                f << "property " << id << "\nseed " << seed << "\nrun " << bad_run << "\nclass " << cls << "\nhash "
                  << hash << "\n";
                f << "message " << msg.substr(0, msg.find('\n')) << "\n" << x.text();
            };
            write(best, a.cls, hs, a.msg);
            bool same = a.violated && b.violated && a.cls == b.cls && a.c.hash == b.c.hash;
            std::string cmd = "'" + std::string(argv[0]) + "' --replay '" + replay_path + "'";
            std::string out;
            unsetenv("VERIF_NO_ASLR_SET");
            // what a fresh process says about the replay file: class and hash, or nothing
            auto replayed = [&]() -> std::pair<std::string, std::string> {
                out.clear();
                int st = -1;
                if (FILE *p = popen(cmd.c_str(), "r")) {
                    char buf[4096];
                    std::size_t n;
                    while ((n = fread(buf, 1, sizeof buf, p)) > 0)
                        out.append(buf, n);
                    st = pclose(p);
                }
                std::size_t c = out.find("REPRODUCED class="), k = out.find(" hash=", c);
                if (st == -1 || !WIFEXITED(st) || WEXITSTATUS(st) != 1 || c == std::string::npos || k == std::string::npos)
                    return {};
                return {out.substr(c + 17, k - c - 17), out.substr(k + 6, 16)};
            };
            std::pair<std::string, std::string> seen = replayed();
            bool fresh = seen.first == a.cls && seen.second == hs;
            if (!same || !fresh) {
                // a defect that reads stray memory depends on what this process did before; fresh processes agree with each other
                for (const Scenario *x : {&best, &s}) {
                    write(*x, bad.cls, "0", bad.msg);
                    seen = replayed();
                    if (seen.first.empty() || replayed() != seen)
                        continue;
                    a.cls = seen.first;
                    a.msg = out.substr(out.find('\n') + 1);
                    write(*x, seen.first, seen.second, a.msg);
                    best = *x;
                    same = fresh = replayed() == seen;
                    if (same)
                        break;
                }
            }
            std::cout << "violation class: " << a.cls << "\n" << a.msg << "\n";
            std::cout << "minimised scenario (" << best.steps.size() << " steps, from run " << bad_run << "):\n"
                      << best.text();
            if (!same || !fresh) {
                std::cerr << "ERROR: the violation did not reproduce exactly (same process twice: " << same
                          << ", fresh process: " << fresh << ")\n"
                          << out;
                rc = 2;
            } else {
                std::cout << "VIOLATION property=" << id << " replay=" << replay_path << std::endl;
                rc = 1;
            }
        } else if (mismatches) {
            std::cerr << "ERROR: not deterministic: " << mismatch_msg << "\n";
            rc = 2;
        }

        double wall = now() - t0;
        std::ostringstream j;
        j << "{\n \"property\": " << json_str(id) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
        j << "  \"evaluations\": " << done << ",\n  \"distinct_nontrivial\": " << logs.size() << ",\n  \"rule\": "
          << json_str(h.rule()) << ",\n  \"samples\": " << json_list(samples) << ",\n";
        j << "  \"runs_per_hour\": " << u64(double(done) / std::max(wall, 0.001) * 3600) << ",\n";
        j << "  \"simulated_steps\": " << total.sim_steps << ",\n  \"logged_events\": " << total.events << ",\n";
        j << "  \"simulated_time\": "
          << json_str("the code under test reads no clock that its results depend on; simulated time is counted in "
                      "scheduler steps (simulated_steps)")
          << ",\n";
        j << "  \"faults_injected\": " << json_map(total.faults) << ",\n  \"probes\": " << json_map(total.probes)
          << ",\n";
        j << "  \"distinct_states\": " << states.size() << ",\n  \"state_measure\": " << json_str(h.state_measure())
          << ",\n";
        j << "  \"determinism_rechecks\": " << rechecks << ",\n  \"determinism_mismatches\": " << mismatches << ",\n";
        j << "  \"minimiser_runs\": " << min_tried << ",\n  \"workers\": " << workers << ",\n";
        j << "  \"real_code\": " << json_list(h.real_components()) << ",\n  \"stubbed\": "
          << json_list(h.stub_components()) << "\n },\n";
        j << " \"assumptions\": " << json_list(h.assumptions()) << ",\n \"wall_s\": " << wall
          << ",\n \"violations\": " << (violated ? 1 : 0) << "\n}\n";
        mkdir((dir + "/evidence").c_str(), 0777);
        std::ofstream ev(dir + "/evidence/" + id + ".json");
        ev << j.str();
        ev.close();
        if (!ev) {
            std::cerr << "ERROR: cannot write evidence\n";
            return 2;
        }
        std::cout << id << ": " << done << " runs, " << logs.size() << " distinct, " << states.size() << " states, "
                  << wall << " s; faults";
        for (auto &kv : total.faults)
            std::cout << " " << kv.first << "=" << kv.second;
        std::cout << "; probes";
        for (auto &kv : total.probes)
            std::cout << " " << kv.first << "=" << kv.second;
        std::cout << std::endl;
        return rc;
    }
}    // namespace sim
