#include "thread_sim.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cstdarg>

namespace sim {
    [[noreturn]] void fatal(const std::string &cls, const std::string &msg);
    extern void (*alloc_hook)(void *, std::size_t);
}

namespace {
    using sim::u64;
    using sim::i64;
    const int MAXT = 24;

    typedef int (*create_fn)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    typedef int (*join_fn)(pthread_t, void **);
    typedef int (*mutex_fn)(pthread_mutex_t *);
    create_fn real_create;
    join_fn real_join;
    int (*real_detach)(pthread_t);
    mutex_fn real_lock, real_unlock, real_trylock;
    int (*real_once)(pthread_once_t *, void (*)());
    int (*real_guard_acquire)(void *);
    void (*real_guard_release)(void *);
    void (*real_guard_abort)(void *);
    void *(*real_memcpy)(void *, const void *, size_t);
    void *(*real_memmove)(void *, const void *, size_t);
    void *(*real_memset)(void *, int, size_t);

    struct vc {
        unsigned c[MAXT] = {0};
        void join(const vc &o) {
            for (int i = 0; i < MAXT; i++)
                if (o.c[i] > c[i])
                    c[i] = o.c[i];
        }
    };

    struct thr {
        int id = 0;
        pthread_t real {};
        std::atomic<int> baton {0};
        bool used = false, finished = false, joined = false, detached = false;
        void *(*fn)(void *) = nullptr;
        void *arg = nullptr;
        vc clock;
        // blocked until *this holds
        bool (*pred)(thr &) = nullptr;
        void *wait_obj = nullptr;
        u64 wait_val = 0;
        bool signalled = false;
        unsigned prio = 0;
        char *stack_lo = nullptr, *stack_hi = nullptr;
    };

    thr T[MAXT];
    int nthreads = 0;
    int live = 0;    // created and not finished, main not counted
    volatile bool active = false;
    int cur = 0;
    thread_local int self_id = -1;
    thread_local bool in_sim = false;
    pthread_key_t exit_key;
    bool key_made = false;

    sim::thread_sim::config cfg;
    sim::thread_sim::report rep;
    u64 step = 0;
    u64 rng_state = 0;
    std::vector<u64> pct_points;
    std::size_t next_explicit = 0;
    unsigned low_prio = 0;
    std::vector<std::pair<u64, int>> taken;

    [[noreturn]] void die(const char *cls, const char *msg) {
        std::string d;
        for (auto &p : taken)
            d += std::to_string(p.first) + " " + std::to_string(p.second) + " ";
        active = false;
        sim::decisions(d);
        sim::fatal(cls, msg);
    }

    u64 rnd(u64 n) {
        return n ? sim::splitmix(rng_state) % n : 0;
    }

    long raw_futex(int *addr, int op, int val) {
        long r;
        register long r10 __asm__("r10") = 0;
        register long r8 __asm__("r8") = 0;
        register long r9 __asm__("r9") = 0;
        __asm__ volatile("syscall"
                         : "=a"(r)
                         : "a"(long(SYS_futex)), "D"(addr), "S"(long(op)), "d"(long(val)), "r"(r10), "r"(r8), "r"(r9)
                         : "rcx", "r11", "memory");
        return r;
    }
    void give(thr &t) {
        t.baton.store(1, std::memory_order_seq_cst);
        raw_futex(reinterpret_cast<int *>(&t.baton), FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
    }
    void take(thr &t) {
        while (t.baton.exchange(0, std::memory_order_seq_cst) == 0)
            raw_futex(reinterpret_cast<int *>(&t.baton), FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
    }

    bool runnable(thr &t) {
        if (!t.used || t.finished)
            return false;
        if (t.pred) {
            if (!t.pred(t))
                return false;
        }
        return true;
    }

    void note(u64 v) {
        rep.interleaving = sim::mix(rep.interleaving, v);
    }

    // choose who runs next; `must` when the current thread cannot go on
    int choose(bool must, bool sync) {
        int cand[MAXT], n = 0;
        bool cur_ok = false;
        for (int i = 0; i < nthreads; i++)
            if (runnable(T[i])) {
                cand[n++] = i;
                if (i == cur)
                    cur_ok = true;
            }
        if (must) {
            cur_ok = false;
            int m = 0;
            for (int i = 0; i < n; i++)
                if (cand[i] != cur || !T[cur].finished)
                    cand[m++] = cand[i];
            n = m;
        }
        if (n == 0)
            return -1;
        int dflt = cur_ok ? cur : cand[0];
        int pick = dflt;
        switch (cfg.how) {
            case sim::thread_sim::explicit_list:
                while (next_explicit < cfg.list.size() && cfg.list[next_explicit].first < step)
                    next_explicit++;
                if (next_explicit < cfg.list.size() && cfg.list[next_explicit].first == step) {
                    int w = cfg.list[next_explicit].second;
                    for (int i = 0; i < n; i++)
                        if (cand[i] == w)
                            pick = w;
                    next_explicit++;
                }
                break;
            case sim::thread_sim::random_walk:
                if (!cur_ok || (rep.switches < cfg.max_switches && rnd(cfg.rate) == 0))
                    pick = cand[rnd(n)];
                break;
            case sim::thread_sim::sync_only:
                if (!cur_ok || (sync && rep.switches < cfg.max_switches && rnd(3) == 0))
                    pick = cand[rnd(n)];
                break;
            case sim::thread_sim::round_robin:
                if (!cur_ok || (step % cfg.rate == 0 && rep.switches < cfg.max_switches)) {
                    pick = cand[0];
                    for (int i = 0; i < n; i++)
                        if (cand[i] > cur) {
                            pick = cand[i];
                            break;
                        }
                }
                break;
            case sim::thread_sim::pct: {
                if (std::binary_search(pct_points.begin(), pct_points.end(), step))
                    T[cur].prio = low_prio--;
                pick = cand[0];
                for (int i = 1; i < n; i++)
                    if (T[cand[i]].prio > T[pick].prio)
                        pick = cand[i];
                break;
            }
        }
        if (pick != dflt)
            taken.push_back({step, pick});
        return pick;
    }

    void switch_to(int next) {
        thr &me = T[cur];
        rep.switches++;
        note(0x5157 + next * 131 + (u64(step) << 8));
        cur = next;
        give(T[next]);
        if (!me.finished)
            take(me);
    }

    void point(bool sync) {
        step++;
        if (sync)
            note(u64(self_id) * 7 + 3);
        if (live == 0)
            return;
        if (cfg.how == sim::thread_sim::explicit_list && !T[cur].pred) {
            // fast path: nothing to decide at this step
            while (next_explicit < cfg.list.size() && cfg.list[next_explicit].first < step)
                next_explicit++;
            if (next_explicit >= cfg.list.size() || cfg.list[next_explicit].first != step)
                return;
        }
        if (cfg.how == sim::thread_sim::sync_only && !sync)
            return;
        if (cfg.how == sim::thread_sim::random_walk) {
            if (rep.switches >= cfg.max_switches || rnd(cfg.rate) != 0)
                return;
            int cand[MAXT], n = 0;
            for (int i = 0; i < nthreads; i++)
                if (i != cur && runnable(T[i]))
                    cand[n++] = i;
            if (!n)
                return;
            int pick = cand[rnd(n)];
            taken.push_back({step, pick});
            rep.preemptions++;
            switch_to(pick);
            return;
        }
        if (cfg.how == sim::thread_sim::pct && !sync && !std::binary_search(pct_points.begin(), pct_points.end(), step))
            return;
        if (cfg.how == sim::thread_sim::round_robin && (step % cfg.rate != 0 || rep.switches >= cfg.max_switches))
            return;
        int next = choose(false, sync);
        if (next >= 0 && next != cur) {
            rep.preemptions++;
            switch_to(next);
        }
    }

    void block(bool (*pred)(thr &), void *obj, u64 val = 0) {
        thr &me = T[cur];
        me.pred = pred;
        me.wait_obj = obj;
        me.wait_val = val;
        bool first = true;
        while (!pred(me)) {
            if (first)
                rep.contended++;
            first = false;
            step++;
            int next = choose(true, true);
            if (next < 0)
                die("deadlock", "all simulated threads are blocked");
            if (next == cur)
                break;
            switch_to(next);
        }
        me.pred = nullptr;
    }

    struct guard {
        bool prev;
        guard() : prev(in_sim) { in_sim = true; }
        ~guard() { in_sim = prev; }
    };
    inline bool on() {
        return active && !in_sim && self_id >= 0;
    }

    // ------------------------------------------------------------------ shadow memory
    struct cell {
        u64 key;
        u64 gen;
        unsigned wr_epoch;
        unsigned char wr_tid, wr_mask, wr_atomic;
        void *wr_pc;
        unsigned rd_epoch[MAXT];
        unsigned char rd_mask[MAXT], rd_atomic[MAXT];
        void *rd_pc[MAXT];
    };
    const std::size_t CELLS = 1 << 17;
    cell *shadow = nullptr;
    std::size_t used_cells = 0;
    u64 generation = 1;

    cell *find(u64 key, bool create) {
        std::size_t h = (key * 0x9E3779B97F4A7C15ull) >> 47;
        for (;; h = (h + 1) & (CELLS - 1)) {
            cell &c = shadow[h];
            if (c.gen != generation) {
                if (!create)
                    return nullptr;
                if (used_cells > CELLS / 2) {
                    // forgetting accesses can only miss races
                    generation++;
                    used_cells = 0;
                    return find(key, true);
                }
                used_cells++;
                std::memset(&c, 0, sizeof c);
                c.gen = generation;
                c.key = key;
                return &c;
            }
            if (c.key == key)
                return &c;
        }
    }

    std::string where(void *pc) {
        Dl_info i;
        if (pc && dladdr(pc, &i) && i.dli_sname) {
            int st = 0;
            char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
            std::string s = d ? d : i.dli_sname;
            std::free(d);
            std::size_t p = s.find('<');
            std::size_t q = s.find('(');
            return s.substr(0, std::min(std::min(p, q), std::size_t(120)));
        }
        return "?";
    }

    void race(const char *what, void *a, void *b) {
        if (rep.race)
            return;
        rep.race = true;
        rep.race_text = std::string("unsynchronised ") + what + " in " + where(a) + " and " + where(b);
    }

    void access_granule(u64 g, unsigned char mask, bool write, bool atomic, void *pc) {
        thr &me = T[cur];
        cell *c = find(g, true);
        if (c->wr_mask & mask && c->wr_tid != cur && !(atomic && c->wr_atomic) && c->wr_epoch > me.clock.c[c->wr_tid])
            race(write ? "writes" : "write and read", c->wr_pc, pc);
        if (write) {
            for (int i = 0; i < nthreads; i++)
                if (i != cur && (c->rd_mask[i] & mask) && !(atomic && c->rd_atomic[i]) && c->rd_epoch[i] > me.clock.c[i])
                    race("read and write", c->rd_pc[i], pc);
            c->wr_tid = cur;
            c->wr_epoch = me.clock.c[cur];
            c->wr_mask = mask;
            c->wr_atomic = atomic;
            c->wr_pc = pc;
        } else {
            c->rd_epoch[cur] = me.clock.c[cur];
            c->rd_mask[cur] = mask;
            c->rd_atomic[cur] = atomic;
            c->rd_pc[cur] = pc;
        }
    }

    void record(const void *p, std::size_t n, bool write, bool atomic, void *pc) {
        u64 a = reinterpret_cast<u64>(p), e = a + n;
        while (a < e) {
            u64 g = a >> 3;
            u64 ge = (g + 1) << 3;
            u64 stop = std::min(e, ge);
            unsigned char mask = 0;
            for (u64 x = a; x < stop; x++)
                mask |= 1 << (x & 7);
            access_granule(g, mask, write, atomic, pc);
            a = stop;
        }
    }

    void access(const void *p, std::size_t n, bool write, void *pc) {
        if (!on() || live == 0)
            return;
        const char *c = static_cast<const char *>(p);
        thr &me = T[cur];
        // a worker's own stack is private to it
        if (cur != 0 && c >= me.stack_lo && c < me.stack_hi)
            return;
        guard g;
        point(false);
        record(p, n, write, false, pc);
    }

    void forget(void *p, std::size_t n) {
        if (!active || !shadow)
            return;
        u64 g = reinterpret_cast<u64>(p) >> 3, e = (reinterpret_cast<u64>(p) + n + 7) >> 3;
        if (e - g > 65536) {
            generation++;
            used_cells = 0;
            return;
        }
        for (; g < e; g++)
            if (cell *c = find(g, false)) {
                u64 key = c->key, gen = c->gen;
                std::memset(c, 0, sizeof *c);
                c->key = key;
                c->gen = gen;
            }
    }

    // ------------------------------------------------------------------ synchronisation objects
    struct sync_obj {
        const void *addr = nullptr;
        int owner = -1;
        int depth = 0;
        int readers = 0;
        int state = 0;
        vc clock;
    };
    sync_obj objs[256];
    int nobjs = 0;
    sync_obj &obj(const void *a) {
        for (int i = 0; i < nobjs; i++)
            if (objs[i].addr == a)
                return objs[i];
        if (nobjs == 256)
            die("simulator-limit", "too many synchronisation objects");
        objs[nobjs] = sync_obj();
        objs[nobjs].addr = a;
        return objs[nobjs++];
    }
    void drop(const void *a) {
        for (int i = 0; i < nobjs; i++)
            if (objs[i].addr == a) {
                objs[i].addr = reinterpret_cast<const void *>(1);
                // reuse the slot
                objs[i] = objs[--nobjs];
                return;
            }
    }
    void acquire(sync_obj &o) {
        T[cur].clock.join(o.clock);
    }
    void release(sync_obj &o) {
        o.clock.join(T[cur].clock);
        T[cur].clock.c[cur]++;
    }
    bool mutex_free(thr &t) {
        sync_obj &o = obj(t.wait_obj);
        return o.owner == -1 && o.readers == 0;
    }
    bool no_writer(thr &t) {
        return obj(t.wait_obj).owner == -1;
    }
    bool thread_done(thr &t) {
        return T[t.wait_val].finished;
    }
    bool word_changed(thr &t) {
        return t.signalled || *static_cast<volatile int *>(t.wait_obj) != int(t.wait_val);
    }
    bool was_signalled(thr &t) {
        return t.signalled;
    }
    bool not_in_progress(thr &t) {
        return obj(t.wait_obj).state != 1;
    }

    void leave(void *) {
        // runs after the thread's own destructors
        if (self_id < 0)
            return;
        in_sim = true;
        thr &me = T[self_id];
        me.finished = true;
        me.clock.c[self_id]++;
        live--;
        step++;
        note(u64(self_id) * 31 + 11);
        int next = choose(true, true);
        if (next < 0)
            die("deadlock", "the last running thread ended while others are blocked");
        switch_to(next);
        self_id = -1;
    }

    void *trampoline(void *p) {
        thr &me = *static_cast<thr *>(p);
        self_id = me.id;
        in_sim = true;
        pthread_attr_t at;
        if (pthread_getattr_np(pthread_self(), &at) == 0) {
            void *lo;
            size_t sz;
            pthread_attr_getstack(&at, &lo, &sz);
            me.stack_lo = static_cast<char *>(lo);
            me.stack_hi = me.stack_lo + sz;
            pthread_attr_destroy(&at);
        }
        pthread_setspecific(exit_key, &me);
        take(me);
        in_sim = false;
        return me.fn(me.arg);
    }

    struct init {
        init() {
            real_create = reinterpret_cast<create_fn>(dlsym(RTLD_NEXT, "pthread_create"));
            real_join = reinterpret_cast<join_fn>(dlsym(RTLD_NEXT, "pthread_join"));
            real_detach = reinterpret_cast<int (*)(pthread_t)>(dlsym(RTLD_NEXT, "pthread_detach"));
            real_lock = reinterpret_cast<mutex_fn>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
            real_unlock = reinterpret_cast<mutex_fn>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
            real_trylock = reinterpret_cast<mutex_fn>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
            real_once = reinterpret_cast<int (*)(pthread_once_t *, void (*)())>(dlsym(RTLD_NEXT, "pthread_once"));
            real_guard_acquire = reinterpret_cast<int (*)(void *)>(dlsym(RTLD_NEXT, "__cxa_guard_acquire"));
            real_guard_release = reinterpret_cast<void (*)(void *)>(dlsym(RTLD_NEXT, "__cxa_guard_release"));
            real_guard_abort = reinterpret_cast<void (*)(void *)>(dlsym(RTLD_NEXT, "__cxa_guard_abort"));
        }
    };
    bool inited = false;
    void need() {
        if (!inited) {
            inited = true;
            init i;
        }
    }
    __attribute__((constructor(101))) void early() {
        need();
    }
}    // namespace

namespace sim {
    void thread_sim::start(const config &c) {
        need();
        cfg = c;
        std::sort(cfg.list.begin(), cfg.list.end());
        if (!shadow) {
            shadow = static_cast<cell *>(
                mmap(nullptr, CELLS * sizeof(cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (shadow == MAP_FAILED)
                std::abort();
        }
        if (!key_made) {
            pthread_key_create(&exit_key, leave);
            key_made = true;
        }
        generation++;
        used_cells = 0;
        rep = report();
        step = 0;
        rng_state = c.seed;
        next_explicit = 0;
        taken.clear();
        nobjs = 0;
        pct_points.clear();
        low_prio = 1000;
        if (c.how == pct) {
            for (u64 i = 0; i < c.change_points; i++)
                pct_points.push_back(rnd(c.expected_steps));
            std::sort(pct_points.begin(), pct_points.end());
        }
        for (int i = 0; i < MAXT; i++) {
            T[i].used = false;
            T[i].finished = false;
            T[i].joined = false;
            T[i].detached = false;
            T[i].pred = nullptr;
            T[i].clock = vc();
            T[i].baton = 0;
            T[i].id = i;
        }
        nthreads = 1;
        ::live = 0;
        cur = 0;
        T[0].used = true;
        T[0].clock.c[0] = 1;
        T[0].prio = 2000 + unsigned(rnd(1000));
        self_id = 0;
        in_sim = false;
        sim::alloc_hook = forget;
        active = true;
    }
    thread_sim::report thread_sim::stop() {
        active = false;
        sim::alloc_hook = nullptr;
        rep.steps = step;
        rep.live = ::live;
        for (int i = 1; i < nthreads; i++)
            if (!T[i].joined && !T[i].detached)
                rep.unjoined = true;
        std::string d;
        for (auto &p : taken)
            d += std::to_string(p.first) + " " + std::to_string(p.second) + " ";
        rep.decisions = d;
        return rep;
    }
    int thread_sim::live() {
        return ::live;
    }
    void thread_sim::parse_list(const Scenario &s, config &c) {
        for (auto &st : s.steps)
            if (st.op == "switch")
                c.list.push_back({u64(st.arg(0)), int(st.arg(1))});
    }
    Scenario thread_sim::with_list(const Scenario &s, const std::string &decisions) {
        Scenario t = s;
        t.cfg["strategy"] = explicit_list;
        std::istringstream is(decisions);
        i64 a, b;
        while (is >> a >> b)
            t.add("switch", {a, b});
        return t;
    }
}    // namespace sim

// ---------------------------------------------------------------------------------------------------------------------
// interposed thread functions
extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    need();
    if (!on())
        return real_create(out, attr, fn, arg);
    guard g;
    point(true);
    rep.created++;
    for (int r : cfg.refuse_create)
        if (u64(r) == rep.created) {
            rep.refused++;
            note(0xEA);
            return EAGAIN;
        }
    if (nthreads == MAXT)
        die("simulator-limit", "too many threads");
    thr &t = T[nthreads];
    t.used = true;
    t.fn = fn;
    t.arg = arg;
    t.clock = T[cur].clock;
    t.clock.c[t.id] = 1;
    T[cur].clock.c[cur]++;
    t.prio = 2000 + unsigned(rnd(1000));
    nthreads++;
    live++;
    int r = real_create(&t.real, attr, trampoline, &t);
    if (r != 0)
        die("simulator-limit", "cannot create a real thread");
    *out = t.real;
    step++;
    int next = choose(false, true);
    if (next >= 0 && next != cur)
        switch_to(next);
    return 0;
}

static thr *by_handle(pthread_t h) {
    for (int i = nthreads - 1; i >= 1; i--)
        if (pthread_equal(T[i].real, h) && !T[i].joined)
            return &T[i];
    return nullptr;
}

int pthread_join(pthread_t h, void **ret) {
    need();
    thr *t = active && self_id >= 0 ? by_handle(h) : nullptr;
    if (!t)
        return real_join(h, ret);
    bool prev = in_sim;
    in_sim = true;
    point(true);
    block(thread_done, nullptr, t->id);
    T[cur].clock.join(t->clock);
    t->joined = true;
    note(u64(t->id) * 17 + 5);
    in_sim = prev;
    return real_join(h, ret);
}

int pthread_detach(pthread_t h) {
    need();
    if (thr *t = active ? by_handle(h) : nullptr)
        t->detached = true;
    return real_detach(h);
}

int pthread_mutex_lock(pthread_mutex_t *m) {
    need();
    if (!on())
        return real_lock(m);
    guard g;
    point(true);
    sync_obj &o = obj(m);
    if (o.owner == cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        o.depth++;
        return 0;
    }
    block(mutex_free, m);
    sync_obj &o2 = obj(m);
    o2.owner = cur;
    o2.depth = 1;
    acquire(o2);
    rep.locks++;
    note(u64(cur) * 1009 + 1);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    need();
    if (!on())
        return real_trylock(m);
    guard g;
    point(true);
    sync_obj &o = obj(m);
    if (o.owner == cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        o.depth++;
        return 0;
    }
    if (o.owner != -1 || o.readers)
        return EBUSY;
    o.owner = cur;
    o.depth = 1;
    acquire(o);
    rep.locks++;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    need();
    if (!on())
        return real_unlock(m);
    guard g;
    sync_obj &o = obj(m);
    if (o.owner != cur)
        return EPERM;
    if (--o.depth > 0)
        return 0;
    o.owner = -1;
    release(o);
    point(true);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    need();
    if (!on())
        return 0;
    guard g;
    point(true);
    block(mutex_free, m);
    sync_obj &o = obj(m);
    o.owner = cur;
    acquire(o);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    need();
    if (!on())
        return 0;
    guard g;
    point(true);
    block(no_writer, m);
    sync_obj &o = obj(m);
    o.readers++;
    acquire(o);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    need();
    if (!on())
        return 0;
    guard g;
    sync_obj &o = obj(m);
    if (o.owner == cur)
        o.owner = -1;
    else if (o.readers)
        o.readers--;
    release(o);
    point(true);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *cv, pthread_mutex_t *m) {
    need();
    if (!on())
        return 0;
    guard g;
    sync_obj &o = obj(m);
    o.owner = -1;
    release(o);
    T[cur].signalled = false;
    block(was_signalled, cv);
    block(mutex_free, m);
    sync_obj &o2 = obj(m);
    o2.owner = cur;
    o2.depth = 1;
    acquire(o2);
    return 0;
}
int pthread_cond_signal(pthread_cond_t *cv) {
    need();
    if (!on())
        return 0;
    guard g;
    for (int i = 0; i < nthreads; i++)
        if (T[i].pred == was_signalled && T[i].wait_obj == cv && !T[i].signalled) {
            T[i].signalled = true;
            break;
        }
    point(true);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *cv) {
    need();
    if (!on())
        return 0;
    guard g;
    for (int i = 0; i < nthreads; i++)
        if (T[i].pred == was_signalled && T[i].wait_obj == cv)
            T[i].signalled = true;
    point(true);
    return 0;
}
int pthread_once(pthread_once_t *c, void (*fn)()) {
    need();
    if (!on())
        return real_once(c, fn);
    sync_obj *o;
    {
        guard g;
        point(true);
        block(not_in_progress, c);
        o = &obj(c);
        if (o->state == 2 || *c == 2) {
            acquire(*o);
            return 0;
        }
        o->state = 1;
    }
    try {
        fn();
    } catch (...) {
        obj(c).state = 0;
        throw;
    }
    guard g;
    sync_obj &o2 = obj(c);
    o2.state = 2;
    *c = 2;
    release(o2);
    return 0;
}
int sched_yield() {
    if (on()) {
        guard g;
        point(true);
    }
    return 0;
}

// function-local statics
int __cxa_guard_acquire(long long *gv) {
    need();
    if (!on())
        return real_guard_acquire(gv);
    guard g;
    char *b = reinterpret_cast<char *>(gv);
    point(true);
    if (*b) {
        acquire(obj(gv));
        return 0;
    }
    block(not_in_progress, gv);
    sync_obj &o = obj(gv);
    if (*b) {
        acquire(o);
        return 0;
    }
    o.state = 1;
    return 1;
}
void __cxa_guard_release(long long *gv) {
    need();
    if (!on()) {
        real_guard_release(gv);
        return;
    }
    guard g;
    sync_obj &o = obj(gv);
    o.state = 2;
    release(o);
    *reinterpret_cast<char *>(gv) = 1;
    point(true);
}
void __cxa_guard_abort(long long *gv) {
    need();
    if (!on()) {
        real_guard_abort(gv);
        return;
    }
    guard g;
    obj(gv).state = 0;
}

long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && on()) {
        int op = int(a[1]) & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            guard g;
            T[cur].signalled = false;
            block(word_changed, reinterpret_cast<void *>(a[0]), u64(unsigned(a[2])));
            return 0;
        }
        if (op == FUTEX_WAKE) {
            guard g;
            point(true);
            return 0;
        }
    }
    long r;
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall"
                     : "=a"(r)
                     : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = int(-r);
        return -1;
    }
    return r;
}

// ---------------------------------------------------------------------------------------------------------------------
// sanitizer callbacks
#define PC __builtin_return_address(0)
void __tsan_init() {
}
void __tsan_func_entry(void *) {
}
void __tsan_func_exit() {
}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *p) { access(p, n, false, PC); }                                                          \
    void __tsan_write##n(void *p) { access(p, n, true, PC); }                                                          \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); }                                                \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }                                                \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); }                                                 \
    void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *p, size_t n) {
    access(p, n, false, PC);
}
void __tsan_write_range(void *p, size_t n) {
    access(p, n, true, PC);
}
void __tsan_vptr_update(void **p, void *) {
    access(p, sizeof(void *), true, PC);
}
void __tsan_vptr_read(void **p) {
    access(p, sizeof(void *), false, PC);
}
void __tsan_atomic_thread_fence(int) {
}
void __tsan_atomic_signal_fence(int) {
}
}

namespace {
    void atomic_op(const volatile void *p, std::size_t n, bool write, int mo, bool load, void *pc) {
        if (!on() || live == 0)
            return;
        guard g;
        point(true);
        record(const_cast<const void *>(p), n, write, true, pc);
        if (mo != __ATOMIC_RELAXED) {
            sync_obj &o = obj(const_cast<const void *>(p));
            if (load)
                acquire(o);
            if (write)
                release(o);
        }
    }
}    // namespace

#define ATOMIC(bits, type)                                                                                             \
    extern "C" type __tsan_atomic##bits##_load(const volatile type *p, int mo) {                                       \
        atomic_op(p, sizeof(type), false, mo, true, PC);                                                               \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    extern "C" void __tsan_atomic##bits##_store(volatile type *p, type v, int mo) {                                    \
        atomic_op(p, sizeof(type), true, mo, false, PC);                                                               \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    extern "C" type __tsan_atomic##bits##_exchange(volatile type *p, type v, int mo) {                                 \
        atomic_op(p, sizeof(type), true, mo, true, PC);                                                                \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    extern "C" type __tsan_atomic##bits##_fetch_add(volatile type *p, type v, int mo) {                                \
        atomic_op(p, sizeof(type), true, mo, true, PC);                                                                \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    extern "C" type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v, int mo) {                                \
        atomic_op(p, sizeof(type), true, mo, true, PC);                                                                \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    extern "C" type __tsan_atomic##bits##_fetch_and(volatile type *p, type v, int mo) {                                \
        atomic_op(p, sizeof(type), true, mo, true, PC);                                                                \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    extern "C" type __tsan_atomic##bits##_fetch_or(volatile type *p, type v, int mo) {                                 \
        atomic_op(p, sizeof(type), true, mo, true, PC);                                                                \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                  \
    extern "C" type __tsan_atomic##bits##_fetch_xor(volatile type *p, type v, int mo) {                                \
        atomic_op(p, sizeof(type), true, mo, true, PC);                                                                \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    extern "C" bool __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *e, type v, int mo, int) {    \
        atomic_op(p, sizeof(type), true, mo, true, PC);                                                                \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    extern "C" bool __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *e, type v, int mo, int) {      \
        atomic_op(p, sizeof(type), true, mo, true, PC);                                                                \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    extern "C" type __tsan_atomic##bits##_compare_exchange_val(volatile type *p, type e, type v, int mo, int) {        \
        atomic_op(p, sizeof(type), true, mo, true, PC);                                                                \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        return e;                                                                                                      \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)

// ---------------------------------------------------------------------------------------------------------------------
// tree operations live in the (uninstrumented) standard library: report what they touch
#include <bits/stl_tree.h>
#define HAVE_TREE_HOOKS 1
namespace {
    void touch_node(const std::_Rb_tree_node_base *n, bool write, void *pc) {
        if (n)
            access(n, sizeof(std::_Rb_tree_node_base), write, pc);
    }
}    // namespace
namespace std {
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p,
                                       _Rb_tree_node_base &header) throw() {
        typedef void (*fn)(const bool, _Rb_tree_node_base *, _Rb_tree_node_base *, _Rb_tree_node_base &);
        static void *sym = nullptr;
        if (!sym)
            sym = dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
        fn real = reinterpret_cast<fn>(sym);
        touch_node(x, true, PC);
        touch_node(p, true, PC);
        touch_node(&header, true, PC);
        real(left, x, p, header);
    }
}    // namespace std

namespace sim {
    // the n-th thread creation from now on is refused (0: none)
    void thread_refuse_next(int n) {
        cfg.refuse_create.clear();
        if (n > 0)
            cfg.refuse_create.push_back(int(rep.created) + n);
    }
}    // namespace sim
