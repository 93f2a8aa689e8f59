// Cooperative simulation of threads.
//
// The harness is compiled with -fsanitize=thread, but linked against the hooks in thread_sim.cpp instead of the
// sanitizer's run time.  Threads are real, but only the one holding the baton runs; the simulator decides at every
// shared memory access and synchronisation call who runs next.  A vector-clock detector reports unsynchronised
// conflicting accesses on the executed interleaving.
#ifndef VERIF_THREAD_SIM_HPP
#define VERIF_THREAD_SIM_HPP

#include "sim.hpp"

namespace sim {
    struct thread_sim {
        enum strategy { explicit_list, random_walk, pct, sync_only, round_robin };
        struct config {
            strategy how = explicit_list;
            u64 seed = 0;
            u64 rate = 1000;          // random_walk: one switch per rate accesses on average
            u64 change_points = 3;    // pct
            u64 expected_steps = 100000;
            u64 max_switches = 400;
            std::vector<std::pair<u64, int>> list;
            std::vector<int> refuse_create;    // ordinals (from 1) of thread creations that fail with EAGAIN
        };
        struct report {
            u64 steps = 0, switches = 0, created = 0, refused = 0, locks = 0, contended = 0, preemptions = 0;
            u64 interleaving = 0;    // hash of the order of synchronisation operations and switches
            bool race = false;
            std::string race_text;
            int live = 0;    // threads not finished at stop()
            bool unjoined = false;
            std::string decisions;
        };
        static void start(const config &c);
        static report stop();
        static int live();
        static void parse_list(const Scenario &s, config &c);
        static Scenario with_list(const Scenario &s, const std::string &decisions);
    };
}    // namespace sim

#endif
