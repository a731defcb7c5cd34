// main() shared by the C++ simulators: run a seed range, or replay one script.
#ifndef SIM_MAIN_HPP
#define SIM_MAIN_HPP
#include "common.hpp"
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

SIM_COMMON_GLOBALS

static void allocNote() {
    ++g_alloc.total; ++g_alloc.opTotal;
    if (g_alloc.opLimit && g_alloc.opTotal > g_alloc.opLimit) simRunaway("allocations");
    if (g_alloc.armed && --g_alloc.countdown <= 0) { g_alloc.armed = false; g_alloc.fired = true; throw std::bad_alloc(); }
}
void *operator new(std::size_t n) { allocNote(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](std::size_t n) { allocNote(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }

void simRunaway(const char *what) {
    // bounded-progress violation: reported by dying with a recognisable line
    g_alloc.opLimit = 0;
    fprintf(stderr, "SIM-RUNAWAY %s op=%ld\n", what, g_opIndex);
    fflush(0);
    _exit(70);
}
static void onCpu(int) {
    const char m[] = "SIM-RUNAWAY cpu\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    _exit(70);
}
static void armCpu(int sec) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &it, 0);
}

// provided by the simulator
Script generateScript(u64 seed, const std::string &prop);
void runScript(const Script &s);

static void runOne(const Script &s) {
    g_log.hash = 1469598103934665603ull; g_log.count = 0;
    g_viol.reset(); g_opIndex = -1; g_alloc.armed = false; g_alloc.fired = false;
    armCpu(12);
    try { runScript(s); }
    catch (std::exception &e) {
        violation(g_viol.prop.empty() ? "ANY" : g_viol.prop.c_str(), "escaped-exception",
                  std::string("exception left the simulated system: ") + e.what());
    }
    g_alloc.armed = false;
    armCpu(0);
}

int main(int argc, char **argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    signal(SIGVTALRM, onCpu);
    if (mode == "gen" && argc == 4) {           // gen PROP SEED -> script text
        std::cout << generateScript(strtoull(argv[3], 0, 10), argv[2]).text();
        return 0;
    }
    if (mode == "replay" && argc >= 4) {        // replay PROP FILE [-v]
        g_viol.prop = argv[2];
        g_log.verbose = argc > 4;
        Script s; std::ifstream f(argv[3]);
        if (!f || !s.parse(f)) { fprintf(stderr, "bad script\n"); return 2; }
        runOne(s);
        printf("HASH %016llx events %lu\n", (unsigned long long)g_log.hash, g_log.count);
        if (g_viol.hit) { printf("VIOL op=%ld class=%s detail=%s\n", g_viol.opIndex, g_viol.cls.c_str(), g_viol.detail.c_str()); return 1; }
        printf("OK\n");
        return 0;
    }
    if (mode == "run" && argc >= 7) {           // run PROP FIRST STRIDE COUNT SECONDS [hashes]
        g_viol.prop = argv[2];
        u64 first = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
        double limit = atof(argv[6]);
        bool hashes = argc > 7;
        struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
        u64 done = 0; int rc = 0;
        for (u64 i = 0; i < count; ++i) {
            clock_gettime(CLOCK_MONOTONIC, &t);
            if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > limit) break;
            u64 seed = first + i * stride;
            fprintf(stdout, "S %llu\n", (unsigned long long)seed); fflush(stdout);
            Script s = generateScript(seed, g_viol.prop);
            runOne(s);
            ++done;
            g_stats.inc("events", g_log.count);
            if (hashes) printf("H %llu %016llx %lu\n", (unsigned long long)seed, (unsigned long long)g_log.hash, g_log.count);
            if (g_viol.hit) {
                printf("VIOL seed=%llu op=%ld class=%s detail=%s\n", (unsigned long long)seed, g_viol.opIndex, g_viol.cls.c_str(), g_viol.detail.c_str());
                rc = 1;
                break;
            }
        }
        printf("DONE %llu\n", (unsigned long long)done);
        for (std::map<std::string, unsigned long>::iterator it = g_stats.n.begin(); it != g_stats.n.end(); ++it)
            printf("N %s %lu\n", it->first.c_str(), it->second);
        for (std::set<u64>::iterator it = g_stats.sigs.begin(); it != g_stats.sigs.end(); ++it) printf("G %llx\n", (unsigned long long)*it);
        for (std::set<u64>::iterator it = g_stats.states.begin(); it != g_stats.states.end(); ++it) printf("T %llx\n", (unsigned long long)*it);
        return rc;
    }
    fprintf(stderr, "usage: gen|replay|run\n");
    return 2;
}
#endif
