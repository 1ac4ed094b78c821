#pragma once
#include "core.hpp"
// Workload shape of one property.
struct Profile {
    std::string name;
    int dist = 25;        // % of databases on the single-file distribution
    int rlc = 10, vdata = 25, index = 20, multi = 8, driver = 0, drvOps = 0, longRun = 0;
    int big = 1;          // runs with more than 65536 pages in a file
    int faults = 0;       // % of runs with injected faults
    int crashes = 0;      // % of runs with crashes
    int reopen = 50;      // % of runs with clean reopenings
    int cross = 20;       // % of reopenings that switch builds
    int queries = 0;      // weight
    int wrapBias = 50;    // % of runs that target wrap-around
    int w[OP_COUNT] = {0};
    int allocOnly = 0, idxReadOnly = 0;
    int maxmin = 15;
    int sd = 0;           // drivers are the SD-card and dataflash ones
    int lockstep = 0, junkPairs = 0;
};
bool profileFor(const std::string &prop, Profile &p);
static const u64 HUGE_EVERY = 30000;  // one run of C08 writes more than 4 GB of variable data
Script generate(u64 seed, const Profile &p);
std::string scriptText(const Script &s);
bool parseScript(const std::string &t, Script &s);
