// Driver: seeded search, replay, minimisation.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "exec.hpp"
#include "gen.hpp"

static const size_t COVER_BITS = 1u << 23;
struct Shared {
    Stats st;
    volatile u64 seed;
    volatile int state;  // 0 idle 1 running 2 violation recorded
    u64 hash;
    int opIndex;
    char tag[40], msg[640], known[700];
    u8 cover[COVER_BITS / 8];  // distinct states
    u8 distinct[COVER_BITS / 8];  // distinct non-trivial runs
};
static Shared *sh;
static void coverHit(u64 h) {
    h = mix64(h) % COVER_BITS;
    sh->cover[h >> 3] |= (u8)(1 << (h & 7));
}
static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static void *shmem(size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    return p;
}

static RunResult one(const Script &s, int variant, u64 junk, bool trace) {
    Script c = s;
    if (junk) c.cfg.junk = junk;
    Exec e(c, &sh->st, coverHit);
    e.trace = trace;
    if (variant >= 0) e.setVariant(variant);
    return e.run();
}
static RunResult runModes(const Script &s, bool trace) {
    if (s.cfg.mode == 1) {
        RunResult a = one(s, 0, 0, trace);
        if (a.viol) return a;
        RunResult b = one(s, 1, 0, trace);
        sh->st.lockstepRuns++;
        sh->st.lockstepResults += a.api.size();
        b.hash = mix2(a.hash, b.hash);
        if (b.viol) {
            // the sources behave on this history, the distribution does not
            b.msg = "only the distribution build: " + b.tag + ": " + b.msg;
            b.tag = "lock.viol";
            return b;
        }
        size_t n = std::min(a.api.size(), b.api.size());
        for (size_t i = 0; i < n; i++)
            if (a.api[i] != b.api[i]) {
                char m[100];
                snprintf(m, sizeof m, "result %zu of %zu differs between the sources and the distribution", i, n);
                b.viol = true;
                b.tag = "lock.diff";
                b.msg = m;
                return b;
            }
        if (a.api.size() != b.api.size()) {
            b.viol = true;
            b.tag = "lock.diff";
            b.msg = "the two builds return different numbers of results";
        }
        return b;
    }
    if (s.cfg.mode == 2) {
        RunResult a = one(s, -1, 0, trace);
        if (a.viol) return a;
        RunResult b = one(s, -1, 0x5eed, trace);
        sh->st.junkRuns++;
        b.hash = mix2(a.hash, b.hash);
        if (b.viol) return b;
        if (a.api != b.api) {
            b.viol = true;
            b.tag = "mem.uninit";
            b.msg = "results depend on the content of uninitialised memory";
        }
        return b;
    }
    return one(s, -1, 0, trace);
}

// Is a violation seen while checking one property really one of that property? Decided by running
// the same script again without the ingredient the property is about.
static RunResult runScript(const Script &s, bool trace) {
    RunResult r = runModes(s, trace);
    if (!r.viol || s.cfg.mode) return r;
    const std::string &p = s.cfg.profile;
    auto fails = [&](const Script &c) { return runModes(c, false).viol; };
    bool other = false;
    if (p == "C10") {  // faults
        Script c = s;
        c.ops.erase(std::remove_if(c.ops.begin(), c.ops.end(), [](const Op &o) { return o.code == OP_ARM; }), c.ops.end());
        other = fails(c);
    } else if (p == "C14") {  // other databases
        for (size_t k = 0; k < s.cfg.db.size() && !other; k++) {
            Script c = s;
            c.cfg.db.assign(1, s.cfg.db[k]);
            c.ops.clear();
            for (Op o : s.ops)
                if (o.db == (int)k || o.db < 0) {
                    if (o.db > 0) o.db = 0;
                    c.ops.push_back(o);
                }
            other = fails(c);
        }
    } else if (p == "C16") {  // the builds differ
        bool v[2];
        for (int k = 0; k < 2; k++) v[k] = one(s, k, 0, false).viol;
        if (v[0] && v[1]) other = true;
        else {
            r.msg = std::string(v[0] ? "only the sources: " : v[1] ? "only the distribution build: " : "only when both builds use the same files: ") + r.tag + ": " + r.msg;
            r.tag = "lock.cross";
        }
    } else if (p == "C17" && r.tag.compare(0, 4, "drv.")) {  // the driver
        Script c = s;
        for (auto &d : c.cfg.db) d.driver = 0;
        other = fails(c);
        if (!other) r.tag = "drv.db." + r.tag;
    }
    if (other) r.tag = "other." + r.tag;
    return r;
}

static void armTimer(double sec) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = (long)sec;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
static const double RUN_CPU = 60;

// Run a script in a child process; crashes and endless loops become violations.
struct Outcome {
    bool viol = false;
    std::string tag, msg, known;
    int opIndex = -1;
    u64 hash = 0;
};
static std::string errFile;
static std::string sanitizerLine(const char *dflt) {
    std::string m = dflt;
    FILE *f = fopen(errFile.c_str(), "r");
    if (!f) return m;
    char l[500];
    std::string frame;
    while (fgets(l, sizeof l, f)) {
        char *p = strstr(l, "ERROR: AddressSanitizer");
        if (!p && strstr(l, "runtime error:")) p = l;
        if (p) {
            m = p;
            while (m.size() && (m.back() == '\n' || m.back() == '\r')) m.pop_back();
        }
        if (frame.empty() && strstr(l, "    #") && strstr(l, "embed")) {
            frame = strstr(l, " in ") ? strstr(l, " in ") : l;
            while (frame.size() && frame.back() == '\n') frame.pop_back();
        }
    }
    fclose(f);
    size_t at = m.find(" at pc");
    if (at != std::string::npos) m.resize(at);
    return m + (frame.empty() ? "" : " (" + frame + ")");
}
static void classify(int status, Outcome &o) {
    o.viol = true;
    if (WIFSIGNALED(status)) {
        int sg = WTERMSIG(status);
        if (sg == SIGVTALRM) {
            o.tag = "hang";
            o.msg = "a call used more processor time than any bounded operation can";
            return;
        }
        o.tag = sg == SIGSEGV || sg == SIGBUS ? "crash.segv" : sg == SIGABRT ? "crash.abort" : sg == SIGFPE ? "crash.fpe" : "crash.signal";
        o.msg = sanitizerLine(strsignal(sg));
        return;
    }
    o.tag = "crash.exit";
    o.msg = sanitizerLine("process ended unexpectedly");
}
static void childStderr() {
    int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
}
static void record(const RunResult &r) {
    sh->hash = r.hash;
    sh->opIndex = r.opIndex;
    snprintf(sh->tag, sizeof sh->tag, "%s", r.tag.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", r.msg.c_str());
    snprintf(sh->known, sizeof sh->known, "%s", r.known.c_str());
    sh->state = r.viol ? 2 : 0;
}
static Outcome isolated(const Script &s) {
    Outcome o;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        childStderr();
        armTimer(RUN_CPU);
        RunResult r = runScript(s, false);
        record(r);
        _exit(0);
    }
    int status = 0;
    waitpid(p, &status, 0);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        o.viol = sh->state == 2;
        o.hash = sh->hash;
        o.known = sh->known;
        if (o.viol) {
            o.tag = sh->tag;
            o.msg = sh->msg;
            o.opIndex = sh->opIndex;
        }
    } else
        classify(status, o);
    return o;
}

static std::string jsonStr(const std::string &s) {
    std::string t = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') t += '\\';
        if ((u8)c < 32) c = ' ';
        t += c;
    }
    return t + "\"";
}
static void dumpStats(FILE *f) {
    const Stats &s = sh->st;
    fprintf(f, "{\"runs\":%llu", (unsigned long long)s.runs);
#define N(x) fprintf(f, ",\"" #x "\":%llu", (unsigned long long)s.x)
    N(faultsArmed); N(crashes); N(crashInOp); N(crashTorn); N(crashLostSuffix); N(crashInRecovery); N(recoveries); N(reopenClean); N(initRetries);
    N(apiCalls); N(ioEvents); N(ioReads); N(ioWrites); N(ioErases); N(ioFlushes); N(simMicros);
    N(puts); N(records); N(varBytes); N(dataWraps); N(evictedSeen); N(deletedSeen); N(ghostChecks); N(ambiguous);
    N(wrapRuns); N(rlcRuns); N(bmapRuns); N(varRuns); N(driverRuns); N(multiRuns); N(queries); N(queryRows); N(lockstepRuns); N(lockstepResults); N(junkRuns); N(maxPages); N(knownFindings); N(nonTrivial); N(valueScans); N(idxPages); N(rejected); N(streamReads); N(fmtPages); N(badOpens); N(statChecks); N(statPrints); N(costGets); N(costBuffered); N(costStreams); N(costScans); N(costPages); N(costIndexed); N(heapChecks); N(maxStack); N(badPlans); N(nestedQueries); N(queryInserts);
#undef N
    for (int i = 0; i < FK_COUNT; i++) fprintf(f, ",\"fault_%s\":%llu", faultNames[i], (unsigned long long)s.faults[i]);
    for (int i = 1; i < OP_COUNT; i++) fprintf(f, ",\"op_%s\":%llu", opNames[i], (unsigned long long)s.ops[i]);
    fprintf(f, "}\n");
}

// Did this run exercise what the property is about?
static bool nonTrivial(const std::string &p, const Stats &a, const Stats &b) {
#define D(x) (b.x - a.x)
    u64 faults = 0;
    for (int i = 0; i < FK_COUNT; i++) faults += D(faults[i]);
    u64 pages = D(ioWrites), looked = D(ops[OP_GET]) + D(ops[OP_CHECK]), scans = D(ops[OP_SCAN]) + D(ops[OP_INEXT]);
    if (p == "C01") return pages && looked && D(records);
    if (p == "C02") return pages && D(records) && D(rejected);
    if (p == "C03") return pages && scans && D(records);
    if (p == "C04") return D(valueScans) && D(idxPages);
    if (p == "C05") return D(wrapRuns) && looked + scans;
    if (p == "C06") return pages && D(crashes) && D(recoveries);
    if (p == "C07") return D(rlcRuns) && D(crashes) && D(records);
    if (p == "C08") return D(varBytes) && D(streamReads);
    if (p == "C09") return D(varBytes) && D(crashes) + D(reopenClean);
    if (p == "C10") return faults && D(records);
    if (p == "C11") return pages && D(records) && looked + scans;
    if (p == "C12") return D(wrapRuns) || (pages && D(crashes));
    if (p == "C13") return D(queryRows);
    if (p == "C14") return D(multiRuns) && pages;
    if (p == "C15") return pages && (faults || D(crashes) || looked || scans);
    if (p == "C16") return D(lockstepResults) || D(reopenClean);
    if (p == "C20") return pages && D(badOpens);
    if (p == "C25") return pages && D(heapChecks) && looked + scans;
    if (p == "C24") return pages && D(statChecks) && D(ioReads);
    if (p == "C23") return pages && D(costGets) + D(costScans);
    if (p == "C22") return D(fmtPages);
    if (p == "C17" || p == "C21") return D(ops[OP_DWRITE]) + D(ops[OP_DREAD]) > 0 || (D(driverRuns) && pages);
    return pages;
#undef D
}

static int cmdRun(int argc, char **argv) {
    std::string prop = "mix", coverOut;
    std::vector<std::string> own;  // tag prefixes that count; all if empty
    u64 start = 0, step = 1, count = ~0ULL;
    double secs = 10;
    int maxFound = 20;
    bool stopFirst = false;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        auto v = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--prop") prop = v();
        else if (a == "--start") start = strtoull(v(), 0, 10);
        else if (a == "--step") step = strtoull(v(), 0, 10);
        else if (a == "--count") count = strtoull(v(), 0, 10);
        else if (a == "--secs") secs = atof(v());
        else if (a == "--cover") coverOut = v();
        else if (a == "--found") maxFound = atoi(v());
        else if (a == "--stop") stopFirst = true;
        else if (a == "--own") {
            std::string t = v();
            for (size_t p = 0; p < t.size();) {
                size_t e = std::min(t.find(',', p), t.size());
                own.push_back(t.substr(p, e - p));
                p = e + 1;
            }
        }
    }
    Profile p;
    if (!profileFor(prop, p)) {
        fprintf(stderr, "unknown profile %s\n", prop.c_str());
        return 2;
    }
    double t0 = now();
    u64 next = 0;
    int found = 0;
    while (next < count && now() - t0 < secs && found < maxFound) {
        sh->state = 0;
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) {
            childStderr();
            for (u64 i = next; i < count && i < next + 4000; i++) {
                u64 seed = start + i * step;
#ifdef __SANITIZE_ADDRESS__
                if (prop == "C08" && seed % HUGE_EVERY == 77) continue;  // takes minutes
#endif
                sh->seed = i;
                sh->state = 1;
                armTimer(RUN_CPU);
                Stats before = sh->st;
                Script sc = generate(seed, p);
#ifdef __SANITIZE_ADDRESS__
                i64 inserts = 0;
                for (auto &op : sc.ops)
                    if (op.code == OP_PUTN) inserts += op.a;
                if (inserts > 1000000) continue;  // takes minutes as well
#endif
                RunResult r = runScript(sc, false);
                record(r);
                if (nonTrivial(prop, before, sh->st)) {
                    sh->st.nonTrivial++;
                    u64 h = mix64(r.hash) % COVER_BITS;
                    sh->distinct[h >> 3] |= (u8)(1 << (h & 7));
                }
                if (r.viol) _exit(3);
                if (now() - t0 > secs) _exit(4);
            }
            _exit(0);
        }
        int status = 0;
        waitpid(c, &status, 0);
        Outcome o;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 3) {
            o.viol = true;
            o.tag = sh->tag;
            o.msg = sh->msg;
            o.hash = sh->hash;
            o.opIndex = sh->opIndex;
        } else if (WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 4)) {
            next = sh->seed + 1;
            if (WEXITSTATUS(status) == 4) break;
            continue;
        } else
            classify(status, o);
        u64 seed = start + sh->seed * step;
        printf("FOUND {\"seed\":%llu,\"tag\":%s,\"op\":%d,\"hash\":\"%016llx\",\"msg\":%s}\n", (unsigned long long)seed, jsonStr(o.tag).c_str(), o.opIndex, (unsigned long long)o.hash, jsonStr(o.msg).c_str());
        fflush(stdout);
        bool mine = own.empty();
        for (auto &x : own) mine |= o.tag.compare(0, x.size(), x) == 0;
        if (mine) found++;
        next = sh->seed + 1;
        if (stopFirst && mine) break;
    }
    if (!coverOut.empty()) {
        FILE *f = fopen(coverOut.c_str(), "wb");
        if (f) {
            fwrite(sh->cover, 1, sizeof sh->cover, f);
            fwrite(sh->distinct, 1, sizeof sh->distinct, f);
            fclose(f);
        }
    }
    printf("SECS %.3f\nSTATS ", now() - t0);
    dumpStats(stdout);
    return 0;
}

static std::string slurp(const char *n) {
    std::string t;
    FILE *f = fopen(n, "rb");
    if (!f) {
        perror(n);
        exit(2);
    }
    char b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f))) t.append(b, k);
    fclose(f);
    return t;
}
static void printOutcome(const Outcome &o) {
    if (o.viol) printf("RESULT {\"viol\":true,\"tag\":%s,\"op\":%d,\"hash\":\"%016llx\",\"msg\":%s}\n", jsonStr(o.tag).c_str(), o.opIndex, (unsigned long long)o.hash, jsonStr(o.msg).c_str());
    else printf("RESULT {\"viol\":false,\"tag\":\"\",\"hash\":\"%016llx\",\"known\":%s}\n", (unsigned long long)o.hash, jsonStr(o.known).c_str());
}

// ---------------------------------------------------------------- minimisation
static Script shrink(Script s, const std::string &tag, double secs) {
    double t0 = now();
    auto fails = [&](const Script &c) {
        if (now() - t0 > secs) return false;
        Outcome o = isolated(c);
        return o.viol && o.tag == tag;
    };
    bool changed = true;
    for (int round = 0; changed && round < 6 && now() - t0 < secs; round++) {
        changed = false;
        for (size_t n = std::max<size_t>(1, s.ops.size() / 2); n >= 1; n /= 2) {  // drop runs of operations
            for (size_t i = 0; i + 1 <= s.ops.size();) {
                Script c = s;
                c.ops.erase(c.ops.begin() + (long)i, c.ops.begin() + (long)std::min(i + n, c.ops.size()));
                if (fails(c)) {
                    s = c;
                    changed = true;
                } else
                    i += n;
            }
            if (n == 1) break;
        }
        if (s.cfg.db.size() > 1 && s.cfg.db.size() <= 4)
            for (size_t k = 0; k < s.cfg.db.size() && s.cfg.db.size() > 1; k++) {
                Script c = s;
                c.cfg.db.erase(c.cfg.db.begin() + (long)k);
                for (auto &o : c.ops)
                    if (o.db > (int)k) o.db--;
                if (fails(c)) {
                    s = c;
                    changed = true;
                }
            }
        for (size_t i = 0; i < s.ops.size(); i++) {  // simpler arguments
            i64 Op::*fld[4] = {&Op::a, &Op::b, &Op::c, &Op::d};
            for (auto f : fld) {
                for (int k = 0; k < 12 && s.ops[i].*f != 0; k++) {
                    i64 v = s.ops[i].*f, t[3] = {0, v / 2, v - 1};
                    bool ok = false;
                    for (i64 nv : t) {
                        if (nv == v) continue;
                        Script c = s;
                        c.ops[i].*f = nv;
                        if (fails(c)) {
                            s = c;
                            ok = changed = true;
                            break;
                        }
                    }
                    if (!ok) break;
                }
            }
        }
        for (size_t k = 0; k < s.cfg.db.size(); k++) {  // simpler configuration
            auto tryv = [&](auto f, i64 v) {
                Script c = s;
                f(c.cfg.db[k], v);
                if (scriptText(c) != scriptText(s) && fails(c)) {
                    s = c;
                    changed = true;
                }
            };
            tryv([](DbCfg &d, i64 v) { d.cache = (int)v; }, 0);
            tryv([](DbCfg &d, i64 v) { d.fixed = (int)v; d.firstReset = 1; }, 0);
            tryv([](DbCfg &d, i64 v) { d.erasePat = (int)v; }, 0);
            tryv([](DbCfg &d, i64 v) { d.extraBuf = (int)v; }, 0);
            tryv([](DbCfg &d, i64 v) { d.libCmp = (int)v; }, 0);
            tryv([](DbCfg &d, i64 v) { d.data64 = (int)v; }, 0);
            tryv([](DbCfg &d, i64 v) { d.keyBase = (u64)v; }, 0);
            tryv([](DbCfg &d, i64 v) { d.gapKind = 0; d.gapParam = (u64)v; }, 1);
            tryv([](DbCfg &d, i64 v) { d.maxErr = (int)v; }, 1);
            tryv([](DbCfg &d, i64 v) { d.spline = (int)v; }, 30);
            tryv([](DbCfg &d, i64 v) { d.params &= ~(int)v; }, SIM_P_NOCLEAN);
            tryv([](DbCfg &d, i64 v) { d.params &= ~(int)v; }, SIM_P_BSEARCH);
            tryv([](DbCfg &d, i64 v) { d.params |= (int)v; }, SIM_P_BSEARCH);
            tryv([](DbCfg &d, i64 v) { d.params &= ~(int)v; }, SIM_P_MAXMIN);
            tryv([](DbCfg &d, i64 v) { d.params &= ~(int)v; }, SIM_P_VDATA);
            tryv([](DbCfg &d, i64 v) { d.params &= ~(int)v; }, SIM_P_INDEX | SIM_P_BMAP);
            tryv([](DbCfg &d, i64 v) { d.variant = (int)v; }, 0);
            tryv([](DbCfg &d, i64 v) { d.driver = (int)v; }, 0);
        }
    }
    return s;
}

int main(int argc, char **argv) {
    if (argc < 2) {
        fprintf(stderr, "usage: sim run|gen|exec|replay|shrink ...\n");
        return 2;
    }
    sh = (Shared *)shmem(sizeof(Shared));
    const char *td = getenv("SIM_TMP");
    char ef[300];
    snprintf(ef, sizeof ef, "%s/err.%d", td ? td : "/tmp", (int)getpid());
    errFile = ef;
    std::string cmd = argv[1];
    int rc = 2;
    if (cmd == "run") rc = cmdRun(argc, argv);
    else if (cmd == "gen" && argc == 4) {  // sim gen PROP SEED
        Profile p;
        if (profileFor(argv[2], p)) fputs(scriptText(generate(strtoull(argv[3], 0, 10), p)).c_str(), stdout), rc = 0;
    } else if (cmd == "exec" && argc == 4) {  // sim exec PROP SEED
        Profile p;
        if (profileFor(argv[2], p)) printOutcome(isolated(generate(strtoull(argv[3], 0, 10), p))), rc = 0;
    } else if (cmd == "replay" && argc >= 3) {  // sim replay FILE [-v]
        Script s;
        if (parseScript(slurp(argv[2]), s)) {
            if (argc > 3) {
                RunResult r = runScript(s, true);
                printf("%s %s: %s\n", r.viol ? "VIOLATED" : "held", r.tag.c_str(), r.msg.c_str());
            } else
                printOutcome(isolated(s));
            rc = 0;
        }
    } else if (cmd == "shrink" && argc >= 5) {  // sim shrink FILE OUT SECS
        Script s;
        if (parseScript(slurp(argv[2]), s)) {
            Outcome o = isolated(s);
            if (!o.viol) {
                printf("RESULT {\"viol\":false}\n");
                rc = 0;
            } else {
                s = shrink(s, o.tag, atof(argv[4]));
                FILE *f = fopen(argv[3], "w");
                if (f) {
                    fputs(scriptText(s).c_str(), f);
                    fclose(f);
                    printOutcome(isolated(s));
                    rc = 0;
                }
            }
        }
    }
    unlink(errFile.c_str());
    return rc;
}
