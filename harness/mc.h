// Bounded-exhaustive exploration runtime shared by every check.
//
// A harness defines mc_property(), mc_explore(mc::Ctx&) and enumerates *cases* (roots of the explored
// space) in a fixed order. The runtime numbers the cases, distributes them over forked worker
// processes, and records which case/step is in flight, so a crash, a sanitizer report, an escaped
// exception or a call that never returns is attributed to the case and becomes a violation too.
// Every violation is re-run before it is reported.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>

namespace mc {
typedef long double ld;

struct Shared {
    volatile uint64_t idx;      // case in flight + 1
    volatile uint64_t beat;
    volatile uint64_t done;     // 1 when the worker finished
    volatile uint64_t cases, trans, traces, checks;
    const char* volatile site;
    volatile double a[4];
    char desc[1024];
};

struct Failure {
    std::string key, msg, desc;
    uint64_t idx = 0, count = 1;
    bool crash = false;
};

struct Ctx {
    bool thorough = false;
    uint64_t counter = 0;       // number of cases announced so far
    uint64_t only = UINT64_MAX, from = 0, upto = UINT64_MAX;
    int shard = 0, nshards = 1;
    Shared* sh = nullptr;
    std::unordered_set<uint64_t> states;
    std::map<std::string, Failure> fails;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> tags;
    uint64_t cur = 0;
    std::string cur_desc;
    bool cur_failed = false;

    bool mine(uint64_t i) const {
        if (only != UINT64_MAX) return i == only;
        return i >= from && i < upto && (int)((i * 0x9E3779B97F4A7C15ull >> 33) % (uint64_t)nshards) == shard;
    }
    // Announce the next case. True when this worker has to run it.
    bool next(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        uint64_t i = counter++;
        if (!mine(i)) return false;
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(sh->desc, sizeof sh->desc, fmt, ap);
        va_end(ap);
        cur = i;
        cur_desc = sh->desc;
        cur_failed = false;
        sh->idx = i + 1;
        sh->beat = sh->beat + 1;
        sh->cases = sh->cases + 1;
        sh->site = nullptr;
        if (samples.size() < 3 || (samples.size() < 8 && (i % 997) == 0)) samples.push_back(cur_desc);
        return true;
    }
    void at(const char* site, double a0 = 0, double a1 = 0, double a2 = 0, double a3 = 0) {
        sh->site = site;
        sh->a[0] = a0; sh->a[1] = a1; sh->a[2] = a2; sh->a[3] = a3;
        sh->beat = sh->beat + 1;
    }
    void state(uint64_t h) { states.insert(h); }
    void trans(uint64_t n = 1) { sh->trans = sh->trans + n; }
    void trace(uint64_t n = 1) { sh->traces = sh->traces + n; }
    void tag(const char* t, uint64_t n = 1) { tags[t] += n; }
    void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
        auto it = fails.find(key);
        cur_failed = true;
        if (it != fails.end()) { it->second.count++; return; }
        if (fails.size() >= 400) return;
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        Failure f;
        f.key = key; f.msg = buf; f.desc = cur_desc; f.idx = cur;
        fails[key] = f;
    }
    // Run one case body; an exception the body does not expect is a violation.
    template <class F> void guard(F&& f) {
        try { f(); trace(); }
        catch (const std::exception& e) { fail("exception|" + (sh->site ? std::string(sh->site) : std::string("case")) + "|" + e.what(), "unexpected exception: %s (at %s %.17g %.17g %.17g)", e.what(), sh->site ? sh->site : "?", (double)sh->a[0], (double)sh->a[1], (double)sh->a[2]); }
        catch (...) { fail("exception|unknown", "unexpected non-standard exception"); }
    }
};

// ---- hashing ----
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
inline uint64_t hd(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return u; }
inline uint64_t hs(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

inline std::string fmt(const char* f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
inline std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }   // false on NaN
} // namespace mc

void mc_explore(mc::Ctx& c);

namespace mc {
inline std::string g_outdir;
inline bool g_thorough = false;

inline void write_failures(FILE* f, const std::map<std::string, Failure>& m) {
    for (auto& kv : m) {
        const Failure& x = kv.second;
        fprintf(f, "F %llu %llu %d\n%s\n%s\n%s\n", (unsigned long long)x.idx, (unsigned long long)x.count, x.crash ? 1 : 0,
                jesc(x.key).c_str(), jesc(x.msg).c_str(), jesc(x.desc).c_str());
    }
}

inline void child_main(Shared* sh, int shard, int nshards, uint64_t only, uint64_t from, uint64_t upto, const std::string& file) {
    Ctx c;
    c.thorough = g_thorough; c.sh = sh; c.shard = shard; c.nshards = nshards; c.only = only; c.from = from; c.upto = upto;
    mc_explore(c);
    FILE* f = fopen(file.c_str(), "w");
    write_failures(f, c.fails);
    for (auto& s : c.samples) fprintf(f, "S\n%s\n", jesc(s).c_str());
    for (auto& t : c.tags) fprintf(f, "T %llu\n%s\n", (unsigned long long)t.second, jesc(t.first).c_str());
    fprintf(f, "C %llu\n", (unsigned long long)c.counter);
    fclose(f);
    FILE* b = fopen((file + ".states").c_str(), "ab");
    std::vector<uint64_t> v(c.states.begin(), c.states.end());
    fwrite(v.data(), 8, v.size(), b);
    fclose(b);
    sh->done = 1;
    fflush(stdout);
    _exit(0);
}

inline double proc_cpu(pid_t p, long* rss_mb) {
    char fn[64]; snprintf(fn, sizeof fn, "/proc/%d/stat", (int)p);
    FILE* f = fopen(fn, "r"); if (!f) return -1;
    char buf[1024]; size_t n = fread(buf, 1, sizeof buf - 1, f); fclose(f); buf[n] = 0;
    char* q = strrchr(buf, ')'); if (!q) return -1;
    unsigned long ut = 0, st = 0; long rss = 0;
    // fields after ')': state ppid pgrp session tty tpgid flags minflt cminflt majflt cmajflt utime stime cutime cstime prio nice nthr itreal starttime vsize rss
    sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld", &ut, &st, &rss);
    if (rss_mb) *rss_mb = rss / 256;
    return (double)(ut + st) / sysconf(_SC_CLK_TCK);
}

struct Worker { pid_t pid = 0; Shared* sh = nullptr; int shard = 0; uint64_t from = 0; int restarts = 0; std::string file; uint64_t lastbeat = 0; double cpu_at_beat = 0; bool active = false; int seq = 0; std::string errfile; };

inline std::string tail_of(const std::string& fn) {
    std::ifstream f(fn); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    // pick the most telling line
    std::istringstream is(s); std::string line, best;
    while (std::getline(is, line)) {
        if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos ||
            line.find("ssertion") != std::string::npos || line.find("terminating") != std::string::npos) { best = line; break; }
    }
    if (best.size() > 400) best.resize(400);
    return best;
}
// strip addresses and pids so the same crash has the same key
inline std::string crash_kind(const std::string& line, int sig, const char* why) {
    if (*why) return why;
    size_t p = line.find("AddressSanitizer: ");
    if (p != std::string::npos) { std::string s = line.substr(p + 18); size_t q = s.find(' '); return "asan-" + s.substr(0, q); }
    if (line.find("ssertion") != std::string::npos) return "assertion";
    if (line.find("runtime error") != std::string::npos) return "ubsan";
    if (line.find("terminating") != std::string::npos) return "terminate";
    return fmt("signal-%d", sig);
}

inline Shared* new_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return new (p) Shared();
}

static const long kMaxRssMb = 3500;

// Start a child. Returns pid.
inline pid_t spawn(Shared* sh, int shard, int nshards, uint64_t only, uint64_t from, uint64_t upto, const std::string& file, const std::string& errfile) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(errfile.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        child_main(sh, shard, nshards, only, from, upto, file);
        _exit(0);
    }
    return p;
}

// Re-run [from..upto] or a single case in a fresh process; true when it fails with the given key (or any, for crashes).
inline bool confirm(const Failure& f, bool single, int shard, int nshards, const std::string& dir, double cpu_limit) {
    Shared* sh = new_shared();
    std::string file = dir + fmt("/confirm.%d", (int)getpid());
    unlink(file.c_str());
    pid_t p = spawn(sh, shard, nshards, single ? f.idx : UINT64_MAX, 0, f.idx + 1, file, file + ".err");
    bool bad = false;
    uint64_t beat = 0; double c0 = 0;
    for (;;) {
        int st; pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) { bad = !(WIFEXITED(st) && sh->done); break; }
        long rss = 0; double cpu = proc_cpu(p, &rss);
        if (sh->beat != beat) { beat = sh->beat; c0 = cpu; }
        if (cpu - c0 > cpu_limit || rss > kMaxRssMb) { kill(p, SIGKILL); waitpid(p, &st, 0); bad = true; break; }
        usleep(20000);
    }
    if (!bad) {
        std::ifstream in(file); std::string line;
        while (std::getline(in, line)) if (line == jesc(f.key)) bad = true;
        if (f.crash) bad = bad && false;
    }
    munmap(sh, sizeof(Shared));
    return bad;
}

inline int run_main(int argc, char** argv) {
    std::string out, dir = "/tmp";
    int jobs = 8; uint64_t only = UINT64_MAX, upto = UINT64_MAX; int pshard = -1, pn = 1; double hang = 60;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") g_thorough = true;
        else if (a == "--out") out = argv[++i];
        else if (a == "--dir") dir = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--only") only = strtoull(argv[++i], 0, 10);
        else if (a == "--upto") upto = strtoull(argv[++i], 0, 10);
        else if (a == "--shard") { pshard = atoi(argv[++i]); pn = atoi(argv[++i]); }
        else if (a == "--hang") hang = atof(argv[++i]);
    }
    if (only != UINT64_MAX || pshard >= 0) {       // replay mode: in-process, verbose
        Shared* sh = new_shared();
        Ctx c; c.thorough = g_thorough; c.sh = sh; c.only = only;
        if (pshard >= 0) { c.shard = pshard; c.nshards = pn; c.upto = upto; }
        mc_explore(c);
        for (auto& kv : c.fails) printf("FAIL [%s] case %llu {%s}: %s (x%llu)\n", kv.second.key.c_str(), (unsigned long long)kv.second.idx, kv.second.desc.c_str(), kv.second.msg.c_str(), (unsigned long long)kv.second.count);
        if (c.fails.empty()) printf("no violation in case(s) replayed: %s\n", sh->desc);
        return c.fails.empty() ? 0 : 1;
    }
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    std::vector<Worker> w(jobs);
    std::vector<std::string> files;
    std::map<std::string, Failure> fails;
    std::vector<std::pair<std::string, int>> failshard;
    std::map<std::string, int> fshard;
    uint64_t cases = 0, trans = 0, traces = 0;
    std::vector<std::string> incomplete;
    auto start = [&](Worker& x) {
        x.sh->done = 0; x.sh->beat = 0; x.sh->idx = 0; x.sh->site = nullptr;
        x.file = dir + fmt("/shard.%d.%d", x.shard, x.seq++);
        x.errfile = x.file + ".err";
        files.push_back(x.file);
        x.lastbeat = 0; x.cpu_at_beat = 0;
        x.pid = spawn(x.sh, x.shard, jobs, UINT64_MAX, x.from, UINT64_MAX, x.file, x.errfile);
        x.active = true;
    };
    for (int i = 0; i < jobs; i++) { w[i].shard = i; w[i].sh = new_shared(); start(w[i]); }
    int active = jobs;
    while (active) {
        usleep(30000);
        for (auto& x : w) {
            if (!x.active) continue;
            int st = 0; const char* why = "";
            pid_t r = waitpid(x.pid, &st, WNOHANG);
            if (r == 0) {
                long rss = 0; double cpu = proc_cpu(x.pid, &rss);
                if (x.sh->beat != x.lastbeat) { x.lastbeat = x.sh->beat; x.cpu_at_beat = cpu; }
                if (x.sh->idx && cpu - x.cpu_at_beat > hang) why = "no-termination";
                else if (rss > kMaxRssMb) why = "memory-exhaustion";
                if (!*why) continue;
                kill(x.pid, SIGKILL); waitpid(x.pid, &st, 0);
            }
            if (!*why && WIFEXITED(st) && WEXITSTATUS(st) == 0 && x.sh->done) { x.active = false; active--; continue; }
            // the worker died: attribute to the case in flight
            if (x.sh->idx == 0) { fprintf(stderr, "worker %d died before its first case (status %d): %s\n", x.shard, st, tail_of(x.errfile).c_str()); return 3; }
            std::string line = tail_of(x.errfile);
            Failure f; f.crash = true; f.idx = x.sh->idx - 1; f.desc = x.sh->desc;
            std::string kind = crash_kind(line, WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), why);
            const char* site = x.sh->site;
            f.key = "crash|" + kind + "|" + (site ? site : "case");
            f.msg = kind + " at " + (site ? site : "?") + fmt(" (%.17g, %.17g, %.17g, %.17g) ", (double)x.sh->a[0], (double)x.sh->a[1], (double)x.sh->a[2], (double)x.sh->a[3]) + line;
            if (!fails.count(f.key)) { fails[f.key] = f; fshard[f.key] = x.shard; } else fails[f.key].count++;
            x.from = f.idx + 1;
            if (++x.restarts > 40) { incomplete.push_back(fmt("shard %d stopped after 40 crashes at case %llu", x.shard, (unsigned long long)f.idx)); x.active = false; active--; continue; }
            start(x);
        }
    }
    for (auto& x : w) { cases += x.sh->cases; trans += x.sh->trans; traces += x.sh->traces; }
    std::vector<std::string> samples; std::vector<uint64_t> st; uint64_t total = 0; std::map<std::string, uint64_t> tags;
    for (size_t i = 0; i < files.size(); i++) {
        std::ifstream in(files[i]); std::string line;
        int shard = 0; sscanf(files[i].c_str() + dir.size(), "/shard.%d", &shard);
        while (std::getline(in, line)) {
            if (line[0] == 'F') {
                Failure f; unsigned long long a, b; int cr; sscanf(line.c_str(), "F %llu %llu %d", &a, &b, &cr);
                f.idx = a; f.count = b; f.crash = cr;
                std::string k, m, d; std::getline(in, k); std::getline(in, m); std::getline(in, d);
                f.key = k; f.msg = m; f.desc = d;
                auto it = fails.find("\x01" + k);
                if (it == fails.end()) { fails["\x01" + k] = f; fshard["\x01" + k] = shard; }
                else { it->second.count += b; if (f.idx < it->second.idx) { uint64_t n = it->second.count; it->second = f; it->second.count = n; fshard["\x01" + k] = shard; } }
            } else if (line[0] == 'S') { std::string s; std::getline(in, s); if (samples.size() < 12) samples.push_back(s); }
            else if (line[0] == 'T') { unsigned long long a; sscanf(line.c_str(), "T %llu", &a); std::string s; std::getline(in, s); tags[s] += a; }
            else if (line[0] == 'C') { unsigned long long a; sscanf(line.c_str(), "C %llu", &a); total = a; }
        }
        std::ifstream b(files[i] + ".states", std::ios::binary); uint64_t v;
        std::vector<char> raw((std::istreambuf_iterator<char>(b)), std::istreambuf_iterator<char>());
        size_t n0 = st.size(); st.resize(n0 + raw.size() / 8); memcpy(st.data() + n0, raw.data(), raw.size() / 8 * 8); (void)v;
    }
    std::sort(st.begin(), st.end());
    uint64_t states = std::unique(st.begin(), st.end()) - st.begin();
    struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    FILE* f = fopen(out.c_str(), "w");
    fprintf(f, "{\"cases\": %llu, \"cases_total\": %llu, \"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"wall\": %.3f,\n \"incomplete\": [",
            (unsigned long long)cases, (unsigned long long)total, (unsigned long long)states, (unsigned long long)trans, (unsigned long long)traces,
            (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9);
    for (size_t i = 0; i < incomplete.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jesc(incomplete[i]).c_str());
    fprintf(f, "],\n \"samples\": [");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", samples[i].c_str());
    fprintf(f, "],\n \"tags\": {");
    bool first = true;
    for (auto& t : tags) { fprintf(f, "%s%s: %llu", first ? "" : ", ", t.first.c_str(), (unsigned long long)t.second); first = false; }
    fprintf(f, "},\n \"failures\": [");
    first = true;
    int confirmed_n = 0;
    for (auto& kv : fails) {
        Failure x = kv.second; int shard = fshard[kv.first];
        bool parsed = kv.first[0] == '\x01';
        std::string mode = "single";
        if (confirmed_n < 40) {
            confirmed_n++;
            // un-escape the key only for comparison: confirm() compares escaped forms
            Failure y = x; bool ok;
            if (parsed) { // key already escaped: compare raw lines
                Shared* sh = new_shared(); (void)sh; munmap(sh, sizeof(Shared));
                std::string file = dir + "/confirm"; unlink(file.c_str());
                auto tryit = [&](bool single) {
                    Shared* s2 = new_shared();
                    unlink(file.c_str());
                    pid_t p = spawn(s2, shard, jobs, single ? x.idx : UINT64_MAX, 0, x.idx + 1, file, file + ".err");
                    int stt; waitpid(p, &stt, 0);
                    bool bad = !(WIFEXITED(stt) && s2->done);
                    std::ifstream in(file); std::string line;
                    while (std::getline(in, line)) if (line == x.key) bad = true;
                    munmap(s2, sizeof(Shared));
                    return bad;
                };
                ok = tryit(true);
                if (!ok) { mode = "prefix"; ok = tryit(false); }
            } else {
                ok = confirm(y, true, shard, jobs, dir, hang * 1.5);
                if (!ok) { mode = "prefix"; ok = confirm(y, false, shard, jobs, dir, hang * 1.5); }
            }
            if (!ok) mode = "unconfirmed";
        } else mode = "not-rerun";
        auto q = [&](const std::string& s) { return parsed ? s : jesc(s); };
        fprintf(f, "%s\n  {\"key\": %s, \"msg\": %s, \"case\": %llu, \"desc\": %s, \"count\": %llu, \"mode\": \"%s\", \"shard\": %d, \"jobs\": %d}", first ? "" : ",",
                q(x.key).c_str(), q(x.msg).c_str(), (unsigned long long)x.idx, q(x.desc).c_str(), (unsigned long long)x.count, mode.c_str(), shard, jobs);
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}
} // namespace mc

int main(int argc, char** argv) { return mc::run_main(argc, argv); }
