#include "pbt.hpp"
#include <algorithm>
#include <set>
#include <unordered_set>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <cmath>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

static const int CASE_CPU_LIMIT_S = 60;   // CPU time (not wall time) one case may use
static const int CASE_WALL_LIMIT_S = 300; // and wall time, for cases that block
static int wall_limit = CASE_WALL_LIMIT_S;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static uint64_t case_seed(uint64_t seed, const char* id, int phase, uint64_t idx) {
    uint64_t h = hash_bytes(id, strlen(id), mix64(seed));
    return mix64(h ^ mix64(phase * 1000003ull + 17)) ^ mix64(idx + 0x51ed27ull);
}

static void arm_cpu_limit() {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = CASE_CPU_LIMIT_S;
    setitimer(ITIMER_PROF, &it, nullptr);
    it.it_value.tv_sec = wall_limit;
    setitimer(ITIMER_REAL, &it, nullptr);
}

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

// text of a known finding, or empty
static std::string known_text(const char* prop, const char* key) {
    const char* path = getenv("VERIF_KNOWN"); FILE* f = path ? fopen(path, "r") : nullptr; if (!f) return "";
    char line[2000], want[300]; snprintf(want, sizeof want, "known: property=%s key=%s ", prop, key); std::string r;
    while (fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; if (!strncmp(line, want, strlen(want))) r = line + strlen(want); }
    fclose(f); return r;
}
void Case::known(const char* key, bool within, const char* fmt, ...) {
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!within || known_text(prop, key).empty()) throw Failure{b};
    if (st) st->cls[std::string("known finding ") + key]++;
    if (verbose) printf("known finding %s: %s\n", key, b);
}

// ---- coverage feedback (guided runs: the library is built with -fsanitize-coverage=trace-pc-guard,trace-cmp)
// A feature is an edge with its hit count (bucketed), or a comparison with the number of bits its operands differ in,
// or something the property itself reports (Case::feature).
namespace cov {
static const uint32_t NF = 1u << 19, NG = 1u << 15;
static uint8_t* guards = nullptr;                  // one counter per edge
static uint32_t nguards = 0;
static uint8_t touched[NF]; static uint32_t list[NF]; static uint32_t nlist = 0;
static bool on = false;
static uint64_t cost = 0, costs = 0, ncosts = 0;   // edges executed: by this case; by all fresh cases
static inline void hit(uint64_t h) { uint32_t i = (uint32_t)(h & (NF - 1)); if (!touched[i]) { touched[i] = 1; list[nlist++] = i; } }
static inline void cmp(uintptr_t pc, uint64_t a, uint64_t b) {
    if (!on) return;
    uint64_t x = a ^ b, d = a - b; int k = __builtin_popcountll(x), m = d ? 64 - __builtin_clzll(d > 0 - d ? 0 - d : d) : 0;   // Hamming and absolute distance
    hit((uint64_t)pc * 0x9e3779b97f4a7c15ull >> 20 ^ (uint64_t)(k * 67 + m) * 0x2545f491ull);
}
static std::vector<uint8_t> seen; static uint64_t nseen = 0;
static void begin() { for (uint32_t i = 0; i < nlist; i++) touched[list[i]] = 0; nlist = 0; cost = 0; if (guards) memset(guards, 0, nguards + 8); on = true; }
static bool end(bool random) {      // did the case show a feature no earlier case showed, without being much longer than usual?
    on = false; if (random) { costs += cost; ncosts++; }
    if (ncosts < 8 || cost > 3 * (costs / ncosts)) return false;
    bool fresh = false; if (seen.empty()) seen.assign(2 * NF, 0);
    for (uint32_t g = 0; g < nguards; g++) if (guards[g]) { uint8_t n = guards[g]; int b = n < 4 ? n - 1 : n < 8 ? 3 : n < 16 ? 4 : n < 32 ? 5 : n < 128 ? 6 : 7; uint32_t i = NF + ((g * 8 + (uint32_t)b) & (NF - 1)); if (!seen[i]) { seen[i] = 1; nseen++; fresh = true; } }
    for (uint32_t i = 0; i < nlist; i++) if (!seen[list[i]]) { seen[list[i]] = 1; nseen++; fresh = true; }
    return fresh;
}
static void forget() { seen.clear(); nseen = 0; costs = ncosts = 0; }
}  // namespace cov
void Case::feature(uint64_t h) { if (cov::on) cov::hit(mix64(h ^ 0xfea7)); }
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if (a == b || *a) return; for (uint32_t* p = a; p < b; p++) *p = 1 + cov::nguards++; cov::guards = (uint8_t*)realloc(cov::guards, cov::nguards + 64); memset(cov::guards, 0, cov::nguards + 64); }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { if (!cov::on) return; cov::cost++; if (cov::guards[*g] != 255) cov::guards[*g]++; }
#define CMP(n, T) void n(T a, T b) { cov::cmp((uintptr_t)__builtin_return_address(0), (uint64_t)a, (uint64_t)b); }
CMP(__sanitizer_cov_trace_cmp1, uint8_t) CMP(__sanitizer_cov_trace_cmp2, uint16_t) CMP(__sanitizer_cov_trace_cmp4, uint32_t) CMP(__sanitizer_cov_trace_cmp8, uint64_t)
CMP(__sanitizer_cov_trace_const_cmp1, uint8_t) CMP(__sanitizer_cov_trace_const_cmp2, uint16_t) CMP(__sanitizer_cov_trace_const_cmp4, uint32_t) CMP(__sanitizer_cov_trace_const_cmp8, uint64_t)
#undef CMP
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* c) { uintptr_t pc = (uintptr_t)__builtin_return_address(0); for (uint64_t i = 0; i < c[0]; i++) cov::cmp(pc + i + 1, v, c[2 + i]); }
}
// corpus of tapes that showed something new; new cases are mutations of them or fresh ones
struct Guide {
    std::vector<std::vector<uint8_t>> corpus; uint64_t fresh = 0;
    std::vector<uint8_t> next(uint64_t r) {
        auto rnd = [&](uint64_t n) { r = mix64(r); return n ? r % n : 0; };
        std::vector<uint8_t> t;
        if (corpus.empty() || rnd(8) == 0) return t;                       // a fresh random case
        size_t n = corpus.size(); t = corpus[rnd(2) && n > 32 ? n - 1 - rnd(32) : rnd(n)];
        int ops = 1 + (int)rnd(4);
        while (ops-- > 0) {
            size_t L = t.size(), at = rnd(L), len = std::min<size_t>(1 + rnd(rnd(2) ? 4 : 24), L - at);
            if (L == 0) break;
            switch (rnd(9)) {
                case 0: t[at] = (uint8_t)rnd(256); break;
                case 1: t[at] = (uint8_t)(t[at] + 1 + rnd(8)); break;
                case 2: t[at] = (uint8_t)(t[at] - 1 - rnd(8)); break;
                case 3: t[at] ^= (uint8_t)(1u << rnd(8)); break;
                case 4: if (rnd(3) == 0) t.resize(at); break;              // another continuation
                case 5: t.erase(t.begin() + (long)at, t.begin() + (long)(at + len)); break;
                case 6: { std::vector<uint8_t> x(len); for (auto& v : x) v = (uint8_t)rnd(256); t.insert(t.begin() + (long)at, x.begin(), x.end()); break; }
                case 7: { const std::vector<uint8_t>& o = corpus[rnd(n)]; if (o.empty()) break; size_t from = rnd(2) && at < o.size() ? at : rnd(o.size()); for (size_t k = 0; k < len * 4 && from + k < o.size() && at + k < L; k++) t[at + k] = o[from + k]; break; }
                default: for (size_t k = 0; k < len; k++) t[at + k] = (uint8_t)rnd(256);
            }
        }
        return t;
    }
    void keep(const volatile uint8_t* b, size_t n) { n = std::min<size_t>(n, 16384); corpus.emplace_back(b, b + n); if (corpus.size() > 20000) corpus.erase(corpus.begin(), corpus.begin() + 1000); }
};

struct WorkerShared {
    SharedTape tape;
    volatile uint64_t phase, index;
    volatile int running;
    volatile int failed;
    char msg[4096];
};

static std::string crash_text(int st) {
    char b[200];
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGALRM) snprintf(b, sizeof b, "case made no progress for %d s (blocked)", CASE_WALL_LIMIT_S);
        else if (s == SIGPROF) snprintf(b, sizeof b, "case used more than %d s of CPU time (does not terminate)", CASE_CPU_LIMIT_S);
        else snprintf(b, sizeof b, "process killed by signal %d (%s)", s, strsignal(s));
    } else snprintf(b, sizeof b, "process exited with status %d (sanitizer report or abort)", WEXITSTATUS(st));
    return b;
}

struct Outcome { int kind; std::string msg; };  // 0 pass, 1 fail, 2 external kill

// Run one tape in a forked child.
static Outcome run_tape(Property& p, int phase, const std::vector<uint8_t>& tape, bool thorough, bool verbose = false, const char* errfile = nullptr) {
    char* sh = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (!verbose) {
            int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) dup2(fd, 2);
        }
        arm_cpu_limit();
        Tape t(tape.data(), tape.size());
        Case c(t, nullptr);
        c.thorough = thorough; c.verbose = verbose; c.prop = p.id;
        try { p.phases[phase].fn(c); }
        catch (Failure& f) { snprintf(sh, 8000, "%s", f.msg.c_str()); _exit(3); }
        if (verbose && !c.sample_.empty()) printf("case: %s\n", c.sample_.c_str());
        fflush(stdout);
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o = {0, ""};
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) o = {1, sh};
    else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) o = {2, "killed from outside"};
    else o = {1, crash_text(st)};
    munmap(sh, 8192);
    return o;
}

// Re-run the worker's own case sequence of one phase up to the failing case (for failures that need
// state left behind by earlier cases of the same process).
static Outcome run_range(Property& p, int phase, uint64_t first, uint64_t stride, uint64_t last, uint64_t seed, bool thorough, bool guided) {
    char* sh = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2);
        Guide G; SharedTape* T = guided ? (SharedTape*)malloc(sizeof(SharedTape)) : nullptr;
        for (uint64_t i = first; i <= last; i += stride) {
            arm_cpu_limit();
            uint8_t pre[8]; for (int k = 0; k < 8; k++) pre[k] = (uint8_t)(i >> (8 * k));
            std::vector<uint8_t> m; if (guided) { m = G.next(case_seed(seed, p.id, phase, i)); cov::begin(); }
            Tape t(case_seed(seed, p.id, phase, i), T, guided ? m.data() : pre, guided ? m.size() : p.phases[phase].enumerated ? 8 : 0);
            Case c(t, nullptr); c.index = i; c.thorough = thorough; c.prop = p.id;
            try { p.phases[phase].fn(c); }
            catch (Failure& f) { snprintf(sh, 8000, "%s", f.msg.c_str()); _exit(3); }
            if (guided && cov::end(m.empty())) G.keep(T->bytes, T->len);
        }
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o = {0, ""};
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) o = {1, sh};
    else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) o = {2, "killed from outside"};
    else o = {1, crash_text(st)};
    munmap(sh, 8192);
    return o;
}

static std::vector<uint8_t> shrink(Property& p, int phase, std::vector<uint8_t> t, bool thorough, double budget, int& tries) {
    double end = now() + budget;
    auto bad = [&](const std::vector<uint8_t>& c) {
        tries++;
        return run_tape(p, phase, c, thorough).kind == 1;
    };
    // truncate trailing part first (reads beyond the end give zero)
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t keep = 0; keep < t.size() && now() < end; keep = keep ? keep * 2 : 1) {
            std::vector<uint8_t> c(t.begin(), t.begin() + keep);
            if (bad(c)) { t = c; progress = true; break; }
        }
        while (!t.empty() && t.back() == 0) t.pop_back();
        for (size_t len = std::max<size_t>(t.size() / 2, 1); len >= 1 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= t.size() && now() < end;) {
                std::vector<uint8_t> c(t); c.erase(c.begin() + i, c.begin() + i + len);
                if (bad(c)) { t = c; progress = true; } else i += len;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(t.size() / 2, 1); len >= 1 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= t.size() && now() < end; i += len) {
                std::vector<uint8_t> c(t); bool any = false;
                for (size_t k = i; k < i + len; k++) if (c[k]) { c[k] = 0; any = true; }
                if (any && bad(c)) { t = c; progress = true; }
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < t.size() && now() < end; i++) {
            int lo = 0, hi = t[i];
            while (lo < hi && now() < end) {
                int m = (lo + hi) / 2; std::vector<uint8_t> c(t); c[i] = (uint8_t)m;
                if (bad(c)) { hi = m; t = c; progress = true; } else lo = m + 1;
            }
        }
        while (!t.empty() && t.back() == 0 && bad(std::vector<uint8_t>(t.begin(), t.end() - 1))) t.pop_back();
    }
    return t;
}

static int replay_file(std::vector<Property*>&, Property& p, const char* path) {
    FILE* f = fopen(path, "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", path); return 2; }
    char line[1 << 16]; int phase = 0; bool thorough = false; bool range = false, guided = false;
    uint64_t first = 0, stride = 1, last = 0, seed = 1; std::vector<uint8_t> tape;
    std::string kind;
    static char hex[1 << 20];
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "phase %d", &phase) == 1) continue;
        if (!strncmp(line, "tier thorough", 13)) thorough = true;
        unsigned long long a, b, c, d;
        if (sscanf(line, "range %llu %llu %llu seed %llu", &a, &b, &c, &d) == 4) { range = true; first = a; stride = b; last = c; seed = d; }
        if (!strncmp(line, "guided", 6)) guided = true;
        if (!strncmp(line, "tape ", 5)) {
            strncpy(hex, line + 5, sizeof hex - 1);
            while (!strchr(hex, '\n') && fgets(line, sizeof line, f)) strncat(hex, line, sizeof hex - strlen(hex) - 1);
            for (char* q = hex; q[0] && q[1]; q += 2) { unsigned v; if (sscanf(q, "%2x", &v) != 1) break; tape.push_back((uint8_t)v); }
        }
    }
    fclose(f);
    if (phase < 0 || phase >= (int)p.phases.size()) return 2;
    Outcome o = range ? run_range(p, phase, first, stride, last, seed, thorough, guided) : run_tape(p, phase, tape, thorough, true);
    if (o.kind == 1) { printf("replay fails: %s\n", o.msg.c_str()); return 1; }
    printf("replay passes\n");
    return 0;
}

int run_main(Property& p, int argc, char** argv) {
    std::string tier = "quick", evidence, replay_dir = ".", replay, work = "/tmp", level = "exploration";
    uint64_t seed = 1; int jobs = 8, only = -1; double scale = 1.0; long one = -1; bool guided = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier") tier = next();
        else if (a == "--seed") seed = strtoull(next(), nullptr, 10);
        else if (a == "--evidence") evidence = next();
        else if (a == "--replay-dir") replay_dir = next();
        else if (a == "--replay") replay = next();
        else if (a == "--work") work = next();
        else if (a == "--jobs") jobs = atoi(next());
        else if (a == "--phase") only = atoi(next());
        else if (a == "--scale") scale = atof(next());
        else if (a == "--guided") guided = true;
        else if (a == "--one") one = atol(next());
    }
    bool thorough = tier == "thorough"; const bool mutation = getenv("VERIF_NOSHRINK") != nullptr;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::vector<Property*> none;
    if (!replay.empty()) return replay_file(none, p, replay.c_str());
    double t0 = now();
    // worst-case distinct set size per worker, as shared arrays
    const size_t MAXK = 1 << 21;
    struct Keys { volatile uint64_t n; uint64_t k[1]; };
    std::vector<WorkerShared*> ws(jobs); std::vector<Keys*> ks(jobs); std::vector<pid_t> pids(jobs, 0);
    for (int w = 0; w < jobs; w++) {
        ws[w] = (WorkerShared*)mmap(nullptr, sizeof(WorkerShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        ks[w] = (Keys*)mmap(nullptr, sizeof(Keys) + MAXK * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    volatile int* stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto ncases = [&](const Phase& ph) -> uint64_t {
        uint64_t n = thorough ? ph.n_thorough : ph.n_quick;
        if (guided) return ph.enumerated ? 0 : std::max<uint64_t>(1, (uint64_t)((double)(n / (thorough ? 8 : 4)) * scale));
        return ph.enumerated ? n : std::max<uint64_t>(1, (uint64_t)(n * scale));
    };
    auto worker = [&](int w) {
        WorkerShared* S = ws[w]; Stats st; std::unordered_set<uint64_t> keys;
        char ep[600]; snprintf(ep, sizeof ep, "%s/%s-w%d.err", work.c_str(), p.id, w);
        int fd = open(ep, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
        int rc = 0;
        for (int ph = 0; ph < (int)p.phases.size() && !rc; ph++) {
            if (only >= 0 && ph != only) continue;
            uint64_t n = ncases(p.phases[ph]);
            std::vector<std::string> ps;
            Guide G; cov::forget();
            uint64_t step = mutation && p.phases[ph].enumerated ? 1 + n / 2048 : 1;
            for (uint64_t i = w; i < n && !*stop; i += jobs * step) {
                if (one >= 0 && (long)i != one) continue;
                S->phase = ph; S->index = i; S->running = 1;
                arm_cpu_limit();
                uint8_t pre[8]; for (int k = 0; k < 8; k++) pre[k] = (uint8_t)(i >> (8 * k));
                std::vector<uint8_t> m; if (guided) { m = G.next(case_seed(seed, p.id, ph, i)); if (m.empty()) G.fresh++; cov::begin(); }
                Tape t(case_seed(seed, p.id, ph, i), &S->tape, guided ? m.data() : pre, guided ? m.size() : p.phases[ph].enumerated ? 8 : 0);
                Case c(t, &st); c.index = i; c.thorough = thorough; c.prop = p.id;
                std::swap(st.samples, ps);
                st.cases++;
                try {
                    p.phases[ph].fn(c);
                } catch (Failure& f) {
                    snprintf((char*)S->msg, sizeof S->msg, "%s", f.msg.c_str());
                    S->failed = 1; *stop = 1; rc = 3;
                    std::swap(st.samples, ps);
                    break;
                }
                if (guided && cov::end(m.empty())) G.keep(S->tape.bytes, S->tape.len);
                if (c.nt) {
                    st.nontrivial++;
                    uint64_t k = c.key ? c.key : hash_bytes(S->tape.bytes, S->tape.len, ph + 1);
                    if (keys.size() < MAXK) keys.insert(k);
                    if (!c.sample_.empty() && st.samples.size() < 3) st.samples.push_back(std::string("[") + p.phases[ph].name + "] " + c.sample_);
                }
                std::swap(st.samples, ps);
                S->running = 0;
            }
            if (guided) { st.cls["coverage features reached (sum over workers)"] += cov::nseen; st.cls["tapes kept for new coverage (sum over workers)"] += G.corpus.size(); st.cls["fresh random tapes"] += G.fresh; }
            for (auto& s : ps) st.samples.push_back(s);
        }
        struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr); setitimer(ITIMER_REAL, &it, nullptr);
        char fn[600]; snprintf(fn, sizeof fn, "%s/%s-w%d.stats", work.c_str(), p.id, w);
        FILE* f = fopen(fn, "w");
        if (f) {
            fprintf(f, "cases %llu\nevals %llu\nnontrivial %llu\n", (unsigned long long)st.cases, (unsigned long long)st.evals, (unsigned long long)st.nontrivial);
            for (auto& kv : st.cls) fprintf(f, "cls %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
            for (auto& s : st.samples) { std::string o = s; for (auto& ch : o) if (ch == '\n') ch = ' '; fprintf(f, "sample %s\n", o.c_str()); }
            fclose(f);
        }
        uint64_t j = 0; for (uint64_t k : keys) ks[w]->k[j++] = k;
        ks[w]->n = j;
        fflush(stdout);
        _exit(rc);
    };
    for (int w = 0; w < jobs; w++) {
        char fn[600]; snprintf(fn, sizeof fn, "%s/%s-w%d.stats", work.c_str(), p.id, w); unlink(fn);
        fflush(stdout); fflush(stderr);
        pids[w] = fork();
        if (pids[w] == 0) worker(w);
    }
    struct Fail { int w; uint64_t phase, idx; std::string msg; std::vector<uint8_t> tape; };
    std::vector<Fail> fails; int external = 0;
    for (int k = 0; k < jobs; k++) {
        int st; pid_t pid = wait(&st);
        int w = (int)(std::find(pids.begin(), pids.end(), pid) - pids.begin());
        if (w >= jobs) continue;
        WorkerShared* S = ws[w];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) { external++; continue; }
        Fail f; f.w = w; f.phase = S->phase; f.idx = S->index;
        f.tape.assign(S->tape.bytes, S->tape.bytes + std::min<size_t>(S->tape.len, sizeof S->tape.bytes));
        f.msg = S->failed ? std::string((char*)S->msg) : crash_text(st);
        fails.push_back(f); *stop = 1;
    }
    Stats tot; std::unordered_set<uint64_t> all;
    std::map<std::string, std::vector<std::string>> sm;
    for (int w = 0; w < jobs; w++) {
        char fn[600]; snprintf(fn, sizeof fn, "%s/%s-w%d.stats", work.c_str(), p.id, w);
        FILE* f = fopen(fn, "r"); if (!f) continue;
        static char line[8192];
        while (fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0; unsigned long long v;
            if (sscanf(line, "cases %llu", &v) == 1) tot.cases += v;
            else if (sscanf(line, "evals %llu", &v) == 1) tot.evals += v;
            else if (sscanf(line, "nontrivial %llu", &v) == 1) tot.nontrivial += v;
            else if (!strncmp(line, "cls ", 4)) { char* e; v = strtoull(line + 4, &e, 10); tot.cls[e + 1] += v; }
            else if (!strncmp(line, "sample ", 7)) {
                std::string s = line + 7; std::string ph = s.substr(0, s.find(']') + 1);
                if (sm[ph].size() < 3) sm[ph].push_back(s);
            }
        }
        fclose(f); unlink(fn);
        for (uint64_t j = 0; j < ks[w]->n; j++) all.insert(ks[w]->k[j]);
    }
    for (auto& kv : sm) for (auto& s : kv.second) tot.samples.push_back(s);

    int rc = 0; std::string vmsg, vpath;
    if (!fails.empty()) {
        std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) { return std::make_pair(a.phase, a.idx) < std::make_pair(b.phase, b.idx); });
        Fail f = fails[0];
        bool enumd = p.phases[f.phase].enumerated;
        if (mutation) { printf("%s phase=%s case=%llu: %s\n", p.id, p.phases[f.phase].name, (unsigned long long)f.idx, f.msg.c_str()); return 1; }   // mutation analysis (tools/mutate.py)
        const bool hang = f.msg.find("does not terminate") != std::string::npos || f.msg.find("no progress") != std::string::npos;
        if (hang) wall_limit = 45;
        int rep = 0; for (int k = 0; k < (hang ? 1 : 3); k++) rep += run_tape(p, (int)f.phase, f.tape, thorough).kind == 1;
        bool range = false; int tries = 0; std::vector<uint8_t> small = f.tape;
        if (rep > 0) {
            if (!enumd && !hang) small = shrink(p, (int)f.phase, f.tape, thorough, thorough ? 60 : 20, tries);
            if (!hang) rep = 0;
            Outcome o;
            for (int k = 0; k < 3 && !hang; k++) { o = run_tape(p, (int)f.phase, small, thorough); if (o.kind == 1) { rep++; f.msg = o.msg; } }
        } else {
            range = true;
            for (int k = 0; k < (hang ? 1 : 3); k++) { Outcome o = run_range(p, (int)f.phase, f.w, jobs, f.idx, seed, thorough, guided); if (o.kind == 1) { rep++; f.msg = o.msg; } }
        }
        mkdir(replay_dir.c_str(), 0755);
        char path[1024];
        snprintf(path, sizeof path, "%s/%s-seed%llu-%016llx.replay", replay_dir.c_str(), p.id, (unsigned long long)seed,
                 (unsigned long long)hash_bytes(small.data(), small.size(), f.idx * 2 + range));
        FILE* o = fopen(path, "w");
        if (o) {
            std::string m = f.msg; for (auto& ch : m) if (ch == '\n') ch = ' ';
            fprintf(o, "kind %s\n", getenv("HARNESS_KIND") ? getenv("HARNESS_KIND") : "dl");
            fprintf(o, "property %s\nphase %d %s\ntier %s\nmessage %s\n", p.id, (int)f.phase, p.phases[f.phase].name, tier.c_str(), m.c_str());
            fprintf(o, "# reproduced %d of 3 replays; original case index %llu, %d shrink attempts\n", rep, (unsigned long long)f.idx, tries);
            if (guided) fprintf(o, "guided\n");
            if (range) fprintf(o, "range %d %d %llu seed %llu\n", f.w, jobs, (unsigned long long)f.idx, (unsigned long long)seed);
            fprintf(o, "tape ");
            for (uint8_t b : small) fprintf(o, "%02x", b);
            fprintf(o, "\n"); fclose(o);
        }
        vmsg = f.msg; vpath = path;
        printf("%s phase=%s case=%llu: %s\n", p.id, p.phases[f.phase].name, (unsigned long long)f.idx, f.msg.c_str());
        printf("reproduced %d/3%s\n", rep, range ? " (needs the preceding cases of the same process)" : "");
        printf("VIOLATION property=%s replay=%s\n", p.id, path);
        rc = 1;
    } else if (external) {
        printf("%d worker(s) killed from outside; the run is not complete\n", external);
        rc = 4;   // the driver retries
    }
    for (auto& kv : tot.cls) if (!kv.first.compare(0, 14, "known finding ")) printf("KNOWN-FINDING: property=%s %s\n", p.id, known_text(p.id, kv.first.c_str() + 14).c_str());
    double wall = now() - t0;
    if (!evidence.empty() && rc != 4) {
        FILE* f = fopen(evidence.c_str(), "w");
        if (f) {
            fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n \"coverage\": {\n", p.id, tier.c_str(), (unsigned long long)seed, level.c_str());
            fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": \"%s\",\n", (unsigned long long)std::max(tot.evals, tot.cases), (unsigned long long)all.size(), jesc(p.rule).c_str());
            fprintf(f, "  \"samples\": [");
            for (size_t i = 0; i < tot.samples.size(); i++) fprintf(f, "%s\n   \"%s\"", i ? "," : "", jesc(tot.samples[i]).c_str());
            fprintf(f, "\n  ],\n");
            if (tot.evals > tot.cases) fprintf(f, "  \"cases\": %llu,\n", (unsigned long long)tot.cases);
            fprintf(f, "  \"phases\": {");
            for (size_t i = 0; i < p.phases.size(); i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", jesc(p.phases[i].name).c_str(), (unsigned long long)ncases(p.phases[i]));
            fprintf(f, "},\n  \"classes\": {");
            bool first = true;
            for (auto& kv : tot.cls) { fprintf(f, "%s\n   \"%s\": %llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
            fprintf(f, "\n  }%s%s%s\n },\n", p.exhaustive ? ",\n  \"exhaustive\": \"" : "", p.exhaustive ? jesc(p.exhaustive).c_str() : "", p.exhaustive ? "\"" : "");
            fprintf(f, " \"assumptions\": [");
            for (size_t i = 0; i < p.assumptions.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(p.assumptions[i]).c_str());
            fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, rc == 1 ? 1 : 0);
            fclose(f);
        }
    }
    printf("%s %s seed=%llu: %llu cases, %llu evaluations, %llu distinct non-trivial, %.1f s -> %s\n", p.id, tier.c_str(), (unsigned long long)seed,
           (unsigned long long)tot.cases, (unsigned long long)std::max(tot.evals, tot.cases), (unsigned long long)all.size(), wall, rc == 1 ? "VIOLATION" : rc ? "incomplete" : "ok");
    for (int w = 0; w < jobs; w++) {
        char ep[600]; snprintf(ep, sizeof ep, "%s/%s-w%d.err", work.c_str(), p.id, w);
        if (rc == 1) {   // show the sanitizer report of the failing worker
            FILE* f = fopen(ep, "r");
            if (f) { char b[400]; int n = 0; while (n < 25 && fgets(b, sizeof b, f)) { if (w == fails[0].w) fprintf(stderr, "%s", b); n++; } fclose(f); }
        }
        unlink(ep);
    }
    return rc;
}

}  // namespace pbt
