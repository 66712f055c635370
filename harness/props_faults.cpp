// P33: allocation failures inside the library.
// The harness executable interposes the allocator; failures are injected only into allocations that the
// calling thread makes while a library call is running.
#include "stream.hpp"
#include <cerrno>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }

struct Inject { bool armed; uint64_t mask; bool all; int seen, failed; int live; void* held[256]; };
static thread_local Inject inj;
static bool deny() { if (!inj.armed) return false; int k = inj.seen++; bool f = inj.all || (k < 64 && (inj.mask >> k & 1)); if (f) { inj.failed++; errno = ENOMEM; } return f; }
static void* note(void* p) { if (inj.armed && p) for (auto& h : inj.held) if (!h) { h = p; inj.live++; break; } return p; }
static void gone(void* p) { if (inj.live && p) for (auto& h : inj.held) if (h == p) { h = nullptr; inj.live--; break; } }
extern "C" {
void* malloc(size_t n) { return deny() ? nullptr : note(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return deny() ? nullptr : note(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) { if (!inj.armed) { gone(p); return __libc_realloc(p, n); } if (deny()) return nullptr; gone(p); return note(__libc_realloc(p, n)); }
void* aligned_alloc(size_t a, size_t n) { return deny() ? nullptr : note(__libc_memalign(a, n)); }
void* memalign(size_t a, size_t n) { return deny() ? nullptr : note(__libc_memalign(a, n)); }
int posix_memalign(void** o, size_t a, size_t n) { if (deny()) return ENOMEM; void* p = note(__libc_memalign(a, n)); if (!p) return ENOMEM; *o = p; return 0; }
void free(void* p) { gone(p); __libc_free(p); }
}
// One library call (or short sequence of them) under injection: the mask selects which of its allocations fail.
struct Shortage {
    int failed0, live0;
    Shortage(uint64_t mask, bool all) { inj.mask = mask; inj.all = all; inj.seen = 0; failed0 = inj.failed; inj.armed = true; }
    int end() { inj.armed = false; return inj.failed - failed0; }
};
static void arm_lib(Lib& L) { (void)L; }

// a plan of failures: how many calls are short of memory and which of their allocations fail
struct FaultPlan { int calls; uint64_t mask; bool all; };
static FaultPlan fault_plan(Tape& t, int hi) {
    FaultPlan f; f.calls = t.range(0, hi); int k = (int)t.below(4); f.all = k == 0;
    f.mask = k == 1 ? 1ull << t.below(8) : k == 2 ? (1ull << t.below(8) | 1ull << t.below(8)) : t.below(256);
    return f;
}
template <class F> static std::string on_thread(F fn) { std::string m; std::thread th([&]() { memset(&inj, 0, sizeof inj); try { fn(); } catch (Failure& f) { m = f.msg.empty() ? "failure" : f.msg; } inj.armed = false; }); th.join(); return m; }

// Direct synthesis: with no memory for the noise component the frame is its voiced part.
static void synthesis(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); bool ambe = t.chance(1, 2); FaultPlan fp = fault_plan(t, t.chance(1, 4) ? 40 : 3); if (fp.calls == 0) fp.calls = 1;
    mbe_parms cur, prev; model::init_fields(cur, ambe); prev = cur; gen::model(t, cur, -2, 8); gen::model(t, prev, -2, 8);
    for (int l = 1; l <= 56; l++) { prev.PSIl[l] = (float)t.real(0, 500); prev.PHIl[l] = (float)t.real(0, 500); }
    if (t.chance(1, 2)) { cur.w0 = prev.w0; cur.L = prev.L; }
    cur.noiseSeed = (float)t.below(53125); uint32_t x = t.below(53125); for (int i = 0; i < 96; i++) { cur.noiseOverlap[i] = (float)x; x = (171 * x + 11213) % 53125; } cur.noiseSeed = (float)x; prev.noiseSeed = cur.noiseSeed; memcpy(prev.noiseOverlap, cur.noiseOverlap, sizeof cur.noiseOverlap);
    double up = t.chance(1, 2) ? 0 : 500; for (int i = 0; i < 256; i++) { prev.previousUw[i] = (float)(up * t.real(-1, 1)); cur.previousUw[i] = (float)t.real(-1, 1); }
    static rs::Synth o; double e0 = 0; for (int l = 1; l <= cur.L; l++) e0 += (double)cur.Ml[l] * cur.Ml[l];
    bool sh = t.chance(1, 3); int shortage = 0, good = 0;
    std::string m = on_thread([&]() {
        char b[400]; auto bad = [&](const char* f, auto... a) { snprintf(b, sizeof b, f, a...); throw Failure{b}; };
        // the reference live count: what one successful workspace keeps
        for (int k = 0; k <= fp.calls; k++) {
            mbe_parms q = cur, p = prev; float out[160]; short os[160]; for (float& f : out) f = 1e9f; for (short& s : os) s = 32767;
            bool last = k == fp.calls; L.mbe_spectralAmpEnhance(&p); p = prev;   // hand-off belongs to another model
            Shortage s(last ? 0 : fp.mask, last ? false : fp.all); if (sh) L.mbe_synthesizeSpeech(os, &q, &p, 3); else L.mbe_synthesizeSpeechf(out, &q, &p, 3);
            int failed = s.end(); if (sh) for (int i = 0; i < 160; i++) out[i] = os[i] / 7.0f;
            rs::synth(o, cur, prev, e0, 3147, q.Vl); if (o.ambiguous || o.muted) { shortage = -1; return; }
            double uw = 0, pw = 0; for (int i = 0; i < 256; i++) { uw = fmax(uw, fabs(o.Uw[i])); pw = fmax(pw, fabs(prev.previousUw[i])); }
            double tol = 6e-4 * o.ampsum + (sh ? 0.3 : 2e-3) + (failed ? 0 : 4e-4 * (uw + pw)); shortage += failed > 0; good += failed == 0;
            for (int i = 0; i < 160; i++) { double v = o.voiced[i] + (failed ? 0 : o.unvoiced[i]); v = v > rs::CLIP ? rs::CLIP : v < -rs::CLIP ? -rs::CLIP : v; if (!(fabs(out[i] - v) <= tol)) bad("call %d (%d of its allocations failed): sample %d is %.7g, expected %.7g", k, failed, i, out[i], v); }
            for (int i = 0; i < 256; i++) { float w = failed ? cur.previousUw[i] : (float)o.Uw[i]; if (!(fabs(q.previousUw[i] - w) <= (failed ? 0 : 4e-4 * uw + 1e-3)) && !(failed && q.previousUw[i] == 0)) bad("call %d (%d allocations failed): unvoiced history sample %d is %.7g, expected %.7g", k, failed, i, q.previousUw[i], w); }
            if (q.noiseSeed != (float)o.n.seed) bad("call %d (%d allocations failed): noise position %g, expected %g", k, failed, q.noiseSeed, o.n.seed);
            for (int l = 1; l <= q.L; l++) if (!(fabs(remainder(q.PSIl[l] - o.PSI[l], 2 * M_PI)) < 2e-3)) bad("call %d (%d allocations failed): phase of harmonic %d", k, failed, l);
            if (inj.live > 24) bad("after %d calls that were short of memory %d allocations are still held", k, inj.live);
            if (failed && inj.live > 7 + 8) bad("after %d calls that were short of memory %d allocations are still held", k + 1, inj.live);
        }
    });
    if (!m.empty()) c.fail("%s", m.c_str());
    if (shortage < 0) { c.cls("skipped: rounding decides a branch"); return; }
    c.eval((uint64_t)(shortage + good)); if (shortage) c.nontrivial(); c.cls(shortage ? "short of memory" : "allocation not reached"); if (good) c.cls("memory available");
    if (c.want_sample()) c.sample("%d calls, mask %llx%s: %d short of memory, %d with memory", fp.calls + 1, (unsigned long long)fp.mask, fp.all ? " (all)" : "", shortage, good);
}

static bool same_trip(const Trip& a, const Trip& b) { return state_bits(a.cur, b.cur).empty() && state_bits(a.prev, b.prev).empty() && state_bits(a.enh, b.enh).empty(); }
// Streams: apart from the noise component nothing may change, and once memory returns the stream is the undisturbed one.
static void streams(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); Prog p = program(t, 4, 14); FaultPlan fp = fault_plan(t, (int)p.st.size()); int from = t.chance(1, 2) ? 0 : (int)t.below((uint32_t)p.st.size());
    std::vector<Res> A; std::vector<Trip> S; int shortc = 0, equal = 0; std::string trace;
    std::string m = on_thread([&]() { Trip tr; init(L, tr); L.mbe_setThreadRngSeed(p.seed); S.push_back(tr); for (auto& s : p.st) { A.push_back(one(L, p.codec, p.frame, p.sh, s, tr)); S.push_back(tr); } });
    if (m.empty()) m = on_thread([&]() {
        char b[400]; auto bad = [&](const char* f, auto... a) { snprintf(b, sizeof b, f, a...); throw Failure{b}; };
        Trip tr; init(L, tr); L.mbe_setThreadRngSeed(p.seed); int clean = 0;
        for (size_t k = 0; k < p.st.size(); k++) {
            begin_step(p.st[k], tr); Trip s0 = S[k]; begin_step(p.st[k], s0); bool same = same_trip(tr, s0), tight = (int)k >= from && (int)k < from + fp.calls;
            // everything the harness itself allocates happens outside the injected region
            char es[64], d[88]; memset(es, 0, sizeof es); memset(d, 0, sizeof d); Frame f = p.st[k].f; int e = 0, e2 = 0; float o[160]; short q[160]; memset(o, 0, sizeof o); memset(q, 0, sizeof q); const Step& st = p.st[k]; const bool fr = p.frame && !st.data;
            Shortage s(tight ? fp.mask : 0, tight && fp.all);
            if (fr) { if (p.sh) api::frame_s(L, p.codec, q, &e, &e2, es, f, d, tr); else api::frame_f(L, p.codec, o, &e, &e2, es, f, d, tr); }
            else if (p.sh) api::data_s(L, p.codec, q, st.in.c0, st.in.total, es, st.in.d, tr); else api::data_f(L, p.codec, o, st.in.c0, st.in.total, es, st.in.d, tr);
            int failed = s.end(); shortc += failed > 0;
            Res r; if (fr) { r.errs = {e, e2}; r.bits = std::string(d, (size_t)shape(p.codec).nd); } if (p.sh) r.s.assign(q, q + 160); else r.f.assign(o, o + 160); r.stat = std::string(es) + "|";
            if (trace.size() < 80) trace += (failed ? "!" : "") + r.stat;
            if (r.stat != A[k].stat || r.errs != A[k].errs || r.bits != A[k].bits) bad("frame %zu (%d allocations failed): status %s, with memory %s", k, failed, r.stat.c_str(), A[k].stat.c_str());
            for (float v : r.f) if (!(fabs(v) <= rs::CLIP * 1.0001)) bad("frame %zu (%d allocations failed): sample %g", k, failed, v);
            Trip x = tr, y = S[k + 1]; for (mbe_parms* z : {&x.cur, &x.prev, &x.enh, &y.cur, &y.prev, &y.enh}) memset(z->previousUw, 0, sizeof z->previousUw);
            Res u, v; u.end = x; v.end = y; std::string df = res_diff(u, v); if (!df.empty()) bad("frame %zu (%d allocations failed, status %s): %s", k, failed, r.stat.c_str(), df.c_str());
            if (same && !failed) { r.end = tr; Res w = A[k]; w.end = S[k + 1]; df = res_diff(r, w); if (!df.empty()) bad("frame %zu, with memory and undisturbed state: %s", k, df.c_str()); equal++; }
            clean = failed || r.stat.find_first_of("RMTE") != std::string::npos || p.codec == AMBE2400 ? 0 : clean + 1;
            if (clean >= 4 && !same_trip(tr, S[k + 1])) bad("frame %zu: %d plainly synthesized frames after memory returned the state still differs", k, clean);
            if (inj.live > 24) bad("frame %zu: %d allocations are held", k, inj.live);
        }
    });
    if (!m.empty()) c.fail("%s %s stream: %s [%s]", CODEC_NAME[p.codec], p.frame ? "channel" : "parameter", m.c_str(), trace.c_str());
    c.eval(p.st.size()); if (shortc) c.nontrivial(); c.cls(CODEC_NAME[p.codec]); if (shortc > 3) c.cls("several frames short of memory"); if (equal) c.cls("compared bit by bit with the undisturbed stream");
    if (c.want_sample()) c.sample("%s, %d calls from frame %d, mask %llx: %s", CODEC_NAME[p.codec], fp.calls, from, (unsigned long long)fp.mask, trace.c_str());
}
Property* find_property(const std::string& id) {
    static Property p; golay_nearest();
    if (id == "P33") p = {"P33", "at least one allocation made inside a library call was made to fail", {{"direct synthesis", synthesis, 24000, 200000}, {"streams", streams, 24000, 200000}}};
    else return nullptr;
    return &p;
}
