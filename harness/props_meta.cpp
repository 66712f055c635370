// P24-P28, P32: relations between runs of the decoder.
#include "stream.hpp"
#include <fcntl.h>

// ---------------------------------------------------------------- P24
static void determinism(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); Prog p = program(t, 1, 10); Trip tr;
    Res a = run(L, p, tr);
    int how = (int)t.below(4); uint8_t junk = t.byte(); Res b;
    // disturb everything that must not matter
    Prog other = program(t, 0, 3); { Trip x; run(L, other, x); }
    std::unique_ptr<char[]> mem(new char[sizeof(Trip) + 64]); memset(mem.get(), junk, sizeof(Trip) + 64);
    Trip& at = *(Trip*)(mem.get() + 4 * t.below(16));
    auto again = [&]() { dirty_stack(junk); b = run(L, p, at, junk); };
    if (how == 0) { again(); c.cls("same thread, other history"); }
    else if (how == 1) { std::thread th(again); th.join(); c.cls("new thread"); }
    else if (how == 2) { L.mbe_spectralAmpEnhance(&tr.cur); mbe_parms z = tr.cur; L.mbe_spectralAmpEnhance(&at.cur == nullptr ? &z : &z); again(); c.cls("pending enhancement of another set"); }
    else {   // frame by frame, with foreign work in between that only touches other state
        init(L, at); L.mbe_setThreadRngSeed(p.seed); Trip f; init(L, f); c.cls("with foreign calls in between");
        for (const Step& s : p.st) {
            put(b, one(L, p.codec, p.frame, p.sh, s, at, 3, junk)); dirty_stack(junk);
            mbe_parms m; model::init_fields(m, true); L.mbe_spectralAmpEnhance(&m); Frame q = s.f; if (p.frame) { api::ecc_c0(L, p.codec, q); api::demod(L, p.codec, q); char d[88]; api::ecc_data(L, p.codec, q, d); } char d2[88]; memset(d2, 0, 88); mbe_parms m2 = m; api::decode(L, p.codec, s.in.d, &m2, &m);
        }
        b.end = at;
    }
    std::string d = res_diff(b, a);
    if (!d.empty()) c.fail("%s %s, %zu frames (%s), seed %u: second run differs: %s", CODEC_NAME[p.codec], p.frame ? "channel frames" : "parameter frames", p.st.size(), a.stat.c_str(), p.seed, d.c_str());
    c.eval(p.st.size()); if (p.st.size() > 1) c.nontrivial(); c.cls(CODEC_NAME[p.codec]); if (interesting(a.stat)) c.cls("with repeats, mutes, tones or erasures");
    if (c.want_sample()) c.sample("%s, %zu frames, status %s", CODEC_NAME[p.codec], p.st.size(), a.stat.c_str());
}

// the same for sequences of direct calls to the single steps
static void determinism_steps(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); Work w = work(t, 1, 8); Trip x; WRes a = wrun(L, w, x), b;
    uint8_t junk = t.byte(); std::unique_ptr<char[]> mem(new char[sizeof(Trip) + 64]); memset(mem.get(), junk, sizeof(Trip) + 64); Trip& at = *(Trip*)(mem.get() + 4 * t.below(16));
    { Work o = work(t, 0, 3); Trip y; wrun(L, o, y); if (t.chance(1, 2)) L.mbe_spectralAmpEnhance(&y.cur); }
    auto again = [&]() { dirty_stack(junk); b = wrun(L, w, at); };
    if (t.chance(1, 3)) { std::thread th(again); th.join(); c.cls("direct calls, new thread"); } else { again(); c.cls("direct calls, other history"); }
    std::string d = wres_diff(w, b, a); if (!d.empty()) c.fail("%zu direct calls (first: %s) made twice: %s", w.st.size(), work_name(w.st[0].op), d.c_str());
    c.eval(w.st.size()); if (w.st.size() > 1) c.nontrivial(); for (auto& s : w.st) c.cls(work_name(s.op)); if (c.want_sample()) c.sample("%zu direct calls, first: %s", w.st.size(), work_name(w.st[0].op));
}

// ---------------------------------------------------------------- P25
static void isolation_steps(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); int n = t.range(2, 4); std::vector<Work> ws; std::vector<WRes> alone; std::vector<WRes> mixed((size_t)n); std::vector<Trip> tm((size_t)n); size_t left = 0; int last = -1; size_t switches = 0;
    for (int i = 0; i < n; i++) { Work w = work(t, 1, 5); for (auto& s : w.st) { if (s.op == 11 || s.op == 12) s.op -= 9; if (s.op <= 5) s.seed |= 1; } ws.push_back(w); left += w.st.size(); }    // enhancement and smoothing belong to one frame and stay together
    for (int i = 0; i < n; i++) { Trip x; alone.push_back(wrun(L, ws[(size_t)i], x)); }
    reset_hidden(L, 5); for (int i = 0; i < n; i++) winit(ws[(size_t)i], tm[(size_t)i]);
    while (left) { size_t s = t.below((uint32_t)n); while (mixed[s].out.size() >= ws[s].st.size()) s = (s + 1) % (size_t)n; left--; switches += last >= 0 && (int)s != last; last = (int)s; mixed[s].out.push_back(wone(L, ws[s].st[mixed[s].out.size()], tm[s])); }
    for (size_t i = 0; i < (size_t)n; i++) { mixed[i].end = tm[i]; std::string d = wres_diff(ws[i], mixed[i], alone[i]); if (!d.empty()) c.fail("direct calls for %d interleaved streams, stream %zu: %s", n, i, d.c_str()); c.eval(ws[i].st.size()); for (auto& s : ws[i].st) c.cls(work_name(s.op)); }
    if (switches > 1) c.nontrivial();
    if (c.want_sample()) c.sample("%d streams of direct calls, %zu switches", n, switches);
}
static bool noise_only(const Res& r) { double lim = 0.003 * 32767 / 7 * 1.0001; for (float f : r.f) if (fabs(f) > lim) return false; for (short s : r.s) if (abs(s) > 7 * lim) return false; return true; }
static void isolation(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); int n = t.chance(1, 30) ? t.range(6, 40) : t.range(2, 5); std::vector<Prog> ps; for (int i = 0; i < n; i++) ps.push_back(program(t, 1, 6));
    bool reseed = t.chance(1, 2);   // otherwise comfort noise, which is one sequence per thread, is compared by level only
    std::vector<std::vector<Res>> alone((size_t)n), mixed((size_t)n); std::vector<Trip> ta((size_t)n), tm((size_t)n);
    auto seed = [&](int s, size_t k) { if (reseed) L.mbe_setThreadRngSeed(ps[(size_t)s].seed + (uint32_t)k * 977u + 1); };
    for (int s = 0; s < n; s++) { reset_hidden(L, 5); init(L, ta[(size_t)s]); for (size_t k = 0; k < ps[(size_t)s].st.size(); k++) { seed(s, k); alone[(size_t)s].push_back(one(L, ps[(size_t)s].codec, ps[(size_t)s].frame, ps[(size_t)s].sh, ps[(size_t)s].st[k], ta[(size_t)s])); } }
    reset_hidden(L, 5); for (int s = 0; s < n; s++) init(L, tm[(size_t)s]);
    std::vector<size_t> pos((size_t)n, 0); size_t left = 0; for (auto& p : ps) left += p.st.size();
    std::string order; size_t switches = 0; int last = -1;
    while (left) {
        int s = (int)t.below((uint32_t)n); while (pos[(size_t)s] >= ps[(size_t)s].st.size()) s = (s + 1) % n;
        size_t k = pos[(size_t)s]++; left--; seed(s, k);
        mixed[(size_t)s].push_back(one(L, ps[(size_t)s].codec, ps[(size_t)s].frame, ps[(size_t)s].sh, ps[(size_t)s].st[k], tm[(size_t)s]));
        if (order.size() < 60) order += s < 26 ? (char)('A' + s) : (char)('a' + s - 26);
        switches += last >= 0 && s != last; last = s;
    }
    for (int s = 0; s < n; s++) {
        for (size_t k = 0; k < alone[(size_t)s].size(); k++) {
            Res &a = alone[(size_t)s][k], &b = mixed[(size_t)s][k];
            if (!reseed && noise_only(a) && noise_only(b)) { a.f = b.f; a.s = b.s; c.cls("comfort noise frames"); }
            a.end = b.end = ta[0];
            std::string d = res_diff(b, a); if (!d.empty()) c.fail("stream %d (%s, %s) of %d interleaved streams (%s), frame %zu: %s", s, CODEC_NAME[ps[(size_t)s].codec], ps[(size_t)s].frame ? "channel" : "parameter", n, order.c_str(), k, d.c_str());
        }
        Res a, b; a.end = ta[(size_t)s]; b.end = tm[(size_t)s]; std::string d = res_diff(b, a); if (!d.empty()) c.fail("stream %d of %d interleaved streams (%s): %s", s, n, order.c_str(), d.c_str());
        c.eval(alone[(size_t)s].size());
    }
    if (switches > 1) c.nontrivial();
    c.cls(reseed ? "reseeded before every frame" : "one seed"); if (c.want_sample()) c.sample("%d streams, schedule %s", n, order.c_str());
}

// ---------------------------------------------------------------- P26
static std::string threads_once(Lib& L, const std::vector<Prog>& ps, int extra) {
    size_t n = ps.size(); std::vector<Res> par(n); std::vector<Trip> tr(n); std::atomic<int> go{0}; std::vector<std::thread> th;
    for (size_t i = 0; i < n; i++) th.emplace_back([&, i]() {
        go++; while (go.load() < (int)n) std::this_thread::yield();
        // several concurrent passes; all of them have to agree
        for (int r = 0; r <= extra; r++) { Res x = run(L, ps[i], tr[i]); if (r == 0) par[i] = x; else { std::string d = res_diff(x, par[i]); if (!d.empty()) { par[i].stat = "pass differs: " + d; break; } } }
    });
    for (auto& x : th) x.join();
    for (size_t i = 0; i < n; i++) {
        Trip q; Res s = run(L, ps[i], q); std::string d = res_diff(par[i], s);
        if (!d.empty()) { char m[600]; snprintf(m, sizeof m, "thread %zu of %zu (%s, seed %u): %s", i, n, CODEC_NAME[ps[i].codec], ps[i].seed, d.c_str()); return m; }
    }
    return "";
}
// every thread makes its own sequence of direct calls
static std::string threads_steps(Lib& L, const std::vector<Work>& ws, int extra) {
    size_t n = ws.size(); std::vector<std::vector<WRes>> par(n); std::vector<Trip> tr(n); std::atomic<int> go{0}; std::vector<std::thread> th;
    for (size_t i = 0; i < n; i++) th.emplace_back([&, i]() { go++; while (go.load() < (int)n) std::this_thread::yield(); for (int r = 0; r <= extra; r++) par[i].push_back(wrun(L, ws[i], tr[i])); });
    for (auto& x : th) x.join();
    for (size_t i = 0; i < n; i++) { Trip q; WRes s = wrun(L, ws[i], q); for (auto& r : par[i]) { std::string d = wres_diff(ws[i], r, s); if (!d.empty()) { char m[400]; snprintf(m, sizeof m, "direct calls on thread %zu of %zu: %s", i, n, d.c_str()); return m; } } }
    return "";
}
static void thread_calls(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); int n = t.range(2, 8); std::vector<Work> ws; bool same = t.chance(1, 2); int op = (int)t.below(kWorkOps); size_t calls = 0;
    for (int i = 0; i < n; i++) { ws.push_back(work(t, 2, 8)); if (same) for (auto& s : ws.back().st) if (t.chance(2, 3)) s.op = op; calls += ws.back().st.size(); }   // often all threads make the same call
    std::string m = threads_steps(L, ws, t.range(0, kStatic ? 1 : 4)); if (!m.empty()) c.fail("%s", m.c_str());
    c.eval(calls); c.nontrivial(); c.cls("concurrent direct calls"); if (same) c.cls(work_name(op)); if (c.want_sample()) c.sample("%d threads, %zu direct calls in all%s%s", n, calls, same ? ", mostly " : "", same ? work_name(op) : "");
}
static void first_use(Case& c) {   // the library's very first calls of a process happen on several threads at once
    Tape& t = c.t; static const char* nm[] = {"scalar", "simd"}; const char* which = kStatic ? "scalar" : nm[t.below(2)]; Lib& L = lib(which);
    int n = t.range(2, 8); std::vector<Prog> ps; for (int i = 0; i < n; i++) ps.push_back(program(t, 1, 3));
    if (t.chance(1, 3)) for (auto& p : ps) { p.codec = ps[0].codec; p.frame = ps[0].frame; p.st = ps[0].st; }
    bool direct = t.chance(1, 3); std::vector<Work> ws; if (direct) for (int i = 0; i < n; i++) { ws.push_back(work(t, 1, 3)); if (i && t.chance(1, 2)) ws.back().st[0].op = ws[0].st[0].op; }
    int fd[2]; if (pipe(fd)) return;
    pid_t pid = fork();
    if (pid == 0) { close(fd[0]); std::string m = direct ? threads_steps(L, ws, 0) : threads_once(L, ps, 0); if (write(fd[1], m.data(), m.size()) < 0) _exit(9); _exit(0); }
    close(fd[1]); std::string m; char b[600]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) m.append(b, (size_t)k);
    close(fd[0]); int st = 0; waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("first use on %d threads: process ended with status 0x%x", n, st);
    if (!m.empty()) c.fail("first use: %s", m.c_str());
    c.eval((uint64_t)n); c.nontrivial(); c.cls("first use"); if (c.want_sample()) c.sample("%d threads, first: %s", n, CODEC_NAME[ps[0].codec]);
}
static void threads(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); int n = t.range(2, 8); std::vector<Prog> ps; for (int i = 0; i < n; i++) ps.push_back(program(t, 1, kStatic ? 4 : 8));
    std::string m = threads_once(L, ps, t.range(0, 3)); if (!m.empty()) c.fail("%s", m.c_str());
    size_t fr = 0; for (auto& p : ps) fr += p.st.size();
    c.eval(fr); c.nontrivial(); c.cls("concurrent streams"); if (c.want_sample()) c.sample("%d threads, %zu frames in all", n, fr);
}

// ---------------------------------------------------------------- P27
static void to_short(Lib& L, Res& r) { short s[160]; r.s.clear(); for (size_t i = 0; i + 160 <= r.f.size(); i += 160) { float b[160]; memcpy(b, &r.f[i], sizeof b); L.mbe_floattoshort(b, s); r.s.insert(r.s.end(), s, s + 160); } r.f.clear(); }
// arguments the interface declares read-only keep their contents, and results do not depend on where they lie
static void readonly(Case& c, Lib& L) {
    Tape& t = c.t; int codec = (int)t.below(4), dc = codec == IMBE7100 ? IMBE7200 : codec, n = t.range(1, 12); Trip tr; init(L, tr); uint32_t seen = 0;
    for (int k = 0; k < n; k++) {
        Step s = next_frame(t, codec, (int)t.below(6), t.chance(1, 2) ? gen::VOICE : -1, false); char d[88], d0[88]; memcpy(d, s.in.d, 88); memcpy(d0, d, 88); int e = s.in.c0, e2 = s.in.total, uvq = 3; char es[64]; float o[160]; short q[160]; bool sh = t.chance(1, 2); mbe_parms *a = &tr.cur, *b = &tr.prev, *g = &tr.enh;
        switch (dc) {
            case AMBE2400: if (sh) L.mbe_processAmbe2400Data(q, &e, &e2, es, d, a, b, g, uvq); else L.mbe_processAmbe2400Dataf(o, &e, &e2, es, d, a, b, g, uvq); break;
            case AMBE2450: if (sh) L.mbe_processAmbe2450Data(q, &e, &e2, es, d, a, b, g, uvq); else L.mbe_processAmbe2450Dataf(o, &e, &e2, es, d, a, b, g, uvq); break;
            default: if (sh) L.mbe_processImbe4400Data(q, &e, &e2, es, d, a, b, g, uvq); else L.mbe_processImbe4400Dataf(o, &e, &e2, es, d, a, b, g, uvq);
        }
        if (memcmp(d, d0, 88)) c.fail("%s parameters of frame %d were modified by decoding (status \"%s\")", CODEC_NAME[dc], k, es);
        if (e != s.in.c0 || e2 != s.in.total) c.fail("%s frame %d: the error counts passed in were changed from %d/%d to %d/%d", CODEC_NAME[dc], k, s.in.c0, s.in.total, e, e2);
        seen++;
    }
    char d[88], d0[88]; memset(d, 0, 88); gen::frame_bits(t, dc, gen::pick_kind(t, dc), d); memcpy(d0, d, 88); mbe_parms p = tr.cur, q = tr.prev; float o[160], o0[160]; short s[160];
    api::decode(L, dc, d, &p, &q); L.mbe_synthesizeTonef(o, d, &p); L.mbe_synthesizeTonefdstar(o, d, &p, (int)t.below(256)); if (memcmp(d, d0, 88)) c.fail("decoding or tone synthesis modified the parameter bits");
    memcpy(o0, o, sizeof o); L.mbe_floattoshort(o, s); if (memcmp(o, o0, sizeof o)) c.fail("conversion to 16 bit modified the float samples");
    p = tr.cur; mbe_parms p0 = p; L.mbe_moveMbeParms(&p, &q); if (memcmp(&p, &p0, sizeof p)) c.fail("copying a parameter set modified its source"); L.mbe_useLastMbeParms(&q, &p); if (memcmp(&p, &p0, sizeof p)) c.fail("reusing a parameter set modified its source");
    L.mbe_requiresMuting(&p); L.mbe_isMaxFrameRepeat(&p); L.mbe_requiresAdaptiveSmoothing(&p); if (memcmp(&p, &p0, sizeof p)) c.fail("a predicate modified the parameter set");
    c.cls("read-only inputs"); c.eval(seen); c.nontrivial(); if (c.want_sample()) c.sample("read-only inputs, %s, %d frames", CODEC_NAME[dc], n);
}
static void forms(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); int rel = (int)t.below(5); Trip x, y;
    if (rel == 0) {   // 16-bit form = float form + conversion
        Prog p = program(t, 1, 6); p.sh = false; Res a = run(L, p, x); to_short(L, a); p.sh = true; Res b = run(L, p, y);
        for (size_t i = 0; i < a.s.size(); i++) { short w = a.s[i]; (void)w; }
        std::string d = res_diff(b, a); if (!d.empty()) c.fail("16-bit %s %s form against float form: %s", CODEC_NAME[p.codec], p.frame ? "frame" : "parameter", d.c_str());
        c.cls("16 bit against float"); if (p.st.size() > 1) c.nontrivial(); c.eval(p.st.size()); if (c.want_sample()) c.sample("16 bit against float, %s, %s", CODEC_NAME[p.codec], a.stat.c_str()); return;
    }
    if (rel == 1) {   // frame form = the public steps + parameter form
        Prog p = program(t, 1, 6); if (!p.frame || p.mixed) { for (Step& s : p.st) { s = next_frame(t, p.codec, (int)t.below(4), gen::VOICE, true); } p.frame = true; }
        init(L, x); init(L, y); L.mbe_setThreadRngSeed(p.seed); std::string trace; size_t done = 0;
        for (size_t k = 0; k < p.st.size(); k++) {
            Step s = p.st[k]; bool ambe = is_ambe(p.codec); uint32_t sd = p.seed + (uint32_t)k;
            if (p.codec == AMBE2450 ? s.in.total > 3 : p.codec == AMBE2400 ? false : s.in.c4 != 0 || s.in.total > 5) continue;      // the forms decide about repeats from different information
            if (p.codec == AMBE2450 && s.in.c0 >= 4) continue;
            L.mbe_setThreadRngSeed(sd); Res a = one(L, p.codec, true, p.sh, s, x);
            Frame f = s.f; char d[88]; memset(d, 0, sizeof d); int e0 = api::ecc_c0(L, p.codec, f); api::demod(L, p.codec, f); int e1 = api::ecc_data(L, p.codec, f, d);
            if (p.codec == IMBE7100) L.mbe_convertImbe7100to7200(d);
            if (e0 != a.errs[0] || e0 + e1 != a.errs[1]) c.fail("%s: frame form reports %d/%d errors, the steps %d/%d", CODEC_NAME[p.codec], a.errs[0], a.errs[1], e0, e0 + e1);
            if (std::string(d, (size_t)shape(p.codec).nd) != a.bits) c.fail("%s: frame form delivers parameter bits %s, the steps %s", CODEC_NAME[p.codec], bits_str(a.bits.data(), shape(p.codec).nd).c_str(), bits_str(d, shape(p.codec).nd).c_str());
            Step q; q.in = s.in; q.setrate = s.setrate; memcpy(q.in.d, d, 88); q.in.c0 = e0; q.in.total = e0 + e1; L.mbe_setThreadRngSeed(sd); Res b = one(L, p.codec, false, p.sh, q, y);
            b.errs = a.errs; b.bits = a.bits; a.end = x; b.end = y;
            std::string df = res_diff(a, b); if (!df.empty()) c.fail("%s frame %zu (%s): frame form against steps + parameter form: %s", CODEC_NAME[p.codec], k, a.stat.c_str(), df.c_str());
            done++; (void)ambe; if (trace.size() < 80) trace += a.stat;
        }
        c.cls("frame form against its steps"); if (done > 1) c.nontrivial(); c.eval(done); if (c.want_sample()) c.sample("steps, %s: %s", CODEC_NAME[p.codec], trace.c_str()); return;
    }
    if (rel == 2) {   // the same parameters sent in the 7200 and the 7100 format
        int n = t.range(1, 6); init(L, x); init(L, y); bool sh = t.chance(1, 2); size_t k = 0;
        for (int i = 0; i < n; i++) {
            char d[88]; memset(d, 0, 88); gen::frame_bits(t, IMBE7200, t.chance(5, 6) ? gen::VOICE : gen::INVALID, d); Step s7, s1; s7.f = gen::channel(t, IMBE7200, d, true); s1.f = gen::channel(t, IMBE7100, d, true);
            uint32_t sd = t.u32(); L.mbe_setThreadRngSeed(sd); Res a = one(L, IMBE7200, true, sh, s7, x); L.mbe_setThreadRngSeed(sd); Res b = one(L, IMBE7100, true, sh, s1, y);
            a.end = x; b.end = y; std::string df = res_diff(b, a); if (!df.empty()) c.fail("IMBE 7100 frame %d against the same parameters in a 7200 frame: %s", i, df.c_str()); k++;
        }
        c.cls("7100 against 7200"); c.nontrivial(); c.eval(k); if (c.want_sample()) c.sample("7100 against 7200, %d frames", n); return;
    }
    if (rel == 4) { readonly(c, L); return; }
    // small helpers: quality argument ignored, silence, speech 16 bit, version strings
    Prog p = program(t, 1, 4); Res a = run(L, p, x, 0, 3), b = run(L, p, y, 0, (int)t.u32()); std::string d = res_diff(b, a); if (!d.empty()) c.fail("%s: the quality argument changes the result: %s", CODEC_NAME[p.codec], d.c_str());
    mbe_parms cu, pr; model::init_fields(cu, t.chance(1, 2)); pr = cu; gen::model(t, cu, -2, 9); gen::model(t, pr, -2, 9); gen::noise_state(t, cu); mbe_parms cu2 = cu, pr2 = pr; Res u, v; float f[160]; short s[160];
    reset_hidden(L, 5); L.mbe_synthesizeSpeechf(f, &cu, &pr, 3); L.mbe_floattoshort(f, s); u.s.assign(s, s + 160); reset_hidden(L, 5); L.mbe_synthesizeSpeech(s, &cu2, &pr2, 0); v.s.assign(s, s + 160);
    u.end.cur = cu; u.end.prev = u.end.enh = pr; v.end.cur = cu2; v.end.prev = v.end.enh = pr2; d = res_diff(v, u); if (!d.empty()) c.fail("16-bit speech synthesis against float synthesis: %s", d.c_str());
    float z[164]; short zs[164]; for (float& q : z) q = 7; for (short& q : zs) q = 7; L.mbe_synthesizeSilencef(z); L.mbe_synthesizeSilence(zs);
    for (int i = 0; i < 164; i++) if (z[i] != (i < 160 ? 0 : 7) || zs[i] != (i < 160 ? 0 : 7)) c.fail("silence: sample %d is %g / %d", i, z[i], zs[i]);
    char ver[64]; memset(ver, 'x', sizeof ver); L.mbe_printVersion(ver); const char* vs = L.mbe_versionString();
    if (!vs || strcmp(ver, vs) || !*vs || strlen(vs) > 31) c.fail("version strings \"%.40s\" and \"%.40s\"", ver, vs ? vs : "(null)");
    for (int i = 32; i < 64; i++) if (ver[i] != 'x') c.fail("version string writes beyond 32 bytes");
    c.cls("helpers"); c.eval(4); c.nontrivial(); if (c.want_sample()) c.sample("helpers, %s, version %s", CODEC_NAME[p.codec], vs);
}

// ---------------------------------------------------------------- P28
static double rel_or(double a, double b) { return fabs(a - b) / fmax(1e-9, fmax(fabs(a), fabs(b))); }
// rounding may decide: voicing at the smoothing threshold, interpolation limit, phase wrap, error-rate limits
static bool borderline(int codec, const Trip& before, const Trip& A, const Step& s) {
    const mbe_parms &c = A.cur, &p = before.enh;
    if (codec == AMBE2450) { int b0 = s.in.d[0] << 6 | s.in.d[1] << 5 | s.in.d[2] << 4 | s.in.d[3] << 3 | s.in.d[37] << 2 | s.in.d[38] << 1 | s.in.d[39]; if (b0 == 119 || fabs(c.w0 - tab::AmbeW0table[119] * 2 * M_PI) < 1e-4) return true; }
    if (fabs(fabs(c.w0 - p.w0) - 0.1 * c.w0) < 1e-5 * c.w0) return true;
    for (int l = 1; l < 8; l++) { double fr = (c.PHIl[l] - p.PHIl[l] - (p.w0 + c.w0) * l * 80 + M_PI) / (2 * M_PI); if (fabs(fr - round(fr)) < 3e-4) return true; }
    mbe_parms z = c; z.amplitudeThreshold = 0; double x = pow(c.localEnergy, 0.375), vm = 1.414 * x, ve = 45.255 * x / exp(277.26 * c.errorRate);
    double sc = 0; for (int l = 1; l <= c.L; l++) sc += c.Ml[l]; bool scaled = fabs(sc - c.amplitudeThreshold) < 1e-3 * fabs((double)c.amplitudeThreshold);
    if (c.errorRate > 0.004f || c.errorCountTotal > 4) { if (scaled) return true; for (int l = 1; l <= c.L; l++) if (rel_or(c.Ml[l], vm) < 2e-3 || rel_or(c.Ml[l], ve) < 2e-3) return true; }
    for (double r : {0.005, 0.0125, 0.0875, 0.096}) if (fabs(c.errorRate - r) < 1e-7) return true;
    if (!is_ambe(codec) && s.in.c0 >= 2 && fabs(s.in.total - 10 - 40 * c.errorRate) < 1e-3) return true;
    return false;
}
static void compare_builds(Case& c, const std::vector<const char*>& nm) {
    Tape& t = c.t; const int nv = (int)nm.size(); Prog p = program(t, 1, 10); Trip tr; Lib& S = lib("scalar"); init(S, tr);
    std::string trace; int start = (int)t.below(3); if (start == 2) { model::init_all(tr, is_ambe(p.codec)); gen::model(t, tr.prev, -2, 10); gen::noise_state(t, tr.prev); tr.cur = tr.prev; gen::model(t, tr.enh = tr.prev, -2, 10); tr.cur.swn = (int)t.u32(); tr.cur.un = (int)t.u32(); }
    for (size_t k = 0; k < p.st.size(); k++) {
        const Step& s = p.st[k]; Trip b = tr, o[6]; Res r[6]; uint32_t sd = p.seed + (uint32_t)k;
        for (int v = 0; v < nv; v++) { Lib& L = lib(nm[(size_t)v]); o[v] = b; L.mbe_setThreadRngSeed(sd); r[v] = one(L, p.codec, p.frame, p.sh, s, o[v]); }
        bool toned = r[0].stat.find('T') != std::string::npos || (p.codec == AMBE2400 && !memcmp(s.in.d, "\1\1\1\1\1\1", 6));
        for (int v = 1; v < nv; v++) {
            std::string why; char m[300]; bool mute = toned && !strcmp(nm[(size_t)v], "notones");   // tones may sound as silence there
            if (mute) { r[v].f = r[0].f; r[v].s = r[0].s; for (auto q : {&Trip::cur, &Trip::prev, &Trip::enh}) { (o[v].*q).swn = (o[0].*q).swn; (o[v].*q).un = (o[0].*q).un; } c.cls("tone frames of the build without tones"); }
            auto bad = [&](const char* what) { if (why.empty()) why = what; };
            if (r[v].stat != r[0].stat) bad("status"); if (r[v].errs != r[0].errs) bad("error counts"); if (r[v].bits != r[0].bits) bad("parameter bits");
            double pk = 0, pw = 0, amp = 0, err = 0; size_t at = 0;
            for (int i = 0; i < 256; i++) pw = fmax(pw, fmax(fabs(b.enh.previousUw[i]), fabs(o[0].cur.previousUw[i])));
            for (int l = 1; l <= std::min(56, o[0].enh.L); l++) amp += fabs(o[0].enh.Ml[l]); for (int l = 1; l <= std::min(56, b.enh.L); l++) amp += fabs(b.enh.Ml[l]);
            size_t n = std::max(r[0].f.size(), r[0].s.size());
            for (size_t i = 0; i < n; i++) { double x = p.sh ? r[0].s[i] / 7.0 : r[0].f[i], y = p.sh ? r[v].s[i] / 7.0 : r[v].f[i], d = fabs(x - y); pk = fmax(pk, fabs(x)); if (!(d <= err)) { err = d; at = i; } }
            double tol = 1e-3 * (amp + pw) + 1e-4 * pk + (p.sh ? 0.3 : 0.02);
            if (!(err <= tol)) { snprintf(m, sizeof m, "sample %zu differs by %.5g (amplitudes %.5g)", at, err, amp + pw); bad(m); }
            const mbe_parms* A[3] = {&o[0].cur, &o[0].prev, &o[0].enh}; const mbe_parms* B[3] = {&o[v].cur, &o[v].prev, &o[v].enh};
            for (int q = 0; q < 3 && why.empty(); q++) {
                const mbe_parms &x = *A[q], &y = *B[q];
                if (x.L != y.L || x.repeat != y.repeat || x.repeatCount != y.repeatCount || x.errorCountTotal != y.errorCountTotal || x.amplitudeThreshold != y.amplitudeThreshold) bad("integer state");
                if (x.noiseSeed != y.noiseSeed || memcmp(x.noiseOverlap, y.noiseOverlap, sizeof x.noiseOverlap) || x.swn != y.swn || x.un != y.un) bad("noise or oscillator state");
                if (rel_or(x.w0, y.w0) > 1e-5 && fabs(x.w0 - y.w0) > 1e-7) bad("pitch"); if (fabs(x.errorRate - y.errorRate) > 1e-6) bad("error rate"); if (rel_or(x.localEnergy, y.localEnergy) > 3e-4) bad("local energy");
                for (int l = 1; l <= x.L && l <= 56 && why.empty(); l++) { if (x.Vl[l] != y.Vl[l]) bad("voicing"); double me = fabs(x.Ml[l] - y.Ml[l]); if (!(me <= 5e-4 * fabs(x.Ml[l]) + 1e-6)) { snprintf(m, sizeof m, "amplitude of harmonic %d: %.7g against %.7g", l, x.Ml[l], y.Ml[l]); bad(m); } if (!(fabs(x.log2Ml[l] - y.log2Ml[l]) <= 5e-4)) bad("log amplitude"); }
                for (int l = 1; l <= 56 && why.empty(); l++) { if (!(fabs(remainder((double)x.PSIl[l] - y.PSIl[l], 2 * M_PI)) <= 2e-3)) bad("continuity phase"); if (!(fabs(remainder((double)x.PHIl[l] - y.PHIl[l], 2 * M_PI)) <= 2e-3)) bad("phase"); }
                for (int i = 0; i < 256 && why.empty(); i++) if (!(fabs(x.previousUw[i] - y.previousUw[i]) <= 1e-3 * pw + 1e-2)) bad("unvoiced history");
            }
            if (!why.empty()) {
                if (borderline(p.codec, b, o[0], s) || borderline(p.codec, b, o[v], s)) { c.cls("rounding decides a branch: not compared"); continue; }
                c.fail("%s frame %zu (status %s, bits %s): %s build against scalar build: %s", CODEC_NAME[p.codec], k, r[0].stat.c_str(), bits_str(s.in.d, is_ambe(p.codec) ? 49 : 88).c_str(), nm[(size_t)v], why.c_str());
            }
            c.eval();
        }
        tr = o[0]; if (trace.size() < 60) trace += r[0].stat;
    }
    c.nontrivial(); c.cls(CODEC_NAME[p.codec]); if (interesting(trace)) c.cls("with repeats, mutes, tones or erasures");
    if (c.want_sample()) c.sample("%s, %zu frames: %s", CODEC_NAME[p.codec], p.st.size(), trace.c_str());
}

static void builds(Case& c) { compare_builds(c, {"scalar", "simd", "release", "fastscalar"}); }
static void options(Case& c) {   // options, optimisation level and compiler
    static bool quiet = false; if (!quiet) { quiet = true; int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); close(fd); } }   // the logging build writes to stderr
    compare_builds(c, {"scalar", "notones", "debuglog", "strict", "debug", "clang"});
}

// ---------------------------------------------------------------- P32
static void bounded_state(Case& c, const Trip& tr, const char* ctx, uint64_t k) {
    const mbe_parms* A[3] = {&tr.cur, &tr.prev, &tr.enh};
    for (const mbe_parms* p : A) {
        if (!(p->L >= 1 && p->L <= 56)) c.fail("%s, frame %llu: %d harmonics", ctx, (unsigned long long)k, p->L);
        if (!(p->localEnergy >= 10000 && std::isfinite(p->localEnergy))) c.fail("%s, frame %llu: local energy %g", ctx, (unsigned long long)k, p->localEnergy);
        if (!(p->errorRate >= 0 && p->errorRate <= 0.35f)) c.fail("%s, frame %llu: error rate %g", ctx, (unsigned long long)k, p->errorRate);
        for (int l = 1; l <= 56; l++) if (!(fabs(p->PSIl[l]) < 6000 && fabs(p->PHIl[l]) < 6000)) c.fail("%s, frame %llu: phase of harmonic %d is %g / %g: grows without bound", ctx, (unsigned long long)k, l, p->PSIl[l], p->PHIl[l]);
        if (!(p->noiseSeed == -1 || (p->noiseSeed >= 0 && p->noiseSeed < 53125 && p->noiseSeed == floorf(p->noiseSeed)))) c.fail("%s, frame %llu: noise position %g", ctx, (unsigned long long)k, p->noiseSeed);
    }
}
static void soak(Case& c) {   // long streams: bounded state, bounded output, no memory growth
    Tape& t = c.t; Lib& L = pick_lib(t, c); int codec = (int)t.below(4); bool frame = t.chance(1, 2); int style = (int)t.below(3);
    reset_hidden(L, 3); Trip tr; init(L, tr); int mode = style == 0 ? 0 : (int)t.below(6); uint64_t N = c.thorough ? 60000 : 6000; size_t pool = 64;
    std::vector<Step> st; for (size_t i = 0; i < pool; i++) { if (style == 2 && t.chance(1, 4)) mode = (int)t.below(6); st.push_back(next_frame(t, codec, mode, style == 2 && t.chance(1, 3) ? -1 : gen::VOICE, frame)); }
    char ctx[100]; snprintf(ctx, sizeof ctx, "%s %s stream", CODEC_NAME[codec], frame ? "channel" : "parameter"); uint32_t x = t.u32() | 1;
    char es[64], d[88]; float o[160]; int e, e2; size_t heap0 = 0; static const double lim = rs::CLIP * 1.0001;
    for (uint64_t k = 0; k < N; k++) {
        x ^= x << 13; x ^= x >> 17; x ^= x << 5; Step& s = st[x % pool]; Frame f = s.f; memset(o, 0xff, sizeof o);
        if (frame) api::frame_f(L, codec, o, &e, &e2, es, f, d, tr); else api::data_f(L, codec, o, s.in.c0, s.in.total, es, s.in.d, tr);
        for (int i = 0; i < 160; i++) if (!(fabs(o[i]) <= lim)) c.fail("%s, frame %llu (status \"%s\"): sample %d is %g", ctx, (unsigned long long)k, es, i, o[i]);
        if (k % 16 == 0) bounded_state(c, tr, ctx, k);
        if (!kStatic && k == 200) heap0 = mallinfo2().uordblks;
    }
    if (!kStatic) { size_t h = mallinfo2().uordblks; if (h > heap0 + 4096) c.fail("%s: the heap grew by %zu bytes over %llu frames", ctx, h - heap0, (unsigned long long)(N - 200)); }
    c.eval(N); c.nontrivial(); c.cls(CODEC_NAME[codec]); c.cls(style == 0 ? "clean" : style == 1 ? "steady error level" : "changing errors");
    if (c.want_sample()) c.sample("%s, %llu frames, final local energy %g, threshold %d", ctx, (unsigned long long)N, tr.cur.localEnergy, tr.cur.amplitudeThreshold);
}
// More frames than a 16-bit counter holds, on one thread and in one state: a loop of frames keeps its status, and what
// the first rounds sounded like the last ones do.
static void marathon(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); int codec = (int)t.below(4), dc = codec == IMBE7100 ? IMBE7200 : codec; bool frame = t.chance(1, 3), shortf = t.chance(1, 3), clean = t.chance(1, 2), again = t.chance(1, 3);
    reset_hidden(L, 3); Trip tr; init(L, tr); const int P = 32; std::vector<Step> st; for (int i = 0; i < P; i++) st.push_back(next_frame(t, codec, clean ? 0 : 2, clean || t.chance(3, 4) ? gen::VOICE : -1, frame));
    uint64_t N = (c.thorough ? 220000 : 70000) / P, settled = 64; std::vector<std::string> stat(P), en(P); std::vector<double> lev(P, 0), lev2(P, 0); std::vector<int> harm(P); char es[64], d[88]; float o[160]; short q[160]; int e, e2; size_t heap0 = 0; char ctx[160]; snprintf(ctx, sizeof ctx, "%s %s loop of %d frames", CODEC_NAME[codec], frame ? "channel" : "parameter", P);
    std::vector<mbe_parms> ref(P); bool eq = true;
    for (uint64_t r = 0; r < N; r++) {
        if (r == settled && !kStatic) heap0 = mallinfo2().uordblks;
        for (int i = 0; i < P; i++) {
            Step& s = st[(size_t)i]; Frame f = s.f;
            if (clean && (again || r % 64 == 0)) {   // decoded twice from the same state: how many frames this thread has seen must not show (comfort noise excepted)
                Trip u = tr, v = tr; Res x = one(L, frame ? codec : dc, frame, shortf, s, u), y = one(L, frame ? codec : dc, frame, shortf, s, v); x.end = u; y.end = v; std::string df = r && !strpbrk(x.stat.c_str(), "TME") ? res_diff(y, x) : "";
                if (!df.empty()) c.fail("%s: frame %d of round %llu (status %s) decoded again from the same state: %s", ctx, i, (unsigned long long)r, x.stat.c_str(), df.c_str());
            }
            if (shortf) { if (frame) api::frame_s(L, codec, q, &e, &e2, es, f, d, tr); else api::data_s(L, dc, q, s.in.c0, s.in.total, es, s.in.d, tr); for (int j = 0; j < 160; j++) o[j] = q[j] / 7.0f; }
            else if (frame) api::frame_f(L, codec, o, &e, &e2, es, f, d, tr); else api::data_f(L, dc, o, s.in.c0, s.in.total, es, s.in.d, tr);
            double p = 0; for (float v : o) { if (!(fabs(v) <= rs::CLIP * 1.0001)) c.fail("%s: sample %g in frame %llu", ctx, v, (unsigned long long)(r * P + i)); p += (double)v * v; }
            if (r == settled) { stat[(size_t)i] = es; harm[(size_t)i] = tr.cur.L; ref[(size_t)i] = tr.cur; }
            if (r > settled) {
                if (stat[(size_t)i] != es) c.fail("%s: frame %d has status \"%s\" in round %llu and \"%s\" in round %llu", ctx, i, stat[(size_t)i].c_str(), (unsigned long long)settled, es, (unsigned long long)r);
                const mbe_parms &x = ref[(size_t)i], &y = tr.cur; if (harm[(size_t)i] != y.L || x.w0 != y.w0) c.fail("%s: frame %d has %d harmonics in round %llu, %d before", ctx, i, y.L, (unsigned long long)r, harm[(size_t)i]);
                if (clean) for (int l = 1; l <= y.L; l++) if (x.Vl[l] != y.Vl[l] || !(fabs(x.Ml[l] - y.Ml[l]) <= 3e-3 * fabs(x.Ml[l]) + 1e-6)) c.fail("%s: harmonic %d of frame %d has amplitude %g, voicing %d in round %llu; %g, %d in round %llu", ctx, l, i, y.Ml[l], y.Vl[l], (unsigned long long)r, x.Ml[l], x.Vl[l], (unsigned long long)settled);
            }
            if (r >= settled && r < settled + 64) lev[(size_t)i] += p; if (r >= N - 64) lev2[(size_t)i] += p;
        }
        if (r % 8 == 0) bounded_state(c, tr, ctx, r * P);
    }
    double a = 0, b = 0; for (int i = 0; i < P; i++) { a += lev[(size_t)i]; b += lev2[(size_t)i]; } (void)eq; (void)en;
    if (clean && !(fabs(sqrt(a) - sqrt(b)) <= 0.1 * sqrt(a) + 1)) c.fail("%s: level %g in the beginning, %g in the end", ctx, sqrt(a), sqrt(b));
    if (!kStatic) { size_t h = mallinfo2().uordblks; if (h > heap0 + 4096) c.fail("%s: the heap grew by %zu bytes", ctx, h - heap0); }
    c.eval(N * P); c.nontrivial(); c.cls(CODEC_NAME[codec]); c.cls("marathon"); if (c.want_sample()) c.sample("%s, %llu rounds, level %.4g and %.4g", ctx, (unsigned long long)N, sqrt(a), sqrt(b));
}
// The same frame for a long time: after the prediction has settled, the model and the level of the audio stay.
static void steady_input(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); int codec = (int)t.below(4), dc = codec == IMBE7100 ? IMBE7200 : codec; bool frame = t.chance(1, 3); char d[88]; memset(d, 0, 88);
    int kind = codec == AMBE2450 ? (int[]){gen::VOICE, gen::VOICE, gen::SILENCE, gen::TONE}[t.below(4)] : gen::VOICE; gen::frame_bits(t, dc, kind, d);
    reset_hidden(L, 3); Trip tr; init(L, tr); int pre = t.range(0, 20); char es[64], dd[88]; float o[160]; int e, e2;
    for (int i = 0; i < pre; i++) { Step s = next_frame(t, codec, 0, gen::VOICE, false); api::data_f(L, dc, o, 0, 0, es, s.in.d, tr); }
    Frame f = gen::channel(t, codec, d, false); int N = c.thorough ? t.range(2000, 60000) : t.chance(1, 20) ? t.range(4000, 20000) : t.range(700, 2200); const int W = 200; double first = -1, acc = 0; int cnt = 0; mbe_parms ref; memset(&ref, 0, sizeof ref);
    char ctx[200]; snprintf(ctx, sizeof ctx, "%s, the same %s frame again and again (%s)", CODEC_NAME[codec], gen::kind_name(kind), bits_str(d, is_ambe(codec) ? 49 : 88).c_str());
    for (int k = 0; k < N; k++) {
        if (frame) { Frame g = f; api::frame_f(L, codec, o, &e, &e2, es, g, dd, tr); } else api::data_f(L, dc, o, 0, 0, es, d, tr);
        const char* tail = es + strspn(es, "="); if (strcmp(tail, kind == gen::TONE ? "T" : "")) c.fail("%s: status \"%s\" in frame %d", ctx, es, k);
        double p = 0; for (float v : o) { if (!(fabs(v) <= rs::CLIP * 1.0001)) c.fail("%s: sample %g in frame %d", ctx, v, k); p += (double)v * v; }
        if (k == 300) ref = tr.cur;
        if (k > 300 && kind != gen::TONE) {
            const mbe_parms& q = tr.cur; if (q.L != ref.L || q.w0 != ref.w0) c.fail("%s: %d harmonics in frame %d", ctx, q.L, k);
            for (int l = 1; l <= q.L; l++) { if (q.Vl[l] != ref.Vl[l]) c.fail("%s: voicing of harmonic %d changes in frame %d", ctx, l, k); if (!(fabs(q.Ml[l] - ref.Ml[l]) <= 2e-3 * ref.Ml[l] + 1e-6)) c.fail("%s: amplitude of harmonic %d is %g in frame 300 and %g in frame %d", ctx, l, ref.Ml[l], q.Ml[l], k); }
            if (!(fabs(q.gamma - ref.gamma) <= 2e-3 * (1 + fabs(ref.gamma)))) c.fail("%s: gain %g in frame 300, %g in frame %d", ctx, ref.gamma, q.gamma, k);
            if (!(fabs(q.localEnergy - ref.localEnergy) <= 0.02 * ref.localEnergy)) c.fail("%s: tracked energy %g in frame 300, %g in frame %d", ctx, ref.localEnergy, q.localEnergy, k);
        }
        if (k >= 300) { acc += p; if (++cnt == W) { double r = sqrt(acc / (W * 160.0)); if (first < 0) first = r; else if (!(fabs(r - first) <= 0.25 * first + 0.3)) c.fail("%s: level %g in the beginning, %g in frames %d to %d", ctx, first, r, k - W + 1, k); acc = 0; cnt = 0; } }
    }
    c.eval((uint64_t)N); c.nontrivial(); c.cls(CODEC_NAME[codec]); c.cls(gen::kind_name(kind));
    if (c.want_sample()) c.sample("%s: %d frames, level %.4g", ctx, N, first);
}
// A light error level keeps the error rate up while frames carry hardly any error: the amplitude
// threshold then grows with every frame.  Start the same stream near the end of its range.
static void threshold(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); int codec = (int)t.below(4); reset_hidden(L, 3); Trip tr; init(L, tr); int dc = codec == IMBE7100 ? IMBE7200 : codec; if (dc != IMBE7200) { char d[88], es[64]; float o[160]; gen::frame_bits(t, dc, gen::VOICE, d); api::data_f(L, dc, o, 0, 0, es, d, tr); }
    bool full = c.thorough && c.index % 200 == 0; int startv = full ? 20480 : t.chance(1, 2) ? INT_MAX - (int)t.below(60000) : (int)(t.below(0x7fffffff));
    if (startv < 20480) startv = 20480;
    tr.cur.amplitudeThreshold = tr.prev.amplitudeThreshold = tr.enh.amplitudeThreshold = startv; float er = (float)t.real(0.0052, 0.012); tr.prev.errorRate = tr.cur.errorRate = tr.enh.errorRate = er;
    int errs = is_ambe(dc) ? (int)t.range(0, 1) : 1; long prevT = startv; uint64_t N = full ? 450000 : (uint64_t)t.range(5, 60); std::vector<std::string> ds; for (int i = 0; i < 8; i++) { char d[88]; memset(d, 0, 88); gen::frame_bits(t, dc, gen::VOICE, d); ds.push_back(std::string(d, 88)); }
    char es[64]; float o[160]; uint64_t grew = 0;
    for (uint64_t k = 0; k < N; k++) {
        api::data_f(L, dc, o, 0, errs, es, ds[k % 8].data(), tr); long T = tr.cur.amplitudeThreshold;
        if (tr.cur.errorRate > 0.005f) {
            if (T <= 0 || (T < prevT - 6000 - 300)) c.fail("%s: amplitude threshold went from %ld to %ld in frame %llu of a lightly disturbed stream (error rate %g)", CODEC_NAME[dc], prevT, T, (unsigned long long)k, tr.cur.errorRate);
            double sum = 0; for (int l = 1; l <= tr.cur.L; l++) { if (!(tr.cur.Ml[l] >= 0)) c.fail("%s: amplitude %g with threshold %ld", CODEC_NAME[dc], tr.cur.Ml[l], T); sum += tr.cur.Ml[l]; }
            grew += T > prevT;
        } else if (T != 20480) c.fail("%s: threshold %ld at error rate %g", CODEC_NAME[dc], T, tr.cur.errorRate);
        for (int i = 0; i < 160; i++) if (!(fabs(o[i]) <= rs::CLIP * 1.0001)) c.fail("%s: sample %d is %g with threshold %ld", CODEC_NAME[dc], i, o[i], T);
        prevT = T;
    }
    c.eval(N); if (grew || startv > INT_MAX - 70000) c.nontrivial(); c.cls(full ? "complete growth of the threshold" : "growth from a later point");
    if (c.want_sample()) c.sample("%s, %d errors per frame, threshold %d -> %ld in %llu frames", CODEC_NAME[dc], errs, startv, prevT, (unsigned long long)N);
}
// threads that come and go
static void thread_churn(Case& c) {
    Tape& t = c.t; Lib& L = lib("scalar"); Prog p = program(t, 1, 3); int n = 60; auto go = [&](int k) { for (int i = 0; i < k; i++) { std::thread th([&]() { Trip tr; run(L, p, tr); }); th.join(); } };
    go(5); struct mallinfo2 a = mallinfo2(); go(n); struct mallinfo2 b = mallinfo2();
    double per = ((double)b.uordblks - (double)a.uordblks) / n;
    if (per > 64) c.known("thread-exit-leak", per < 20480, "each thread that decodes speech keeps %.0f bytes allocated after it has exited", per);
    c.eval((uint64_t)n); c.nontrivial(); c.cls("thread churn"); if (c.want_sample()) c.sample("%d threads, %.0f bytes kept per thread", n, per);
}

Property* find_property(const std::string& id) {
    static Property p; golay_nearest();
    if (id == "P24") p = {"P24", "at least two frames are decoded twice", {{"repeat the run", determinism, 60000, 2000000}, {"repeat direct calls", determinism_steps, 60000, 1500000}}};
    else if (id == "P25") p = {"P25", "the schedule switches between streams at least twice", {{"interleavings", isolation, 50000, 1500000}, {"interleaved direct calls", isolation_steps, 40000, 1000000}}};
    else if (id == "P26") { if (kStatic) p = {"P26", "at least two threads decode at the same time", {{"first use", first_use, 160, 3000}, {"concurrent streams", threads, 600, 8000}, {"concurrent direct calls", thread_calls, 1200, 12000}}}; else p = {"P26", "at least two threads decode at the same time", {{"first use", first_use, 3000, 60000}, {"concurrent streams", threads, 8000, 200000}, {"concurrent direct calls", thread_calls, 12000, 200000}}}; }
    else if (id == "P27") p = {"P27", "relations over at least two frames, helper relations always", {{"relations", forms, 300000, 5000000}}};
    else if (id == "P28") p = {"P28", "every case decodes at least one frame with four or six builds", {{"four builds", builds, 120000, 1500000}, {"other options", options, 40000, 600000}}, {"frames for which float rounding alone decides a branch are not compared and are counted"}};
    else if (id == "P32") { p = {"P32", "streams of thousands of frames; growth of the threshold beyond its start", {{"soak", soak, 64, 400}, {"threshold", threshold, 60000, 400000}, {"marathon", marathon, 24, 96}, {"steady input", steady_input, 3000, 8000}}}; if (!kStatic) p.phases.push_back({"thread churn", thread_churn, 8, 64}); }
    else return nullptr;
    return &p;
}
