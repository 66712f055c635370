// P34-P39: channel errors and audio, equivalence of the IMBE formats, side effects, movable streams, linearity, seeds.
#include "stream.hpp"
#include <cfenv>
#include <sys/mman.h>
#include <xmmintrin.h>

static void mask_stats(Trip& t) { for (mbe_parms* p : {&t.cur, &t.prev, &t.enh}) { p->errorRate = 0; p->errorCountTotal = 0; p->errorCount4 = 0; } }
static std::string strip(const std::string& s) { std::string o; for (char ch : s) if (ch != '=') o += ch; return o; }

// ---------------------------------------------------------------- P34
// Flip bits of one protected word so that the word stays within its correction capability.
static int flip(Tape& t, Frame& f, int r, int lo, int data, int top, int k, int counted) {
    int pos[3], n = 0;
    for (int i = 0; i < k; i++) {
        int a = counted == 1 ? data : lo, b = counted == 0 ? data - 1 : top, p = a + (int)t.below((uint32_t)(b - a + 1)); bool dup = false;
        for (int j = 0; j < n; j++) dup = dup || pos[j] == p;
        if (!dup) { pos[n++] = p; f.at(r, p) ^= 1; }
    }
    return n;
}
struct Word { int r, lo, data, top; };
static std::vector<Word> golay_words(int codec) {
    if (is_ambe(codec)) return {{0, 1, 12, 23}, {1, 0, 11, 22}};
    if (codec == IMBE7200) return {{0, 0, 11, 22}, {1, 0, 11, 22}, {2, 0, 11, 22}, {3, 0, 11, 22}};
    return {{0, 1, 12, 18}, {1, 1, 12, 23}, {2, 0, 11, 22}, {3, 0, 11, 22}};
}
static void inaudible(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); int codec = (int)t.below(4), n = t.range(2, c.thorough ? 24 : 12); bool sh = t.chance(1, 3), count = t.chance(1, 2); Trip x, y;
    reset_hidden(L, 5); init(L, x); y = x; double rate = 0, per = is_ambe(codec) ? 0.001064 : 0.000365; int flips = 0, counted = 0; std::string trace; bool worst = t.chance(1, 4);
    for (int k = 0; k < n; k++) {
        Step a = next_frame(t, codec, 0, t.chance(2, 3) ? gen::VOICE : -1, true), b = a;
        auto ws = golay_words(codec);
        for (auto& w : ws) {
            if (!count) { int nf = worst ? 3 : (int)t.below(4); flips += flip(t, b.f, w.r, w.lo, w.data, w.top, nf, 0); }
            else if (t.chance(1, 3)) flips += flip(t, b.f, w.r, w.lo, w.data, w.top, t.range(1, 2), t.chance(1, 2) ? 1 : 2);
        }
        if (is_ambe(codec) && !count && t.chance(1, 2)) b.f.at(0, 0) ^= 1;
        if (!is_ambe(codec) && count && t.chance(1, 4)) b.f.at(4 + (int)t.below(2), (int)t.below(15)) ^= 1;
        Decoded da = frame_decode(codec, a.f), db = frame_decode(codec, b.f); int nd = shape(codec).nd;
        // the pair has to carry the same parameters, and extra counted errors have to stay in the range the codec treats as undisturbed
        bool ok = !memcmp(da.d, db.d, (size_t)nd) && da.total == 0 && db.c0 <= 1 && db.total <= (is_ambe(codec) ? 2 : 4);
        double nr = 0.95 * rate + per * db.total; if (nr > 0.00498) ok = false;
        if (!count && db.total != 0) { b.f = a.f; flip(t, b.f, ws.back().r, ws.back().lo, ws.back().data, ws.back().top, 2, 0); db = frame_decode(codec, b.f); ok = db.total == 0; }
        if (!ok) { b.f = a.f; db = da; }
        double old = rate; rate = 0.95 * rate + per * db.total; counted += db.total;
        uint32_t sd = gen::some_seed(t); L.mbe_setThreadRngSeed(sd); Res p = one(L, codec, true, sh, a, x); L.mbe_setThreadRngSeed(sd); Res q = one(L, codec, true, sh, b, y);
        if (q.stat.find_first_of("RT") != std::string::npos) rate = fmax(rate, old);   // repeated and tone frames leave the tracked rate as it was
        char ctx[120]; snprintf(ctx, sizeof ctx, "%s frame %d with %d correctable channel errors (%d counted)", CODEC_NAME[codec], k, flips, counted);
        if (strip(p.stat) != strip(q.stat) || (int)q.stat.size() - (int)p.stat.size() != db.total) c.fail("%s: status %s, undamaged %s", ctx, q.stat.c_str(), p.stat.c_str());
        if (q.errs[1] - p.errs[1] != db.total || q.errs[0] - p.errs[0] != db.c0) c.fail("%s: reports %d/%d errors", ctx, q.errs[0], q.errs[1]);
        if (p.bits != q.bits) c.fail("%s: decoded bits differ from the undamaged frame's", ctx);
        Res u = p, v = q; u.errs = v.errs; u.stat = v.stat; u.end = x; v.end = y; if (counted) { mask_stats(u.end); mask_stats(v.end); }
        std::string d = res_diff(v, u); if (!d.empty()) c.fail("%s: %s (damaged against undamaged)", ctx, d.c_str());
        if (trace.size() < 80) trace += q.stat;
    }
    c.eval((uint64_t)n); if (flips > 1) c.nontrivial(); c.cls(CODEC_NAME[codec]); c.cls(counted ? "with counted errors" : "errors in parity bits only");
    if (c.want_sample()) c.sample("%s, %d frames, %d bits flipped, %d counted: %s", CODEC_NAME[codec], n, flips, counted, trace.c_str());
}

// ---------------------------------------------------------------- P35
static void formats(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); int n = t.range(1, c.thorough ? 20 : 10); bool sh = t.chance(1, 3), dirty = t.chance(1, 2), hits = t.chance(1, 2); int counted = 0; Trip a, b, d3; reset_hidden(L, 5); init(L, a); b = d3 = a; std::string trace; int inval = 0;
    for (int k = 0; k < n; k++) {
        char d[88]; memset(d, 0, 88); int kind = t.chance(5, 6) ? gen::VOICE : t.chance(1, 2) ? gen::INVALID : gen::ANY; gen::frame_bits(t, IMBE7200, kind, d);
        if (t.chance(1, 10)) gen::set_b0(IMBE7200, d, t.chance(1, 2) ? 207 : (int)t.below(4));
        Step s7, s1, sd; memset((void*)&s7, 0, sizeof s7); s1 = sd = s7; s7.f = gen::channel(t, IMBE7200, d, dirty); s1.f = gen::channel(t, IMBE7100, d, dirty); memcpy(sd.in.d, d, 88);
        // parity errors of each format are corrected without being counted
        if (dirty) { for (auto& w : golay_words(IMBE7200)) flip(t, s7.f, w.r, w.lo, w.data, w.top, (int)t.below(4), 0); for (auto& w : golay_words(IMBE7100)) flip(t, s1.f, w.r, w.lo, w.data, w.top, (int)t.below(4), 0); }
        // counted errors, the same number in the same word of either format
        int c0 = 0, c4 = 0, tot = 0;
        if (hits && t.chance(1, 2)) {
            Frame g7 = s7.f, g1 = s1.f; auto w7 = golay_words(IMBE7200), w1 = golay_words(IMBE7100); int top = t.chance(1, 4) ? 3 : 1;
            for (size_t w = 0; w < 4; w++) { int m = (int)t.below((uint32_t)(w ? top + 1 : t.chance(1, 3) ? 4 : 2)); for (int i = 0, o = (int)t.below(7); i < m; i++) { g7.at(w7[w].r, w7[w].data + (o + 3 * i) % 7) ^= 1; g1.at(w1[w].r, w1[w].data + (o + 3 * i) % 7) ^= 1; } }
            for (int h = 4; h < 6; h++) if (t.chance(1, 2)) { int q = (int)t.below(15); g7.at(h, q) ^= 1; g1.at(h, t.chance(1, 2) ? q : (int)t.below(15)) ^= 1; }
            Decoded x7 = frame_decode(IMBE7200, g7), x1 = frame_decode(IMBE7100, g1);
            if (x7.c0 == x1.c0 && x7.total == x1.total && x7.c4 == x1.c4 && !memcmp(x7.d, d, 88) && !memcmp(x1.d, d, 88)) { s7.f = g7; s1.f = g1; c0 = x7.c0; c4 = x7.c4; tot = x7.total; }
        }
        if (t.chance(1, 6)) s7.setrate = s1.setrate = sd.setrate = some_rate(t);
        sd.in.c0 = c0; sd.in.total = tot; bool comparable = c4 == 0 && tot <= 5; if (tot) counted++;   // the parameter form does not know where the errors were, and repeats from six on
        uint32_t s = gen::some_seed(t); L.mbe_setThreadRngSeed(s); Res r7 = one(L, IMBE7200, true, sh, s7, a); L.mbe_setThreadRngSeed(s); Res r1 = one(L, IMBE7100, true, sh, s1, b); Res rd; if (comparable) { L.mbe_setThreadRngSeed(s); rd = one(L, IMBE7200, false, sh, sd, d3); } else d3 = a;
        r7.end = a; r1.end = b; rd.end = d3; if (r7.bits != std::string(d, 88)) c.fail("frame %d: the 7200 frame decodes to other parameters", k);
        if (r7.errs != std::vector<int>{c0, tot}) c.fail("frame %d: the 7200 frame reports %d/%d errors, expected %d/%d", k, r7.errs[0], r7.errs[1], c0, tot);
        std::string x = res_diff(r1, r7); if (!x.empty()) c.fail("frame %d (%d errors): the parameters sent as 7100 frame against 7200 frame: %s", k, tot, x.c_str());
        if (comparable) { rd.errs = r7.errs; rd.bits = r7.bits; x = res_diff(rd, r7); if (!x.empty()) c.fail("frame %d (%d errors): the parameters themselves against their 7200 frame: %s", k, tot, x.c_str()); }
        inval += r7.stat.find('R') != std::string::npos; if (trace.size() < 80) trace += r7.stat;
    }
    c.eval((uint64_t)n); c.nontrivial(); if (inval) c.cls("with invalid pitch values"); if (inval > 4) c.cls("with exhausted repeats"); if (counted) c.cls("with the same counted errors in both"); c.cls(dirty ? "with parity errors and junk in unused bits" : "clean frames");
    if (c.want_sample()) c.sample("%d frames: %s", n, trace.c_str());
}

// ---------------------------------------------------------------- P36
struct Capture {
    int mf, so[2]; const int fds[2] = {1, 2};
    Capture() { fflush(stdout); fflush(stderr); mf = memfd_create("cap", 0); for (int i = 0; i < 2; i++) { so[i] = dup(fds[i]); dup2(mf, fds[i]); } }
    std::string end() {
        fflush(stdout); fflush(stderr); for (int i = 0; i < 2; i++) { dup2(so[i], fds[i]); close(so[i]); } std::string o; char b[2048]; lseek(mf, 0, SEEK_SET); ssize_t k; while ((k = read(mf, b, sizeof b)) > 0) o.append(b, (size_t)k); close(mf); mf = -1; return o;
    }
    ~Capture() { if (mf >= 0) end(); }
};
static std::string digits(const std::string& s) { std::string o; for (char ch : s) if (!isspace((unsigned char)ch)) o += ch; return o; }
static std::string cells(const Frame& f, std::initializer_list<std::pair<int, int>> rows) { std::string s; for (auto& r : rows) for (int j = r.second - 1; j >= 0; j--) s += (char)('0' + f.at(r.first, j)); return s; }
static void dumps(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); std::string want, got; static const char* nm[] = {"4400 parameters", "7200 parameters", "7100 parameters", "7200 frame", "7100 frame"};
    int which = (int)t.below(5);
    if (which < 3) {
        char d[88], e[88]; gen::bits(t, d, 88); memcpy(e, d, 88); Capture cap;
        if (which == 0) L.mbe_dumpImbe4400Data(d); else if (which == 1) L.mbe_dumpImbe7200x4400Data(d); else L.mbe_dumpImbe7100x4400Data(d);
        got = cap.end(); for (char b : e) want += (char)('0' + b); if (memcmp(d, e, 88)) c.fail("printing the %s changes them", nm[which]);
    } else {
        int codec = which == 3 ? IMBE7200 : IMBE7100; Frame f = gen::noise_frame(t, codec), g = f; Capture cap;
        if (which == 3) L.mbe_dumpImbe7200x4400Frame((api::F8)g.b); else L.mbe_dumpImbe7100x4400Frame((api::F7)g.b);
        got = cap.end(); if (memcmp(f.b, g.b, (size_t)(shape(codec).rows * f.cols))) c.fail("printing the %s changes it", nm[which]);
        want = which == 3 ? cells(f, {{0, 23}, {1, 23}, {2, 23}, {3, 23}, {4, 15}, {5, 15}, {6, 15}, {7, 7}}) : cells(f, {{0, 19}, {1, 24}, {2, 23}, {3, 23}, {4, 15}, {5, 15}, {6, 23}});
    }
    if (digits(got) != want) c.fail("%s %s are printed as \"%s\"", nm[which], want.c_str(), got.c_str());
    c.eval(); if (want.find('1') != std::string::npos) c.nontrivial(); c.cls(nm[which]); if (c.want_sample()) c.sample("%s: %s", nm[which], got.c_str());
}
static unsigned control_state(int* round) {
    *round = fegetround(); unsigned m = _mm_getcsr() & 0xffc0u; unsigned short cw; asm volatile("fnstcw %0" : "=m"(cw)); return m | (unsigned)cw << 16;
}
static void silent(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); Prog p = program(t, 2, 8); Trip tr; int r0, r1; std::string out;
    // the caller may run with a floating-point environment of its own
    unsigned def = _mm_getcsr(); int env = (int)t.below(3), rm[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; static const char* en[] = {"default environment", "flush-to-zero set by the caller", "rounding mode set by the caller"};
    struct Env { unsigned m; ~Env() { fesetround(FE_TONEAREST); _mm_setcsr(m); } } restore{def};
    if (env == 1) _mm_setcsr(def | (t.chance(1, 2) ? 0x8040u : t.chance(1, 2) ? 0x8000u : 0x40u)); else if (env == 2) fesetround(rm[1 + t.below(3)]);
    c.cls(en[env]); unsigned a = control_state(&r0);
    // caller buffers fenced by sentinels; every call of the public interface that does not print
    struct { char pre[32]; char es[64]; char mid[32]; } buf; memset(&buf, 0x5a, sizeof buf); mbe_parms m1, m2, m3; float o[160]; short s[160]; char ver[64]; std::string trace; unsigned b;
    {
        Capture cap; init(L, tr); L.mbe_setThreadRngSeed(p.seed);
        for (const Step& st : p.st) { Res r = one(L, p.codec, p.frame, p.sh, st, tr); if (trace.size() < 80) trace += r.stat; }
        L.mbe_initMbeParms(&m1, &m2, &m3); gen::model(t, m1, -2, 9); L.mbe_spectralAmpEnhance(&m1); L.mbe_applyAdaptiveSmoothing(&m1, &m2); L.mbe_synthesizeSpeechf(o, &m1, &m2, 3); L.mbe_synthesizeSpeech(s, &m1, &m2, 3);
        L.mbe_moveMbeParms(&m1, &m2); L.mbe_useLastMbeParms(&m2, &m1); char d[88]; memset(d, 0, 88); gen::frame_bits(t, AMBE2450, gen::ANY, d); L.mbe_synthesizeTonef(o, d, &m1); L.mbe_synthesizeTonefdstar(o, d, &m1, (int)t.below(256)); L.mbe_synthesizeSilencef(o); L.mbe_synthesizeSilence(s);
        L.mbe_synthesizeComfortNoisef(o); L.mbe_synthesizeComfortNoise(s); L.mbe_floattoshort(o, s); L.mbe_requiresMuting(&m1); L.mbe_requiresAdaptiveSmoothing(&m1); L.mbe_isMaxFrameRepeat(&m1); L.mbe_versionString(); L.mbe_printVersion(ver);
        for (int codec = 0; codec < 4; codec++) { char e[88]; memset(e, 0, 88); Frame f = gen::noise_frame(t, codec); api::ecc_c0(L, codec, f); api::demod(L, codec, f); api::ecc_data(L, codec, f, e); if (codec == IMBE7100) L.mbe_convertImbe7100to7200(e); mbe_parms x = m1, y = m2; api::decode(L, codec, e, &x, &y); }
        // helper calls on extreme but representable values: all-zero, tiny and huge spectra, loud and infinite samples, any tone
        for (int z = t.range(1, 4); z > 0; z--) {
            static const float amp[] = {0.0f, 1e-44f, 1e-38f, 1e-20f, 1e-7f, 1.0f, 3e4f, 1e9f}; float g = amp[t.below(8)]; int only = t.chance(1, 3) ? t.range(1, 56) : 0;
            L.mbe_initMbeParms(&m1, &m2, &m3); gen::model(t, m1, -2, 9); for (int l = 0; l < 57; l++) { m1.Ml[l] = only && l != only ? 0.0f : t.chance(1, 2) ? g : m1.Ml[l] * g; if (t.chance(1, 4)) m1.Vl[l] = t.chance(1, 2); }
            L.mbe_spectralAmpEnhance(&m1); if (t.chance(1, 2)) { m1.errorRate = some_rate(t); m1.errorCountTotal = t.range(0, 15); m1.errorCount4 = t.range(0, 3); } m1.repeatCount = t.chance(1, 6) ? 4 : 0; L.mbe_applyAdaptiveSmoothing(&m1, &m2);
            if (t.chance(1, 2)) L.mbe_synthesizeSpeechf(o, &m1, &m2, 3); else L.mbe_synthesizeSpeech(s, &m1, &m2, 3);
            static const float lv[] = {0.0f, 1e-40f, 1.0f, 4000.0f, 4448.0f, 4600.0f, 9000.0f, 20000.0f, 1e6f, 3e38f, INFINITY}; float lo = lv[t.below(11)], hi = lv[t.below(11)];
            for (int i = 0; i < 160; i++) o[i] = t.chance(1, 2) ? hi * (float)(1 + t.below(100)) / 100.0f : -lo * (float)(1 + t.below(100)) / 100.0f;
            L.mbe_floattoshort(o, s);
            char td[88]; memset(td, 0, 88); gen::frame_bits(t, AMBE2450, gen::ANY, td); td[0] = td[1] = td[2] = td[3] = td[4] = td[5] = 1; m1.swn = (int)t.u32(); m1.un = (int)t.u32(); L.mbe_synthesizeTonef(o, td, &m1); L.mbe_synthesizeTonefdstar(o, td, &m1, (int)t.below(256));
        }
        b = control_state(&r1); out = cap.end();
    }
    if (!out.empty()) c.fail("%s %s stream (%s) and the helper calls print \"%.200s\"", CODEC_NAME[p.codec], p.frame ? "channel" : "parameter", trace.c_str(), out.c_str());
    if (a != b || r0 != r1) c.fail("%s stream (%s): floating-point control state %08x becomes %08x, rounding mode %d becomes %d", CODEC_NAME[p.codec], trace.c_str(), a, b, r0, r1);
    c.eval(p.st.size()); c.nontrivial(); c.cls(CODEC_NAME[p.codec]); if (interesting(trace)) c.cls("with repeats, mutes, tones or erasures"); if (c.want_sample()) c.sample("%s: %s", CODEC_NAME[p.codec], trace.c_str());
}

// ---------------------------------------------------------------- P37
// A stream that changes its place in memory, its thread and its process between frames.
static void migrate(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); Prog p = program(t, 3, c.thorough ? 16 : 9); Trip x; std::vector<Res> A; reset_hidden(L, 5); init(L, x);
    for (size_t k = 0; k < p.st.size(); k++) { L.mbe_setThreadRngSeed(p.seed + (uint32_t)k); A.push_back(one(L, p.codec, p.frame, p.sh, p.st[k], x)); A.back().end = x; }
    reset_hidden(L, 9); std::unique_ptr<Trip> cur(new Trip); L.mbe_setThreadRngSeed(p.seed); init(L, *cur); std::string how, err; size_t moves = 0;
    for (size_t k = 0; k < p.st.size(); k++) {
        int h = (int)t.below(5); how += (char)('0' + h); if (h) moves++;
        uint32_t other = t.u32(); int oc = (int)t.below(4); auto go = [&](Trip& tr) { L.mbe_setThreadRngSeed(p.seed + (uint32_t)k); Res r = one(L, p.codec, p.frame, p.sh, p.st[k], tr); r.end = tr; return r; };
        Res r;
        if (h == 0) r = go(*cur);
        else if (h == 1) { std::unique_ptr<Trip> n(new Trip(*cur)); memset((void*)cur.get(), 0xa5, sizeof(Trip)); cur = std::move(n); r = go(*cur); }                                  // other place, old place destroyed
        else if (h == 2) { std::thread th([&]() { r = go(*cur); }); th.join(); }                                                                                            // fresh thread
        else if (h == 3) { std::thread th([&]() { Trip z; reset_hidden(L, other); init(L, z); Prog q; Step s; Tape tt((const uint8_t*)&other, 4); s = next_frame(tt, oc, 0, gen::VOICE, true); one(L, oc, true, false, s, z); Trip w = *cur; r = go(w); *cur = w; }); th.join(); }   // a thread that has been decoding something else
        else {                                                                                                                                                                // fields copied one structure at a time, in separate objects
            mbe_parms a = cur->cur, b = cur->prev, e = cur->enh; Trip w; memset(&w, 0x77, sizeof w); L.mbe_moveMbeParms(&a, &w.cur); L.mbe_moveMbeParms(&b, &w.prev); L.mbe_useLastMbeParms(&w.enh, &e); r = go(w); *cur = w;
        }
        std::string d = res_diff(r, A[k]); if (!d.empty()) c.fail("%s %s stream, frame %zu (moves %s): %s", CODEC_NAME[p.codec], p.frame ? "channel" : "parameter", k, how.c_str(), d.c_str());
    }
    c.eval(p.st.size()); if (moves > 1) c.nontrivial(); c.cls(CODEC_NAME[p.codec]); if (c.want_sample()) c.sample("%s, %zu frames, moves %s: %s", CODEC_NAME[p.codec], p.st.size(), how.c_str(), A.back().stat.c_str());
}

static bool noise_level(const Res& r) { double lim = 0.003 * 32767 / 7 * 1.0001; for (float f : r.f) if (fabs(f) > lim) return false; for (short q : r.s) if (abs(q) > 7 * lim) return false; return true; }

// ---------------------------------------------------------------- P38
// Three streams with the same pitch, voicing, phases and noise; the third has the weighted sum of the others' amplitudes.
static void linear(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); reset_hidden(L, 5); static mbe_parms prev[3], cur[3]; int n = t.range(1, c.thorough ? 10 : 5);
    double w[2] = {t.chance(1, 3) ? exp2((int)t.below(13) - 8) : t.real(0, 1), t.chance(1, 3) ? 0 : t.real(0, 1)}; int kind = (int)t.below(5), used = 0;   // kind 2, 3: X and Y are disjoint sets of bands, or voiced against unvoiced bands
    mbe_parms m; model::init_fields(m, t.chance(1, 2)); gen::model(t, m, -4, 4); gen::noise_state(t, m); double uw = 0; for (float& v : m.previousUw) { v *= 0.05f; uw = fmax(uw, fabs(v)); }
    double hist = 0; bool loud = t.chance(1, 5);
    auto set = [&](mbe_parms* q, const mbe_parms& base, bool hist_too) {
        int strong[2] = {t.range(1, base.L), t.range(1, base.L)}, weak = t.range(1, base.L), pat = (int)t.below(3); double lo = exp2(-(double)t.range(0, 14));   // kind 4: few strong bands in one set, one weak band in the other
        if (pat == 1) { strong[0] = weak - 1; strong[1] = weak + 1; } else if (pat == 2) strong[0] = weak - 1;
        for (int l = 1; l <= 56; l++) {
            double x, y; bool in = kind == 2 ? t.chance(1, 2) : base.Vl[l] == 1;
            if (kind == 4) { x = l == weak ? lo * 16 : 0; y = l == strong[0] || l == strong[1] ? base.Ml[l] * 16 : 0; } else if (kind >= 2) { x = in ? base.Ml[l] : 0; y = in ? 0 : base.Ml[l]; } else { x = base.Ml[l]; y = t.chance(1, 6) ? 0 : exp2(t.real(-4, 4)); }
            q[0].Ml[l] = (float)x; q[1].Ml[l] = (float)y; q[2].Ml[l] = (float)(w[0] * x + w[1] * y);
        }
        if (loud) {   // a few bands as strong as a talker's loudest, the sum still below the level at which amplitudes are scaled down
            int nb = t.range(1, 3); double want = exp2(t.real(6, 14)) / nb / fmax(1, w[0] + w[1]);
            for (int i = 0; i < nb; i++) { int l = t.range(1, base.L); double g = want * t.real(0.5, 1) / fmax(1e-3, fmax(q[0].Ml[l], q[1].Ml[l])); if (g < 1) continue; for (int j = 0; j < 2; j++) q[j].Ml[l] = (float)(q[j].Ml[l] * g); q[2].Ml[l] = (float)(w[0] * (double)q[0].Ml[l] + w[1] * (double)q[1].Ml[l]); }
        }
        if (hist_too) for (int i = 0; i < 256; i++) { q[0].previousUw[i] = base.previousUw[i]; q[1].previousUw[i] = base.previousUw[255 - i]; q[2].previousUw[i] = (float)(w[0] * q[0].previousUw[i] + w[1] * q[1].previousUw[i]); }
    };
    for (auto& q : prev) q = m; set(prev, m, true);
    for (int k = 0; k < n; k++) {
        mbe_parms g; gen::model(t, g, -4, 4); int pm = (int)t.below(3); if (pm) { g.w0 = pm == 1 ? prev[0].w0 : (float)(prev[0].w0 * t.real(0.9, 1.12)); if (g.w0 * prev[0].L > M_PI * 1.1 && g.w0 > 0.35) g.w0 = prev[0].w0; g.L = prev[0].L; g.K = prev[0].K; }
        for (int j = 0; j < 3; j++) { cur[j] = prev[j]; cur[j].w0 = g.w0; cur[j].L = g.L; cur[j].K = g.K; memcpy(cur[j].Vl, g.Vl, sizeof g.Vl); cur[j].errorRate = (float)t.real(0, 0.0049); cur[j].errorCountTotal = (int)t.below(5); cur[j].repeatCount = 0; }
        set(cur, g, false); float f[3][160]; double amp = uw, pk = 0;
        for (int j = 0; j < 3; j++) { for (int l = 1; l <= 56; l++) amp += 2.0 * (l <= prev[j].L ? prev[j].Ml[l] : 0) + 2.0 * (l <= cur[j].L ? cur[j].Ml[l] : 0); L.mbe_synthesizeSpeechf(f[j], &cur[j], &prev[j], 3); for (float v : f[j]) pk = fmax(pk, fabs(v)); }
        bool clipped = pk > rs::CLIP * 0.999; double tol = 1e-5 * (amp + hist + 1e-3); hist = 0; for (int j = 0; j < 3; j++) for (float v : cur[j].previousUw) hist = fmax(hist, fabs(v));
        if (memcmp(cur[0].PHIl + 1, cur[2].PHIl + 1, 56 * 4) || memcmp(cur[0].PSIl + 1, cur[1].PSIl + 1, 56 * 4) || memcmp(cur[0].PSIl + 1, cur[2].PSIl + 1, 56 * 4)) c.fail("frame %d: phases depend on the amplitudes", k);
        if (cur[0].noiseSeed != cur[2].noiseSeed || memcmp(cur[0].noiseOverlap, cur[2].noiseOverlap, sizeof cur[0].noiseOverlap)) c.fail("frame %d: the noise sequence depends on the amplitudes", k);
        if (!clipped) for (int i = 0; i < 160; i++) { double e = w[0] * f[0][i] + w[1] * f[1][i]; if (fabs(f[2][i] - e) > tol) c.fail("frame %d of %d, %d harmonics, pitch %.5f after %.5f: sample %d of the weighted sum (%.4g, %.4g) is %.7g, expected %.7g (from %.7g and %.7g)", k, n, cur[0].L, cur[0].w0, prev[0].w0, i, w[0], w[1], f[2][i], e, f[0][i], f[1][i]); }
        for (int i = 0; i < 256; i++) { double e = w[0] * cur[0].previousUw[i] + w[1] * cur[1].previousUw[i]; if (fabs(cur[2].previousUw[i] - e) > 1e-5 * (amp + hist)) c.fail("frame %d: noise component %d of the weighted sum is %.7g, expected %.7g", k, i, cur[2].previousUw[i], e); }
        used += !clipped; for (int j = 0; j < 3; j++) prev[j] = cur[j];
    }
    c.eval((uint64_t)n); if (used) c.nontrivial(); static const char* kn[] = {"weighted sum", "weighted sum", "disjoint bands", "voiced bands and noise bands", "one weak and few strong bands"}; c.cls(kn[kind]); if (n > 1) c.cls("over several frames"); if (loud) c.cls("loud bands"); if (c.want_sample()) c.sample("%d frames, weights %.4g and %.4g, %s", n, w[0], w[1], kn[kind]);
}

// ---------------------------------------------------------------- P39
// Two decodings of one stream under different random seeds.
static void seeds(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); Prog p = program(t, 1, c.thorough ? 24 : 12); p.sh = t.chance(1, 4); Trip x, y; init(L, x); init(L, y); bool often = t.chance(1, 2); std::string trace; size_t differ = 0;
    if (t.chance(1, 3)) { model::init_all(x, is_ambe(p.codec)); gen::model(t, x.prev, -2, 9); gen::model(t, x.enh, -2, 9); x.cur = x.prev; y = x; }
    reset_hidden(L, 1 + t.u32()); uint32_t s1 = gen::some_seed(t), s2 = t.chance(1, 4) ? s1 + 1 : t.u32();
    int low = std::min(x.cur.L, std::min(x.prev.L, x.enh.L)); std::vector<Res> A, B; std::vector<Trip> SA, SB;
    for (int pass = 0; pass < 2; pass++) {
        Trip& z = pass ? y : x; reset_hidden(L, pass ? s2 : s1); L.mbe_setThreadRngSeed(pass ? s2 : s1); size_t k = 0;
        for (const Step& st : p.st) { if (often) L.mbe_setThreadRngSeed((pass ? s2 : s1) + (uint32_t)k++); (pass ? B : A).push_back(one(L, p.codec, p.frame, p.sh, st, z)); (pass ? SB : SA).push_back(z); }
    }
    for (size_t k = 0; k < p.st.size(); k++) {
        Res u = A[k], v = B[k]; if (trace.size() < 80) trace += u.stat; int id = 0; for (int i = 12; i < 20; i++) id = id << 1 | (p.st[k].in.d[i] & 1);
        char ctx[160]; snprintf(ctx, sizeof ctx, "%s %s stream, frame %zu (status %s), seeds %u and %u", CODEC_NAME[p.codec], p.frame ? "channel" : "parameter", k, u.stat.c_str(), s1, s2);
        bool same_audio = res_diff(u, v).empty(); differ += !same_audio;
        bool exact = p.codec == AMBE2450 && u.stat.find('T') != std::string::npos && u.stat.find_first_of("RM") == std::string::npos && ((id >= 5 && id <= 122) || (id >= 128 && id <= 163)); u.end = SA[k]; v.end = SB[k];
        if (exact && !same_audio) c.fail("%s: a tone depends on the seed: %s", ctx, res_diff(v, u).c_str());
        if (u.stat.find('M') != std::string::npos && !(noise_level(u) && noise_level(v))) c.fail("%s: a muted frame is louder than comfort noise", ctx);
        low = std::min(low, std::min(SA[k].cur.L, std::min(SA[k].prev.L, SA[k].enh.L)));
        u.f = v.f; u.s = v.s; for (auto q : {&Trip::cur, &Trip::prev, &Trip::enh}) {   // what the noise may influence
            mbe_parms &a = u.end.*q, &b = v.end.*q; memcpy(b.noiseOverlap, a.noiseOverlap, sizeof a.noiseOverlap); if ((a.noiseSeed < 0) == (b.noiseSeed < 0)) b.noiseSeed = a.noiseSeed; memcpy(b.previousUw, a.previousUw, sizeof a.previousUw); for (int l = low / 4 + 1; l <= 56; l++) b.PHIl[l] = a.PHIl[l];
        }
        std::string d = res_diff(v, u); if (!d.empty()) c.fail("%s: %s", ctx, d.c_str());
    }
    c.eval(p.st.size()); if (differ) c.nontrivial(); c.cls(CODEC_NAME[p.codec]); c.cls(often ? "reseeded before every frame" : "seeded once"); if (interesting(trace)) c.cls("with repeats, mutes, tones or erasures"); if (c.want_sample()) c.sample("%s, %zu frames, %zu with other noise: %s", CODEC_NAME[p.codec], p.st.size(), differ, trace.c_str());
}

Property* find_property(const std::string& id) {
    static Property p; golay_nearest();
    if (id == "P34") p = {"P34", "at least two channel bits are flipped", {{"damaged against undamaged", inaudible, 120000, 1500000}}};
    else if (id == "P35") p = {"P35", "every case compares at least one frame in three forms", {{"three forms", formats, 120000, 1500000}}};
    else if (id == "P36") p = {"P36", "a dump of data that is not all zero; every decoded stream", {{"dumps", dumps, 40000, 200000}, {"silence", silent, 60000, 400000}}};
    else if (id == "P37") p = {"P37", "the stream moves at least twice", {{"moving streams", migrate, 90000, 400000}}};
    else if (id == "P38") p = {"P38", "at least one frame below the clipping level", {{"weighted sums", linear, 150000, 1500000}}};
    else if (id == "P39") p = {"P39", "the seeds made a difference to the audio of a frame", {{"two seeds", seeds, 150000, 1000000}}};
    else return nullptr;
    return &p;
}
