// P12-P15, P30, P31: what one received frame does to the decoder, and histories of frames.
#include "model.hpp"
using namespace pbt;
using namespace ref;

static bool near(double a, double b, double rel, double abs_) { return fabs(a - b) <= rel * fmax(fabs(a), fabs(b)) + abs_; }

// Empty string: the same state.  `which` names the structure in the message.
static std::string state_diff(const char* which, const mbe_parms& a, const mbe_parms& b, double rel = 2e-5) {
    char m[300];
#define FI(f) if (a.f != b.f) { snprintf(m, sizeof m, "%s." #f " is %d, expected %d", which, (int)a.f, (int)b.f); return m; }
#define FF(f) if (!near(a.f, b.f, rel, 1e-7)) { snprintf(m, sizeof m, "%s." #f " is %.9g, expected %.9g", which, (double)a.f, (double)b.f); return m; }
    FI(L) FI(K) FI(repeat) FI(repeatCount) FI(errorCountTotal) FI(errorCount4) FI(amplitudeThreshold) FI(swn) FI(un)
    FF(w0) FF(gamma) FF(errorRate) FF(mutingThreshold) FF(localEnergy) FF(noiseSeed)
#undef FI
#undef FF
    for (int l = 1; l <= 56; l++) {
        if (l <= a.L) {
            if (a.Vl[l] != b.Vl[l]) { snprintf(m, sizeof m, "%s: voicing of harmonic %d is %d, expected %d", which, l, a.Vl[l], b.Vl[l]); return m; }
            if (!near(a.Ml[l], b.Ml[l], rel, 1e-7)) { snprintf(m, sizeof m, "%s: amplitude of harmonic %d is %.8g, expected %.8g", which, l, a.Ml[l], b.Ml[l]); return m; }
            if (!near(a.log2Ml[l], b.log2Ml[l], rel, 2e-5)) { snprintf(m, sizeof m, "%s: log amplitude of harmonic %d is %.8g, expected %.8g", which, l, a.log2Ml[l], b.log2Ml[l]); return m; }
        }
        if (!near(a.PHIl[l], b.PHIl[l], rel, 1e-3)) { snprintf(m, sizeof m, "%s: phase of harmonic %d is %.8g, expected %.8g", which, l, a.PHIl[l], b.PHIl[l]); return m; }
        double dp = fabs((double)a.PSIl[l] - b.PSIl[l]); dp = fmin(dp, fabs(dp - 2 * M_PI));
        if (dp > 1e-3 + rel * fabs(b.PSIl[l])) { snprintf(m, sizeof m, "%s: continuity phase of harmonic %d is %.8g, expected %.8g", which, l, a.PSIl[l], b.PSIl[l]); return m; }
    }
    for (int i = 0; i < 96; i++) if (a.noiseOverlap[i] != b.noiseOverlap[i]) { snprintf(m, sizeof m, "%s: noise history sample %d is %g, expected %g", which, i, a.noiseOverlap[i], b.noiseOverlap[i]); return m; }
    double pk = 0; for (int i = 0; i < 256; i++) pk = fmax(pk, fabs(b.previousUw[i]));
    for (int i = 0; i < 256; i++) if (!(fabs(a.previousUw[i] - b.previousUw[i]) <= 1e-3 * pk + 1e-5)) { snprintf(m, sizeof m, "%s: unvoiced history sample %d is %g, expected %g", which, i, a.previousUw[i], b.previousUw[i]); return m; }
    return "";
}
static std::string audio_diff(const float* a, const float* b) {
    double pk = 0; for (int i = 0; i < 160; i++) pk = fmax(pk, fabs(b[i]));
    for (int i = 0; i < 160; i++) if (!(fabs((double)a[i] - b[i]) <= 1e-3 * pk + 1e-3)) { char m[160]; snprintf(m, sizeof m, "sample %d is %g, expected %g (peak %g)", i, a[i], b[i], pk); return m; }
    return "";
}

// A stream position to start from: fresh, after frames of this or another codec, or a constructed one.
static void start_state(Tape& t, Lib& L, int codec, Trip& tr, Case& c) {
    init(L, tr);
    int how = (int)t.below(6);
    if (how == 0) { c.cls("start: fresh"); return; }
    if (how == 1) {   // state left behind by another codec
        int other = (int)t.below(4); int n = t.range(1, 3);
        for (int i = 0; i < n; i++) { char d[88], s[64]; float o[160]; gen::frame_bits(t, other, gen::VOICE, d); api::data_f(L, other, o, 0, (int)t.below(3), s, d, tr); }
        c.cls("start: other codec's state"); return;
    }
    if (how == 2) { // this codec, a few frames
        int n = t.range(1, 4);
        for (int i = 0; i < n; i++) { char d[88], s[64]; float o[160]; gen::frame_bits(t, codec, gen::VOICE, d); api::data_f(L, codec, o, 0, (int)t.below(3), s, d, tr); }
        c.cls("start: running stream"); return;
    }
    // constructed: plausible model with chosen error and repeat history
    bool ambe = is_ambe(codec);
    model::init_all(tr, ambe);
    gen::model(t, tr.prev, -2, 9); gen::noise_state(t, tr.prev);
    tr.prev.errorRate = (float)(t.chance(1, 3) ? t.real(0, 0.02) : t.real(0, 0.13));
    tr.prev.repeat = tr.prev.repeatCount = (int)t.below(6); if (tr.prev.repeat > 3 && ambe) tr.prev.repeat = 3;
    if (t.chance(1, 3)) tr.prev.repeat = tr.prev.repeatCount = 0;
    if (t.chance(1, 12)) tr.prev.errorRate = (float)t.real(0.1, 1);
    tr.prev.localEnergy = (float)exp2(t.real(13, 20)); tr.prev.amplitudeThreshold = 6000 + (int)t.below(40000);
    tr.cur = tr.prev; gen::model(t, tr.enh = tr.prev, -2, 9);
    tr.enh.localEnergy = (float)exp2(t.real(13, 20)); tr.enh.amplitudeThreshold = 6000 + (int)t.below(40000);
    if (t.chance(1, 2)) { tr.enh.errorRate = (float)t.real(0, 0.13); tr.enh.errorCountTotal = (int)t.below(16); tr.enh.errorCount4 = (int)t.below(4); tr.enh.repeat = tr.enh.repeatCount = (int)t.below(6); tr.enh.mutingThreshold = (float)t.real(0.01, 0.2); }   // statistics of the enhanced set do not matter
    tr.cur.swn = tr.prev.swn = (int)t.u32(); tr.cur.un = tr.prev.un = (int)t.u32();
    tr.prev.errorCount4 = (int)t.below(4); tr.prev.errorCountTotal = (int)t.below(16);
    if (t.chance(1, 3)) { mbe_parms x; gen::extras(t, x); mbe_parms& u = tr.cur; u.errorRate = x.errorRate; u.errorCountTotal = x.errorCountTotal; u.errorCount4 = x.errorCount4; u.repeat = x.repeat; u.repeatCount = x.repeatCount; u.mutingThreshold = x.mutingThreshold; u.localEnergy = x.localEnergy; u.amplitudeThreshold = x.amplitudeThreshold; }   // what the last frame's working set held does not matter
    c.cls("start: constructed");
}

static const char* what_name(char w) {
    switch (w) { case 'V': return "frame: voice"; case 'E': return "frame: erasure"; case 'T': return "frame: tone"; case 'I': return "frame: invalid tone, voice continued";
        case 'J': return "frame: invalid tone, reset"; case 'R': return "frame: repeat"; case 'M': return "frame: muted"; case 'H': return "frame: headroom reset"; default: return "frame: unusable, reset"; }
}

static Lib& pick(Tape& t, Case& c) { bool v = t.chance(1, 4); c.cls(v ? "build: SIMD" : "build: scalar"); return lib(v ? "simd" : "scalar"); }

// The one place where the IMBE repeat threshold 10 + 40 * rate is a whole number that a frame can reach and that
// every precision evaluates alike: 15 errors at a rate of exactly 1/8.
static bool exactly_at_threshold(Tape& t, Step& s, Trip& tr) {
    memset(s.in.d, 0, 88); gen::frame_bits(t, IMBE7200, gen::VOICE, s.in.d); s.f = gen::channel(t, IMBE7200, s.in.d, false);
    for (int r = 0; r < 4; r++) model::hit(t, s.f, r, 0, 11, 22, 3, true);
    for (int r = 4; r < 7; r++) s.f.at(r, (int)t.below(15)) ^= 1;
    Decoded x = frame_decode(IMBE7200, s.f); s.in.c0 = x.c0; s.in.total = x.total; s.in.c4 = x.c4; memcpy(s.in.d, x.d, 88);
    if (s.in.total != 15 || s.in.c0 < 2) return false;
    float best = 0, p = (float)((0.125 - 15 * (double)0.000365f) / 0.95f); double err = 1;
    for (int k = 0; k < 8; k++) p = nextafterf(p, 0);
    for (int k = 0; k < 16; k++, p = nextafterf(p, 1)) { double r = (double)0.95f * p + (double)(0.000365f * 15.0f); if (0.95f * p + 0.000365f * 15.0f == 0.125f && fabs(r - 0.125) < err) { err = fabs(r - 0.125); best = p; } }
    if (err > 3e-9) return false;
    tr.prev.errorRate = best; return true;
}

template <int CODEC, bool LONG> static void history(Case& c) {
    Tape& t = c.t; Lib& L = pick(t, c);
    int codec = CODEC == IMBE7200 && t.chance(1, 3) ? IMBE7100 : CODEC;
    bool form = !t.chance(1, 3), mixed = t.chance(1, 5), frame = form, sh = t.chance(1, 4);
    reset_hidden(L, 3);
    Trip tr; start_state(t, L, codec, tr, c);
    int n = LONG ? t.range(200, 1500) : t.range(1, c.thorough ? 24 : 10), special = 0;
    int mode = (int)t.below(6), bias = t.chance(1, 2) ? gen::VOICE : -1;
    std::string trace; uint64_t past = 0;
    for (int i = 0; i < n; i++) {
        if (t.chance(1, 4)) mode = (int)t.below(6);
        if (t.chance(1, 8)) bias = (int)t.below(7); else if (t.chance(1, 8)) bias = -1;
        if (mixed) frame = t.chance(1, 2);
        Step s = next_frame(t, codec, mode, bias, frame);
        uint32_t seed = gen::some_seed(t);
        if (CODEC == IMBE7200 && codec == IMBE7200 && frame && t.chance(1, 24) && exactly_at_threshold(t, s, tr)) c.cls("errors exactly at the repeat threshold");
        Trip m = tr; Frame f = s.f; float out[160]; char es[64], d[88]; int e = -1, e2 = -1;
        for (int k = 0; k < 160; k++) out[k] = 1e9f;
        short q[160]; memset(q, 0x55, sizeof q);
        L.mbe_setThreadRngSeed(seed);
        if (frame) { if (sh) api::frame_s(L, codec, q, &e, &e2, es, f, d, tr); else api::frame_f(L, codec, out, &e, &e2, es, f, d, tr); }
        else { e = s.in.c0; e2 = s.in.total; if (sh) api::data_s(L, codec, q, e, e2, es, s.in.d, tr); else api::data_f(L, codec, out, e, e2, es, s.in.d, tr); }
        Trip after = tr;
        L.mbe_setThreadRngSeed(seed);
        model::Out o = model::step(L, s.in, m);
        char ctx[700];
        snprintf(ctx, sizeof ctx, "%s %s frame %d of the history%s: bits %s, %d/%d corrected errors, repeat count before %d, error rate before %.5f", CODEC_NAME[codec], frame ? "channel" : "parameter",
                 i, trace.c_str(), bits_str(s.in.d, is_ambe(codec) ? 49 : 88).c_str(), s.in.c0, s.in.total, m.prev.repeatCount, m.prev.errorRate);
        if (frame && (e != s.in.c0 || e2 != s.in.total)) c.fail("%s: reports %d/%d errors", ctx, e, e2);
        if (o.s != es) c.fail("%s: status \"%s\", expected \"%s\"", ctx, es, o.s.c_str());
        if (o.exact) {
            std::string df = state_diff("current", after.cur, m.cur); if (df.empty()) df = state_diff("previous", after.prev, m.prev); if (df.empty()) df = state_diff("enhanced", after.enh, m.enh);
            if (!df.empty()) c.fail("%s, status \"%s\": state after the frame: %s", ctx, es, df.c_str());
            if (sh) { double pk = 0; for (float v : o.a) pk = fmax(pk, fabs(v)); for (int k = 0; k < 160; k++) { out[k] = q[k] / 7.0f; double w = fmax(-31128.0, fmin(31128.0, 7.0 * o.a[k])); if (!(fabs(q[k] - w) <= 1.01 + 7e-3 * pk)) c.fail("%s, status \"%s\": 16-bit sample %d is %d, expected %.1f", ctx, es, k, q[k], w); } }
            df = sh ? "" : audio_diff(out, o.a);
            if (!df.empty()) c.fail("%s, status \"%s\": audio %s", ctx, es, df.c_str());
        } else {
            if (after.cur.L != m.cur.L || after.cur.repeatCount != m.cur.repeatCount || after.cur.errorCountTotal != m.cur.errorCountTotal) c.fail("%s: tone pattern read as silence: %d harmonics, expected %d", ctx, after.cur.L, m.cur.L);
        }
        c.eval(); c.cls(what_name(o.what)); c.cls(sh ? "16-bit form" : "float form"); c.cls(frame ? "entry: channel frame" : "entry: parameter bits"); if (mixed) c.cls("entry: both forms in one history"); c.cls(model::err_mode_name(mode));
        if (o.what != 'V') special++;
        past = (past << 8 | (uint8_t)o.what) & 0xffffffff; c.feature(past); c.feature(((past & 0xffff) << 16 | (uint64_t)m.prev.repeatCount << 8 | (uint64_t)s.in.total) + 0x100000000ull * (uint64_t)(1 + (after.cur.errorRate > 0.0125f) + (after.cur.errorRate > 0.08f) + 3 * frame));
        if (trace.size() < 60) trace += o.s.empty() ? "." : o.s.substr(o.s.find_last_of('=') == std::string::npos ? 0 : o.s.find_last_of('=') + 1) + "/";
        tr = after;
    }
    if (special) c.nontrivial();
    if (c.want_sample()) c.sample("%s %s, %d frames: %s", CODEC_NAME[codec], frame ? "channel frames" : "parameter frames", n, trace.c_str());
}

// ---------------------------------------------------------------- P15 error statistics over a history
static void error_history(Case& c) {
    Tape& t = c.t; Lib& L = pick(t, c); int codec = (int)t.below(4); bool ambe = is_ambe(codec); bool frame = !t.chance(1, 3);
    reset_hidden(L, 9); Trip tr; init(L, tr);
    double k = ambe ? 0.001064 : 0.000365, rate = 0; int rep = 0, reps = 0; int mode = (int)t.below(5);
    int n = t.chance(1, 60) ? t.range(200, 900) : t.range(5, c.thorough ? 200 : 80); bool crossed = false;
    int sustained = t.chance(1, 3);      // many errors in every frame, but few in the first word: the rate climbs without repeats
    for (int i = 0; i < n; i++) {
        if (!sustained && t.chance(1, 6)) mode = (int)t.below(5);
        int dc = codec == IMBE7100 ? IMBE7200 : codec; char d[88]; memset(d, 0, 88);
        gen::frame_bits(t, dc, gen::VOICE, d);
        model::In in; in.codec = dc; in.frame = frame; Frame f; memset(&f, 0, sizeof f);
        float out[160]; char es[64], dd[88]; int e, e2;
        if (frame) {
            f = gen::channel(t, codec, d, false);
            if (!sustained) model::damage(t, codec, f, mode);
            else if (ambe) { model::hit(t, f, 1, 0, 11, 22, 3, true); if (codec == AMBE2450) model::hit(t, f, 0, 1, 12, 23, 2, true); }
            else { int lo = codec == IMBE7200 ? 1 : 2; if (codec == IMBE7100) model::hit(t, f, 1, 1, 12, 23, 3, true); for (int r = lo; r < 4; r++) model::hit(t, f, r, 0, 11, 22, 3, true); for (int r = 4; r < (codec == IMBE7200 ? 7 : 6); r++) f.at(r, (int)t.below(15)) ^= 1; }
            Decoded x = frame_decode(codec, f); memcpy(d, x.d, 88);
            in.c0 = x.c0; in.total = x.total; in.c4 = x.c4;
            api::frame_f(L, codec, out, &e, &e2, es, f, dd, tr);
        } else {
            in.total = sustained ? (ambe ? 3 : 5) : t.range(0, 3 * mode); in.c0 = 0; in.c4 = 0; e = 0; e2 = in.total;
            api::data_f(L, codec, out, e, e2, es, d, tr);
        }
        double nr = 0.95 * rate + k * in.total;
        bool again;
        Dec dec = ref_decode(dc, d, tr.prev, in.total);
        if (codec == AMBE2400) again = in.total > 3;
        else if (codec == AMBE2450) again = frame ? in.c0 >= 4 || (in.c0 >= 2 && in.total >= 6) : in.total > 3;
        else again = dec.ret == 1 || (frame ? in.c0 >= 2 && in.total >= 10 + 40 * nr : in.total > 5);
        if (!ambe && frame && in.c0 >= 2 && fabs(in.total - 10 - 40 * nr) < 1e-3) return;
        bool special = dec.ret != 0 && ambe;
        if (special) return;                       // damaged into a tone or erasure: covered by the frame properties
        bool muted_reset = false;
        int errs = in.total, c4 = in.frame && !ambe ? in.c4 : 0;
        if (again) {
            if (!ambe && rep >= 4) { rate = nr; rep = 0; }           // headroom reset keeps the updated statistics
            else { rep++; reps++; if (ambe && rep > 3) { muted_reset = true; rep = 0; rate = 0; errs = 0; c4 = 0; } else errs = -1; }   // a repeat carries the statistics of the repeated frame
        } else { rate = nr; rep = 0; }
        if (rate > 0.0125) crossed = true;
        if (!near(tr.cur.errorRate, rate, 1e-4, 1e-36)) c.fail("%s after %d frames: error rate %.8f, expected %.8f (frame had %d errors)", CODEC_NAME[codec], i + 1, tr.cur.errorRate, rate, in.total);
        if (errs >= 0 && (tr.cur.errorCountTotal != errs || tr.cur.errorCount4 != c4)) c.fail("%s: error counts %d/%d, expected %d/%d", CODEC_NAME[codec], tr.cur.errorCountTotal, tr.cur.errorCount4, errs, c4);
        if (tr.cur.repeatCount != rep && !muted_reset) c.fail("%s after %d frames: %d consecutive repeats, expected %d", CODEC_NAME[codec], i + 1, tr.cur.repeatCount, rep);
        rate = tr.cur.errorRate;
        // public predicates
        mbe_parms& p = tr.cur;
        bool mute = p.errorRate > p.mutingThreshold, smooth = p.errorRate > 0.0125f || p.errorCountTotal > 4, mx = p.repeatCount >= 4;
        if (fabs(p.mutingThreshold - (ambe ? 0.096 : 0.0875)) > 1e-6) c.fail("%s: muting threshold %g", CODEC_NAME[codec], p.mutingThreshold);
        if (!!L.mbe_requiresMuting(&p) != mute) c.fail("muting predicate %d at rate %g threshold %g", L.mbe_requiresMuting(&p), p.errorRate, p.mutingThreshold);
        if (!!L.mbe_isMaxFrameRepeat(&p) != mx) c.fail("repeat-limit predicate %d at %d repeats", L.mbe_isMaxFrameRepeat(&p), p.repeatCount);
        if (!!L.mbe_requiresAdaptiveSmoothing(&p) != smooth && fabs(p.errorRate - 0.0125) > 1e-7) c.fail("smoothing predicate %d at rate %g, %d errors", L.mbe_requiresAdaptiveSmoothing(&p), p.errorRate, p.errorCountTotal);
        // audible consequence: IMBE above the muting rate is replaced by comfort noise of bounded level and says so
        const char* q = strchr(es, 'M');
        bool expect_mute = muted_reset || (!ambe && (mx || (mute && !mx)));
        if (!!q != expect_mute) c.fail("%s: status \"%s\" at error rate %.5f, %d repeats", CODEC_NAME[codec], es, p.errorRate, p.repeatCount);
        if (q) { c.cls("muted frames"); for (int s = 0; s < 160; s++) if (!(fabs(out[s]) <= 0.003 * 32767 / 7 * 1.0001)) c.fail("muted frame: sample %d is %g, above the comfort-noise level", s, out[s]); }
        c.eval(3); c.cls(again ? "repeat frames" : "accepted frames"); if (rate > 0.0125) c.cls("error rate above the smoothing threshold");
        if (mute) c.cls("error rate above the muting threshold");
    }
    if (crossed || reps) c.nontrivial();
    if (c.want_sample()) c.sample("%s %s, %d frames, %d repeats, final error rate %.5f", CODEC_NAME[codec], frame ? "channel" : "parameter", n, reps, rate);
}
// histories with every kind of frame: the statistics alone, from a recursion of their own (independent of parameter values)
static void error_kinds(Case& c) {
    Tape& t = c.t; Lib& L = pick(t, c); int codec = (int)t.below(4); bool ambe = is_ambe(codec), plus = codec == AMBE2450, frame = !t.chance(1, 3);
    reset_hidden(L, 9); Trip tr; init(L, tr);
    float muting = 0.0875f; double k = ambe ? 0.001064 : 0.000365; int n = t.chance(1, 60) ? t.range(100, 600) : t.range(3, 16), mode = (int)t.below(6), bias = -1, special = 0;
    for (int i = 0; i < n; i++) {
        if (t.chance(1, 4)) mode = (int)t.below(6);
        if (t.chance(1, 3)) bias = (int)t.below(7); else if (t.chance(1, 3)) bias = -1;
        Step s = next_frame(t, codec, mode, bias, frame); Frame f = s.f; float out[160]; char es[64], d[88]; int e = s.in.c0, e2 = s.in.total, dc = s.in.codec;
        if (t.chance(1, 8)) tr.cur.errorRate = tr.prev.errorRate = tr.enh.errorRate = t.chance(1, 2) ? (float)exp2(-t.real(3, 110)) : (float)t.real(0, 0.2);
        if (ambe && fabs(muting - 0.096f) > 1e-6) { tr.prev.errorRate = 0; muting = 0.096f; }       // first AMBE frame: everything starts again
        mbe_parms p0 = tr.prev; Dec dec = ref_decode(dc, s.in.d, p0, s.in.total);
        if (frame) api::frame_f(L, codec, out, &e, &e2, es, f, d, tr); else api::data_f(L, codec, out, e, e2, es, s.in.d, tr);
        double rate = 0.95 * p0.errorRate + k * s.in.total;
        bool tone = ambe && (plus ? dec.ret == 7 : dec.ret >= 7), erasure = ambe && dec.ret == 2, first = tone && !plus && dec.ret <= 122 && s.in.c0 < 2 && s.in.total < 3;
        if (!ambe && frame && s.in.c0 >= 2 && fabs(s.in.total - 10 - 40 * rate) < 1e-3) return;
        char ctx[300]; snprintf(ctx, sizeof ctx, "%s %s frame %d: bits %s, %d/%d corrected errors, status \"%s\", rate before %.6f, repeats before %d", CODEC_NAME[codec], frame ? "channel" : "parameter", i, bits_str(s.in.d, ambe ? 49 : 88).c_str(), s.in.c0, s.in.total, es, p0.errorRate, p0.repeatCount);
        if (fabs(tr.cur.mutingThreshold - (ambe ? 0.096 : 0.0875)) > 1e-6) c.fail("%s: muting threshold %g", ctx, tr.cur.mutingThreshold);
        if (tone && plus) {   // tones are outside the voice recursion: the previous statistics stay unless the decoder is reset
            bool reset = !gen::valid_tone_id(model::tone_id2450(s.in.d)) && p0.repeatCount >= 4;
            double want = reset ? 0 : p0.errorRate; if (!near(tr.prev.errorRate, want, 1e-5, 1e-36)) c.fail("%s: error rate kept for the next frame is %.9g, expected %.9g", ctx, tr.prev.errorRate, want);
            special++; c.cls("tone");
        } else if (erasure || first || (dec.ret == 0 && !(plus ? (frame ? s.in.c0 >= 4 || (s.in.c0 >= 2 && s.in.total >= 6) : s.in.total > 3) : ambe ? s.in.total > 3 : frame ? s.in.c0 >= 2 && s.in.total >= 10 + 40 * rate : s.in.total > 5))) {
            if (!near(tr.prev.errorRate, rate, 1e-5, 1e-36)) c.fail("%s: error rate is %.9g, expected %.9g", ctx, tr.prev.errorRate, rate);
            if (tr.prev.errorCountTotal != s.in.total) c.fail("%s: error count is %d", ctx, tr.prev.errorCountTotal);
            if (!first && tr.prev.repeatCount != 0) c.fail("%s: %d repeats counted after an accepted frame", ctx, tr.prev.repeatCount);
            if (erasure || first) special++;
            c.cls(erasure ? "erasure" : first ? "tone" : "voice or silence");
        } else { c.cls("repeat or reset"); if (tr.prev.errorRate < 0 || tr.prev.repeatCount < 0 || tr.prev.repeatCount > p0.repeatCount + 1) c.fail("%s: statistics %g/%d", ctx, tr.prev.errorRate, tr.prev.repeatCount); }
        c.eval();
    }
    if (special) c.nontrivial();
    if (c.want_sample()) c.sample("%s %s, %d frames, %d tones or erasures, final rate %.6f", CODEC_NAME[codec], frame ? "channel" : "parameter", n, special, tr.prev.errorRate);
}
static void predicates(Case& c) {
    Tape& t = c.t; Lib& L = pick(t, c); mbe_parms p; model::init_fields(p, t.chance(1, 2));
    static const float R[] = {0, 0.0125f, 0.0875f, 0.096f, 1};
    for (int i = 0; i < 16; i++) {
        if (t.chance(1, 3)) p.mutingThreshold = (float)t.real(0, 0.2);
        // at a threshold, one representable value to either side of it, or anywhere
        float at = t.chance(1, 3) ? p.mutingThreshold : R[t.below(5)]; int side = t.range(-1, 1);
        p.errorRate = t.chance(3, 4) ? (side ? nextafterf(at, side < 0 ? -1.0f : 2.0f) : at) : (float)t.real(0, 0.2); p.errorCountTotal = t.range(0, 12); p.repeatCount = t.range(0, 8); p.repeat = t.range(0, 8);
        if (!!L.mbe_requiresMuting(&p) != (p.errorRate > p.mutingThreshold)) c.fail("muting predicate %d at rate %.9g threshold %g", L.mbe_requiresMuting(&p), p.errorRate, p.mutingThreshold);
        if (!!L.mbe_isMaxFrameRepeat(&p) != (p.repeatCount >= 4)) c.fail("repeat-limit predicate %d at %d repeats", L.mbe_isMaxFrameRepeat(&p), p.repeatCount);
        if (!!L.mbe_requiresAdaptiveSmoothing(&p) != (p.errorRate > 0.0125f || p.errorCountTotal > 4)) c.fail("smoothing predicate %d at rate %.9g, %d errors", L.mbe_requiresAdaptiveSmoothing(&p), p.errorRate, p.errorCountTotal);
        c.eval(3);
    }
    if (L.mbe_requiresMuting(nullptr) || L.mbe_isMaxFrameRepeat(nullptr) || L.mbe_requiresAdaptiveSmoothing(nullptr)) c.fail("a predicate holds for an absent parameter set");
    c.nontrivial();
    if (c.want_sample()) c.sample("last: rate %g, %d errors, %d repeats", p.errorRate, p.errorCountTotal, p.repeatCount);
}

// ---------------------------------------------------------------- P30 initialisation, copying, codec change
static void garbage(Tape& t, mbe_parms& p) {
    uint32_t s = t.u32(); unsigned char* b = (unsigned char*)&p;
    for (size_t i = 0; i < sizeof p; i++) { s = s * 1664525u + 1013904223u; b[i] = (unsigned char)(s >> 24); }
}
static void decode_some(Lib& L, int codec, Trip& tr, const std::vector<Step>& seq, bool frame, std::vector<float>& audio, std::string& stat) {
    for (const Step& s0 : seq) {
        float o[160]; char es[64], d[88]; int e = s0.in.c0, e2 = s0.in.total; Frame f = s0.f;
        if (frame) api::frame_f(L, codec, o, &e, &e2, es, f, d, tr); else api::data_f(L, codec, o, e, e2, es, s0.in.d, tr);
        audio.insert(audio.end(), o, o + 160); stat += es; stat += '|';
    }
}
// every field of a parameter set, bit for bit
static std::string copy_diff(const mbe_parms& x, const mbe_parms& y) {
#define F(f) if (memcmp(&x.f, &y.f, sizeof x.f)) return #f;
    F(w0) F(L) F(K) F(Vl) F(Ml) F(log2Ml) F(PHIl) F(PSIl) F(gamma) F(un) F(repeat) F(swn) F(localEnergy) F(amplitudeThreshold) F(errorRate) F(errorCountTotal) F(errorCount4) F(repeatCount) F(mutingThreshold) F(previousUw) F(noiseSeed) F(noiseOverlap)
#undef F
    return "";
}
static void init_case(Case& c) {
    Tape& t = c.t; Lib& L = pick(t, c);
    Trip a, fresh; int how = (int)t.below(3); int codec = (int)t.below(4), old = (int)t.below(4); bool frame = t.chance(1, 2);
    init(L, fresh);
    mbe_parms want; model::init_fields(want, false);
    // arbitrary previous contents
    if (how == 0) { garbage(t, a.cur); garbage(t, a.prev); garbage(t, a.enh); c.cls("from arbitrary memory"); }
    else {
        init(L, a); std::vector<Step> seq; int n = t.range(1, 6);
        for (int i = 0; i < n; i++) seq.push_back(next_frame(t, old, (int)t.below(6), -1, frame));
        std::vector<float> au; std::string st; decode_some(L, old, a, seq, frame, au, st); c.cls("from a used stream");
    }
    std::vector<Step> seq; int n = t.range(1, 5), mode = (int)t.below(6);
    for (int i = 0; i < n; i++) seq.push_back(next_frame(t, codec, mode, -1, frame));
    uint32_t seed = gen::some_seed(t);
    std::vector<float> a1, a2; std::string s1, s2;
    if (how < 2) {
        L.mbe_initMbeParms(&a.cur, &a.prev, &a.enh);
        const mbe_parms* ps[3] = {&a.cur, &a.prev, &a.enh}; static const char* nm[3] = {"current", "previous", "enhanced"};
        for (int i = 0; i < 3; i++) { std::string d = state_diff(nm[i], *ps[i], want); if (!d.empty()) c.fail("after initialisation: %s", d.c_str()); if (ps[i]->K != 12) c.fail("after initialisation: %s.K is %d", nm[i], ps[i]->K); for (int l = 1; l <= 56; l++) if (ps[i]->Ml[l] != 1 || ps[i]->Vl[l] || ps[i]->log2Ml[l]) c.fail("after initialisation: %s harmonic %d not at its default", nm[i], l); }
        // a re-initialised stream is a fresh stream
        reset_hidden(L, seed); L.mbe_setThreadRngSeed(seed); decode_some(L, codec, a, seq, frame, a1, s1);
    } else {
        // handing the state of an IMBE stream to an AMBE decoder starts a fresh AMBE stream
        codec = t.chance(1, 2) ? AMBE2400 : AMBE2450; old = t.chance(1, 2) ? IMBE7200 : IMBE7100;
        init(L, a); std::vector<Step> pre; int m = t.range(1, 5); for (int i = 0; i < m; i++) pre.push_back(next_frame(t, old, (int)t.below(6), -1, frame));
        std::vector<float> au; std::string st;
        if (t.chance(1, 2)) {   // the IMBE stream itself followed AMBE speech
            std::vector<Step> am; int ac = t.chance(1, 2) ? AMBE2400 : AMBE2450, k = t.range(1, 8); for (int i = 0; i < k; i++) am.push_back(next_frame(t, ac, (int)t.below(6), -1, frame));
            decode_some(L, ac, a, am, frame, au, st); pre.insert(pre.begin(), next_frame(t, old, 0, gen::VOICE, frame)); Frame& f0 = pre[0].f; char v[88]; memset(v, 0, 88); gen::frame_bits(t, IMBE7200, gen::VOICE, v); memcpy(pre[0].in.d, v, 88); pre[0].in.total = pre[0].in.c0 = 0; if (frame) f0 = gen::channel(t, old, v, false); c.cls("AMBE, IMBE, AMBE");
        }
        decode_some(L, old, a, pre, frame, au, st);
        seq.clear(); for (int i = 0; i < n; i++) seq.push_back(next_frame(t, codec, mode, -1, frame));
        reset_hidden(L, seed); L.mbe_setThreadRngSeed(seed); decode_some(L, codec, a, seq, frame, a1, s1); c.cls("AMBE after IMBE");
    }
    reset_hidden(L, seed); L.mbe_setThreadRngSeed(seed); decode_some(L, codec, fresh, seq, frame, a2, s2);
    if (s1 != s2) c.fail("%s: status %s on the re-used state, %s on a fresh one", CODEC_NAME[codec], s1.c_str(), s2.c_str());
    for (size_t i = 0; i < a1.size(); i += 160) { std::string d = audio_diff(&a1[i], &a2[i]); if (!d.empty()) c.fail("%s: a re-initialised stream differs from a fresh one in frame %zu: %s", CODEC_NAME[codec], i / 160, d.c_str()); }
    { const mbe_parms* p1[3] = {&a.cur, &a.prev, &a.enh}; const mbe_parms* p2[3] = {&fresh.cur, &fresh.prev, &fresh.enh}; static const char* nm[3] = {"current", "previous", "enhanced"};
      for (int i = 0; i < 3; i++) { std::string d = state_diff(nm[i], *p1[i], *p2[i]); if (!d.empty()) c.fail("%s: after %d frames on the re-used state (%s) it differs from a fresh stream: %s", CODEC_NAME[codec], n, s1.c_str(), d.c_str()); } }
    // copies
    mbe_parms x, y; if (t.chance(1, 3)) garbage(t, x); else x = t.chance(1, 2) ? a.cur : a.enh; garbage(t, y); mbe_parms x0 = x; L.mbe_moveMbeParms(&x, &y);
    if (memcmp(&x, &x0, sizeof x)) c.fail("copying modified its source");
    std::string d = copy_diff(x, y); if (!d.empty()) c.fail("a copied parameter set is not complete: %s differs", d.c_str());
    garbage(t, y); L.mbe_useLastMbeParms(&y, &x);
    if (memcmp(&x, &x0, sizeof x)) c.fail("reusing the last parameter set modified its source");
    d = copy_diff(x, y); if (!d.empty()) c.fail("reusing the last parameter set is not a complete copy: %s differs", d.c_str());
    c.eval(4); c.nontrivial(); c.cls(CODEC_NAME[codec]);
    if (c.want_sample()) c.sample("%s, %d frames after re-initialisation: %s", CODEC_NAME[codec], n, s1.c_str());
}

// ---------------------------------------------------------------- P31 recovery
static void recovery(Case& c) {
    Tape& t = c.t; Lib& L = pick(t, c); int codec = (int)t.below(4), dc = codec == IMBE7100 ? IMBE7200 : codec; bool ambe = is_ambe(codec), sh = t.chance(1, 4), form = !t.chance(1, 4);   // form: whole frames, else parameter bits with the caller's error count
    reset_hidden(L, 11); Trip A, B; init(L, A); init(L, B);
    int lead = t.range(0, 6), burst = t.chance(1, form ? 20 : 8) ? t.range(13, form ? 150 : 300) : t.range(1, 12), tail = t.chance(1, 4) ? 110 : 25;
    std::string bs; double bound = 0, gb = 0; int special = 0;
    int unmuted = -1; bool skip = false; double rate = 0; const int wide = form ? 0 : (int)t.below(3) * 25;   // up to 60 errors a frame by the caller's count
    for (int i = 0; i < lead + burst + tail; i++) {
        // after the burst, now and then another kind of frame than speech
        int kind = i >= lead + burst && t.chance(1, 10) ? (int)t.below(5) : gen::VOICE; if (!ambe) kind = gen::VOICE;
        char d[88]; memset(d, 0, 88); gen::frame_bits(t, dc, kind, d);
        Frame f = gen::channel(t, codec, d, false), g = f; bool bad = i >= lead && i < lead + burst;
        if (bad) {   // the corrupted stream sees noise, damage or another kind of frame
            int how = (int)t.below(4);
            if (how == 0) g = gen::noise_frame(t, codec);
            else if (how == 1) { char q[88]; memset(q, 0, 88); gen::frame_bits(t, dc, gen::pick_kind(t, dc), q); g = gen::channel(t, codec, q, false); model::damage(t, codec, g, (int)t.below(5)); }
            else model::damage(t, codec, g, 3 + (int)t.below(2));
        }
        float oa[160], ob[160]; char sa[64], sb[64], da[88], db[88]; int e, e2;
        short qa[160], qb[160];
        auto dec = [&](Trip& T, Frame x, const char* bits, int c0, int tot, float* o, short* q, char* es, char* dd) {
            if (form) { if (sh) api::frame_s(L, codec, q, &e, &e2, es, x, dd, T); else api::frame_f(L, codec, o, &e, &e2, es, x, dd, T); }
            else { memcpy(dd, bits, 88); if (sh) api::data_s(L, dc, q, c0, tot, es, dd, T); else api::data_f(L, dc, o, c0, tot, es, dd, T); }
            if (sh) for (int k = 0; k < 160; k++) o[k] = q[k] / 7.0f;
        };
        Decoded xb; memset(&xb, 0, sizeof xb); if (!form && bad) { xb = frame_decode(codec, g); if (wide) xb.total = t.range(wide, 60); }
        dec(A, f, d, 0, 0, oa, qa, sa, da); dec(B, g, bad ? xb.d : d, xb.c0, xb.total, ob, qb, sb, db);
        if (bad) rate = B.prev.errorRate;
        if (bad) { bs += sb; bs += '|'; if (strpbrk(sb, "RMET")) special++; continue; }
        if (i < lead) continue;
        int k = i - lead - burst;   // clean frames since the burst, from 0
        char ctx[300]; snprintf(ctx, sizeof ctx, "%s, burst of %d frames (%s), clean frame %d", CODEC_NAME[codec], burst, bs.c_str(), k + 1);
        if (kind != gen::VOICE && (sa[0] || strcmp(sa, sb) || (codec == AMBE2400 && ref_decode(dc, d, B.prev, 0).ret))) {   // tones and erasures: handled the same way at once
            if (strcmp(sa, sb)) c.fail("%s: %s frame has status \"%s\", \"%s\" in the undamaged stream", ctx, gen::kind_name(kind), sb, sa);
            if (memcmp(da, db, 49)) c.fail("%s: decoded bits differ", ctx);
            Dec dd = ref_decode(dc, d, B.prev, 0); double lvl = 0; for (int q = 0; q < 160; q++) lvl = fmax(lvl, fabs(ob[q]));
            if (dd.ret == 2 && lvl > 0.003 * 32767 / 7 * 1.0001) c.fail("%s: erasure frame plays %g", ctx, lvl);
            c.cls("clean frame: tone, erasure or unusable"); skip = true; c.eval(); continue;
        }
        // a clean frame is accepted at once; only IMBE error-rate muting may last, and then for a bounded time
        if (ambe || !strchr(sb, 'M')) { if (sb[0]) c.fail("%s: status \"%s\"", ctx, sb); if (unmuted < 0) unmuted = k; }
        else if (strcmp(sb, "M")) c.fail("%s: status \"%s\"", ctx, sb);
        else if (unmuted >= 0) c.fail("%s: muted again without errors", ctx);
        else if (rate * pow(0.95, k + 1) < 0.0875 * 0.9999) c.fail("%s: still muted although the error rate was %.5f after the burst", ctx, rate);
        // pitch, bands, voicing of the model (before smoothing) are those of the undamaged stream at once
        const mbe_parms &a = A.prev, &b = B.prev;
        if (a.L != b.L || a.w0 != b.w0) c.fail("%s: %d harmonics at w0 %g, undamaged stream has %d at %g", ctx, b.L, b.w0, a.L, a.w0);
        double lo = 1e9, hi = -1e9, gd = fabs((double)a.gamma - b.gamma);
        for (int l = 1; l <= a.L; l++) { if (a.Vl[l] != b.Vl[l]) c.fail("%s: voicing of harmonic %d differs from the undamaged stream", ctx, l); double x = (double)b.log2Ml[l] - a.log2Ml[l]; lo = fmin(lo, x); hi = fmax(hi, x); }
        // the disturbance of the spectrum contracts with every frame
        double rho = ambe ? 0.65 : a.L <= 15 ? 0.4 : a.L <= 24 ? 0.03 * a.L - 0.05 : 0.7;
        if (k > 0 && !skip) {
            if (hi - lo > rho * bound + 2e-3) c.fail("%s: spectral disturbance %g after %g: does not contract by %g", ctx, hi - lo, bound, rho);
            if (ambe && gd > 0.5 * gb + 1e-4) c.fail("%s: gain disturbance %g after %g", ctx, gd, gb);
            if (fmax(fabs(lo), fabs(hi)) > (hi - lo) + gd + 2e-3) c.fail("%s: spectral level off by %g with gain difference %g", ctx, fmax(fabs(lo), fabs(hi)), gd);
        }
        bound = hi - lo; gb = gd; skip = false;
        if (B.prev.repeatCount || B.prev.repeat) c.fail("%s: repeat count %d", ctx, B.prev.repeatCount);
        if (k == 24 && bound > 0.05) c.fail("%s: spectrum still differs by %g octaves", ctx, bound);
        // long after the burst the synthesis parameters agree too
        if (k >= 100) {
            if (B.cur.errorRate > 0.005) c.fail("%s: error rate still %g", ctx, B.cur.errorRate);
            for (int l = 1; l <= a.L; l++) {
                if (A.cur.Vl[l] != B.cur.Vl[l]) c.fail("%s: synthesis voicing of harmonic %d still differs", ctx, l);
                if (fabs(A.cur.Ml[l] - B.cur.Ml[l]) > 0.02 * fabs(A.cur.Ml[l]) + 1e-4) c.fail("%s: synthesis amplitude of harmonic %d is %g, undamaged stream has %g", ctx, l, B.cur.Ml[l], A.cur.Ml[l]);
            }
        }
        c.eval();
    }
    if (special) c.nontrivial();
    c.cls(CODEC_NAME[codec]);
    if (c.want_sample()) c.sample("%s: %d good frames, burst of %d (%s), %d clean frames", CODEC_NAME[codec], lead, burst, bs.c_str(), tail);
}

static const char* R1 = "a history counts as non-trivial when at least one of its frames is not plain voice (repeat, mute, erasure, tone, invalid tone, reset)";
Property* find_property(const std::string& id) {
    static Property p; golay_nearest();
    static const std::vector<std::string> A1 = {"synthesis, enhancement and parameter decoding are taken from the library itself here; they are decided by P09-P11 and P16-P23"};
    if (id == "P12") p = {"P12", R1, {{"histories", history<AMBE2450, false>, 400000, 8000000}, {"long histories", history<AMBE2450, true>, 400, 20000}}, A1};
    else if (id == "P13") p = {"P13", R1, {{"histories", history<AMBE2400, false>, 400000, 8000000}, {"long histories", history<AMBE2400, true>, 400, 20000}}, A1};
    else if (id == "P14") p = {"P14", R1, {{"histories", history<IMBE7200, false>, 400000, 8000000}, {"long histories", history<IMBE7200, true>, 400, 20000}}, A1};
    else if (id == "P15") p = {"P15", "histories that contain a repeat or drive the error rate above 1.25 percent; predicate cases at and around the thresholds", {{"histories", error_history, 40000, 500000}, {"every kind of frame", error_kinds, 60000, 1500000}, {"predicates", predicates, 100000, 1000000}}};
    else if (id == "P30") p = {"P30", "every case re-initialises or re-uses a non-fresh state and decodes frames with it", {{"re-use", init_case, 400000, 4000000}}};
    else if (id == "P31") p = {"P31", "the damaged stream shows at least one repeat, mute, erasure or tone during the burst", {{"burst", recovery, 60000, 800000}}};
    else return nullptr;
    return &p;
}
