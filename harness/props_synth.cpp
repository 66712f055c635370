// P16-P23, P29: enhancement, smoothing, voiced/unvoiced synthesis, phases, noise, tones, comfort noise, PCM.
#include "gen.hpp"
#include "ref_synth.hpp"
#include <thread>
using namespace pbt;
using namespace ref;

static bool near(double a, double b, double rel, double abs_) { return fabs(a - b) <= rel * fmax(fabs(a), fabs(b)) + abs_; }
static const char* pick_lib(Tape& t, Case& c) { static const char* n[] = {"scalar", "simd"}; int k = (int)t.below(2); c.cls(k ? "build: SIMD" : "build: scalar"); return n[k]; }

static void base(mbe_parms& p, bool ambe) { memset(&p, 0, sizeof p); p.mutingThreshold = ambe ? 0.096f : 0.0875f; p.localEnergy = 75000; p.amplitudeThreshold = 20480; p.noiseSeed = -1; }
// error statistics around the documented decision points
static void errors(Tape& t, mbe_parms& p) {
    static const float R[] = {0, 0.005f, 0.0125f, 0.0875f};
    int k = (int)t.below(6);
    float r = k < 4 ? R[k] : (float)t.real(0, 0.13);
    if (t.chance(1, 4)) r = nextafterf(r, 1); else if (r > 0 && t.chance(1, 4)) r = nextafterf(r, 0);
    p.errorRate = r; p.errorCountTotal = t.chance(1, 3) ? t.range(3, 8) : t.chance(1, 16) ? t.range(16, 60) : t.range(0, 16); p.errorCount4 = t.chance(1, 2) ? 0 : t.range(1, 2);
}
static void smooth_history(Tape& t, mbe_parms& p) {
    int k = (int)t.below(6);
    p.localEnergy = (float)(k == 0 ? 0 : k == 1 ? t.real(9990, 10010) : exp2(t.real(10, k == 2 ? 100 : 32)));
    if (t.chance(1, 8)) p.localEnergy = nextafterf(10000, t.chance(1, 2) ? 0 : 20000);
    int m = (int)t.below(8);
    p.amplitudeThreshold = m == 0 ? 0 : m == 1 ? -(int)t.below(100000) : m == 2 ? INT_MAX - (int)t.below(12000) : 1 + (int)t.below(60000);
}

// ---------------------------------------------------------------- P16
static void smoothing(Case& c) {
    Tape& t = c.t; Lib& L = lib(pick_lib(t, c)); reset_hidden(L, 5);
    mbe_parms cur, prev; base(cur, t.chance(1, 2)); base(prev, t.chance(1, 2));
    double top = t.chance(1, 3) ? 17 : t.chance(1, 2) ? 13 : 9; gen::model(t, cur, -3, top); gen::model(t, prev, -3, 9); gen::noise_state(t, cur); gen::noise_state(t, prev);
    errors(t, cur); errors(t, prev); smooth_history(t, prev); smooth_history(t, cur); cur.repeat = cur.repeatCount = (int)t.below(6);
    for (int l = cur.L + 1; l <= 56; l++) if (t.chance(1, 8)) cur.Vl[l] = 2;   // fields past the last harmonic stay as they are
    if (t.chance(1, 3)) {   // some amplitude just around the voicing threshold
        rs::Smooth s0 = rs::smooth(cur, prev, 0); if (std::isfinite(s0.VM)) { double e0 = 0; for (int l = 1; l <= cur.L; l++) e0 += (double)cur.Ml[l] * cur.Ml[l]; rs::Smooth s1 = rs::smooth(cur, prev, e0); int l = t.range(1, cur.L); cur.Ml[l] = (float)(s1.VM * t.real(0.99, 1.01)); }
    }
    int mode = (int)t.below(3); double RM0;
    auto energy = [&](const mbe_parms& p) { double s = 0; for (int l = 1; l <= p.L; l++) s += (double)p.Ml[l] * p.Ml[l]; return s; };
    mbe_parms other = prev;
    if (mode == 1) { RM0 = energy(cur); L.mbe_spectralAmpEnhance(&cur); }     // the energy before enhancement counts
    else { if (mode == 2) L.mbe_spectralAmpEnhance(&other); RM0 = energy(cur); }
    mbe_parms x = cur, prev0 = prev; bool keep = mode == 1;
    mbe_parms* target = &cur;
    L.mbe_applyAdaptiveSmoothing(target, &prev);
    rs::Smooth s = rs::smooth(x, prev0, RM0);
    char ctx[400]; snprintf(ctx, sizeof ctx, "error rate %.9g, %d errors (%d in the fifth word), previous energy %.7g, previous threshold %d, %d harmonics, energy %.7g, amplitude sum %.7g%s", x.errorRate, x.errorCountTotal, x.errorCount4, prev0.localEnergy, prev0.amplitudeThreshold, x.L, RM0, s.Am, keep ? ", after enhancement" : mode == 2 ? ", after enhancing another set" : "");
    if (!near(cur.localEnergy, s.energy, 2e-5, 0)) c.fail("%s: local energy %.8g, expected %.8g", ctx, cur.localEnergy, s.energy);
    bool sat = prev0.amplitudeThreshold > INT_MAX - 6000;      // near the limit the exact saturation point is free
    if (sat && s.Tm != 20480 ? cur.amplitudeThreshold < INT_MAX - 20000 : cur.amplitudeThreshold != s.Tm) c.fail("%s: amplitude threshold %d, expected %ld", ctx, cur.amplitudeThreshold, s.Tm);
    bool edge = fabs(s.Am - (double)s.Tm) < 1e-4 * fabs((double)s.Tm);
    for (int l = 1; l <= x.L; l++) {
        if (s.V[l] != 2 && cur.Vl[l] != s.V[l]) c.fail("%s: harmonic %d of amplitude %.8g (threshold %.8g) has voicing %d, expected %d", ctx, l, x.Ml[l], s.VM, cur.Vl[l], s.V[l]);
        if (!near(cur.Ml[l], s.M[l], edge ? 3e-4 : 2e-5, 1e-30)) c.fail("%s: harmonic %d scaled from %.8g to %.8g, expected %.8g", ctx, l, x.Ml[l], cur.Ml[l], s.M[l]);
    }
    mbe_parms y = cur; y.localEnergy = x.localEnergy; y.amplitudeThreshold = x.amplitudeThreshold;
    for (int l = 1; l <= x.L; l++) { y.Vl[l] = x.Vl[l]; y.Ml[l] = x.Ml[l]; }
    if (memcmp(&y, &x, sizeof x)) c.fail("%s: a field other than energy, threshold, voicing and amplitudes of the frame changed", ctx);
    if (memcmp(&prev, &prev0, sizeof prev)) c.fail("%s: the previous parameter set changed", ctx);
    if (mode) {   // the hand-off is used once
        mbe_parms z = cur; double r2 = energy(z); L.mbe_applyAdaptiveSmoothing(mode == 1 ? &cur : &other, &prev);
        if (mode == 1) { rs::Smooth s2 = rs::smooth(z, prev0, r2); if (!near(cur.localEnergy, s2.energy, 2e-5, 0)) c.fail("%s: second smoothing used the stale enhancement energy: %.8g, expected %.8g", ctx, cur.localEnergy, s2.energy); }
    }
    bool changed = false; for (int l = 1; l <= x.L; l++) changed |= cur.Vl[l] != x.Vl[l] || cur.Ml[l] != x.Ml[l];
    if (changed) c.nontrivial();
    c.cls(std::isinf(s.VM) ? "threshold: off" : x.errorRate <= 0.0125f && x.errorCount4 == 0 ? "threshold: exponential" : "threshold: plain"); c.cls(mode == 0 ? "energy: own" : mode == 1 ? "energy: before enhancement" : "energy: another set enhanced");
    if (s.Am > s.Tm) c.cls("amplitudes scaled");
    c.eval();
    if (c.want_sample()) c.sample("%s", ctx);
}

// ---------------------------------------------------------------- P17
static void enhancement(Case& c) {
    Tape& t = c.t; Lib& L = lib(pick_lib(t, c));
    mbe_parms cur; base(cur, t.chance(1, 2));
    int shape = (int)t.below(10); double top = shape == 0 ? 33 : shape == 1 ? 20 : 11;
    gen::model(t, cur, -3, top); gen::noise_state(t, cur); if (t.chance(1, 2)) gen::extras(t, cur);
    if (shape == 2) for (int l = 1; l <= cur.L; l++) if (t.chance(1, 2)) cur.Ml[l] = 0;
    if (shape == 3) { int k = t.range(1, cur.L); double f = exp2(t.real(0, 14)); for (int l = 1; l <= cur.L; l++) cur.Ml[l] = (float)(l == k ? f : t.chance(1, 2) ? 1 : exp2(t.real(-6, 0))); }
    if (shape == 4) { double s = t.real(-0.3, 0.3), b = t.real(0, 10); for (int l = 1; l <= cur.L; l++) cur.Ml[l] = (float)exp2(b + s * l + t.real(-0.5, 0.5)); }
    if (shape == 5) for (int l = 1; l <= cur.L; l++) cur.Ml[l] = 1;
    if (shape >= 8) { float k = (float)exp2(t.real(-26, shape == 8 ? -6 : 0)); for (int l = 1; l <= cur.L; l++) cur.Ml[l] = fmaxf(cur.Ml[l] * k, 1e-15f); }
    int degenerate = (int)t.below(40);
    if (degenerate == 39) for (int l = 1; l <= cur.L; l++) cur.Ml[l] = 0;
    if (degenerate == 38) { cur.w0 = 0; cur.L = 9; }
    mbe_parms x = cur; rs::Enh e = rs::enhance(x);
    L.mbe_spectralAmpEnhance(&cur);
    char ctx[200]; snprintf(ctx, sizeof ctx, "w0 %.7g, %d harmonics, energy %.6g, correlation %.6g", x.w0, x.L, e.R0, e.R0 > 0 ? e.R1 / e.R0 : 0);
    double rho = e.R0 > 0 ? e.R1 / e.R0 : 0, cond = 1 - rho * rho;   // the formula cancels for line spectra
    double tol = 1e-4 + 2e-6 / (cond > 1e-9 ? cond : 1e-9);
    double en = 0; for (int l = 1; l <= x.L; l++) en += (double)cur.Ml[l] * cur.Ml[l];
    if (!near(en, e.R0, 1e-4, 0)) c.fail("%s: energy after enhancement %.8g, before %.8g", ctx, en, e.R0);
    bool any = false;
    for (int l = 1; l <= x.L; l++) {
        if (!std::isfinite(cur.Ml[l]) || cur.Ml[l] < 0) c.fail("%s: amplitude of harmonic %d is %g", ctx, l, cur.Ml[l]);
        if (tol < 0.02 && !near(cur.Ml[l], e.M[l], tol, shape >= 8 ? 1e-20 : 1e-12)) c.fail("%s: harmonic %d from %.8g to %.8g, expected %.8g", ctx, l, x.Ml[l], cur.Ml[l], e.M[l]);
        any |= fabs(cur.Ml[l] - x.Ml[l]) > 0.01 * x.Ml[l];
    }
    // the strength of the emphasis is bounded and the lowest eighth keeps its relative shape whatever the conditioning
    double lo = INFINITY, hi = 0, ref0 = -1;
    for (int l = 1; l <= x.L; l++) if (x.Ml[l] > 0) { double g = cur.Ml[l] / (double)x.Ml[l]; lo = fmin(lo, g); hi = fmax(hi, g); if (8 * l <= x.L) { if (ref0 < 0) ref0 = g; else if (!near(g, ref0, 1e-5, 0)) c.fail("%s: low harmonic %d scaled by %g, harmonic 1 by %g", ctx, l, g, ref0); } }
    if (hi > 0 && hi / lo > 2.4001) c.fail("%s: relative emphasis %g exceeds 2.4", ctx, hi / lo);
    if (e.R0 == 0 || x.w0 == 0) for (int l = 1; l <= x.L; l++) if (!near(cur.Ml[l], x.Ml[l], 1e-6, 0)) c.fail("%s: degenerate spectrum changed: harmonic %d %g -> %g", ctx, l, x.Ml[l], cur.Ml[l]);
    mbe_parms y = cur; memcpy(y.Ml + 1, x.Ml + 1, sizeof(float) * (size_t)x.L);
    if (memcmp(&y, &x, sizeof x)) c.fail("%s: a field other than the amplitudes of the frame changed", ctx);
    if (any) c.nontrivial();
    if (tol >= 0.02) c.cls("ill-conditioned: bounds only");
    c.cls(shape == 0 ? "loud" : shape >= 8 ? "quiet" : shape == 3 ? "single line" : shape == 5 ? "flat" : "random"); c.eval();
    if (c.want_sample()) c.sample("%s, gains %.3f..%.3f", ctx, lo, hi);
}

// ---------------------------------------------------------------- speech synthesis against the model
enum { VOICED, UNVOICED, MIXED };
struct Pair { mbe_parms cur, prev; };
static void speech_pair(Tape& t, Case& c, Pair& P, int what) {
    bool ambe = t.chance(1, 2); base(P.cur, ambe); base(P.prev, ambe);
    double top = t.chance(1, 8) ? 14 : t.chance(1, 4) ? 11 : 8;
    gen::model(t, P.prev, -2, top); gen::model(t, P.cur, -2, top);
    int rel = (int)t.below(6);
    if (rel == 0) { P.cur.w0 = P.prev.w0; P.cur.L = P.prev.L; c.cls("pitch: constant"); }
    else if (rel <= 3) {    // a neighbouring pitch of the same codec: stable or just beyond
        int b = (int)t.below(208), d = (int)t.below(24) - 12, b2 = std::max(0, std::min(207, b + d));
        P.prev.w0 = (float)(4 * M_PI / (b + 39.5)); P.prev.L = imbe_L(b); P.cur.w0 = (float)(4 * M_PI / (b2 + 39.5)); P.cur.L = imbe_L(b2); c.cls(fabs(P.cur.w0 - P.prev.w0) < 0.1 * P.cur.w0 ? "pitch: drifting" : "pitch: near the stability limit");
    } else if (rel == 4) c.cls("pitch: jump");
    else { if (t.chance(1, 2)) { P.prev.w0 = 0; P.prev.L = 9; for (int l = 0; l <= 56; l++) { P.prev.Vl[l] = 0; P.prev.Ml[l] = 1; } c.cls("pitch: after an erasure"); } else c.cls("pitch: jump"); }
    if (t.chance(1, 10)) {   // models whose upper bands lie beyond half the sampling rate (the start-up model is one)
        mbe_parms& w = t.chance(1, 4) ? P.prev : P.cur; bool start = t.chance(1, 2);
        w.w0 = (float)(start ? M_PI * M_PI / 16 : t.real(0.2, 0.65)); w.L = start ? 15 : t.range(9, 22); c.cls("pitch: bands beyond half the sampling rate");
    }
    P.prev.noiseSeed = -1; gen::noise_state(t, P.cur); gen::noise_state(t, P.prev);
    P.prev.noiseSeed = P.cur.noiseSeed; memcpy(P.prev.noiseOverlap, P.cur.noiseOverlap, sizeof P.cur.noiseOverlap);
    if (P.cur.noiseSeed >= 0) { // a state the stream can be in: 96 successive values
        uint32_t x = t.below(53125); for (int i = 0; i < 96; i++) { P.cur.noiseOverlap[i] = (float)x; x = (171 * x + 11213) % 53125; } P.cur.noiseSeed = (float)x;
    }
    for (int l = 1; l <= 56; l++) {
        P.prev.PSIl[l] = (float)t.real(-0.5, 520); P.prev.PHIl[l] = (float)t.real(-10, 525); P.cur.PHIl[l] = (float)t.real(-10, 520); P.cur.PSIl[l] = (float)t.real(0, 520);
        if (l <= P.prev.L / 4 && t.chance(3, 4)) P.prev.PHIl[l] = P.prev.PSIl[l];
    }
    P.cur.Vl[0] = P.prev.Vl[0] = 0;
    if (what == VOICED) { for (int l = 1; l <= 56; l++) { if (!P.cur.Vl[l]) P.cur.Ml[l] = 0; if (!P.prev.Vl[l]) P.prev.Ml[l] = 0; } memset(P.prev.previousUw, 0, sizeof P.prev.previousUw); }
    if (what == UNVOICED) for (int l = 1; l <= 56; l++) { if (P.cur.Vl[l]) P.cur.Ml[l] = 0; if (P.prev.Vl[l]) P.prev.Ml[l] = 0; }
    P.prev.errorRate = 0; P.cur.errorRate = 0; P.cur.errorCountTotal = t.range(0, 4);
    if (t.chance(1, 4)) { errors(t, P.cur); P.cur.errorCountTotal = t.range(0, 10); if (!ambe && P.cur.errorRate > 0.08f) P.cur.errorRate = 0.08f; P.prev.localEnergy = (float)exp2(t.real(13, 24)); P.prev.amplitudeThreshold = 6000 + (int)t.below(40000); c.cls("with smoothing"); }
    else if (t.chance(1, 4)) { mbe_parms q = P.prev; gen::extras(t, P.prev); P.prev.noiseSeed = q.noiseSeed; P.cur.swn = P.prev.swn; P.cur.un = P.prev.un; c.cls("any other state"); }
    if (t.chance(1, 20)) { P.cur.repeat = P.cur.repeatCount = (int)t.below(4); }
}
static double max_uw(const float* u) { double m = 0; for (int i = 0; i < 256; i++) m = fmax(m, fabs(u[i])); return m; }

template <int WHAT> static void speech(Case& c) {
    Tape& t = c.t; Lib& L = lib(pick_lib(t, c)); Pair P; speech_pair(t, c, P, WHAT);
    reset_hidden(L, 7);
    Pair Q = P; float out[160]; for (float& f : out) f = 1e9f;
    double e0 = 0; for (int l = 1; l <= P.cur.L; l++) e0 += (double)P.cur.Ml[l] * P.cur.Ml[l];
    L.mbe_synthesizeSpeechf(out, &Q.cur, &Q.prev, (int)t.below(4));
    static thread_local rs::Synth o; rs::synth(o, P.cur, P.prev, e0, 3147, Q.cur.Vl);
    if (o.muted) c.fail("generator produced a muted frame");
    if (o.ambiguous) { c.cls("skipped: rounding decides a branch"); return; }
    double pw = max_uw(P.prev.previousUw), uw = 0; for (double v : o.Uw) uw = fmax(uw, fabs(v));
    double tol = 6e-4 * o.ampsum + 4e-4 * (pw + uw) + 2e-3;
    char ctx[300]; snprintf(ctx, sizeof ctx, "pitch %.6g -> %.6g, %d -> %d harmonics, amplitude sum %.5g", P.prev.w0, P.cur.w0, P.prev.L, P.cur.L, o.ampsum);
    double err = 0; int at = 0; for (int n = 0; n < 160; n++) { double d = fabs((double)out[n] - o.out[n]); if (!(d <= err)) { err = d; at = n; } }
    if (!(err <= tol)) c.fail("%s: sample %d is %.7g, expected %.7g (voiced %.7g, unvoiced %.7g)", ctx, at, out[at], o.out[at], o.voiced[at], o.unvoiced[at]);
    for (int i = 0; i < 256; i++) if (!(fabs(Q.cur.previousUw[i] - o.Uw[i]) <= 4e-4 * uw + 1e-3)) c.fail("%s: unvoiced history sample %d is %.7g, expected %.7g (peak %.6g)", ctx, i, Q.cur.previousUw[i], o.Uw[i], uw);
    double pk = 0; for (double v : o.out) pk = fmax(pk, fabs(v));
    bool clipped = pk >= rs::CLIP; if (clipped) c.cls("clipped output");
    int nv = 0, nu = 0; for (int l = 1; l <= o.L; l++) (o.V[l] ? nv : nu)++;
    c.cls(nu == 0 ? "all voiced" : nv == 0 ? "all unvoiced" : "mixed voicing"); c.eval(160);
    if (pk > 100 * tol) c.nontrivial();
    if (c.want_sample()) c.sample("%s: %d voiced, %d unvoiced bands, peak %.4g, largest deviation %.3g", ctx, nv, nu, pk, err);
}

// ---------------------------------------------------------------- P20 phases
static void phases(Case& c) {
    Tape& t = c.t; Lib& L = lib(pick_lib(t, c)); Pair P; speech_pair(t, c, P, (int)t.below(3)); reset_hidden(L, 7);
    if (t.chance(1, 4)) for (int l = 1; l <= 56; l++) P.prev.PSIl[l] = (float)t.real(-60, 6000);
    Pair Q = P; float out[160]; double e0 = 0; for (int l = 1; l <= P.cur.L; l++) e0 += (double)P.cur.Ml[l] * P.cur.Ml[l];
    L.mbe_synthesizeSpeechf(out, &Q.cur, &Q.prev, 3);
    static thread_local rs::Synth o; rs::synth(o, P.cur, P.prev, e0, 3147, Q.cur.Vl);
    int low = P.cur.L / 4;
    for (int l = 1; l <= 56; l++) {
        double d = remainder(Q.cur.PSIl[l] - o.PSI[l], 2 * M_PI), tol = 3e-4 + 4e-7 * (fabs(P.prev.PSIl[l]) + fabs(o.PSI[l]));
        if (!(fabs(d) <= tol)) c.fail("pitch %.6g -> %.6g: continuity phase of harmonic %d advanced from %.7g to %.7g, expected %.7g", P.prev.w0, P.cur.w0, l, P.prev.PSIl[l], Q.cur.PSIl[l], o.PSI[l]);
        d = remainder(Q.cur.PHIl[l] - o.PHI[l], 2 * M_PI);
        if (!(fabs(d) <= tol)) c.fail("pitch %.6g -> %.6g, %d harmonics: phase of harmonic %d is %.7g, expected %.7g", P.prev.w0, P.cur.w0, P.cur.L, l, Q.cur.PHIl[l], o.PHI[l]);
        c.eval(2);
    }
    c.cls(low ? "low harmonics" : "no low harmonics"); c.nontrivial();
    if (c.want_sample()) c.sample("pitch %.6g -> %.6g, %d harmonics, phase of harmonic 1: %.5g -> %.5g", P.prev.w0, P.cur.w0, P.cur.L, P.prev.PSIl[1], Q.cur.PSIl[1]);
}
// A steady voiced sound: every low harmonic is one uninterrupted sinusoid across frame boundaries.
static void steady(Case& c) {
    Tape& t = c.t; Lib& L = lib(pick_lib(t, c)); mbe_parms cur, enh; base(cur, true);
    int Lh; double w0 = gen::pick_w0(t, &Lh); int only = t.range(1, std::max(1, Lh / 4)); bool all = t.chance(1, 2);
    cur.w0 = (float)w0; cur.L = Lh; w0 = cur.w0;
    double amp = exp2(t.real(3, 7)); double M[57], ph[57], sum = 0;
    for (int l = 1; l <= Lh; l++) { cur.Vl[l] = t.chance(1, 2); M[l] = 0; if (l <= Lh / 4) { cur.Vl[l] = 1; if (all || l == only) M[l] = amp * t.real(0.5, 1); } cur.Ml[l] = (float)M[l]; M[l] = cur.Ml[l]; sum += M[l]; }
    for (int l = 1; l <= 56; l++) { cur.PSIl[l] = cur.PHIl[l] = (float)t.real(0, 6.28); ph[l] = cur.PHIl[l]; }
    if (sum == 0) return;
    int n = t.chance(1, 100) ? t.range(50, 400) : t.range(2, 12); enh = cur; char ctx[120]; snprintf(ctx, sizeof ctx, "steady pitch %.7g, %d harmonics", w0, Lh);
    for (int k = 0; k < n; k++) {
        float out[160]; mbe_parms x = enh; L.mbe_synthesizeSpeechf(out, &x, &enh, 3); enh = x;
        for (int i = 0; i < 160; i++) {
            double v = 0; for (int l = 1; l <= Lh; l++) if (M[l] > 0) v += 2 * M[l] * cos(ph[l] + w0 * l * (k * 160.0 + i));
            if (!(fabs(v - out[i]) <= 1.5e-3 * sum * (1 + k * 0.05) + 1e-3) && fabs(v) < rs::CLIP) c.fail("%s: sample %d of frame %d is %.7g, the uninterrupted sinusoids give %.7g (amplitude sum %.5g)", ctx, i, k + 1, out[i], v, sum);
        }
        c.eval(160);
    }
    c.nontrivial(); c.cls(n > 12 ? "steady tone, long" : "steady tone");
    if (c.want_sample()) c.sample("%s over %d frames, %s low harmonics", ctx, n, all ? "all" : "one of the");
}

// ---------------------------------------------------------------- P21 noise sequence
static void noise_history(Case& c) {
    Tape& t = c.t; Lib& L = lib(pick_lib(t, c)); reset_hidden(L, 13);
    int codec = (int)t.below(3); codec = codec == 0 ? AMBE2400 : codec == 1 ? AMBE2450 : IMBE7200; bool ambe = is_ambe(codec);
    Trip tr; init(L, tr); uint32_t over = 0; auto rs_valid = [](const char* d) { int v = 0; for (int i = 12; i < 20; i++) v = v << 1 | d[i]; return gen::valid_tone_id(v); }; bool have = t.chance(1, 2);
    if (have) { static const uint32_t sp[] = {0, 1, 53124, 53125, 53126, 0xffffffffu, 0x6d25357bu}; over = t.chance(1, 3) ? sp[t.below(7)] : t.u32(); L.mbe_setThreadRngSeed(over); }
    int n = t.chance(1, 200) ? t.range(100, 1500) : t.range(2, c.thorough ? 30 : 14), adv = 0, skip = 0; char trace[200] = ""; size_t tl = 0;
    for (int i = 0; i < n; i++) {
        char d[88], es[64]; memset(d, 0, 88); int kind = t.chance(2, 3) ? gen::VOICE : gen::pick_kind(t, codec); gen::frame_bits(t, codec, kind, d);
        int errs = t.chance(1, 4) ? t.range(0, 9) : 0; float out[160];
        Trip before = tr; api::data_f(L, codec, out, 0, errs, es, d, tr);
        bool E = strchr(es, 'E'), T = strchr(es, 'T'), M = strchr(es, 'M'), R = strchr(es, 'R'), valid = !(codec == AMBE2450 && T) || rs_valid(d);
        bool headroom = !ambe && before.prev.repeatCount >= 4;
        const mbe_parms& src = R && !headroom ? before.prev : before.cur;      // a repeated frame starts from the position the repeated frame started from
        auto same = [](const mbe_parms& a, const mbe_parms& b) { return a.noiseSeed == b.noiseSeed && !memcmp(a.noiseOverlap, b.noiseOverlap, sizeof a.noiseOverlap); };
        bool reset = ambe && tr.cur.noiseSeed < 0 && tr.enh.noiseSeed < 0;
        if (reset) { if (T && !valid) have = false; skip++; }
        else if (E) { if (!same(tr.cur, before.prev) && !same(tr.cur, before.cur)) c.fail("frame %d: an erasure frame moved the noise sequence to %.8g", i, tr.cur.noiseSeed); skip++; }
        else if (T) { if (!valid) have = false; if (valid && !same(tr.cur, before.cur)) c.fail("frame %d: a tone frame moved the noise sequence to %.8g", i, tr.cur.noiseSeed); skip++; }
        else if (M) { if (!same(tr.cur, src)) c.fail("frame %d (status \"%s\"): a muted frame moved the noise sequence to %.8g", i, es, tr.cur.noiseSeed); skip++; }
        else if (same(tr.enh, before.enh) && !memcmp(tr.enh.PSIl, before.enh.PSIl, sizeof tr.enh.PSIl) && codec == AMBE2400 && kind != gen::VOICE) skip++;   // D-STAR tone
        else {
            bool cold = src.noiseSeed < 0; double cs = have ? (over ? over % 53125u : 0x6d25357bu % 53125u) : 3147;
            rs::Noise w = rs::noise(src.noiseSeed, src.noiseOverlap, cs); if (cold) have = false;
            for (const mbe_parms* p : {&tr.cur, &tr.enh}) {
                if (p->noiseSeed != (float)w.seed) c.fail("frame %d (status \"%s\"): noise sequence moved from %.8g to %.8g, expected %.8g%s", i, es, src.noiseSeed, p->noiseSeed, w.seed, cold ? " (first speech frame of a stream)" : "");
                for (int k = 0; k < 96; k++) if (p->noiseOverlap[k] != (float)w.overlap[k]) c.fail("frame %d: shared noise sample %d is %.8g, expected %.8g", i, k, p->noiseOverlap[k], w.overlap[k]);
            }
            adv++;
        }
        c.eval(); if (tl < 150) tl += (size_t)snprintf(trace + tl, sizeof trace - tl, "%s/", es + strspn(es, "="));
    }
    if (adv > 1) c.nontrivial();
    if (skip) { c.cls("history with frames that do not use noise"); }
    c.cls(CODEC_NAME[codec]);
    if (c.want_sample()) c.sample("%s, %d frames (%s), %d advances", CODEC_NAME[codec], n, trace, adv);
}
static void noise_direct(Case& c) {   // one call, any stored position
    Tape& t = c.t; Lib& L = lib(pick_lib(t, c)); Pair P; speech_pair(t, c, P, MIXED); reset_hidden(L, 7);
    int kind = (int)t.below(8); uint32_t seed = 0; bool have = false;
    if (kind == 0) { P.cur.noiseSeed = -1; have = t.chance(1, 2); if (have) { seed = t.chance(1, 6) ? 0 : t.u32(); L.mbe_setThreadRngSeed(seed); } }
    if (kind == 1) P.cur.noiseSeed = (float)(t.chance(1, 2) ? 0 : 53124);
    bool mute = kind == 2; if (mute) P.cur.repeatCount = 4 + (int)t.below(3);
    Pair Q = P; float out[160]; L.mbe_synthesizeSpeechf(out, &Q.cur, &Q.prev, 3);
    if (mute) {
        if (Q.cur.noiseSeed != P.cur.noiseSeed || memcmp(Q.cur.noiseOverlap, P.cur.noiseOverlap, sizeof P.cur.noiseOverlap)) c.fail("a muted frame advanced the noise sequence");
        if (memcmp(Q.cur.previousUw, P.cur.previousUw, sizeof P.cur.previousUw) || memcmp(Q.cur.PSIl, P.cur.PSIl, sizeof P.cur.PSIl) || memcmp(Q.cur.PHIl, P.cur.PHIl, sizeof P.cur.PHIl)) c.fail("a muted frame advanced phases or the unvoiced history");
        c.cls("muted"); c.nontrivial(); c.eval(); return;
    }
    rs::Noise n = rs::noise(P.cur.noiseSeed, P.cur.noiseOverlap, have ? (seed ? seed % 53125u : 0x6d25357bu % 53125u) : 3147);
    if (Q.cur.noiseSeed != (float)n.seed) c.fail("noise sequence from %.8g moved to %.8g, expected %.8g", P.cur.noiseSeed, Q.cur.noiseSeed, n.seed);
    for (int i = 0; i < 96; i++) if (Q.cur.noiseOverlap[i] != (float)n.overlap[i]) c.fail("noise sequence from %.8g: shared sample %d is %.8g, expected %.8g", P.cur.noiseSeed, i, Q.cur.noiseOverlap[i], n.overlap[i]);
    c.cls(P.cur.noiseSeed < 0 ? "cold start" : "running"); c.nontrivial(); c.eval(97);
    if (c.want_sample()) c.sample("position %.8g -> %.8g", P.cur.noiseSeed, Q.cur.noiseSeed);
}

// ---------------------------------------------------------------- P22 tones
static void tone_render(Case& c) {   // enumerated: every tone index and amplitude
    Tape& t = c.t; uint64_t i = t.raw(8); int id = (int)(i % 256), amp = (int)(i / 256 % 128);
    bool dstar = amp == 127 && (i / 32768) % 2; (void)dstar;
    for (int build = 0; build < 2; build++) {
        Lib& L = lib(build ? "simd" : "scalar");
        char d[49]; gen::bits(t, d, 49); for (int k = 0; k < 8; k++) d[12 + k] = (char)(id >> (7 - k) & 1);
        for (int k = 0; k < 6; k++) d[6 + k] = (char)(amp >> (6 - k) & 1);
        d[44] = (char)(amp & 1); mbe_parms p, q; base(p, true); if (t.chance(1, 2)) { gen::model(t, p); gen::extras(t, p); } p.swn = (int)t.u32(); p.un = (int)t.u32();
        for (int mode = 0; mode < 2; mode++) {
            q = p; float out[160]; for (float& f : out) f = 1e9f; int a = mode ? 103 : amp; double f1, f2; bool ok = rs::tone_freqs(id, &f1, &f2); if (mode && id > 122) ok = false;
            if (mode) L.mbe_synthesizeTonefdstar(out, d, &q, id); else L.mbe_synthesizeTonef(out, d, &q);
            rs::Tone m; m.p1 = (uint32_t)p.swn; m.p2 = (uint32_t)p.un; double w[160] = {0}; if (ok) m.render(f1, f2, a, w);
            for (int n = 0; n < 160; n++) if (!(fabs(out[n] - w[n]) <= 2e-5 * rs::CLIP)) c.fail("%s tone %d amplitude %d: sample %d is %.7g, expected %.7g", mode ? "D-STAR" : "AMBE", id, a, n, out[n], w[n]);
            if (ok && ((uint32_t)q.swn != m.p1 || (uint32_t)q.un != m.p2)) c.fail("%s tone %d: oscillator phases %08x %08x, expected %08x %08x", mode ? "D-STAR" : "AMBE", id, (unsigned)q.swn, (unsigned)q.un, m.p1, m.p2);
            q.swn = p.swn; q.un = p.un; if (memcmp(&p, &q, sizeof p)) c.fail("tone %d: a parameter field changed", id);
            c.eval(160); c.cls(!ok ? "silent index" : f2 > 0 ? "dual tone" : "single tone"); if (ok && a) c.nontrivial();
        }
    }
    c.key = mix64(i + 77); if (c.want_sample()) c.sample("tone index %d, amplitude %d, start phase any", id, amp);
}
static void tone_stream(Case& c) {   // through the decoder: tone frames of one stream join without a phase step
    Tape& t = c.t; bool plus = t.chance(1, 2); Lib& L = lib(pick_lib(t, c)); Lib& N = lib("notones"); int codec = plus ? AMBE2450 : AMBE2400;
    reset_hidden(L, 3); reset_hidden(N, 3); Trip tr, tn; init(L, tr); init(N, tn); rs::Tone m; char es[64]; float out[160], on[160];
    int lead = (int)t.below(3), n = t.chance(1, 200) ? t.range(100, 800) : t.range(2, 10); bool frame = t.chance(1, 2);
    for (int i = 0; i < lead; i++) { char d[49]; gen::frame_bits(t, codec, gen::VOICE, d); api::data_f(L, codec, out, 0, 0, es, d, tr); api::data_f(N, codec, on, 0, 0, es, d, tn); if (memcmp(out, on, sizeof out) && L.name == std::string("scalar")) c.fail("speech differs in the build without tones"); }
    // D-STAR speech frames keep the phase words; a speech frame leaves the oscillators where they were
    m.p1 = (uint32_t)tr.cur.swn; m.p2 = (uint32_t)tr.cur.un; int id = 0, amp = 0; char tx[300] = ""; size_t tl = 0; int dual = 0;
    for (int i = 0; i < n; i++) {
        char d[49]; if (i == 0 || t.chance(1, 3)) { id = plus && t.chance(1, 2) ? 128 + (int)t.below(36) : 5 + (int)t.below(118); amp = (int)t.below(128); }
        if (!plus && id < 7) id += 7;      // the D-STAR decoder accepts indices 7 to 122
        gen::bits(t, d, 49); if (plus) gen::tone2450(t, d, id, amp); else gen::tone2400(d, id);
        int e = 0, e2 = 0, errs = plus ? (int)t.below(5) : (int)t.below(3);
        if (frame) { Frame f = gen::channel(t, codec, d, false); char dd[88]; gen::corrupt(t, codec, f, (int)t.below(2)); Frame g = f; api::frame_f(L, codec, out, &e, &e2, es, f, dd, tr); char es2[64]; api::frame_f(N, codec, on, &e, &e2, es2, g, dd, tn); if (memcmp(d, dd, 49)) return; errs = e2; }
        else { api::data_f(L, codec, out, 0, errs, es, d, tr); char es2[64]; api::data_f(N, codec, on, 0, errs, es2, d, tn); }
        double f1, f2, w[160]; rs::tone_freqs(id, &f1, &f2); m.render(f1, f2, plus ? amp : 103, w);
        for (int k = 0; k < 160; k++) {
            if (!(fabs(out[k] - w[k]) <= 3e-5 * rs::CLIP)) c.fail("%s tone frame %d (index %d, amplitude %d): sample %d is %.7g, the running oscillator gives %.7g", plus ? "AMBE" : "D-STAR", i + 1, id, amp, k, out[k], w[k]);
            if (on[k] != 0) c.fail("%s tone frame %d (index %d): the build without tones outputs %g at sample %d", plus ? "AMBE" : "D-STAR", i + 1, id, on[k], k);
        }
        if (plus && !strchr(es, 'T')) c.fail("tone frame %d: status \"%s\"", i + 1, es);
        c.eval(160); if (f2 > 0) dual++; if (tl < 200) tl += (size_t)snprintf(tx + tl, sizeof tx - tl, "%d ", id);
    }
    c.nontrivial(); c.cls(plus ? "AMBE tones" : "D-STAR tones"); if (dual) c.cls("with dual tones");
    if (c.want_sample()) c.sample("%s, indices %s", plus ? "AMBE" : "D-STAR", tx);
}

// ---------------------------------------------------------------- P23 comfort noise
static void comfort(Case& c) {
    Tape& t = c.t; Lib& L = lib(pick_lib(t, c)); static const uint32_t sp[] = {0, 1, 0x12345678u, 0x6d25357bu, 0x7fffffffu, 0x80000000u, 0xffffffffu};
    int at = -1; uint32_t seed = t.chance(1, 4) ? sp[t.below(7)] : t.chance(1, 4) ? gen::extreme_seed(t, &at) : t.u32(); if (at >= 0) c.cls("extreme random value"); int n = t.chance(1, 300) ? t.range(100, 3000) : t.range(1, 20); bool fresh = t.chance(1, 8); std::string err; double sum = 0, sq = 0; int cnt = 0;
    auto run = [&]() {
        rs::Java j(fresh ? 0x12345678u : seed); if (!fresh) L.mbe_setThreadRngSeed(seed);
        for (int k = 0; k < n && err.empty(); k++) {
            bool sh = t.chance(1, 3); float f[160]; short s[160]; char m[200];
            for (float& v : f) v = 1e9f; memset(s, 0x55, sizeof s);
            if (!fresh && t.chance(1, 6)) { seed = t.chance(1, 5) ? 0 : t.u32(); j = rs::Java(seed); L.mbe_setThreadRngSeed(seed); }
            if (sh) L.mbe_synthesizeComfortNoise(s); else L.mbe_synthesizeComfortNoisef(f);
            for (int i = 0; i < 160; i++) {
                double w = j.next(); sum += w; sq += w * w; cnt++;
                if (sh ? fabs(s[i] - 7 * w) > 1.001 || abs(s[i] - (int)(7 * w)) > (fabs(7 * w - round(7 * w)) < 1e-4 ? 1 : 0) : !(fabs(f[i] - w) <= 1e-5)) { snprintf(m, sizeof m, "seed %u, block %d (%s): sample %d is %.8g, expected %.8g", seed, k, sh ? "16 bit" : "float", i, sh ? (double)s[i] : (double)f[i], sh ? 7 * w : w); err = m; break; }
            }
            c.eval(160);
        }
    };
    if (fresh) { std::thread th(run); th.join(); c.cls("default seed of a new thread"); } else { run(); c.cls("seeded"); }
    if (!err.empty()) c.fail("%s", err.c_str());
    c.nontrivial(); if (c.want_sample()) c.sample("seed %u, %d blocks%s, rms %.3f", seed, n, fresh ? " on a new thread" : "", sqrt(sq / cnt));
}
static void comfort_muted(Case& c) {   // what a muted frame plays is exactly the next block of that sequence
    Tape& t = c.t; Lib& L = lib(pick_lib(t, c)); Pair P; speech_pair(t, c, P, MIXED); uint32_t seed = t.u32(); reset_hidden(L, 5); L.mbe_setThreadRngSeed(seed); rs::Java j(seed); Trip tr; init(L, tr);
    int n = t.chance(1, 200) ? t.range(50, 500) : t.range(1, 8);
    for (int k = 0; k < n; k++) {
        float f[160]; short s[160]; int how = (int)t.below(4); bool sh = false; const char* nm = "";
        Pair Q = P;
        if (how == 0) { Q.cur.repeatCount = 4; L.mbe_synthesizeSpeechf(f, &Q.cur, &Q.prev, 3); nm = "repeat limit"; }
        else if (how == 1) { Q.cur.mutingThreshold = 0.0875f; Q.cur.errorRate = (float)t.real(0.0876, 0.5); L.mbe_synthesizeSpeechf(f, &Q.cur, &Q.prev, 3); nm = "IMBE error rate"; }
        else if (how == 2) { Q.cur.repeatCount = 5; L.mbe_synthesizeSpeech(s, &Q.cur, &Q.prev, 3); sh = true; nm = "repeat limit, 16 bit"; }
        else { char d[88], es[64]; memset(d, 0, 88); gen::frame_bits(t, AMBE2450, gen::ERASURE, d); d[4] = 0; gen::set_b0(AMBE2450, d, 121); api::data_f(L, AMBE2450, f, 0, 0, es, d, tr); nm = "erasure frame"; if (!strchr(es, 'E')) continue; }
        for (int i = 0; i < 160; i++) { double w = j.next(); if (sh ? fabs(s[i] - 7 * w) > 1.001 : !(fabs(f[i] - w) <= 1e-5)) c.fail("%s: sample %d is %.8g, expected %.8g of the comfort noise sequence", nm, i, sh ? (double)s[i] / 7 : (double)f[i], w); }
        c.cls(nm); c.eval(160);
    }
    c.nontrivial(); if (c.want_sample()) c.sample("%d muted frames, seed %u", n, seed);
}

// ---------------------------------------------------------------- P29 float -> 16 bit
static void pcm_block(Case& c) {   // enumerated: 2^16 blocks of 2^16 consecutive bit patterns
    uint64_t b = c.t.raw(8); static const char* nm[] = {"scalar", "simd", "release"};
    if (b >= 65536) return;
    uint32_t base_ = (uint32_t)(b * 40503u % 65536u) << 16; uint64_t n = 0; bool nan = ((base_ >> 23) & 0xff) == 0xff && (base_ & 0x7fffff);
    if (nan) { c.cls("NaN blocks skipped"); return; }
    float in[160]; short out[160], want[160];
    for (uint32_t k = 0; k < 65536; k += 160) {
        for (int i = 0; i < 160; i++) { uint32_t u = base_ + std::min<uint32_t>(65535, k + (uint32_t)i); if ((u & 0x7f800000u) == 0x7f800000u && (u & 0x7fffff)) u &= 0xff800000u; memcpy(&in[i], &u, 4); want[i] = rs::to_short(in[i]); }
        for (int v = 0; v < 3; v++) {
            memset(out, 0x5a, sizeof out); lib(nm[v]).mbe_floattoshort(in, out);
            if (memcmp(out, want, sizeof out)) for (int i = 0; i < 160; i++) if (out[i] != want[i]) c.fail("%s build: %.9g (bits %08x, position %d) converts to %d, expected %d", nm[v], in[i], base_ + k + (uint32_t)i, i, out[i], want[i]);
        }
        n += 3 * 160;
    }
    c.eval(n); c.key = mix64(b + 5); c.nontrivial(); c.cls("blocks");
    if (c.want_sample()) { float f; memcpy(&f, &base_, 4); c.sample("bit patterns %08x..%08x (from %g)", base_, base_ + 65535, f); }
}
static void pcm_mixed(Case& c) {   // every lane, arbitrary neighbours, near the clipping level
    Tape& t = c.t; static const char* nm[] = {"scalar", "simd", "release"}; float in[160]; short out[164]; bool clip = false;
    for (float& f : in) {
        switch (t.below(6)) {
            case 0: f = (float)t.real(-5000, 5000); break;
            case 1: { float e = (float)(rs::CLIP * (t.chance(1, 2) ? 1 : -1)); int k = (int)t.below(9) - 4; for (int i = 0; i < abs(k); i++) e = nextafterf(e, k > 0 ? 1e9f : -1e9f); f = e; break; }
            case 2: f = (float)((double)((int)t.below(62000) - 31000) / 7.0); break;
            case 3: f = t.chance(1, 2) ? INFINITY : -INFINITY; break;
            case 4: { uint32_t u = t.u32(); if ((u & 0x7f800000u) == 0x7f800000u) u &= 0xbf7fffffu; memcpy(&f, &u, 4); break; }
            default: f = (float)t.real(-3, 3);
        }
        if (fabs(f) > rs::CLIP) clip = true;
    }
    for (const char* v : nm) {
        for (short& s : out) s = 0x5a5a;
        lib(v).mbe_floattoshort(in, out);
        for (int i = 0; i < 160; i++) { short w = rs::to_short(in[i]); if (out[i] != w) c.fail("%s build: sample %d: %.9g converts to %d, expected %d", v, i, in[i], out[i], w); if (abs(out[i]) > 31128) c.fail("%s build: %d exceeds 95 percent of full scale", v, out[i]); }
        for (int i = 160; i < 164; i++) if (out[i] != 0x5a5a) c.fail("%s build: wrote past 160 samples", v);
    }
    c.eval(480); if (clip) c.nontrivial(); if (c.want_sample()) c.sample("first samples %.6g %.6g %.6g", in[0], in[1], in[2]);
}

Property* find_property(const std::string& id) {
    static Property p; golay_nearest();
    if (id == "P16") p = {"P16", "smoothing changed a voicing decision or an amplitude", {{"single call", smoothing, 1500000, 40000000}}};
    else if (id == "P17") p = {"P17", "enhancement changed some amplitude by more than one percent", {{"spectra", enhancement, 2000000, 50000000}}};
    else if (id == "P18") p = {"P18", "the expected audio is at least 100 times louder than the comparison tolerance", {{"voiced", speech<VOICED>, 300000, 6000000}, {"sum of voiced and unvoiced", speech<MIXED>, 150000, 4000000}}, {"frames for which float rounding alone decides a branch (pitch stability limit, band edge, phase wrap) are skipped and counted"}};
    else if (id == "P19") p = {"P19", "the expected audio is at least 100 times louder than the comparison tolerance", {{"unvoiced", speech<UNVOICED>, 750000, 16000000}}, {"frames for which float rounding alone decides a band edge are skipped and counted"}};
    else if (id == "P20") p = {"P20", "every case synthesizes at least one frame with non-zero phases", {{"phase tracks", phases, 250000, 6000000}, {"steady voiced sound", steady, 150000, 3000000}}};
    else if (id == "P21") p = {"P21", "histories with at least two advances of the sequence; single calls always", {{"histories", noise_history, 150000, 2500000}, {"single call", noise_direct, 300000, 8000000}}};
    else if (id == "P22") { p = {"P22", "a valid tone with non-zero amplitude; streams of at least two tone frames", {{"all indices and amplitudes", tone_render, 32768, 32768, true}, {"streams", tone_stream, 400000, 10000000}}}; p.exhaustive = "all 256 tone indices with all 128 amplitudes, both tone renderers, scalar and SIMD builds (start phases and other bits are sampled)"; }
    else if (id == "P23") p = {"P23", "every case compares at least one block with the reference generator", {{"sequence", comfort, 500000, 20000000}, {"muted frames", comfort_muted, 300000, 12000000}}};
    else if (id == "P29") { p = {"P29", "blocks of non-NaN values; mixed blocks with at least one clipped sample", {{"all bit patterns", pcm_block, 65536, 65536, true}, {"mixed blocks", pcm_mixed, 300000, 10000000}}}; p.exhaustive = "every float bit pattern except NaN, on the scalar, SIMD and release builds"; }
    else return nullptr;
    return &p;
}
