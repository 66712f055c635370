// Independent double-precision model of the synthesis side: enhancement, adaptive smoothing, noise
// generator, phases, voiced and unvoiced synthesis, tones, comfort noise.
#pragma once
#include "mbelib-neo/mbelib.h"
#include <cmath>
#include <climits>
#include <cstdint>
#include <cstring>
#include <vector>
#include <complex>
#include <algorithm>

namespace rs {

static const double CLIP = 32767.0 * 0.95 / 7.0;

// ---- spectral enhancement; w[l] = normalised weight actually applied before the energy scaling
struct Enh { double M[58]; double R0, R1; bool shaped; };
inline Enh enhance(const mbe_parms& p) {
    Enh e; e.R0 = e.R1 = 0; double x[58] = {0};
    for (int l = 1; l <= p.L; l++) { double m2 = (double)p.Ml[l] * p.Ml[l]; e.R0 += m2; e.R1 += m2 * cos((double)p.w0 * l); }
    double rho = e.R0 > 0 ? e.R1 / e.R0 : 0;
    double den = (double)p.w0 * e.R0 * (1 - rho * rho);
    e.shaped = den > 0;
    double s = 0;
    for (int l = 1; l <= p.L; l++) {
        double w = 1;
        if (e.shaped && 8 * l > p.L && p.Ml[l] != 0) {
            double q = 0.96 * M_PI * (1 + rho * rho - 2 * rho * cos((double)p.w0 * l)) / den;
            w = sqrt((double)p.Ml[l]) * sqrt(sqrt(q < 0 ? 0 : q));
            w = w > 1.2 ? 1.2 : w < 0.5 ? 0.5 : w;
        }
        x[l] = w * p.Ml[l]; s += x[l] * x[l];
    }
    double g = s > 0 ? sqrt(e.R0 / s) : 1;
    for (int l = 1; l <= p.L; l++) e.M[l] = g * x[l];
    return e;
}

// ---- adaptive smoothing.  V: 0/1, or 2 where the amplitude is within rounding of the voicing threshold
struct Smooth { double energy, M[58]; int V[58]; long Tm; double VM, Am; };
inline Smooth smooth(const mbe_parms& cur, const mbe_parms& prev, double RM0) {
    Smooth o; double pe = prev.localEnergy < 10000 ? 75000 : prev.localEnergy;
    o.energy = fmax(10000, 0.95 * pe + 0.05 * RM0);
    float er = cur.errorRate; int et = cur.errorCountTotal;
    if (er <= 0.005f && et <= 4) o.VM = INFINITY;
    else { double x = pow(o.energy, 0.375); o.VM = er <= 0.0125f && cur.errorCount4 == 0 ? 45.255 * x / exp(277.26 * er) : 1.414 * x; }
    o.Am = 0;
    for (int l = 1; l <= cur.L; l++) {
        double m = cur.Ml[l]; o.Am += m;
        o.V[l] = fabs(m - o.VM) <= 2e-5 * o.VM ? (cur.Vl[l] == 1 ? 1 : 2) : m > o.VM ? 1 : cur.Vl[l];
    }
    long pt = prev.amplitudeThreshold <= 0 ? 20480 : prev.amplitudeThreshold;
    o.Tm = er <= 0.005f && et <= 6 ? 20480 : std::min<long>(6000L - 300L * et + pt, INT_MAX);
    double s = o.Am > o.Tm && o.Am > 0 ? o.Tm / o.Am : 1;
    for (int l = 1; l <= cur.L; l++) o.M[l] = s * cur.Ml[l];
    return o;
}

// ---- unvoiced noise: 256-sample frames hopping by 160 over one linear congruential sequence
struct Noise { double buf[256]; double seed; double overlap[96]; };
inline Noise noise(double seed, const float* overlap, double cold) {
    Noise n; memset(&n, 0, sizeof n);
    if (seed < 0) { n.seed = cold; return n; }
    uint32_t x = (uint32_t)seed % 53125u;
    for (int i = 0; i < 256; i++) { if (i < 96) n.buf[i] = overlap[i]; else { n.buf[i] = x; x = (171 * x + 11213) % 53125; } }
    n.seed = x; for (int i = 0; i < 96; i++) n.overlap[i] = n.buf[160 + i];
    return n;
}

// ---- speech synthesis
inline double Ws(int n) { double v = (105.0 - abs(n)) / 50.0; return v < 0 ? 0 : v > 1 ? 1 : v; }   // shared trapezoid
struct Synth {
    bool muted = false, ambiguous = false;
    int L; double M[58]; int V[58];
    double PSI[58], PHI[58];          // new phases of the current frame
    double voiced[160], unvoiced[160], out[160];
    double Uw[256];
    Noise n; Smooth sm; double ampsum;
};
inline void fft256(std::complex<double>* a, bool inv) {
    const int N = 256;
    for (int i = 1, j = 0; i < N; i++) { int bit = N >> 1; for (; j & bit; bit >>= 1) j ^= bit; j ^= bit; if (i < j) std::swap(a[i], a[j]); }
    for (int len = 2; len <= N; len <<= 1) {
        static std::vector<std::complex<double>> tw[2][9]; int lg = __builtin_ctz(len); auto& w = tw[inv][lg];
        if (w.empty()) { w.resize(len / 2); for (int k = 0; k < len / 2; k++) w[k] = std::polar(1.0, (inv ? 2 : -2) * M_PI * k / len); }
        for (int i = 0; i < N; i += len) for (int k = 0; k < len / 2; k++) { auto u = a[i + k], v = a[i + k + len / 2] * w[k]; a[i + k] = u + v; a[i + k + len / 2] = u - v; }
    }
}
// `hint` (the library's voicing after the call) settles voicing decisions on the threshold
inline void synth(Synth& o, const mbe_parms& cur, const mbe_parms& prev, double RM0, double coldseed, const int* hint) {
    o.sm = smooth(cur, prev, RM0); o.L = cur.L; o.ambiguous = false; o.muted = false;
    for (int l = 1; l <= 56; l++) { o.M[l] = l <= cur.L ? o.sm.M[l] : 0; o.V[l] = l <= cur.L ? o.sm.V[l] : 1; if (o.V[l] == 2) o.V[l] = hint ? hint[l] : 1; }
    if (cur.repeatCount >= 4 || (fabs(cur.mutingThreshold - 0.096f) > 1e-6 && cur.errorRate > cur.mutingThreshold)) { o.muted = true; return; }
    o.n = noise(cur.noiseSeed, cur.noiseOverlap, coldseed);
    int nuv = cur.Vl[0] == 0; for (int l = 1; l <= cur.L; l++) nuv += o.V[l] == 0;
    double pM[58]; int pV[58]; for (int l = 1; l <= 56; l++) { pM[l] = l <= prev.L ? prev.Ml[l] : 0; pV[l] = l <= prev.L ? prev.Vl[l] : 1; }
    double cw = cur.w0, pw = prev.w0;
    for (int l = 1; l <= 56; l++) {
        double ps = fmod((double)prev.PSIl[l], 2 * M_PI); if (ps < 0) ps += 2 * M_PI;
        o.PSI[l] = ps + (pw + cw) * l * 80;
        o.PHI[l] = l <= cur.L / 4 ? o.PSI[l] : o.PSI[l] + nuv * (2 * M_PI / 53125 * o.n.buf[l] - M_PI) / cur.L;
    }
    memset(o.voiced, 0, sizeof o.voiced); memset(o.unvoiced, 0, sizeof o.unvoiced); o.ampsum = 0;
    int maxl = std::max(cur.L, prev.L);
    for (int l = 1; l <= maxl; l++) {
        bool cv = o.V[l] == 1, pv = pV[l] == 1;
        if (cv) o.ampsum += o.M[l];
        if (pv) o.ampsum += pM[l];
        if (cv && pv && l < 8) {
            double df = fabs(cw - pw) - 0.1 * cw; if (fabs(df) < 1e-6 * cw) o.ambiguous = true;
            if (df < 0) {
                double dphi = o.PHI[l] - prev.PHIl[l] - (pw + cw) * l * 80;
                double fr = (dphi + M_PI) / (2 * M_PI), k = floor(fr); if (fabs(fr - round(fr)) < 2e-4 && (o.M[l] > 0 || pM[l] > 0)) o.ambiguous = true;
                double dw = (dphi - 2 * M_PI * k) / 160;
                for (int n = 0; n < 160; n++) o.voiced[n] += 2 * (pM[l] + n / 160.0 * (o.M[l] - pM[l])) * cos(prev.PHIl[l] + (pw * l + dw) * n + (cw - pw) * l * n * n / 320.0);
                continue;
            }
        }
        if (pv && pM[l] != 0) for (int n = 0; n < 105; n++) o.voiced[n] += 2 * Ws(n) * pM[l] * cos(prev.PHIl[l] + pw * l * n);
        if (cv && o.M[l] != 0) for (int n = 55; n < 160; n++) o.voiced[n] += 2 * Ws(n - 160) * o.M[l] * cos(o.PHI[l] + cw * l * (n - 160));
    }
    // unvoiced bands
    std::complex<double> a[256];
    for (int i = 0; i < 256; i++) a[i] = o.n.buf[i] * Ws(i - 128);
    fft256(a, false);
    std::complex<double> b[256]; for (int i = 0; i < 256; i++) b[i] = 0;
    for (int l = 1; l <= cur.L; l++) {
        double ea = (l - 0.5) * 128 / M_PI * cw, eb = (l + 0.5) * 128 / M_PI * cw;
        if (o.V[l] == 0 && cw > 0 && ((fabs(ea - round(ea)) < 1e-4 && ea < 128) || (fabs(eb - round(eb)) < 1e-4 && eb < 128))) o.ambiguous = true;
        int lo = std::min(128, (int)ceil(ea)), hi = std::min(128, (int)ceil(eb));
        if (o.V[l] != 0) continue;
        double s = 0; for (int k = lo; k < hi; k++) s += std::norm(a[k]);
        if (hi <= lo || s <= 1e-10) continue;
        double g = 146.17696 * o.M[l] / sqrt(s / (hi - lo));
        for (int k = lo; k < hi; k++) b[k] = a[k] * g;
    }
    for (int k = 1; k < 128; k++) b[256 - k] = std::conj(b[k]);
    fft256(b, true);
    for (int i = 0; i < 256; i++) o.Uw[i] = b[i].real() / 256;
    for (int n = 0; n < 160; n++) {
        double wp = Ws(n), wc = Ws(n - 160), d = wp * wp + wc * wc;
        double p = n + 128 < 256 ? prev.previousUw[n + 128] : 0, c = n >= 32 ? o.Uw[n - 32] : 0;
        if (d > 1e-10) o.unvoiced[n] = (wp * p + wc * c) / d;
    }
    for (int n = 0; n < 160; n++) { double v = o.voiced[n] + o.unvoiced[n]; o.out[n] = v > CLIP ? CLIP : v < -CLIP ? -CLIP : v; }
}

// ---- comfort noise
struct Java {
    uint64_t s;
    explicit Java(uint32_t seed) { s = ((uint64_t)(seed ? seed : 0x6d25357bu) ^ 0x5DEECE66Dull) & ((1ull << 48) - 1); }
    double next() { s = (s * 0x5DEECE66Dull + 0xB) & ((1ull << 48) - 1); return ((double)(s >> 24) / 16777216.0 * 2 - 1) * (0.003 * 32767 / 7); }
};
inline short to_short(float x) { float a = 7.0f * x; const float m = 32767.0f * 0.95f; if (a > m) a = m; else if (a < -m) a = -m; return (short)a; }

// ---- tones
inline bool tone_freqs(int id, double* f1, double* f2) {
    static const int pair[36][2] = {{1336, 941}, {1209, 697}, {1336, 697}, {1477, 697}, {1209, 770}, {1336, 770}, {1477, 770}, {1209, 852}, {1336, 852}, {1477, 852}, {1633, 697}, {1633, 770},
        {1633, 852}, {1633, 941}, {1209, 941}, {1477, 941}, {1162, 820}, {1052, 606}, {1162, 606}, {1279, 606}, {1052, 672}, {1162, 672}, {1279, 672}, {1052, 743}, {1162, 743}, {1279, 743},
        {1430, 606}, {1430, 672}, {1430, 743}, {1430, 820}, {1052, 820}, {1279, 820}, {440, 350}, {480, 440}, {620, 480}, {490, 350}};
    *f1 = *f2 = 0;
    if (id >= 5 && id <= 122) { *f1 = 31.25 * id; return true; }
    if (id >= 128 && id <= 163) { *f1 = pair[id - 128][0]; *f2 = pair[id - 128][1]; return true; }
    return false;
}
struct Tone {
    uint32_t p1 = 0, p2 = 0;
    void render(double f1, double f2, int amp, double* out) {
        uint32_t s1 = (uint32_t)floor(f1 / 8000 * 4294967296.0 + 0.5), s2 = (uint32_t)floor(f2 / 8000 * 4294967296.0 + 0.5);
        double g = amp / 127.0 * CLIP;
        for (int n = 0; n < 160; n++) {
            p1 += s1; double a = -cos(p1 * (2 * M_PI / 4294967296.0));
            if (f2 > 0) { p2 += s2; out[n] = 0.5 * g * (a - cos(p2 * (2 * M_PI / 4294967296.0))); } else out[n] = g * a;
        }
    }
};
}  // namespace rs
