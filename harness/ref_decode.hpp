// Independent double-precision model of the parameter decoders (bits -> spectral model), written from
// the layout of the frame and the prediction equations; quantiser tables are frozen copies.
#pragma once
#include "ref_ecc.hpp"
#include "mbelib-neo/mbelib.h"
#include <cmath>
#include <vector>
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wnarrowing"
#pragma GCC diagnostic ignored "-Wmissing-braces"
#pragma GCC diagnostic ignored "-Wunused-variable"
namespace tab {
#include "tables/ambe3600x2400.inc"
#include "tables/ambe3600x2450.inc"
#include "tables/imbe7200x4400.inc"
}
#pragma GCC diagnostic pop

namespace ref {

struct Dec {
    int ret = 0;              // classification as the public decoder reports it
    bool voice = false;       // parameters below are meaningful
    bool silence = false;
    double w0 = 0, gamma = 0;
    int L = 0, K = 0, b0 = 0;
    int Vl[58] = {0};
    double log2Ml[58] = {0}, Ml[58] = {0};
};

inline int gather(const char* d, std::initializer_list<int> pos) { int v = 0; for (int p : pos) v = v << 1 | d[p]; return v; }

// inverse DCT of one block: x[1..n] from c[1..n]
inline void idct(const double* c, int n, double* x) {
    for (int j = 1; j <= n; j++) {
        double s = c[1];
        for (int k = 2; k <= n; k++) s += 2.0 * c[k] * cos(M_PI * (k - 1) * (j - 0.5) / n);
        x[j] = s;
    }
}

// Interpolated previous log magnitude at harmonic l of the current frame.
inline double predict(const mbe_parms& prev, int L, int l, bool zero_is_first) {
    double x = (double)prev.L / L * l; int k = (int)floor(x + 1e-9); double f = x - k; if (f < 1e-6) f = 0;
    auto at = [&](int i) -> double {
        if (i == 0) return zero_is_first ? prev.log2Ml[1] : prev.log2Ml[0];
        return prev.log2Ml[i > prev.L ? prev.L : i];
    };
    return (1 - f) * at(k) + (f > 0 ? f * at(k + 1) : 0.0);
}

inline void ambe_amplitudes(Dec& o, const mbe_parms& prev, const int Ji[4], const double G[9], const double hoc[4][4], double unvc) {
    double R[9]; idct(G, 8, R);
    std::vector<double> T(o.L + 1); int l = 1;
    for (int i = 0; i < 4; i++) {
        int n = Ji[i]; double C[19] = {0}, x[19];
        C[1] = 0.5 * (R[2 * i + 1] + R[2 * i + 2]);
        C[2] = (R[2 * i + 1] - R[2 * i + 2]) / (2.0 * M_SQRT2);
        for (int k = 3; k <= n && k <= 6; k++) C[k] = hoc[i][k - 3];
        idct(C, n, x);
        for (int j = 1; j <= n; j++) T[l++] = x[j];
    }
    double pm = 0, tm = 0; std::vector<double> P(o.L + 1);
    for (l = 1; l <= o.L; l++) { P[l] = predict(prev, o.L, l, true); pm += P[l]; tm += T[l]; }
    pm /= o.L; tm /= o.L;
    for (l = 1; l <= o.L; l++) {
        o.log2Ml[l] = T[l] - tm + 0.65 * (P[l] - pm) + o.gamma - 0.5 * log2((double)o.L);
        o.Ml[l] = exp2(o.log2Ml[l]) * (o.Vl[l] ? 1.0 : unvc);
    }
}

inline bool tone_pattern2450(const char* d) {
    bool six = true; for (int i = 0; i < 6; i++) six = six && d[i];
    bool zero = true, same = true;
    for (int i = 0; i < 4; i++) { zero = zero && !d[45 + i]; same = same && d[12 + i] == d[20 + i]; }
    return six && (zero || same);
}

// total_errors < 0: no error gate on the tone classification
inline Dec decode2450(const char* d, const mbe_parms& prev, int total_errors = -1) {
    Dec o;
    o.b0 = gather(d, {0, 1, 2, 3, 37, 38, 39});
    if (tone_pattern2450(d) && total_errors < 6) { o.ret = 7; return o; }
    if ((o.b0 >= 120 && o.b0 <= 123) || o.b0 >= 126) { o.ret = 2; return o; }
    o.voice = true; o.silence = o.b0 >= 124;
    int b1 = gather(d, {4, 5, 6, 7, 35});
    double f0;
    if (o.silence) { f0 = M_PI / 32; o.L = o.b0 == 124 ? 15 : 14; }
    else { f0 = tab::AmbeW0table[o.b0]; o.L = (int)tab::AmbeLtable[o.b0]; }
    o.w0 = 2 * M_PI * f0;
    for (int l = 1; l <= o.L; l++) o.Vl[l] = o.silence ? 0 : tab::AmbeVuv[b1][(int)(16.0 * l * f0)];
    o.gamma = tab::AmbeDg[gather(d, {8, 9, 10, 11, 36})] + 0.5 * prev.gamma;
    const float* p24 = tab::AmbePRBA24[gather(d, {12, 13, 14, 15, 16, 17, 18, 19, 40})];
    const float* p58 = tab::AmbePRBA58[gather(d, {20, 21, 22, 23, 41, 42, 43})];
    double G[9] = {0, 0, p24[0], p24[1], p24[2], p58[0], p58[1], p58[2], p58[3]};
    const float* h[4] = {tab::AmbeHOCb5[gather(d, {24, 25, 26, 27, 44})], tab::AmbeHOCb6[gather(d, {28, 29, 30, 45})],
                         tab::AmbeHOCb7[gather(d, {31, 32, 33, 46})], tab::AmbeHOCb8[gather(d, {34, 47, 48})]};
    double hoc[4][4]; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) hoc[i][k] = h[i][k];
    ambe_amplitudes(o, prev, tab::AmbeLmprbl[o.L], G, hoc, 0.2046 / sqrt(o.w0));
    return o;
}

inline Dec decode2400(const char* d, const mbe_parms& prev) {
    Dec o;
    o.b0 = gather(d, {0, 1, 2, 3, 4, 5, 48});
    if (o.b0 >= 126) {
        static const int hi[8] = {0x80, 0x00, 0x20, 0x40, 0x60, 0xe0, 0xc0, 0xa0};   // D-STAR tone index, upper three bits
        int id = hi[gather(d, {6, 7, 8})] | gather(d, {9, 42, 43, 10, 11});
        o.ret = id >= 5 && id <= 122 ? id : 3;
        return o;
    }
    o.voice = true;
    double f0 = exp2(-4.311767578125 - 0.021336 * (o.b0 + 0.5));
    o.w0 = 2 * M_PI * f0; o.L = (int)tab::AmbePlusLtable[o.b0];
    int b1 = gather(d, {38, 39, 40, 41});
    for (int l = 1; l <= o.L; l++) o.Vl[l] = tab::AmbePlusVuv[b1][(int)(16.0 * l * f0)];
    o.gamma = tab::AmbePlusDg[gather(d, {6, 7, 8, 9, 42, 43})] + 0.5 * prev.gamma;
    const float* p24 = tab::AmbePlusPRBA24[gather(d, {10, 11, 12, 13, 14, 15, 16, 44, 45})];
    const float* p58 = tab::AmbePlusPRBA58[gather(d, {17, 18, 19, 20, 21, 46, 47})];
    double G[9] = {0, 0, p24[0], p24[1], p24[2], p58[0], p58[1], p58[2], p58[3]};
    const float* h[4] = {tab::AmbePlusHOCb5[gather(d, {22, 23, 25, 26})], tab::AmbePlusHOCb6[gather(d, {27, 28, 29, 30})],
                         tab::AmbePlusHOCb7[gather(d, {31, 32, 33, 34})], tab::AmbePlusHOCb8[gather(d, {35, 36, 37}) * 2]};
    double hoc[4][4]; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) hoc[i][k] = h[i][k];
    ambe_amplitudes(o, prev, tab::AmbePlusLmprbl[o.L], G, hoc, 0.2046 / sqrt(o.w0));
    return o;
}

inline int imbe_L(int b0) { return (int)(0.9254 * (int)((b0 + 39.5) / 4.0 + 0.25)); }

inline Dec decode_imbe(const char* d, const mbe_parms& prev) {
    Dec o;
    o.b0 = gather(d, {0, 1, 2, 3, 4, 5, 85, 86});
    if (o.b0 > 207) { o.ret = 1; return o; }
    o.voice = true;
    o.w0 = 4 * M_PI / (o.b0 + 39.5); o.L = imbe_L(o.b0); o.K = o.L < 37 ? (o.L + 2) / 3 : 12;
    int x = o.L - 9; int b[58] = {0};
    for (int i = 0; i < 79; i++) if (d[6 + i]) b[tab::bo[x][i][0]] |= 1 << tab::bo[x][i][1];
    for (int l = 1; l <= o.L; l++) { int k = (l - 1) / 3; if (k > o.K - 1) k = o.K - 1; o.Vl[l] = b[1] >> (o.K - 1 - k) & 1; }
    double G[7], R[7]; G[1] = tab::B2[b[2]];
    for (int i = 2; i <= 6; i++) { int n = (int)tab::ba[x][i - 2][0]; G[i] = tab::ba[x][i - 2][1] * (b[i + 1] - (1 << (n - 1)) + 0.5); }
    idct(G, 6, R);
    double T[58], pm = 0, P[58]; int l = 1, m = 8;
    for (int i = 0; i < 6; i++) {
        int n = tab::ImbeJi[x][i]; double C[12] = {0}, y[12]; C[1] = R[i + 1];
        for (int k = 2; k <= n; k++, m++) {
            int B = tab::hoba[x][m - 8];
            C[k] = B ? (double)tab::quantstep[B - 1] * tab::standdev[k - 2] * (b[m] - (1 << (B - 1)) + 0.5) : 0.0;
        }
        idct(C, n, y);
        for (int j = 1; j <= n; j++) T[l++] = y[j];
    }
    double rho = o.L <= 15 ? 0.4 : o.L <= 24 ? 0.03 * o.L - 0.05 : 0.7;
    for (l = 1; l <= o.L; l++) { P[l] = predict(prev, o.L, l, false); pm += P[l]; }
    pm /= o.L;
    for (l = 1; l <= o.L; l++) { o.log2Ml[l] = T[l] + rho * (P[l] - pm); o.Ml[l] = exp2(o.log2Ml[l]); }
    return o;
}

inline Dec ref_decode(int codec, const char* d, const mbe_parms& prev, int total_errors = -1) {
    return codec == AMBE2400 ? decode2400(d, prev) : codec == AMBE2450 ? decode2450(d, prev, total_errors) : decode_imbe(d, prev);
}
}  // namespace ref
