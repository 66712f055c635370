// Generators shared by the properties.
#pragma once
#include "pbt.hpp"
#include "codec.hpp"
#include "ref_decode.hpp"
#include <algorithm>

namespace gen {
using namespace ref;
using pbt::Tape; using pbt::Case;

inline void bits(Tape& t, char* d, int n) { for (int i = 0; i < n; i += 8) { int v = t.byte(); for (int k = 0; k < 8 && i + k < n; k++) d[i + k] = (char)(v >> k & 1); } }
inline void putbits(char* d, std::initializer_list<int> pos, int v) { int n = (int)pos.size(), i = 0; for (int p : pos) { d[p] = (char)(v >> (n - 1 - i) & 1); i++; } }
inline void set_b0(int codec, char* d, int b0) {
    if (codec == AMBE2400) putbits(d, {0, 1, 2, 3, 4, 5, 48}, b0);
    else if (codec == AMBE2450) putbits(d, {0, 1, 2, 3, 37, 38, 39}, b0);
    else putbits(d, {0, 1, 2, 3, 4, 5, 85, 86}, b0);
}
inline int voice_b0s(int codec) { return codec == AMBE2400 ? 126 : codec == AMBE2450 ? 120 : 208; }

enum Kind { VOICE, SILENCE, ERASURE, TONE, BADTONE, INVALID, ANY, NKIND };
inline const char* kind_name(int k) { static const char* n[] = {"voice", "silence", "erasure", "tone", "bad-tone", "invalid", "any"}; return n[k]; }

// valid AMBE tone pattern carrying an ID and an amplitude
inline void tone2450(Tape& t, char* d, int id, int amp) {
    for (int i = 0; i < 6; i++) d[i] = 1;
    for (int i = 0; i < 8; i++) d[12 + i] = (char)(id >> (7 - i) & 1);
    for (int i = 0; i < 6; i++) d[6 + i] = (char)(amp >> (6 - i) & 1);     // amplitude bits 6..1
    d[44] = (char)(amp & 1);
    if (t.chance(1, 2)) for (int i = 0; i < 4; i++) d[45 + i] = 0;
    else for (int i = 0; i < 4; i++) d[20 + i] = d[12 + i];
}
inline void tone2400(char* d, int id) {
    static const int inv[8] = {1, 2, 3, 4, 0, 7, 6, 5};   // upper three index bits -> three frame bits
    for (int i = 0; i < 6; i++) d[i] = 1;
    putbits(d, {6, 7, 8}, inv[id >> 5]); putbits(d, {9, 42, 43, 10, 11}, id & 31);
}
inline bool valid_tone_id(int id) { return (id >= 5 && id <= 122) || (id >= 128 && id <= 163); }

// Parameter bits of one frame of the given kind.
inline void frame_bits(Tape& t, int codec, int kind, char* d) {
    int n = is_ambe(codec) ? 49 : 88;
    bits(t, d, n);
    switch (kind) {
        case VOICE: set_b0(codec, d, (int)t.below(voice_b0s(codec))); break;
        case SILENCE: if (codec == AMBE2450) { set_b0(codec, d, 124 + (int)t.below(2)); d[4] = 0; } else set_b0(codec, d, (int)t.below(voice_b0s(codec))); break;
        case ERASURE:
            if (codec == AMBE2450) { set_b0(codec, d, (int)t.below(6) < 4 ? 120 + (int)t.below(4) : 126 + (int)t.below(2)); d[4] = 0; }
            else if (codec == AMBE2400) tone2400(d, t.chance(1, 2) ? 160 + (int)t.below(4) : (int)t.below(256));
            else set_b0(codec, d, 208 + (int)t.below(48));
            break;
        case TONE:
            if (codec == AMBE2450) { int id = t.chance(1, 4) ? 128 + (int)t.below(36) : 5 + (int)t.below(118); tone2450(t, d, id, (int)t.below(128)); }
            else if (codec == AMBE2400) tone2400(d, 5 + (int)t.below(118));
            break;
        case BADTONE:
            if (codec == AMBE2450) { int id; do id = (int)t.below(256); while (valid_tone_id(id) && !t.exhausted()); if (valid_tone_id(id)) id = 0; tone2450(t, d, id, (int)t.below(128)); }
            else if (codec == AMBE2400) tone2400(d, t.chance(1, 2) ? (int)t.below(5) : 123 + (int)t.below(133));
            break;
        case INVALID: if (!is_ambe(codec)) set_b0(codec, d, 208 + (int)t.below(48)); break;
        default: break;
    }
}
inline int pick_kind(Tape& t, int codec) {
    int r = (int)t.below(20);
    if (r < 10) return VOICE;
    if (r < 12) return is_ambe(codec) ? TONE : INVALID;
    if (r < 14) return SILENCE;
    if (r < 16) return ERASURE;
    if (r < 17) return BADTONE;
    return r < 18 ? INVALID : ANY;
}

// Flip `n` distinct used bits of a frame, optionally confined to one row range.
inline void corrupt(Tape& t, int codec, Frame& f, int n, int row = -1) {
    Shape s = shape(codec);
    for (int i = 0; i < n; i++) {
        int r, c, guard = 0;
        do { r = row >= 0 ? row : (int)t.below(s.rows); c = (int)t.below(s.cols); } while (!used(codec, r, c) && ++guard < 50);
        if (used(codec, r, c)) f.at(r, c) ^= 1;
    }
}
// 7200 parameter order -> 7100 transmission order
inline void unconvert7100(const char* d, char* tx) {
    char probe[88], pos[88], b[88]; memset(b, 0, 88);
    // the permutation only depends on the fundamental, carried in tx[1..6], tx[86], tx[87]
    for (int i = 0; i < 6; i++) b[1 + i] = d[i];
    b[86] = d[85]; b[87] = d[86];
    char base[88]; convert7100(b, base);
    for (int i = 0; i < 88; i++) {
        pos[i] = -1;
        bool fund = (i >= 1 && i <= 6) || i >= 86;
        if (fund) continue;
        memcpy(probe, b, 88); probe[i] ^= 1; char o[88]; convert7100(probe, o);
        for (int k = 0; k < 88; k++) if (o[k] != base[k]) pos[i] = (char)k;
    }
    memcpy(tx, b, 88);
    for (int i = 0; i < 88; i++) if (pos[i] >= 0) tx[i] = d[(int)pos[i]];
}
// Channel frame carrying parameter bits d (in decoder order).
inline Frame channel(Tape& t, int codec, const char* d0, bool junk_unused) {
    char tx[88]; const char* d = d0;
    if (codec == IMBE7100) { unconvert7100(d0, tx); d = tx; }
    Frame f = frame_encode(codec, d);
    if (junk_unused) { Shape s = shape(codec); for (int r = 0; r < s.rows; r++) for (int c = 0; c < s.cols; c++) if (!used(codec, r, c)) f.at(r, c) = (char)t.below(2); }
    return f;
}
inline Frame noise_frame(Tape& t, int codec) { Frame f; memset(&f, 0, sizeof f); Shape s = shape(codec); f = frame_encode(codec, std::string(88, '\0').c_str()); bits(t, f.b, s.rows * s.cols); return f; }

// ---- random spectral models, inside the ranges the codecs produce
inline double pick_w0(Tape& t, int* L) {
    switch (t.below(4)) {
        case 0: { int b = (int)t.below(120); *L = (int)tab::AmbeLtable[b]; return tab::AmbeW0table[b] * 2 * M_PI; }
        case 1: { int b = (int)t.below(126); *L = (int)tab::AmbePlusLtable[b]; return exp2(-4.311767578125 - 0.021336 * (b + 0.5)) * 2 * M_PI; }
        default: { int b = (int)t.below(208); *L = imbe_L(b); return 4 * M_PI / (b + 39.5); }
    }
}
inline void model(Tape& t, mbe_parms& p, double loMl = -2, double hiMl = 11) {
    int L; p.w0 = (float)pick_w0(t, &L); p.L = L; p.K = L < 37 ? (L + 2) / 3 : 12;
    int vm = (int)t.below(4);
    for (int l = 1; l <= 56; l++) {
        p.Vl[l] = vm == 0 ? 0 : vm == 1 ? 1 : (int)t.below(2);
        double e = t.real(loMl, hiMl);
        p.log2Ml[l] = (float)e; p.Ml[l] = (float)exp2(e);
        p.PHIl[l] = (float)t.real(-40, 4000); p.PSIl[l] = (float)t.real(-40, 4000);
    }
    p.Vl[0] = 0; p.Ml[0] = 1; p.log2Ml[0] = 0;
    p.gamma = (float)t.real(-4, 12);
}
inline void noise_state(Tape& t, mbe_parms& p) {
    p.noiseSeed = t.chance(1, 10) ? -1.0f : (float)t.below(53125);
    for (int i = 0; i < 96; i++) p.noiseOverlap[i] = (float)t.below(53125);
    double amp = t.chance(1, 4) ? 0 : exp2(t.real(0, 12));
    for (int i = 0; i < 256; i++) p.previousUw[i] = (float)(amp * t.real(-1, 1));
}
// every scalar of the state that is not part of the spectral model: error statistics, repeat counts,
// smoothing history, muting threshold, tone phases, position of the noise sequence
inline void extras(Tape& t, mbe_parms& p) {
    static const float R[] = {0, 0.005f, 0.0125f, 0.0875f, 0.096f}, M[] = {0.096f, 0.0875f, 0, 1};
    float r = R[t.below(5)]; int k = (int)t.below(6);
    p.errorRate = k == 0 ? nextafterf(r, 1) : k == 1 ? r : k == 2 ? nextafterf(r, 0) : k == 3 ? (float)t.real(0.0124, 0.0136) : (float)t.real(0, 0.2);
    p.errorCountTotal = t.chance(1, 3) ? (int)t.below(4) : (int)t.below(20); p.errorCount4 = (int)t.below(4);
    p.repeat = (int)t.below(6); p.repeatCount = (int)t.below(6); p.mutingThreshold = M[t.below(4)];
    p.localEnergy = t.chance(1, 12) ? 0 : (float)exp2(t.real(4, t.chance(1, 4) ? 60 : 32));
    p.amplitudeThreshold = t.chance(1, 8) ? (int)t.u32() : (int)t.below(80000);
    p.swn = t.chance(1, 4) ? (int)t.below(4) : (int)t.u32(); p.un = t.chance(1, 4) ? (int)t.below(4) : (int)t.u32();
    p.noiseSeed = t.chance(1, 8) ? -1.0f : (float)(t.chance(1, 8) ? (t.chance(1, 2) ? 53124 - t.below(200) : t.below(200)) : t.below(53125));
}
// ---- thread seeds, often such that a random sequence meets an extreme value
inline uint32_t back(uint32_t s, int n) { while (n-- > 0) s = (uint32_t)((s + 53125u - 11213u) % 53125u * 35106ull % 53125u); return s; }   // n steps back in the noise sequence
inline uint32_t some_seed(Tape& t) {
    static const uint32_t x[] = {0, 53124, 1, 53123, 26562}, w[] = {0, 1, 53125, 0x7fffffffu, 0x80000000u, 0xffffffffu};
    uint32_t k = t.below(4);
    if (k > 1) return t.u32();
    if (k == 1) return w[t.below(6)];
    return back(x[t.below(5)], 160 * (int)t.below(8)) + 53125u * t.below(80000);   // the noise position of a later frame
}
// a seed whose comfort noise has an extreme 24-bit value at some sample of the first block
inline uint32_t extreme_seed(Tape& t, int* at) {
    static const uint32_t top[] = {0, 0xffffff, 0x800000, 0x7fffff, 1, 0xfffffe}; const uint64_t M = 0x5DEECE66Dull, MASK = (1ull << 48) - 1;
    uint64_t inv = 1; for (int i = 0; i < 6; i++) inv *= 2 - M * inv;
    uint64_t a = 1, b = 0; *at = (int)t.below(160); for (int i = 0; i <= *at; i++) { a = a * inv & MASK; b = ((b - 0xB) * inv) & MASK; }
    uint64_t hi = (uint64_t)top[t.below(6)] << 24, low = t.below(1u << 24);
    for (uint32_t i = 0; i < 1u << 24; i++) { uint64_t s = (a * (hi | ((low + i) & 0xffffff)) + b) & MASK; s ^= M; if (s >> 32 == 0 && (uint32_t)s) return (uint32_t)s; }
    *at = -1; return 1;
}
}  // namespace gen
