// Independent reference for channel coding: Golay by polynomial division, Hamming by null space,
// nearest-codeword decoding by enumeration, the keystream by its recurrence, and the frame layouts.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>

namespace ref {

// ---- Golay (23,12), g(x) = x^11+x^10+x^6+x^5+x^4+x^2+1, data in the 12 high bits ----
inline uint32_t golay_encode(uint32_t data) {
    uint32_t r = data << 11;
    for (int i = 22; i >= 11; i--) if (r >> i & 1) r ^= 0xC75u << (i - 11);
    return data << 11 | r;
}
// nearest[w] = 12 data bits of the unique codeword within distance 3 (the code is perfect)
inline const std::vector<uint16_t>& golay_nearest() {
    static std::vector<uint16_t> t;
    if (t.empty()) {
        t.assign(1u << 23, 0xffff);
        std::vector<uint32_t> e{0};
        for (int a = 0; a < 23; a++) { e.push_back(1u << a);
            for (int b = a + 1; b < 23; b++) { e.push_back(1u << a | 1u << b);
                for (int c = b + 1; c < 23; c++) e.push_back(1u << a | 1u << b | 1u << c); } }
        for (uint32_t d = 0; d < 4096; d++) { uint32_t w = golay_encode(d); for (uint32_t x : e) t[w ^ x] = (uint16_t)d; }
    }
    return t;
}
inline int popc(uint32_t x) { return __builtin_popcount(x); }

// ---- Hamming (15,11): parity-check rows; data in bits 14..4 ----
static const int HAM_STD[4] = {0x7f08, 0x78e4, 0x66d2, 0x55b1};
static const int HAM_7100[4] = {0x7ac8, 0x3d64, 0x1eb2, 0x7591};
inline int ham_syn(const int* H, uint32_t w) { int s = 0; for (int i = 0; i < 4; i++) s |= (popc(w & H[i]) & 1) << i; return s; }
inline uint32_t ham_decode(const int* H, uint32_t w, int* errs) {
    *errs = 0;
    if (ham_syn(H, w) == 0) return w;
    for (int b = 0; b < 15; b++) if (ham_syn(H, w ^ (1u << b)) == 0) { *errs = 1; return w ^ (1u << b); }
    return 0xffffffffu;
}
inline uint32_t ham_encode(const int* H, uint32_t data11) {
    for (uint32_t p = 0; p < 16; p++) if (ham_syn(H, data11 << 4 | p) == 0) return data11 << 4 | p;
    return 0xffffffffu;
}

enum Codec { AMBE2400, AMBE2450, IMBE7200, IMBE7100 };
static const char* const CODEC_NAME[4] = {"AMBE3600x2400", "AMBE3600x2450", "IMBE7200x4400", "IMBE7100x4400"};
struct Shape { int rows, cols, nd; };
inline Shape shape(int codec) {
    static const Shape s[4] = {{4, 24, 49}, {4, 24, 49}, {8, 23, 88}, {7, 24, 88}};
    return s[codec];
}
// One frame as a flat array of one-bit chars, row-major like the library's [rows][cols].
struct Frame {
    char b[8 * 24];
    int cols;
    char& at(int r, int c) { return b[r * cols + c]; }
    char at(int r, int c) const { return b[r * cols + c]; }
};
inline bool is_ambe(int c) { return c == AMBE2400 || c == AMBE2450; }

// Keystream bits k(1), k(2), ... for a seed field.
struct Keystream {
    uint32_t s;
    explicit Keystream(uint32_t seed) : s((16u * seed) & 0xffffu) {}
    int next() { s = (173u * s + 13849u) & 0xffffu; return (int)(s >> 15); }
};
inline uint32_t seed_field(int codec, const Frame& f) {
    uint32_t v = 0;
    if (is_ambe(codec)) for (int i = 23; i >= 12; i--) v = v << 1 | (uint32_t)f.at(0, i);
    else if (codec == IMBE7200) for (int i = 22; i >= 11; i--) v = v << 1 | (uint32_t)f.at(0, i);
    else for (int i = 18; i >= 12; i--) v = v << 1 | (uint32_t)f.at(0, i);
    return v;
}
// rows that carry keystream: (row, highest bit)
inline void scramble(int codec, Frame& f) {
    Keystream k(seed_field(codec, f));
    auto row = [&](int r, int hi) { for (int j = hi; j >= 0; j--) f.at(r, j) ^= (char)k.next(); };
    if (is_ambe(codec)) row(1, 22);
    else if (codec == IMBE7200) { for (int r = 1; r < 4; r++) row(r, 22); for (int r = 4; r < 7; r++) row(r, 14); }
    else { row(1, 23); row(2, 22); row(3, 22); row(4, 14); row(5, 14); }
}

// Which frame positions carry information (everything else must be ignored).
inline bool used(int codec, int r, int c) {
    if (is_ambe(codec)) { static const int n[4] = {24, 23, 11, 14}; return c < n[r]; }
    if (codec == IMBE7200) return c < (r < 4 ? 23 : r < 7 ? 15 : 7);
    if (r == 0) return c >= 1 && c < 19;   // bit 0 is the extended-Golay parity, not consulted
    if (r == 1) return c >= 1 && c < 24;
    return c < (r < 4 ? 23 : r < 6 ? 15 : 23);
}

inline uint32_t get(const Frame& f, int r, int lo, int n) { uint32_t v = 0; for (int i = n - 1; i >= 0; i--) v = v << 1 | (uint32_t)(f.at(r, lo + i) & 1); return v; }
inline void put(Frame& f, int r, int lo, int n, uint32_t v) { for (int i = 0; i < n; i++) f.at(r, lo + i) = (char)(v >> i & 1); }

// 7100x4400 -> 7200x4400 parameter order.
inline int imbe_K(int b0) {
    double w0 = (4 * 3.14159265358979323846) / (b0 + 39.5);
    int L = (int)(0.9254 * (int)(3.14159265358979323846 / w0 + 0.25));
    return L < 37 ? (L + 2) / 3 : 12;
}
inline void convert7100(const char* in, char* out) {
    int b0 = 0;
    for (int i = 1; i <= 6; i++) b0 = b0 << 1 | in[i];
    b0 = b0 << 2 | in[86] << 1 | in[87];
    int K = imbe_K(b0);
    // destination slots of the source bits taken in order, spectral-voicing block moved behind b2..
    std::vector<int> src, dst;
    for (int i = 1; i < 88; i++) if (i < 42 || i >= 44 + K) src.push_back(i);
    for (int i = 0; i < 87; i++) if (i < 48 || i >= 50 + K) dst.push_back(i);
    for (size_t i = 0; i < src.size(); i++) out[dst[i]] = in[src[i]];
    for (int i = 0; i < K; i++) out[48 + i] = in[44 + i];
    out[48 + K] = in[42];
    out[49 + K] = in[43];
    out[87] = in[0];
}

struct Decoded { int c0, total, c4; char d[88]; };

// First stage: correct C0 in place, return its error count.
inline int c0_correct(int codec, Frame& f) {
    const auto& N = golay_nearest();
    if (is_ambe(codec)) {
        uint32_t w = get(f, 0, 1, 23), d = N[w];
        int e = popc((w >> 11) ^ d);
        put(f, 0, 12, 12, d);
        if (e == 0) { int ones = 0; for (int j = 0; j < 24; j++) ones += f.at(0, j); if (ones & 1) { f.at(0, 0) ^= 1; e = 1; } }
        return e;
    }
    if (codec == IMBE7200) {
        uint32_t w = get(f, 0, 0, 23), d = N[w];
        put(f, 0, 11, 12, d);
        return popc((w >> 11) ^ d);
    }
    uint32_t w = get(f, 0, 1, 18), d = N[w];   // shortened: five leading data bits are zero
    put(f, 0, 12, 7, d & 0x7f);
    return popc((w >> 11) ^ d);
}
// Second stage: from a C0-corrected, demodulated frame to parameter bits (7100 order not converted).
inline int data_decode(int codec, const Frame& f, char* d, int* c4) {
    const auto& N = golay_nearest();
    int e = 0, n = 0; *c4 = 0;
    auto bits = [&](uint32_t v, int k) { for (int i = k - 1; i >= 0; i--) d[n++] = (char)(v >> i & 1); };
    auto golay = [&](int r, int lo) { uint32_t w = get(f, r, lo, 23); uint32_t x = N[w]; e += popc((w >> 11) ^ x); bits(x, 12); };
    if (is_ambe(codec)) { bits(get(f, 0, 12, 12), 12); golay(1, 0); bits(get(f, 2, 0, 11), 11); bits(get(f, 3, 0, 14), 14); return e; }
    if (codec == IMBE7200) {
        bits(get(f, 0, 11, 12), 12);
        for (int r = 1; r < 4; r++) golay(r, 0);
        for (int r = 4; r < 7; r++) { int he; uint32_t x = ham_decode(HAM_STD, get(f, r, 0, 15), &he); e += he; if (r == 4) *c4 = he; bits(x >> 4, 11); }
        bits(get(f, 7, 0, 7), 7);
        return e;
    }
    bits(get(f, 0, 12, 7), 7);
    golay(1, 1); golay(2, 0); golay(3, 0);
    for (int r = 4; r < 6; r++) { int he; uint32_t x = ham_decode(HAM_7100, get(f, r, 0, 15), &he); e += he; if (r == 4) *c4 = he; bits(x >> 4, 11); }
    bits(get(f, 6, 0, 23), 23);
    return e;
}
inline Decoded frame_decode(int codec, Frame f) {
    Decoded o;
    o.c0 = c0_correct(codec, f);
    scramble(codec, f);
    if (codec == IMBE7100) { char t[88]; o.total = o.c0 + data_decode(codec, f, t, &o.c4); convert7100(t, o.d); }
    else o.total = o.c0 + data_decode(codec, f, o.d, &o.c4);
    return o;
}
// Encoder: parameter bits (for 7100: in transmission order) to a clean frame.  Unused cells are 0.
inline Frame frame_encode(int codec, const char* d) {
    Frame f; memset(&f, 0, sizeof f); f.cols = shape(codec).cols;
    int n = 0;
    auto take = [&](int k) { uint32_t v = 0; for (int i = 0; i < k; i++) v = v << 1 | (uint32_t)d[n++]; return v; };
    if (is_ambe(codec)) {
        uint32_t w = golay_encode(take(12)); put(f, 0, 1, 23, w); f.at(0, 0) = (char)(popc(w) & 1);
        put(f, 1, 0, 23, golay_encode(take(12))); put(f, 2, 0, 11, take(11)); put(f, 3, 0, 14, take(14));
    } else if (codec == IMBE7200) {
        for (int r = 0; r < 4; r++) put(f, r, 0, 23, golay_encode(take(12)));
        for (int r = 4; r < 7; r++) put(f, r, 0, 15, ham_encode(HAM_STD, take(11)));
        put(f, 7, 0, 7, take(7));
    } else {
        put(f, 0, 1, 18, golay_encode(take(7)) & 0x3ffff);
        put(f, 1, 1, 23, golay_encode(take(12)));
        put(f, 2, 0, 23, golay_encode(take(12))); put(f, 3, 0, 23, golay_encode(take(12)));
        for (int r = 4; r < 6; r++) put(f, r, 0, 15, ham_encode(HAM_7100, take(11)));
        put(f, 6, 0, 23, take(23));
    }
    scramble(codec, f);
    return f;
}
}  // namespace ref
