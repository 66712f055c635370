#include "pbt.hpp"
#include "codec.hpp"
using namespace pbt;
using namespace ref;

static void rand_bits(Tape& t, char* d, int n) { for (int i = 0; i < n; i += 8) { int v = t.byte(); for (int k = 0; k < 8 && i + k < n; k++) d[i + k] = (char)(v >> k & 1); } }
static std::string frame_hex(int codec, const Frame& f) { Shape s = shape(codec); return hex_bits(f.b, s.rows * s.cols); }

static Lib& pick(Tape& t) { return lib(t.chance(1, 4) ? "simd" : "scalar"); }

// ---------------------------------------------------------------- P03 Golay
static void golay_block(Case& c) {   // all 2^23 words in 2048 blocks of 4096
    Lib& L = lib("scalar"); const auto& N = golay_nearest();
    uint32_t blk = (uint32_t)c.t.raw(8);
    for (uint32_t k = 0; k < 4096; k++) {
        uint32_t w = (blk << 12 | k) & 0x7fffff;
        long v = (long)w; L.mbe_checkGolayBlock(&v);
        if (v != (long)N[w]) c.fail("packed Golay word %06x decodes to %03lx, nearest codeword has data %03x", w, v, N[w]);
        char in[23], out[23];
        for (int i = 0; i < 23; i++) { in[i] = (char)(w >> i & 1); out[i] = 7; }
        int e = L.mbe_golay2312(in, out);
        uint32_t o = 0; for (int i = 0; i < 23; i++) { if (out[i] & ~1) c.fail("Golay word %06x: output bit %d is not a bit", w, i); o |= (uint32_t)out[i] << i; }
        if (o >> 11 != N[w]) c.fail("Golay word %06x: data bits %03x, expected %03x", w, o >> 11, N[w]);
        if ((o ^ w) & 0x7ff) c.fail("Golay word %06x: parity bits delivered as %03x", w, o & 0x7ff);
        if (e != popc((w >> 11) ^ N[w])) c.fail("Golay word %06x: reports %d corrected bits, %d data bits differ", w, e, popc((w >> 11) ^ N[w]));
        for (int i = 0; i < 23; i++) if (in[i] != (char)(w >> i & 1)) c.fail("Golay word %06x: input modified", w);
    }
    c.eval(4096); c.cls("words", 4096); c.nontrivial(); c.key = mix64(blk + 1);
    if (c.want_sample()) c.sample("packed words %06x..%06x, each against the nearest codeword", blk << 12, (blk << 12) | 4095);
}
static void golay_enc(Case& c) {    // codeword + error pattern + garbage above bit 22, also aliasing in==out
    Lib& L = pick(c.t);
    for (int r = 0; r < 32; r++) {
        uint32_t d = c.t.below(4096), w = golay_encode(d); int ne = c.t.range(0, 3);
        uint32_t x = w; for (int i = 0; i < ne; i++) x ^= 1u << c.t.below(23);
        uint64_t hi = c.t.u32(); hi = c.t.chance(1, 8) ? ~0ull : c.t.chance(1, 4) ? 1ull << hi % 41 : (hi | (uint64_t)c.t.u32() << 32) & ((1ull << 41) - 1);
        long v = (long)((uint64_t)x | hi << 23);
        long v0 = v;
        L.mbe_checkGolayBlock(&v);
        if (v != (long)d) c.fail("packed block %lx (codeword of data %03x, %d bit errors, garbage above bit 22) decodes to %lx", v0, d, ne, v);
        char b[23]; for (int i = 0; i < 23; i++) b[i] = (char)(x >> i & 1);
        char out[23]; memset(out, 7, 23); int e = L.mbe_golay2312(b, out), want = popc((x >> 11) ^ d); L.mbe_golay2312(b, b);   // in place: the bits only
        for (int i = 0; i < 23; i++) { char q = i < 11 ? (char)(x >> i & 1) : (char)(d >> (i - 11) & 1); if (out[i] != q || b[i] != q) c.fail("word %06x (codeword of data %03x): bit %d decodes to %d, in place to %d, expected %d", x, d, i, out[i], b[i], q); }
        if (e != want) c.fail("word %06x: reports %d corrected data bits, expected %d", x, e, want);
        c.eval(3);
        if (ne) c.nontrivial();
        if (c.want_sample()) c.sample("data %03x codeword %06x received %06x block %lx", d, w, x, v0);
    }
}
// ---------------------------------------------------------------- P04 Hamming
static void ham_all(Case& c) {
    Lib& L = lib("scalar"); uint32_t blk = (uint32_t)c.t.raw(8);
    for (int var = 0; var < 2; var++) {
        const int* H = var ? HAM_7100 : HAM_STD;
        for (uint32_t k = 0; k < 512; k++) {
            uint32_t w = (blk << 9 | k) & 0x7fff; int ee; uint32_t x = ham_decode(H, w, &ee);
            char in[15], out[15], al[15];
            for (int i = 0; i < 15; i++) { al[i] = in[i] = (char)(w >> i & 1); out[i] = 7; }
            int e = var ? L.mbe_7100x4400hamming1511(in, out) : L.mbe_hamming1511(in, out);
            uint32_t o = 0; for (int i = 0; i < 15; i++) { if (out[i] & ~1) c.fail("Hamming(%s) word %04x: output %d is not a bit", var ? "7100" : "std", w, i); o |= (uint32_t)out[i] << i; }
            if (o != x || e != ee) c.fail("Hamming(%s) word %04x: decoded %04x errs %d, nearest codeword %04x errs %d", var ? "7100" : "std", w, o, e, x, ee);
            for (int i = 0; i < 15; i++) if (in[i] != (char)(w >> i & 1)) c.fail("Hamming word %04x: input modified", w);
            int e2 = var ? L.mbe_7100x4400hamming1511(al, al) : L.mbe_hamming1511(al, al);
            uint32_t o2 = 0; for (int i = 0; i < 15; i++) o2 |= (uint32_t)(al[i] & 1) << i;
            if (o2 != x || e2 != ee) c.fail("Hamming(%s) word %04x decoded in place gives %04x errs %d", var ? "7100" : "std", w, o2, e2);
            // idempotence: a corrected word decodes to itself
            char o3[15]; int e3 = var ? L.mbe_7100x4400hamming1511(out, o3) : L.mbe_hamming1511(out, o3);
            if (e3 != 0 || memcmp(out, o3, 15)) c.fail("Hamming(%s): decoding the corrected word of %04x changes it", var ? "7100" : "std", w);
        }
    }
    c.eval(1024 * 3); c.nontrivial(); c.key = mix64(blk + 1);
    if (c.want_sample()) c.sample("15-bit words %04x..%04x with both bit mappings", blk << 9, (blk << 9) | 511);
}
// an unrelated check over sequences: results do not depend on what was decoded before
static void ham_seq(Case& c) {
    Lib& L = pick(c.t); int n = 8 + c.t.range(0, 56);
    for (int i = 0; i < n; i++) {
        int var = c.t.below(3); uint32_t w = c.t.below(32768);
        if (var == 2) { char in[23], out[23]; uint32_t g = w | (uint32_t)c.t.below(256) << 15; for (int k = 0; k < 23; k++) in[k] = (char)(g >> k & 1); int ge = L.mbe_golay2312(in, out); uint32_t go = 0; for (int k = 11; k < 23; k++) go |= (uint32_t)(out[k] & 1) << (k - 11); if (go != golay_nearest()[g] || ge != popc((g >> 11) ^ go)) c.fail("interleaved Golay word %06x: data %03x errs %d", g, go, ge); continue; }
        const int* H = var ? HAM_7100 : HAM_STD; int ee; uint32_t x = ham_decode(H, w, &ee);
        char in[15], out[15]; for (int k = 0; k < 15; k++) in[k] = (char)(w >> k & 1);
        int e = var ? L.mbe_7100x4400hamming1511(in, out) : L.mbe_hamming1511(in, out);
        uint32_t o = 0; for (int k = 0; k < 15; k++) o |= (uint32_t)(out[k] & 1) << k;
        if (o != x || e != ee) c.fail("interleaved Hamming(%d) word %04x: %04x errs %d, expected %04x errs %d", var, w, o, e, x, ee);
        if (ee) c.nontrivial();
        c.eval();
    }
    if (c.want_sample()) c.sample("%d interleaved block decodes", n);
}

// ---------------------------------------------------------------- P05 demodulation
static void demod_case(Case& c) {
    Lib& L = pick(c.t); int codec = c.t.below(4); Shape s = shape(codec);
    Frame f; memset(&f, 0, sizeof f); f.cols = s.cols;
    rand_bits(c.t, f.b, s.rows * s.cols);
    Frame g = f, exp = f; scramble(codec, exp);
    api::demod(L, codec, g);
    for (int r = 0; r < s.rows; r++) for (int k = 0; k < s.cols; k++)
        if (g.at(r, k) != exp.at(r, k)) c.fail("%s demodulation: row %d bit %d is %d, keystream of field %x gives %d (frame %s)", CODEC_NAME[codec], r, k, g.at(r, k), seed_field(codec, f), exp.at(r, k), frame_hex(codec, f).c_str());
    Frame h = g; api::demod(L, codec, h);
    if (memcmp(h.b, f.b, s.rows * s.cols)) c.fail("%s demodulation is not its own inverse (frame %s)", CODEC_NAME[codec], frame_hex(codec, f).c_str());
    c.eval(2); c.cls(CODEC_NAME[codec]); if (memcmp(g.b, f.b, s.rows * s.cols)) c.nontrivial();
    if (c.want_sample()) c.sample("%s field %x frame %s", CODEC_NAME[codec], seed_field(codec, f), frame_hex(codec, f).c_str());
}
static void demod_seeds(Case& c) {  // every keystream, on an all-zero payload: the stream itself
    Lib& L = lib("scalar"); uint32_t blk = (uint32_t)c.t.raw(8);
    for (int codec = 0; codec < 4; codec++) {
        Shape s = shape(codec);
        for (uint32_t k = 0; k < 64; k++) {
            uint32_t v = (blk * 64 + k) & 4095;
            if (codec == IMBE7100 && v > 127) continue;
            Frame f; memset(&f, 0, sizeof f); f.cols = s.cols;
            if (api::is_ambe(codec)) put(f, 0, 12, 12, v); else if (codec == IMBE7200) put(f, 0, 11, 12, v); else put(f, 0, 12, 7, v);
            Frame g = f, e = f; scramble(codec, e); api::demod(L, codec, g);
            if (memcmp(g.b, e.b, s.rows * s.cols)) c.fail("%s keystream of field %x differs: got %s expected %s", CODEC_NAME[codec], v, frame_hex(codec, g).c_str(), frame_hex(codec, e).c_str());
            c.eval();
        }
    }
    c.nontrivial(); c.key = mix64(blk + 77);
    if (c.want_sample()) c.sample("fields %x..%x, all codecs", blk * 64, blk * 64 + 63);
}

// The three public routes from a received frame to parameter bits: float entry, 16-bit entry, the steps.
static const char* ROUTE[] = {"float frame entry", "16-bit frame entry", "separate steps"};
static void receive(Lib& L, int codec, int route, const Frame& f, Trip& st, int* e, int* e2, char* es, char* d, float* out) {
    Frame g = f; short q[160];
    if (route == 0) { api::frame_f(L, codec, out, e, e2, es, g, d, st); return; }
    if (route == 1) { api::frame_s(L, codec, q, e, e2, es, g, d, st); for (int i = 0; i < 160; i++) out[i] = q[i]; return; }
    *e = api::ecc_c0(L, codec, g); api::demod(L, codec, g); *e2 = *e + api::ecc_data(L, codec, g, d); if (codec == IMBE7100) L.mbe_convertImbe7100to7200(d);
    memset(out, 0, 160 * sizeof(float)); es[0] = 0;
}
// what the stream received before: other frames on the same state
static int lead_in(Tape& t, Lib& L, int codec, Trip& st) {
    int n = t.chance(1, 2) ? 0 : t.chance(1, 16) ? t.range(20, 200) : t.range(1, 6); Shape s = shape(codec); int style = t.below(3);
    for (int i = 0; i < n; i++) {
        Frame f; memset(&f, 0, sizeof f); f.cols = s.cols;
        if (style == 0 || t.chance(1, 4)) rand_bits(t, f.b, s.rows * s.cols); else { char d[88]; rand_bits(t, d, s.nd); f = frame_encode(codec, d); if (style == 2) for (int k = t.range(0, 20); k > 0; k--) f.b[t.below((uint32_t)(s.rows * s.cols))] ^= 1; }
        int e, e2; char es[256], d[88]; float out[160]; receive(L, codec, (int)t.below(2), f, st, &e, &e2, es, d, out);
    }
    return n;
}
// ---------------------------------------------------------------- P06 round trip through the frame entry points
static void errors_in(Tape& t, Frame& f, int r, int lo, int n, int k, int* cnt) { for (int i = 0; i < k; i++) { f.at(r, lo + (int)t.below(n)) ^= 1; (*cnt)++; } }
static void roundtrip(Case& c) {
    Lib& L = pick(c.t); int codec = c.t.below(4); Shape s = shape(codec); Tape& t = c.t;
    reset_hidden(L, 7);
    Trip st; init(L, st); int lead = lead_in(t, L, codec, st); c.cls(lead ? "running stream" : "fresh stream");
    int nfr = t.range(1, 3);
    for (int k = 0; k < nfr; k++) {
        char d[88]; rand_bits(t, d, s.nd);
        Frame f = frame_encode(codec, d);
        int inj = 0, level = t.range(0, 3);
        if (level) {
            if (api::is_ambe(codec)) {
                int e0 = t.range(0, level); errors_in(t, f, 0, 1, 23, e0, &inj);
                if (t.chance(1, 4)) { f.at(0, 0) ^= 1; inj++; }
                errors_in(t, f, 1, 0, 23, t.range(0, level), &inj);
            } else if (codec == IMBE7200) {
                for (int r = 0; r < 4; r++) errors_in(t, f, r, 0, 23, t.range(0, level), &inj);
                for (int r = 4; r < 7; r++) errors_in(t, f, r, 0, 15, t.range(0, 1), &inj);
            } else {
                errors_in(t, f, 0, 1, 18, t.range(0, level), &inj);
                errors_in(t, f, 1, 1, 23, t.range(0, level), &inj);
                for (int r = 2; r < 4; r++) errors_in(t, f, r, 0, 23, t.range(0, level), &inj);
                for (int r = 4; r < 6; r++) errors_in(t, f, r, 0, 15, t.range(0, 1), &inj);
            }
            // cells that are not part of the frame may hold anything
            if (t.chance(1, 2)) for (int r = 0; r < s.rows; r++) for (int q = 0; q < s.cols; q++) if (!used(codec, r, q)) f.at(r, q) = (char)(t.byte() & 1);
        }
        char want[88]; if (codec == IMBE7100) convert7100(d, want); else memcpy(want, d, s.nd);
        float out[160]; int e = -5, e2 = -5, route = t.below(3); char es[256], got[88]; memset(got, 9, sizeof got);
        receive(L, codec, route, f, st, &e, &e2, es, got, out); c.cls(ROUTE[route]);
        Decoded ex = frame_decode(codec, f);
        if (memcmp(ex.d, want, s.nd)) c.fail("harness: reference round trip broken");
        for (int i = 0; i < s.nd; i++) if (got[i] != want[i]) c.fail("%s (%s): %d correctable bit errors, parameter bit %d decoded as %d (sent %s, got %s)", CODEC_NAME[codec], ROUTE[route], inj, i, got[i], bits_str(want, s.nd).c_str(), bits_str(got, s.nd).c_str());
        if (e != ex.c0 || e2 != ex.total) c.fail("%s: reports %d/%d corrected bits, expected %d/%d (frame %s)", CODEC_NAME[codec], e, e2, ex.c0, ex.total, frame_hex(codec, f).c_str());
        if (inj) c.nontrivial();
        c.eval(); c.cls(CODEC_NAME[codec]); c.cls(inj ? "with bit errors" : "clean");
        if (c.want_sample()) c.sample("%s data %s, %d bit errors, %d/%d reported", CODEC_NAME[codec], hex_bits(want, s.nd).c_str(), inj, e, e2);
    }
}
// ---------------------------------------------------------------- P07 any received frame
static void anyframe(Case& c) {
    Lib& L = pick(c.t); Tape& t = c.t; int codec = t.below(4); Shape s = shape(codec);
    Frame f; memset(&f, 0, sizeof f); f.cols = s.cols; int how = t.below(3);
    if (how == 0) rand_bits(t, f.b, s.rows * s.cols);
    else {
        char d[88]; rand_bits(t, d, s.nd); f = frame_encode(codec, d);
        int n = how == 1 ? t.range(0, 12) : t.range(0, 60);
        for (int i = 0; i < n; i++) f.b[t.below((uint32_t)(s.rows * s.cols))] ^= 1;
    }
    // stage by stage
    Frame a = f, x = f;
    int e0 = api::ecc_c0(L, codec, a), r0 = c0_correct(codec, x);
    if (e0 != r0) c.fail("%s C0 stage reports %d, nearest codeword says %d (frame %s)", CODEC_NAME[codec], e0, r0, frame_hex(codec, f).c_str());
    if (memcmp(a.b, x.b, s.rows * s.cols)) c.fail("%s C0 stage: frame after correction %s, expected %s (frame %s)", CODEC_NAME[codec], frame_hex(codec, a).c_str(), frame_hex(codec, x).c_str(), frame_hex(codec, f).c_str());
    api::demod(L, codec, a); scramble(codec, x);
    Frame keep = a;
    char d[88], rd[88]; memset(d, 9, sizeof d); int c4;
    int e1 = api::ecc_data(L, codec, a, d), r1 = data_decode(codec, x, rd, &c4);
    if (e1 != r1) c.fail("%s data stage reports %d corrected bits, expected %d (frame %s)", CODEC_NAME[codec], e1, r1, frame_hex(codec, f).c_str());
    if (memcmp(d, rd, s.nd)) c.fail("%s data stage bits %s, expected %s (frame %s)", CODEC_NAME[codec], bits_str(d, s.nd).c_str(), bits_str(rd, s.nd).c_str(), frame_hex(codec, f).c_str());
    (void)keep;
    // whole frame
    reset_hidden(L, 5); Trip st; init(L, st); int lead = lead_in(t, L, codec, st), route = t.below(2); Trip s2 = st; c.cls(lead ? "running stream" : "fresh stream");
    float out[160]; int e = -5, e2 = -5; char es[256], got[88]; memset(got, 9, sizeof got);
    L.mbe_setThreadRngSeed(5); receive(L, codec, route, f, st, &e, &e2, es, got, out);
    Decoded ex = frame_decode(codec, f);
    if (e != ex.c0 || e2 != ex.total) c.fail("%s frame: reports %d/%d, expected %d/%d (frame %s)", CODEC_NAME[codec], e, e2, ex.c0, ex.total, frame_hex(codec, f).c_str());
    if (memcmp(got, ex.d, s.nd)) c.fail("%s frame bits %s, expected %s (frame %s)", CODEC_NAME[codec], bits_str(got, s.nd).c_str(), bits_str(ex.d, s.nd).c_str(), frame_hex(codec, f).c_str());
    // unused cells do not matter
    Frame h = f; bool ch = false;
    for (int r = 0; r < s.rows; r++) for (int q = 0; q < s.cols; q++) if (!used(codec, r, q)) { h.at(r, q) ^= 1; ch = true; }
    if (ch) {
        float o2[160]; int f1, f2; char es2[256], got2[88];
        L.mbe_setThreadRngSeed(5); receive(L, codec, route, h, s2, &f1, &f2, es2, got2, o2);
        if (f1 != e || f2 != e2 || strcmp(es, es2) || memcmp(got, got2, s.nd) || memcmp(out, o2, sizeof out)) c.fail("%s: cells outside the frame change the result (frame %s)", CODEC_NAME[codec], frame_hex(codec, f).c_str());
    }
    c.eval(4); c.cls(CODEC_NAME[codec]); if (ex.total) c.nontrivial();
    c.cls(ex.total > 6 ? "more than 6 errors" : ex.total ? "1..6 errors" : "no errors");
    if (c.want_sample()) c.sample("%s frame %s -> %d/%d, bits %s", CODEC_NAME[codec], frame_hex(codec, f).c_str(), e, e2, hex_bits(got, s.nd).c_str());
}
// ---------------------------------------------------------------- P08 7100 -> 7200
static void conv(Case& c) {
    Lib& L = pick(c.t); char d[88], e[88], g[88]; rand_bits(c.t, d, 88);
    memcpy(g, d, 88); L.mbe_convertImbe7100to7200(g); convert7100(d, e);
    if (memcmp(g, e, 88)) { int i = 0; while (g[i] == e[i]) i++; c.fail("converted bit %d is %d, expected %d (input %s)", i, g[i], e[i], bits_str(d, 88).c_str()); }
    // the fundamental-frequency field is carried over
    int b0 = 0, b1 = 0; for (int i = 1; i <= 6; i++) b0 = b0 << 1 | d[i]; b0 = b0 << 2 | d[86] << 1 | d[87];
    for (int i = 0; i < 6; i++) b1 = b1 << 1 | g[i]; b1 = b1 << 2 | g[85] << 1 | g[86];
    if (b0 != b1) c.fail("pitch field %d became %d (input %s)", b0, b1, bits_str(d, 88).c_str());
    c.eval(2); c.nontrivial(); c.cls(imbe_K(b0) == 12 ? "K=12" : "K<12");
    if (c.want_sample()) c.sample("b0=%d K=%d %s -> %s", b0, imbe_K(b0), hex_bits(d, 88).c_str(), hex_bits(g, 88).c_str());
}
static void conv_perm(Case& c) {   // for every pitch value: a one-bit change moves exactly one bit (bijection)
    Lib& L = lib("scalar"); int b0 = (int)(c.t.raw(8) & 255); char base[88];
    int flip = 0;
    for (int pass = 0; pass < 2; pass++) {
        for (int i = 0; i < 88; i++) base[i] = (char)pass;
        for (int i = 0; i < 6; i++) base[1 + i] = (char)(b0 >> (7 - i) & 1);
        base[86] = (char)(b0 >> 1 & 1); base[87] = (char)(b0 & 1);
        char r0[88]; memcpy(r0, base, 88); L.mbe_convertImbe7100to7200(r0);
        char e0[88]; convert7100(base, e0);
        if (memcmp(r0, e0, 88)) c.fail("b0=%d: conversion of the %d-filled frame differs from the layout", b0, pass);
        bool seen[88] = {false};
        for (int i = 0; i < 88; i++) {
            if ((i >= 1 && i <= 6) || i == 86 || i == 87) continue;
            char x[88], y[88]; memcpy(x, base, 88); x[i] ^= 1; convert7100(x, y); L.mbe_convertImbe7100to7200(x);
            int n = 0, at = -1; for (int k = 0; k < 88; k++) if (x[k] != r0[k]) { n++; at = k; }
            if (n != 1 || seen[at]) c.fail("b0=%d: source bit %d moves %d destination bits (not a bijection)", b0, i, n);
            if (memcmp(x, y, 88)) c.fail("b0=%d: source bit %d goes to %d, layout says otherwise", b0, i, at);
            seen[at] = true; flip++;
        }
    }
    c.eval((uint64_t)flip); c.nontrivial(); c.key = mix64(b0 + 5);
    if (c.want_sample()) c.sample("b0=%d: all %d one-bit changes", b0, flip);
}

Property* find_property(const std::string& id) {
    static Property p;
    golay_nearest();   // build the table before forking
    if (id == "P03") p = {"P03", "all 2^23 received words in blocks of 4096 (a block is one distinct case); plus codewords with 0..3 random bit errors and random bits above the word, non-trivial when at least one bit error was injected",
        {{"all words", golay_block, 2048, 2048, true}, {"codeword+errors+high bits", golay_enc, 600000, 20000000}}, {"received bits are 0/1 chars (documented domain)"}, "all 2^23 received 23-bit words"};
    else if (id == "P04") p = {"P04", "all 2^15 received words for both bit mappings in blocks of 512, plus interleaved sequences with at least one single-bit error",
        {{"all words", ham_all, 64, 64, true}, {"interleaved sequences", ham_seq, 1500000, 40000000}}, {"received bits are 0/1 chars"}, "all 2^15 received 15-bit words, both mappings"};
    else if (id == "P05") p = {"P05", "random frames of the four codecs whose payload is changed by demodulation; plus every keystream seed value",
        {{"every seed field", demod_seeds, 64, 64, true}, {"random frames", demod_case, 4000000, 80000000}}, {"frame cells hold 0/1"}, "every value of the seed field for each codec (all-zero payload)"};
    else if (id == "P06") p = {"P06", "random parameter bits encoded by an independent encoder, with 0..3 random bit errors per Golay word and 0..1 per Hamming word; non-trivial when at least one bit was flipped",
        {{"encode-corrupt-decode", roundtrip, 400000, 10000000}}, {"frame cells hold 0/1"}};
    else if (id == "P07") p = {"P07", "uniformly random frames and encoded frames with up to 60 random bit flips; non-trivial when the reference decoder corrects at least one bit",
        {{"any frame", anyframe, 500000, 12000000}}, {"frame cells hold 0/1"}};
    else if (id == "P08") p = {"P08", "random 88-bit parameter sets, and for each of the 256 pitch values every single-bit change of an all-0 and an all-1 frame",
        {{"every pitch value", conv_perm, 256, 256, true}, {"random sets", conv, 4000000, 100000000}}, {"bits are 0/1 chars"}, "the complete bit permutation for each of the 256 pitch values"};
    else return nullptr;
    return &p;
}
