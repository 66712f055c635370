// P09-P11: bits -> spectral model, against an independent double-precision model.
#include "gen.hpp"
using namespace pbt;
using namespace ref;

// the current set before decoding: a copy of the previous one, or anything at all; the decoded model
// depends on the previous frame's spectrum and gain only
static void others(Tape& t, Trip& tr) {
    bool wild = t.chance(1, 3);
    if (wild) { gen::extras(t, tr.prev); if (t.chance(1, 2)) for (int l = 1; l <= 56; l++) tr.prev.Vl[l] = (int)t.below(2); }
    tr.cur = tr.prev;
    if (wild) { gen::extras(t, tr.cur); if (t.chance(1, 2)) gen::model(t, tr.cur, -8, 14); if (t.chance(1, 4)) { tr.cur.w0 = tr.prev.w0 = 0; } }
}
static void prev_state(Tape& t, Lib& L, int codec, Trip& tr) {
    init(L, tr);
    int how = (int)t.below(4);
    if (how == 0) {            // default state, AMBE defaults established by one silent data frame
        if (is_ambe(codec)) { float o[160]; char s[64]; char d[49]; memset(d, 0, 49); gen::set_b0(codec, d, codec == AMBE2450 ? 120 : 0); api::data_f(L, codec, o, 0, 0, s, d, tr); }
    } else if (how == 1) {     // a chain of decoded frames
        int n = t.range(1, 5); char d[88];
        for (int i = 0; i < n; i++) { gen::frame_bits(t, codec, gen::VOICE, d); api::decode(L, codec, d, &tr.cur, &tr.prev); tr.prev = tr.cur; }
    } else {
        gen::model(t, tr.prev, -8, 14);
        if (t.chance(1, 4)) { tr.prev.L = t.chance(1, 2) ? 56 : 9; }
    }
    tr.prev.repeat = (int)t.below(4); others(t, tr); tr.cur.repeat = 99;
}

static void compare(Case& c, int codec, const char* d, const mbe_parms& prev0, int ret, const mbe_parms& cur, const Dec& e, double tol = 4e-4) {
    int nd = is_ambe(codec) ? 49 : 88;
    auto ctx = [&]() { return std::string(CODEC_NAME[codec]) + " bits " + bits_str(d, nd) + " prevL " + std::to_string(prev0.L); };
    if (ret != e.ret) c.fail("%s: classified %d, expected %d", ctx().c_str(), ret, e.ret);
    if (cur.repeat != prev0.repeat) c.fail("%s: repeat counter %d not carried over from the previous frame (%d)", ctx().c_str(), cur.repeat, prev0.repeat);
    if (!e.voice) return;
    if (cur.L != e.L) c.fail("%s: %d harmonics, expected %d (b0 %d)", ctx().c_str(), cur.L, e.L, e.b0);
    if (!(fabs(cur.w0 - e.w0) <= 2e-6 * e.w0)) c.fail("%s: w0 %.8g expected %.8g", ctx().c_str(), cur.w0, e.w0);
    if (!is_ambe(codec) && cur.K != e.K) c.fail("%s: K %d expected %d", ctx().c_str(), cur.K, e.K);
    if (is_ambe(codec) && !(fabs(cur.gamma - e.gamma) <= 1e-4)) c.fail("%s: gain %.7g expected %.7g", ctx().c_str(), cur.gamma, e.gamma);
    for (int l = 1; l <= e.L; l++) {
        if (cur.Vl[l] != e.Vl[l]) c.fail("%s: voicing of harmonic %d is %d, expected %d", ctx().c_str(), l, cur.Vl[l], e.Vl[l]);
        if (!(fabs(cur.log2Ml[l] - e.log2Ml[l]) <= tol)) c.fail("%s: log2 amplitude of harmonic %d of %d is %.7g, expected %.7g", ctx().c_str(), l, e.L, cur.log2Ml[l], e.log2Ml[l]);
        if (!(fabs(cur.Ml[l] - e.Ml[l]) <= tol * e.Ml[l] + 1e-30)) c.fail("%s: amplitude of harmonic %d is %.7g, expected %.7g", ctx().c_str(), l, cur.Ml[l], e.Ml[l]);
    }
}

// Decoding writes the model of the new frame and may extend the previous frame's spectrum to the new
// number of harmonics (and its entry 0); everything else of both sets stays as it was.
static void untouched(Case& c, int codec, const char* d, const mbe_parms& prev0, const mbe_parms& prev, const mbe_parms& cur0, const mbe_parms& cur) {
    mbe_parms y = prev; int top = std::max(prev0.L, cur.L);
    y.Ml[0] = prev0.Ml[0]; y.log2Ml[0] = prev0.log2Ml[0];
    for (int l = prev0.L + 1; l <= top && l <= 56; l++) { y.Ml[l] = prev0.Ml[l]; y.log2Ml[l] = prev0.log2Ml[l]; }
    int nd = is_ambe(codec) ? 49 : 88;
    if (memcmp(&y, &prev0, sizeof y)) {
        int h = 0; for (int l = 1; l <= 56; l++) if (memcmp(&y.Ml[l], &prev0.Ml[l], 4) || memcmp(&y.log2Ml[l], &prev0.log2Ml[l], 4)) { h = l; break; }
        c.fail("%s bits %s: decoding changed the previous frame (%d harmonics%s%d, new frame %d harmonics)", CODEC_NAME[codec], bits_str(d, nd).c_str(), prev0.L, h ? ", amplitude of harmonic " : ", not its amplitudes: ", h, cur.L);
    }
#define KEEP(f) if (memcmp(&cur.f, &cur0.f, sizeof cur.f)) c.fail("%s bits %s: decoding the parameters changed " #f " of the new frame", CODEC_NAME[codec], bits_str(d, nd).c_str());
    KEEP(PHIl) KEEP(PSIl) KEEP(swn) KEEP(un) KEEP(noiseSeed) KEEP(noiseOverlap) KEEP(previousUw) KEEP(errorRate) KEEP(errorCountTotal) KEEP(errorCount4) KEEP(repeatCount) KEEP(mutingThreshold) KEEP(localEnergy) KEEP(amplitudeThreshold)
#undef KEEP
}

static Lib* LIB;   // the build used by the current case
static void one(Case& c, int codec, const char* d, Trip& tr) {
    Lib& L = *LIB; char d0[88]; memcpy(d0, d, is_ambe(codec) ? 49 : 88);
    mbe_parms prev0 = tr.prev, cur0 = tr.cur;
    Dec e = ref_decode(codec, d, prev0);
    int ret = api::decode(L, codec, d, &tr.cur, &tr.prev);
    compare(c, codec, d, prev0, ret, tr.cur, e);
    untouched(c, codec, d, prev0, tr.prev, cur0, tr.cur);
    if (memcmp(d0, d, is_ambe(codec) ? 49 : 88)) c.fail("%s: decoding changed its input bits", CODEC_NAME[codec]);
    // decoding the same bits again with the same previous frame gives the same model
    mbe_parms again = cur0; int r2 = api::decode(L, codec, d, &again, &tr.prev);
    compare(c, codec, d, prev0, r2, again, e);
    c.eval(2);
    c.cls(e.voice ? e.silence ? "silence" : "voice" : "special");
    if (e.voice && prev0.L != e.L) c.cls("harmonic count changed");
}

template <int CODEC> static void random_case(Case& c) {
    Trip tr; char d[88]; int nd = is_ambe(CODEC) ? 49 : 88;
    LIB = &lib(c.t.chance(1, 4) ? "simd" : "scalar");
    prev_state(c.t, *LIB, CODEC, tr);
    int n = c.t.range(1, 4);
    bool diff = false;
    for (int i = 0; i < n; i++) {
        int kind = c.t.chance(4, 5) ? gen::VOICE : gen::pick_kind(c.t, CODEC);
        gen::frame_bits(c.t, CODEC, kind, d);
        int pl = tr.prev.L;
        one(c, CODEC, d, tr);
        if (tr.cur.L != pl) diff = true;
        tr.prev = tr.cur;
        for (int l = 1; l <= tr.cur.L; l++) if (!(fabs(tr.cur.log2Ml[l]) < 100)) return;   // random start models can run away
    }
    if (diff) c.nontrivial();
    if (c.want_sample()) c.sample("%d frames, last bits %s", n, bits_str(d, nd).c_str());
}

// a stream of hundreds of frames: only states that decoding reaches, however long ago it started
template <int CODEC> static void chain(Case& c) {
    Tape& t = c.t; LIB = &lib(t.chance(1, 2) ? "simd" : "scalar"); Trip tr; init(*LIB, tr); char d[88], held[88]; memset(held, 0, 88); int n = t.range(50, 700), special = 0, steps = 0, hold = 0;
    for (int i = 0; i < n; i++) {
        if (hold) hold--;
        else if (t.chance(1, 40)) { gen::frame_bits(t, CODEC, gen::VOICE, held); hold = t.range(1, 60); }
        if (hold) memcpy(d, held, 88); else gen::frame_bits(t, CODEC, t.chance(7, 8) ? gen::VOICE : gen::pick_kind(t, CODEC), d);
        int pl = tr.prev.L; one(c, CODEC, d, tr); Dec e = ref_decode(CODEC, d, tr.prev);
        if (!e.voice) { special++; tr.cur = tr.prev; continue; }      // a frame without a model leaves the stream where it was
        steps += tr.cur.L != pl; tr.prev = tr.cur;
        for (int l = 1; l <= tr.cur.L; l++) if (!(fabs(tr.cur.log2Ml[l]) < 100)) return;
    }
    if (steps) c.nontrivial();
    c.cls("long chain");
    if (c.want_sample()) c.sample("chain of %d frames, %d without a model, last bits %s", n, special, bits_str(d, is_ambe(CODEC) ? 49 : 88).c_str());
}

// every fundamental with every voicing index
static void amb_fund(Case& c, int codec) {
    uint32_t b0 = (uint32_t)(c.t.raw(8) % 128); Trip tr; Lib& L = *(LIB = &lib("scalar"));
    for (int b1 = 0; b1 < (codec == AMBE2450 ? 32 : 16); b1++) {
        char d[88]; prev_state(c.t, L, codec, tr); gen::bits(c.t, d, 49); gen::set_b0(codec, d, (int)b0);
        if (codec == AMBE2450) gen::putbits(d, {4, 5, 6, 7, 35}, b1); else gen::putbits(d, {38, 39, 40, 41}, b1);
        one(c, codec, d, tr);
    }
    c.nontrivial();
    if (c.want_sample()) c.sample("fundamental index %u with every voicing index", b0);
}
static void fund2450(Case& c) { amb_fund(c, AMBE2450); }
static void fund2400(Case& c) { amb_fund(c, AMBE2400); }
// every entry of every quantiser: case number picks (field, value) pairs in blocks
struct Field { std::initializer_list<int> pos; };
template <int CODEC> static void fields(Case& c) {
    static const std::vector<std::vector<int>> F2450 = {{8, 9, 10, 11, 36}, {12, 13, 14, 15, 16, 17, 18, 19, 40}, {20, 21, 22, 23, 41, 42, 43}, {24, 25, 26, 27, 44}, {28, 29, 30, 45}, {31, 32, 33, 46}, {34, 47, 48}};
    static const std::vector<std::vector<int>> F2400 = {{6, 7, 8, 9, 42, 43}, {10, 11, 12, 13, 14, 15, 16, 44, 45}, {17, 18, 19, 20, 21, 46, 47}, {22, 23, 25, 26}, {27, 28, 29, 30}, {31, 32, 33, 34}, {35, 36, 37}, {24}};
    const auto& F = CODEC == AMBE2450 ? F2450 : F2400;
    uint32_t i = (uint32_t)c.t.raw(8), v = i % 512;
    Trip tr; Lib& L = *(LIB = &lib("scalar")); char d[88];
    for (auto& f : F) {
        if (v >= 1u << f.size()) continue;
        prev_state(c.t, L, CODEC, tr);
        gen::frame_bits(c.t, CODEC, gen::VOICE, d);
        for (size_t k = 0; k < f.size(); k++) d[f[k]] = (char)(v >> (f.size() - 1 - k) & 1);
        if (CODEC == AMBE2450 && gather(d, {0, 1, 2, 3, 37, 38, 39}) >= 120) d[0] = 0;
        one(c, CODEC, d, tr);
    }
    c.nontrivial();
    if (c.want_sample()) c.sample("quantiser index %u of every field, last bits %s", v, bits_str(d, 49).c_str());
}
// IMBE: every fundamental; every gain index, every single voicing/coefficient bit, every 8-bit group value
static void fund_imbe(Case& c) {
    uint32_t b0 = (uint32_t)(c.t.raw(8) % 256); Trip tr; Lib& L = *(LIB = &lib("scalar")); char base[88], d[88];
    prev_state(c.t, L, IMBE7200, tr); mbe_parms prev0 = tr.prev;
    gen::bits(c.t, base, 88); gen::set_b0(IMBE7200, base, (int)b0);
    one(c, IMBE7200, base, tr);
    if (b0 < 208) {
        for (int i = 6; i < 88; i++) { if (i == 85 || i == 86) continue; memcpy(d, base, 88); d[i] ^= 1; tr.prev = prev0; one(c, IMBE7200, d, tr); }
        // all 64 gain indexes: they occupy the positions the bit layout assigns to b2
        int x = imbe_L((int)b0) - 9;
        for (int v = 0; v < 64; v++) {
            memcpy(d, base, 88);
            for (int i = 0; i < 79; i++) if (tab::bo[x][i][0] == 2) d[6 + i] = (char)(v >> tab::bo[x][i][1] & 1);
            tr.prev = prev0; one(c, IMBE7200, d, tr);
        }
        for (int v = 0; v < 2; v++) { memset(d, v, 88); gen::set_b0(IMBE7200, d, (int)b0); tr.prev = prev0; one(c, IMBE7200, d, tr); }
    }
    c.nontrivial();
    if (c.want_sample()) c.sample("b0 %u: every single-bit change of %s, every gain index", b0, hex_bits(base, 88).c_str());
}
// prediction: the amplitudes at every (previous L, current L) pair, with a recognisable previous spectrum
template <int CODEC> static void lpairs(Case& c) {
    uint32_t pl = 9 + (uint32_t)c.t.raw(8) % 48; Trip tr; Lib& L = *(LIB = &lib("scalar")); char d[88];
    for (int b0 = 0; b0 < gen::voice_b0s(CODEC); b0 += CODEC == IMBE7200 ? 3 : 2) {
        init(L, tr); gen::model(c.t, tr.prev, -6, 10); tr.prev.L = (int)pl; others(c.t, tr);
        gen::bits(c.t, d, 88); gen::set_b0(CODEC, d, b0 + (int)c.t.below(2));
        one(c, CODEC, d, tr);
    }
    c.nontrivial();
    if (c.want_sample()) c.sample("previous frame with %u harmonics against all fundamentals", pl);
}

static const char* RULE = "a case is non-trivial when the harmonic count changes between consecutive decoded frames (random phase) or when it enumerates fundamentals, quantiser entries or harmonic-count pairs";
static const std::vector<std::string> ASM = {"the quantiser tables in harness/tables are a frozen copy of the repository's tables: the check decides that the decoder applies these tables, not that they match the published standard"};
static Property P09{"P09", RULE, {{"random", random_case<AMBE2450>, 2500000, 40000000}, {"long chains", chain<AMBE2450>, 6000, 100000}, {"fundamentals", fund2450, 1024, 128000, true}, {"quantisers", fields<AMBE2450>, 8192, 1024000, true}, {"harmonic-pairs", lpairs<AMBE2450>, 4800, 480000, true}}, ASM,
    "all 128 fundamental codes with all 32 voicing indexes; every entry of every quantiser table"};
static Property P10{"P10", RULE, {{"random", random_case<AMBE2400>, 2500000, 40000000}, {"long chains", chain<AMBE2400>, 6000, 100000}, {"fundamentals", fund2400, 1024, 128000, true}, {"quantisers", fields<AMBE2400>, 8192, 1024000, true}, {"harmonic-pairs", lpairs<AMBE2400>, 4800, 480000, true}}, ASM,
    "all 128 fundamental codes with all 16 voicing indexes; every entry of every quantiser table"};
static Property P11{"P11", RULE, {{"random", random_case<IMBE7200>, 2500000, 40000000}, {"long chains", chain<IMBE7200>, 6000, 100000}, {"fundamentals", fund_imbe, 2048, 256000, true}, {"harmonic-pairs", lpairs<IMBE7200>, 4800, 480000, true}}, ASM,
    "all 256 fundamental codes, each with every single-bit change of a random frame and all 64 gain indexes"};
Property* find_property(const std::string& id) { return id == "P09" ? &P09 : id == "P10" ? &P10 : id == "P11" ? &P11 : nullptr; }
