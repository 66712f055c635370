// P01: every public call stays inside the caller's buffers and free of undefined behaviour (sanitizer builds).
// P02: audio is finite, clipped and complete; state stays finite.
#include "model.hpp"
#include "ref_synth.hpp"
#include <memory>
using namespace pbt;
using namespace ref;
#ifdef STATIC_LIB
static Lib& pick_lib(Tape&, Case&) { return lib("scalar"); }
#else
static Lib& pick_lib(Tape& t, Case& c) { static const char* n[] = {"scalar", "simd", "release"}; int k = (int)t.below(3); c.cls(n[k]); return lib(n[k]); }
#endif

// exact-size heap buffer: one byte beyond it is a sanitizer report
template <class T> struct Buf { T* p; size_t n; explicit Buf(size_t n_) : p((T*)malloc(n_ * sizeof(T))), n(n_) {} ~Buf() { free(p); } Buf(const Buf&) = delete; void load(const T* s) { memcpy(p, s, n * sizeof(T)); } };
static volatile unsigned sink;
#ifdef WITH_MSAN
#include <sanitizer/msan_interface.h>   // the harness itself is built to count as initialised (libstdc++ is not instrumented)
template <class T> static void observe(const T* p, size_t n) { __msan_check_mem_is_initialized(p, n * sizeof(T)); }
#else
template <class T> static void observe(const T* p, size_t n) { const unsigned char* b = (const unsigned char*)p; unsigned s = 0; for (size_t i = 0; i < n * sizeof(T); i++) if (b[i] & 1) s++; sink = s; }
#endif
static void observe_parms(const mbe_parms* p) {
    observe(&p->w0, 1); observe(&p->L, 1); if (p->L < 1 || p->L > 56) return; observe(p->Vl + 1, (size_t)p->L); observe(p->Ml + 1, (size_t)p->L); observe(p->log2Ml + 1, (size_t)p->L); observe(p->PHIl + 1, 56); observe(p->PSIl + 1, 56);
    observe(&p->gamma, 1); observe(&p->repeat, 1); observe(&p->errorRate, 1); observe(&p->localEnergy, 1); observe(&p->amplitudeThreshold, 1); observe(&p->noiseSeed, 1); observe(p->noiseOverlap, 96); observe(p->previousUw, 256);
}

// ---------------------------------------------------------------- P01
struct World { Buf<mbe_parms> cur{1}, prev{1}, enh{1}; };
static void process(Tape& t, Case& c, Lib& L, World& w, int codec) {
    Shape sh = shape(codec); bool ambe = is_ambe(codec), frame = !t.chance(1, 3), shortf = t.chance(1, 2); int mode = (int)t.below(6);
    Step s = next_frame(t, codec, mode, t.chance(1, 2) ? gen::VOICE : -1, frame);
    Buf<float> of(shortf ? 1 : 160); Buf<short> os(shortf ? 160 : 1); size_t nd = (size_t)sh.nd;
    float* fo = of.p; short* so = os.p; int uvq = (int)t.below(5);
    if (frame) {
        // the status string needs the number of corrected bits plus three bytes
        int tot = s.in.total; Buf<char> es((size_t)tot + 3), d(nd), fr((size_t)(sh.rows * sh.cols)); Buf<int> e(1), e2(1); fr.load(s.f.b);
        if (t.chance(1, 2)) memset(d.p, t.byte(), nd);
        char (*f24)[24] = (char (*)[24])fr.p; char (*f23)[23] = (char (*)[23])fr.p; mbe_parms *a = w.cur.p, *b = w.prev.p, *g = w.enh.p;
        switch (codec) {
            case AMBE2400: if (shortf) L.mbe_processAmbe3600x2400Frame(so, e.p, e2.p, es.p, f24, d.p, a, b, g, uvq); else L.mbe_processAmbe3600x2400Framef(fo, e.p, e2.p, es.p, f24, d.p, a, b, g, uvq); break;
            case AMBE2450: if (shortf) L.mbe_processAmbe3600x2450Frame(so, e.p, e2.p, es.p, f24, d.p, a, b, g, uvq); else L.mbe_processAmbe3600x2450Framef(fo, e.p, e2.p, es.p, f24, d.p, a, b, g, uvq); break;
            case IMBE7200: if (shortf) L.mbe_processImbe7200x4400Frame(so, e.p, e2.p, es.p, f23, d.p, a, b, g, uvq); else L.mbe_processImbe7200x4400Framef(fo, e.p, e2.p, es.p, f23, d.p, a, b, g, uvq); break;
            default: if (shortf) L.mbe_processImbe7100x4400Frame(so, e.p, e2.p, es.p, f24, d.p, a, b, g, uvq); else L.mbe_processImbe7100x4400Framef(fo, e.p, e2.p, es.p, f24, d.p, a, b, g, uvq);
        }
        observe(d.p, nd); observe(e.p, 1); observe(e2.p, 1); size_t n = 0; while (n < es.n && es.p[n]) n++; if (n >= es.n) c.fail("status string of a %s frame with %d errors is not terminated within %zu bytes", CODEC_NAME[codec], tot, es.n);
        c.cls("channel frames");
    } else {
        int tot = t.chance(1, 10) ? t.range(0, 400) : s.in.total, c0 = s.in.c0; Buf<char> es((size_t)tot + 3), d(nd); Buf<int> e(1), e2(1); *e.p = c0; *e2.p = tot; d.load(s.in.d); mbe_parms *a = w.cur.p, *b = w.prev.p, *g = w.enh.p;
        switch (codec) {
            case AMBE2400: if (shortf) L.mbe_processAmbe2400Data(so, e.p, e2.p, es.p, d.p, a, b, g, uvq); else L.mbe_processAmbe2400Dataf(fo, e.p, e2.p, es.p, d.p, a, b, g, uvq); break;
            case AMBE2450: if (shortf) L.mbe_processAmbe2450Data(so, e.p, e2.p, es.p, d.p, a, b, g, uvq); else L.mbe_processAmbe2450Dataf(fo, e.p, e2.p, es.p, d.p, a, b, g, uvq); break;
            default: if (shortf) L.mbe_processImbe4400Data(so, e.p, e2.p, es.p, d.p, a, b, g, uvq); else L.mbe_processImbe4400Dataf(fo, e.p, e2.p, es.p, d.p, a, b, g, uvq);
        }
        size_t n = 0; while (n < es.n && es.p[n]) n++; if (n >= es.n) c.fail("status string of %s parameters with %d errors is not terminated within %zu bytes", CODEC_NAME[codec], tot, es.n);
        c.cls("parameter frames"); (void)ambe;
    }
    if (shortf) observe(so, 160); else observe(fo, 160);
    observe_parms(w.cur.p); observe_parms(w.prev.p); observe_parms(w.enh.p);
    if (w.cur.p->L < 1 || w.cur.p->L > 56 || w.prev.p->L < 1 || w.prev.p->L > 56) c.fail("%s: %d / %d harmonics", CODEC_NAME[codec], w.cur.p->L, w.prev.p->L);
}
static void primitives(Tape& t, Case& c, Lib& L) {
    int codec = (int)t.below(4); Shape sh = shape(codec);
    switch (t.below(9)) {
        case 7: {   // absent buffers and sets: nothing happens
            Buf<mbe_parms> p(1), q(1), r(1); L.mbe_initMbeParms(p.p, q.p, r.p); Buf<char> d(49); gen::bits(t, d.p, 49); gen::tone2450(t, d.p, 5 + (int)t.below(118), (int)t.below(128));
            L.mbe_printVersion(nullptr); L.mbe_synthesizeSilencef(nullptr); L.mbe_synthesizeSilence(nullptr); L.mbe_synthesizeComfortNoisef(nullptr); L.mbe_synthesizeComfortNoise(nullptr);
            L.mbe_applyAdaptiveSmoothing(nullptr, p.p); L.mbe_applyAdaptiveSmoothing(p.p, nullptr); L.mbe_synthesizeTonef(nullptr, d.p, p.p); L.mbe_synthesizeTonefdstar(nullptr, d.p, p.p, 5 + (int)t.below(118));
            Buf<float> f(160); L.mbe_synthesizeTonef(f.p, d.p, nullptr); observe(f.p, 160); L.mbe_synthesizeTonefdstar(f.p, d.p, nullptr, 5 + (int)t.below(118)); observe(f.p, 160);
            sink = (unsigned)(L.mbe_requiresMuting(nullptr) + L.mbe_isMaxFrameRepeat(nullptr) + L.mbe_requiresAdaptiveSmoothing(nullptr)); observe_parms(p.p); c.cls("absent arguments"); break; }
        case 0: { Buf<long> b(1); *b.p = (long)t.raw(8); if (t.chance(1, 2)) *b.p &= 0x7fffff; L.mbe_checkGolayBlock(b.p); observe(b.p, 1); break; }
        case 1: { Buf<char> in(23), out(23); gen::bits(t, in.p, 23); int r = L.mbe_golay2312(in.p, out.p); observe(out.p, 23); observe(&r, 1); break; }
        case 2: { Buf<char> in(15), out(15); gen::bits(t, in.p, 15); int r = t.chance(1, 2) ? L.mbe_hamming1511(in.p, out.p) : L.mbe_7100x4400hamming1511(in.p, out.p); observe(out.p, 15); observe(&r, 1); break; }
        case 3: {   // frame steps on their own
            Buf<char> fr((size_t)(sh.rows * sh.cols)), d((size_t)sh.nd); gen::bits(t, fr.p, sh.rows * sh.cols); int r;
            switch (codec) {
                case AMBE2400: r = L.mbe_eccAmbe3600x2400C0((char (*)[24])fr.p); L.mbe_demodulateAmbe3600x2400Data((char (*)[24])fr.p); r += L.mbe_eccAmbe3600x2400Data((char (*)[24])fr.p, d.p); break;
                case AMBE2450: r = L.mbe_eccAmbe3600x2450C0((char (*)[24])fr.p); L.mbe_demodulateAmbe3600x2450Data((char (*)[24])fr.p); r += L.mbe_eccAmbe3600x2450Data((char (*)[24])fr.p, d.p); break;
                case IMBE7200: r = L.mbe_eccImbe7200x4400C0((char (*)[23])fr.p); L.mbe_demodulateImbe7200x4400Data((char (*)[23])fr.p); r += L.mbe_eccImbe7200x4400Data((char (*)[23])fr.p, d.p); L.mbe_dumpImbe7200x4400Frame((char (*)[23])fr.p); L.mbe_dumpImbe7200x4400Data(d.p); L.mbe_dumpImbe4400Data(d.p); break;
                default: r = L.mbe_eccImbe7100x4400C0((char (*)[24])fr.p); L.mbe_demodulateImbe7100x4400Data((char (*)[24])fr.p); r += L.mbe_eccImbe7100x4400Data((char (*)[24])fr.p, d.p); L.mbe_dumpImbe7100x4400Frame((char (*)[24])fr.p); L.mbe_dumpImbe7100x4400Data(d.p); L.mbe_convertImbe7100to7200(d.p);
            }
            observe(d.p, (size_t)sh.nd); observe(fr.p, fr.n); observe(&r, 1); break;
        }
        case 4: { Buf<char> v(32); L.mbe_printVersion(v.p); size_t n = 0; while (n < 32 && v.p[n]) n++; if (n >= 32) c.fail("version string longer than 31 characters"); break; }
        case 5: { Buf<float> f(160); Buf<short> s(160); for (int i = 0; i < 160; i++) { uint32_t u = i < 12 ? t.u32() : (uint32_t)i * 2654435761u; if ((u & 0x7f800000u) == 0x7f800000u && (u & 0x7fffff)) u &= 0xff800000u; memcpy(&f.p[i], &u, 4); } L.mbe_floattoshort(f.p, s.p); observe(s.p, 160); break; }
        case 6: { Buf<float> f(160); Buf<short> s(160); if (t.chance(1, 2)) { L.mbe_synthesizeComfortNoisef(f.p); L.mbe_synthesizeComfortNoise(s.p); } else { L.mbe_synthesizeSilencef(f.p); L.mbe_synthesizeSilence(s.p); } observe(f.p, 160); observe(s.p, 160); break; }
        default: { Buf<float> f(160); Buf<char> d(49); Buf<mbe_parms> p(1), q(1), r(1); L.mbe_initMbeParms(p.p, q.p, r.p); gen::bits(t, d.p, 49); p.p->swn = (int)t.u32(); p.p->un = (int)t.u32();
            if (t.chance(1, 2)) { gen::tone2450(t, d.p, (int)t.below(256), (int)t.below(128)); L.mbe_synthesizeTonef(f.p, d.p, p.p); } else L.mbe_synthesizeTonefdstar(f.p, d.p, p.p, t.chance(1, 4) ? (int)t.u32() : (int)t.below(256)); observe(f.p, 160); break; }
    }
    c.cls("primitive calls");
}
static void synthesis(Tape& t, Case& c, Lib& L) {
    World w; mbe_parms &a = *w.cur.p, &b = *w.prev.p; model::init_fields(a, t.chance(1, 2)); b = a; double top = t.chance(1, 4) ? 33 : 12; gen::model(t, a, -3, top); gen::model(t, b, -3, top); gen::noise_state(t, a);
    if (t.chance(1, 8)) { b.w0 = 0; b.L = 9; }
    if (t.chance(1, 8)) { a.w0 = 0; a.L = 9; }
    if (t.chance(1, 3)) for (int l = 1; l <= 56; l++) { b.PSIl[l] = (float)t.real(-1e6, 1e6); b.PHIl[l] = (float)t.real(-1e6, 1e6); }
    if (t.chance(1, 4)) for (int l = 1; l <= a.L; l++) if (t.chance(1, 2)) a.Ml[l] = 0;
    a.errorRate = (float)t.real(0, 0.3); a.errorCountTotal = t.range(0, t.chance(1, 8) ? 400 : 20); a.errorCount4 = (int)t.below(3); a.repeatCount = (int)t.below(6); b.amplitudeThreshold = t.chance(1, 4) ? INT_MAX - (int)t.below(9000) : t.chance(1, 4) ? -(int)t.below(100) : 1 + (int)t.below(100000); b.localEnergy = (float)t.real(0, 1e6);
    Buf<float> f(160); Buf<short> s(160);
    if (t.chance(1, 2)) L.mbe_spectralAmpEnhance(&a);
    switch (t.below(3)) { case 0: L.mbe_synthesizeSpeechf(f.p, &a, &b, 3); observe(f.p, 160); break; case 1: L.mbe_synthesizeSpeech(s.p, &a, &b, 3); observe(s.p, 160); break; default: L.mbe_applyAdaptiveSmoothing(&a, &b); }
    sink = (unsigned)(L.mbe_requiresMuting(&a) + L.mbe_isMaxFrameRepeat(&a) + L.mbe_requiresAdaptiveSmoothing(&a)); observe_parms(&a);
    *w.enh.p = a; L.mbe_moveMbeParms(&a, &b); L.mbe_useLastMbeParms(&a, w.enh.p); c.cls("synthesis calls");
}
static void safety(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); L.mbe_setThreadRngSeed(1 + t.below(60000)); World w; memset(w.cur.p, 0, sizeof(mbe_parms)); L.mbe_initMbeParms(w.cur.p, w.prev.p, w.enh.p);
    int codec = (int)t.below(4), n = t.range(1, 12), frames = 0;
    for (int i = 0; i < n; i++) {
        int op = (int)t.below(10);
        if (op < 7) { process(t, c, L, w, codec); frames++; }
        else if (op == 7) { primitives(t, c, L); }
        else if (op == 8) synthesis(t, c, L);
        else if (t.chance(1, 3)) codec = (int)t.below(4);            // the state goes on with another codec
        else if (t.chance(1, 4)) L.mbe_initMbeParms(w.cur.p, w.prev.p, w.enh.p);
        else { Buf<char> d((size_t)shape(codec).nd); gen::frame_bits(t, codec == IMBE7100 ? IMBE7200 : codec, gen::pick_kind(t, codec == IMBE7100 ? IMBE7200 : codec), d.p); Buf<mbe_parms> x(1), y(1); *x.p = *w.cur.p; *y.p = *w.prev.p; int r = api::decode(L, codec, d.p, x.p, y.p); observe(&r, 1); c.cls("decode calls"); }
        c.eval();
    }
    if (frames) c.nontrivial();
    c.cls(CODEC_NAME[codec]); if (c.want_sample()) c.sample("%s, %d operations, %d frames", CODEC_NAME[codec], n, frames);
}
// parameter bits that drive the decoders to their limits
static void extreme_bits(Tape& t, int codec, char* d) {
    memset(d, 0, 88); gen::frame_bits(t, codec, gen::VOICE, d); int style = (int)t.below(4), nv = gen::voice_b0s(codec), nb = is_ambe(codec) ? 49 : 88, den = 1 + (int)t.below(12);
    if (style) for (int k = 0; k < nb; k++) if (!t.chance(1, den + 1)) d[k] = style == 1 ? 1 : style == 2 ? 0 : d[k];
    int b0 = t.chance(1, 2) ? nv - 1 - (int)t.below(8) : t.chance(1, 2) ? (int)t.below(6) : (int)t.below((uint32_t)nv); gen::set_b0(codec, d, b0);
}
static const char* LOUD2400 = "1110001111111111111110110010000000000011111011111";
static const char* LOUD2450 = "1100000011111110000110100000000000001011011010000";
// the largest models: both frames at the harmonic limit, extreme parameter values, stuck frames
static void extremes(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); L.mbe_setThreadRngSeed(1 + t.below(1000)); Buf<Trip> w(1); memset((void*)w.p, 0, sizeof(Trip)); L.mbe_initMbeParms(&w.p->cur, &w.p->prev, &w.p->enh);
    int k = (int)t.below(3), codec = k == 0 ? AMBE2400 : k == 1 ? AMBE2450 : IMBE7200, n = t.range(2, 12), big = 0; char d[88]; extreme_bits(t, codec, d);
    for (int i = 0; i < n; i++) {
        if (i && t.chance(1, 2)) extreme_bits(t, codec, d);
        Buf<char> dd((size_t)shape(codec).nd); dd.load(d); int tot = t.chance(1, 5) ? t.range(0, 8) : 0; Buf<char> es((size_t)tot + 3); Buf<float> o(160);
        api::data_f(L, codec, o.p, tot < 4 ? tot : 0, tot, es.p, dd.p, *w.p, 3);
        observe(o.p, 160); observe_parms(&w.p->cur); observe_parms(&w.p->prev); observe_parms(&w.p->enh); big += w.p->cur.L == 56 && w.p->prev.L == 56; c.eval();
    }
    c.cls("frames with 56 harmonics", (uint64_t)big); c.cls(CODEC_NAME[codec]); c.nontrivial(); if (c.want_sample()) c.sample("%s, %d frames, last %s", CODEC_NAME[codec], n, bits_str(d, is_ambe(codec) ? 49 : 88).c_str());
}
// long uninterrupted streams: counters, thresholds and phases far from where a short history leaves them
static void long_streams(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); L.mbe_setThreadRngSeed(1 + t.below(1000)); Buf<Trip> w(1); memset((void*)w.p, 0, sizeof(Trip)); L.mbe_initMbeParms(&w.p->cur, &w.p->prev, &w.p->enh);
    int codec = (int)t.below(4), dc = codec == IMBE7100 ? IMBE7200 : codec, style = (int)t.below(4), n = t.range(300, c.thorough ? 12000 : 1500); std::vector<Step> pool; int mode = style == 0 ? 0 : style == 1 ? 1 : (int)t.below(6);
    for (int i = 0; i < 24; i++) { if (style == 3) mode = (int)t.below(6); Step s = next_frame(t, codec, mode, style < 3 ? gen::VOICE : -1, true); if (style < 2 && t.chance(1, 3)) { extreme_bits(t, dc, s.in.d); s.f = gen::channel(t, codec, s.in.d, false); s.in.c0 = s.in.total = 0; } pool.push_back(s); }
    uint32_t x = t.u32() | 1; bool frame = t.chance(1, 2), shortf = t.chance(1, 3); int stuck = t.chance(1, 3) ? t.range(20, 400) : 1; Shape sh = shape(codec); size_t nd = (size_t)sh.nd; int tot = 0;
    if (t.chance(1, 4)) w.p->prev.amplitudeThreshold = w.p->cur.amplitudeThreshold = w.p->enh.amplitudeThreshold = INT_MAX - (int)t.below(200000);
    for (int k = 0; k < n; k++) {
        x ^= x << 13; x ^= x >> 17; x ^= x << 5; const Step& s = pool[stuck > 1 ? (size_t)(k / stuck) % pool.size() : x % pool.size()]; Buf<float> o(shortf ? 1 : 160); Buf<short> q(shortf ? 160 : 1); Buf<char> d(nd);
        if (frame) { Buf<char> es((size_t)s.in.total + 3); int e, e2; Frame f = s.f; if (shortf) api::frame_s(L, codec, q.p, &e, &e2, es.p, f, d.p, *w.p); else api::frame_f(L, codec, o.p, &e, &e2, es.p, f, d.p, *w.p); tot += e2; observe(d.p, nd); }
        else { Buf<char> es((size_t)s.in.total + 3); d.load(s.in.d); if (shortf) api::data_s(L, codec, q.p, s.in.c0, s.in.total, es.p, d.p, *w.p); else api::data_f(L, codec, o.p, s.in.c0, s.in.total, es.p, d.p, *w.p); tot += s.in.total; }
        if (shortf) observe(q.p, 160); else observe(o.p, 160);
    }
    observe_parms(&w.p->cur); observe_parms(&w.p->prev); observe_parms(&w.p->enh); c.eval((uint64_t)n); c.nontrivial(); c.cls("long streams"); c.cls(CODEC_NAME[codec]); if (c.want_sample()) c.sample("%s, %d %s frames, %d errors", CODEC_NAME[codec], n, frame ? "channel" : "parameter", tot);
}

// ---------------------------------------------------------------- P02
static const float CLIPV = 32767.0f * 0.95f / 7.0f;
static float poison() { uint32_t u = 0x7fc0beefu; float f; memcpy(&f, &u, 4); return f; }
static void fill(float* o, short* s) { for (int i = 0; i < 160; i++) { o[i] = poison(); s[i] = -32768; } }
static double check_f(Case& c, const float* o, const char* what) {
    double pk = 0;
    for (int i = 0; i < 160; i++) { uint32_t u; memcpy(&u, &o[i], 4); if (u == 0x7fc0beefu) c.fail("%s: sample %d was not written", what, i); if (!std::isfinite(o[i])) c.fail("%s: sample %d is %g", what, i, (double)o[i]); if (fabs(o[i]) > CLIPV * 1.000001f) c.fail("%s: sample %d is %.9g, beyond full scale %.9g", what, i, (double)o[i], (double)CLIPV); pk = std::max(pk, (double)fabs(o[i])); }
    return pk;
}
static double check_s(Case& c, const short* s, const char* what) { double pk = 0; for (int i = 0; i < 160; i++) { if (s[i] == -32768) c.fail("%s: 16-bit sample %d was not written", what, i); if (s[i] > 31128 || s[i] < -31128) c.fail("%s: 16-bit sample %d is %d", what, i, s[i]); pk = std::max(pk, (double)abs(s[i])); } return pk / 7; }
static void check_state(Case& c, const mbe_parms& p, const char* what, const char* who, bool anysign = false) {
    auto F = [&](const char* n, int i, double v) { if (!std::isfinite(v)) c.fail("%s: %s frame state %s[%d] is %g", what, who, n, i, v); };
    F("fundamental", 0, p.w0); F("gain", 0, p.gamma); F("error rate", 0, p.errorRate); F("local energy", 0, p.localEnergy); F("noise seed", 0, p.noiseSeed); F("noise window", 0, p.noiseSeed);
    if (p.L < 9 || p.L > 56) c.fail("%s: %s frame state has %d harmonics", what, who, p.L);
    for (int l = 1; l <= p.L; l++) { F("amplitude", l, p.Ml[l]); F("log amplitude", l, p.log2Ml[l]); if (p.Ml[l] < 0 && !anysign) c.fail("%s: %s frame amplitude %d is %g", what, who, l, (double)p.Ml[l]); }
    for (int l = 1; l <= 56; l++) { F("phase", l, p.PHIl[l]); F("voicing phase", l, p.PSIl[l]); }
    for (int i = 0; i < 96; i++) F("noise sequence", i, p.noiseOverlap[i]);
    for (int i = 0; i < 256; i++) F("unvoiced overlap", i, p.previousUw[i]);
}
static void finite_run(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); reset_hidden(L, 1 + t.below(50000)); int codec = (int)t.below(4), n = t.range(3, 24), mode = (int)t.below(6), loud = 0, frames = 0, era = 0; bool many = false; Trip T; init(L, T);   // many: a caller's error count above 20, for which the amplitude limit may be negative
    if (is_ambe(codec) && t.chance(1, 2)) model::init_all(T, true);
    int dc = codec == IMBE7100 ? IMBE7200 : codec; char held[88]; memset(held, 0, 88); int hold = 0; char what[120]; float o[160]; short so[160]; std::string tail;
    for (int i = 0; i < n; i++) {
        bool frame, shortf = t.chance(1, 3); Step s; Frame f; int c0, tot, reps = 1;
        if (hold == 0) { int k = (int)t.below(6); hold = k; if (k == 1) extreme_bits(t, dc, held); else if (k == 2) gen::frame_bits(t, dc, gen::ERASURE, held); else if (k == 3 && is_ambe(codec)) { const char* z = codec == AMBE2400 ? LOUD2400 : LOUD2450; for (int j = 0; j < 49; j++) held[j] = (char)(z[j] - '0'); for (int j = (int)t.below(3); j > 0; j--) held[t.below(49)] ^= 1; } else hold = 0; if (hold) reps = k == 2 ? t.range(1, 3) : t.chance(1, 80) ? t.range(100, 900) : t.range(1, 60); }
        frame = t.chance(1, 3);
        if (hold) { c0 = tot = 0; if (t.chance(1, 6)) tot = t.range(0, 9); f = gen::channel(t, codec, held, false); memset(&s, 0, sizeof s); memcpy(s.in.d, held, 88); } else { s = next_frame(t, codec, mode, t.chance(1, 2) ? gen::VOICE : -1, frame); c0 = s.in.c0; tot = s.in.total; f = s.f; }
        era += hold == 2; hold = 0; many |= tot > 20;
        for (int r = 0; r < reps; r++) {
            fill(o, so); std::string es((size_t)tot + 40, '#'); int e = c0, e2 = tot; char d[88]; Frame g = f; memset(d, 0, 88);
            snprintf(what, sizeof what, "%s %s %d, pass %d", CODEC_NAME[codec], frame ? "frame" : "parameters", i, r);
            if (frame) { if (shortf) api::frame_s(L, codec, so, &e, &e2, &es[0], g, d, T); else api::frame_f(L, codec, o, &e, &e2, &es[0], g, d, T); if (e2 < 0 || e2 > 60) c.fail("%s: %d errors", what, e2); }
            else { if (shortf) api::data_s(L, dc, so, c0, tot, &es[0], s.in.d, T); else api::data_f(L, dc, o, c0, tot, &es[0], s.in.d, T); }
            double pk = shortf ? check_s(c, so, what) : check_f(c, o, what); loud += pk > CLIPV * 0.99; frames++; c.eval();
            size_t z = es.find('\0'); if (z == std::string::npos || z > (size_t)e2 + 2) c.fail("%s: status string not terminated within %d characters", what, e2 + 2);
            for (size_t j = 0; j < z; j++) if ((j < (size_t)e2) != (es[j] == '=')) c.fail("%s: status string %s with %d errors", what, es.substr(0, z).c_str(), e2);
            for (size_t j = (size_t)e2; j < z; j++) if (!strchr("RMTE", es[j])) c.fail("%s: unknown status character in %s", what, es.substr(0, z).c_str());
            check_state(c, T.cur, what, "current", many); check_state(c, T.prev, what, "previous", many); check_state(c, T.enh, what, "enhanced", many); tail = es.substr(0, z);
        }
    }
    if (loud) c.cls("histories reaching full scale"); if (many) c.cls("histories with implausible error counts"); if (era) c.cls("histories with held erasures"); c.cls(CODEC_NAME[codec]); if (frames >= 3) c.nontrivial();
    if (c.want_sample()) c.sample("%s, %d frames, %d at full scale, last status '%s', %s", CODEC_NAME[codec], frames, loud, tail.c_str(), L.name);
}
static void finite_synth(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); Trip T; model::init_all(T, t.chance(1, 2)); double top = t.real(6, 33); gen::model(t, T.cur, -8, top); gen::model(t, T.prev, -8, top); gen::noise_state(t, T.cur);
    if (t.chance(1, 4)) for (int l = 1; l <= T.cur.L; l++) if (t.chance(1, 2)) T.cur.Ml[l] = 0;
    if (t.chance(1, 8)) for (int l = 1; l <= T.cur.L; l++) T.cur.Ml[l] = 0;
    T.cur.errorRate = (float)t.real(0, 0.12); T.cur.errorCountTotal = t.chance(1, 10) ? t.range(21, 400) : t.range(0, 20); T.cur.errorCount4 = (int)t.below(2); T.prev.amplitudeThreshold = (int)t.below(60000); T.prev.localEnergy = (float)exp2(t.real(-4, 30));
    mbe_parms before = T.cur; bool enh = t.chance(1, 2); if (enh) { L.mbe_spectralAmpEnhance(&T.cur); check_state(c, T.cur, "enhancement", "current"); }
    float o[160]; short so[160]; fill(o, so); bool sf = t.chance(1, 3); if (sf) L.mbe_synthesizeSpeech(so, &T.cur, &T.prev, 3); else L.mbe_synthesizeSpeechf(o, &T.cur, &T.prev, 3);
    double pk = sf ? check_s(c, so, "synthesis") : check_f(c, o, "synthesis"); check_state(c, T.cur, "synthesis", "current", T.cur.errorCountTotal > 20); c.eval(); c.nontrivial(); if (pk > CLIPV * 0.99) c.cls("full-scale frames");
    if (c.want_sample()) c.sample("L=%d w0=%.4f first amplitude %.3g, peak %.4g", before.L, (double)before.w0, (double)before.Ml[1], pk);
}
static void finite_tones(Case& c) {
    Tape& t = c.t; Lib& L = pick_lib(t, c); mbe_parms p; model::init_fields(p, true); p.swn = (int)t.u32(); p.un = (int)t.u32(); char d[49]; int id = (int)t.below(256), amp = (int)t.below(128); gen::bits(t, d, 49); bool star = t.chance(1, 2); if (!star) gen::tone2450(t, d, id, amp);
    int n = t.range(1, 4); float o[160]; short so[160]; for (int i = 0; i < n; i++) { fill(o, so); if (star) L.mbe_synthesizeTonefdstar(o, d, &p, id); else L.mbe_synthesizeTonef(o, d, &p); check_f(c, o, star ? "D-STAR tone" : "tone"); c.eval(); }
    fill(o, so); if (t.chance(1, 2)) { L.mbe_synthesizeComfortNoisef(o); L.mbe_synthesizeComfortNoise(so); } else { L.mbe_synthesizeSilencef(o); L.mbe_synthesizeSilence(so); } check_f(c, o, "noise or silence"); check_s(c, so, "noise or silence"); c.nontrivial(); c.cls(star ? "D-STAR tones" : "tones");
}

Property* find_property(const std::string& id) {
    static Property p; golay_nearest();
    if (id == "P01") { p = {"P01", "runs that decode at least one frame", {{"call sequences", safety, 60000, 800000}, {"extreme frames", extremes, 24000, 800000}, {"long streams", long_streams, 96, 2000}}}; p.assumptions = {"arguments satisfy the documented preconditions: bit arrays hold 0/1, status buffers hold errors+3 bytes, models have at most 56 harmonics"}; }
    else if (id == "P02") p = {"P02", "at least three frames, or one direct synthesis call", {{"histories", finite_run, 60000, 2000000}, {"direct synthesis", finite_synth, 200000, 6000000}, {"tones and noise", finite_tones, 100000, 3000000}}};
    else return nullptr;
    return &p;
}
