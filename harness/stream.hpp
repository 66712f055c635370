// Decoding programs: whole streams driven through the public calls, and bitwise comparison of their results.
#pragma once
#include "model.hpp"
#include "ref_synth.hpp"
#include <malloc.h>
#include <thread>
#include <atomic>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using namespace ref;
#ifdef STATIC_LIB
static const bool kStatic = true;
#else
static const bool kStatic = false;
#endif
static Lib& pick_lib(Tape& t, Case& c) { if (kStatic) return lib("scalar"); static const char* n[] = {"scalar", "simd"}; int k = (int)t.below(2); c.cls(k ? "build: SIMD" : "build: scalar"); return lib(n[k]); }

struct Res { std::vector<float> f; std::vector<short> s; std::string stat; std::vector<int> errs; std::string bits; Trip end; };
static void put(Res& r, const Res& x) { r.f.insert(r.f.end(), x.f.begin(), x.f.end()); r.s.insert(r.s.end(), x.s.begin(), x.s.end()); r.stat += x.stat; r.errs.insert(r.errs.end(), x.errs.begin(), x.errs.end()); r.bits += x.bits; }
static void begin_step(const Step& st, Trip& t) { if (st.setrate != 0) t.cur.errorRate = t.prev.errorRate = t.enh.errorRate = st.setrate; }
// decode one frame and collect everything the caller can see
static Res one(Lib& L, int codec, bool frame, bool sh, const Step& st, Trip& t, int uvq = 3, uint8_t fill = 0) {
    alignas(64) float ob[176]; alignas(64) short qb[192]; float* o = ob + (fill & 15); short* q = qb + (fill & 31);   // the fill byte also chooses where the audio buffer lies
    Res r; char es[64], d[88]; memset(es, fill, sizeof es); memset(d, fill, sizeof d); Frame f = st.f; int e = fill, e2 = fill; memset(ob, fill, sizeof ob); memset(qb, fill, sizeof qb);
    begin_step(st, t); frame = frame && !st.data;
    if (frame) { if (sh) api::frame_s(L, codec, q, &e, &e2, es, f, d, t, uvq); else api::frame_f(L, codec, o, &e, &e2, es, f, d, t, uvq); r.errs = {e, e2}; r.bits = std::string(d, (size_t)shape(codec).nd); }
    else if (sh) api::data_s(L, codec, q, st.in.c0, st.in.total, es, st.in.d, t, uvq); else api::data_f(L, codec, o, st.in.c0, st.in.total, es, st.in.d, t, uvq);
    if (sh) r.s.assign(q, q + 160); else r.f.assign(o, o + 160);
    r.stat = std::string(es) + "|"; return r;
}
static std::string state_bits(const mbe_parms& a, const mbe_parms& b) {
    const struct { const char* n; size_t o, s; } F[] = {
#define F1(f) {#f, offsetof(mbe_parms, f), sizeof(mbe_parms::f)},
        F1(w0) F1(L) F1(K) F1(gamma) F1(repeat) F1(repeatCount) F1(errorRate) F1(errorCountTotal) F1(errorCount4) F1(mutingThreshold) F1(localEnergy) F1(amplitudeThreshold) F1(noiseSeed) F1(noiseOverlap) F1(previousUw) F1(swn) F1(un)
#undef F1
    };
    for (auto& f : F) if (memcmp((const char*)&a + f.o, (const char*)&b + f.o, f.s)) return f.n;
    size_t n = sizeof(float) * (size_t)std::max(0, std::min(a.L, 56));
    if (memcmp(a.Ml + 1, b.Ml + 1, n) || memcmp(a.Vl + 1, b.Vl + 1, n) || memcmp(a.log2Ml + 1, b.log2Ml + 1, n)) return "spectrum";
    if (memcmp(a.PHIl + 1, b.PHIl + 1, 56 * 4) || memcmp(a.PSIl + 1, b.PSIl + 1, 56 * 4)) return "phases";
    return "";
}
static std::string res_diff(const Res& a, const Res& b) {
    char m[200];
    if (a.stat != b.stat) return "status " + a.stat + " against " + b.stat;
    if (a.errs != b.errs) return "error counts differ";
    if (a.bits != b.bits) return "decoded bits differ";
    if (a.f.size() != b.f.size() || a.s.size() != b.s.size()) return "lengths differ";
    for (size_t i = 0; i < a.f.size(); i++) if (memcmp(&a.f[i], &b.f[i], 4)) { snprintf(m, sizeof m, "sample %zu of frame %zu is %.9g against %.9g", i % 160, i / 160, a.f[i], b.f[i]); return m; }
    for (size_t i = 0; i < a.s.size(); i++) if (a.s[i] != b.s[i]) { snprintf(m, sizeof m, "sample %zu of frame %zu is %d against %d", i % 160, i / 160, a.s[i], b.s[i]); return m; }
    const mbe_parms* x[3] = {&a.end.cur, &a.end.prev, &a.end.enh}; const mbe_parms* y[3] = {&b.end.cur, &b.end.prev, &b.end.enh}; static const char* n[3] = {"current", "previous", "enhanced"};
    for (int i = 0; i < 3; i++) { std::string d = state_bits(*x[i], *y[i]); if (!d.empty()) return std::string("final ") + n[i] + " state differs in " + d; }
    return "";
}
struct Prog { int codec; bool frame, sh, mixed = false; std::vector<Step> st; uint32_t seed; };
// an error rate that earlier frames can have left behind, often near one of the codec's limits
static float some_rate(Tape& t) { static const float lim[] = {0.005f, 0.0125f, 0.0875f, 0.096f, 0.025f}; return t.chance(1, 2) ? lim[t.below(5)] / 0.95f * (1 + ((int)t.below(2001) - 1000) * 2e-5f) : (float)(1 + t.below(120)) * 0.001f; }
static Prog program(Tape& t, int lo, int hi) {
    Prog p; p.codec = (int)t.below(4); p.frame = !t.chance(1, 3); p.sh = t.chance(1, 3); p.seed = gen::some_seed(t); int n = hi > 3 && t.chance(1, 400) ? t.range(100, 700) : t.range(lo, hi), mode = (int)t.below(6), bias = t.chance(1, 2) ? gen::VOICE : -1;
    p.mixed = p.frame && t.chance(1, 6);     // a receiver that sometimes hands over parameter bits it has decoded itself
    for (int i = 0; i < n; i++) { if (t.chance(1, 4)) mode = (int)t.below(6); bool data = p.mixed && t.chance(1, 3); p.st.push_back(next_frame(t, p.codec, mode, bias, p.frame && !data)); p.st.back().data = data; if (t.chance(1, 8)) { Step s = p.st.back(); p.st.push_back(s); } }
    if (!p.st.empty() && t.chance(1, 4)) p.st[t.below((uint32_t)p.st.size())].setrate = some_rate(t);
    return p;
}
static Res run(Lib& L, const Prog& p, Trip& tr, uint8_t fill = 0, int uvq = 3) {
    Res r; init(L, tr); L.mbe_setThreadRngSeed(p.seed);
    for (const Step& s : p.st) put(r, one(L, p.codec, p.frame, p.sh, s, tr, uvq, fill));
    r.end = tr; return r;
}
static bool interesting(const std::string& s) { return strpbrk(s.c_str(), "RMET") != nullptr; }
static __attribute__((noinline)) void dirty_stack(uint8_t v) { volatile uint8_t b[20000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (uint8_t)(v + i * 7); }


// ---- sequences of direct calls to the single steps (correction, decoding, enhancement, smoothing, synthesis, tones, conversion ...)
struct WStep { int op, codec, arg, uvq; mbe_parms m; char d[88]; Frame f; float x[160]; uint32_t seed; };
struct Work { mbe_parms first; std::vector<WStep> st; uint32_t seed; };
struct WRes { std::vector<std::string> out; Trip end; };
static const int kWorkOps = 22;
static const char* work_name(int op) {
    static const char* n[kWorkOps] = {"speech synthesis (float)", "speech synthesis (16 bit)", "enhancement, smoothing and synthesis (float)", "enhancement, smoothing and synthesis (16 bit)", "comfort noise (float)", "comfort noise (16 bit)", "tone", "D-STAR tone", "silence",
        "conversion to 16 bit", "parameter decoding", "enhancement", "smoothing", "first-word correction", "descrambling", "data correction", "7100 conversion", "word decoders", "version", "predicates", "set copy", "initialisation"};
    return n[op];
}
static Work work(Tape& t, int lo, int hi) {
    Work w; memset(&w.first, 0, sizeof w.first); gen::model(t, w.first, -2, 9); gen::noise_state(t, w.first); gen::extras(t, w.first); w.seed = gen::some_seed(t);
    int n = t.range(lo, hi), fav = (int)t.below(kWorkOps);
    for (int i = 0; i < n; i++) {
        WStep s; memset((void*)&s, 0, sizeof s); s.op = t.chance(1, 3) ? fav : (int)t.below(kWorkOps); s.codec = (int)t.below(4); s.arg = (int)t.below(256); s.uvq = (int)t.below(65); s.seed = t.chance(1, 3) ? gen::some_seed(t) : 0;
        s.m = w.first; gen::model(t, s.m, -2, 9); gen::extras(t, s.m);
        gen::frame_bits(t, s.codec, gen::pick_kind(t, s.codec), s.d); s.f = gen::channel(t, s.codec == IMBE7100 ? IMBE7200 : s.codec, s.d, true); if (s.codec == IMBE7100) s.f = gen::noise_frame(t, s.codec);
        gen::corrupt(t, s.codec, s.f, (int)t.below(6));
        double a = exp2(t.real(0, 13)); for (float& v : s.x) v = 0; for (int k = 0; k < 160; k += 8) { double u = a * t.real(-1, 1); for (int j = 0; j < 8; j++) s.x[k + j] = (float)(u * (1 + j * 0.1)); }
        w.st.push_back(s);
    }
    return w;
}
static void wput(std::string& o, const void* p, size_t n) { o.append((const char*)p, n); }
static std::string wone(Lib& L, const WStep& s, Trip& t) {
    std::string o; float f[160]; short q[160]; char d[88], e[64]; memset(f, 0, sizeof f); memset(q, 0, sizeof q); memset(d, 0, 88); memset(e, 0, sizeof e); Frame fr = s.f; int dc = s.codec == IMBE7100 ? IMBE7200 : s.codec;
    if (s.seed) L.mbe_setThreadRngSeed(s.seed);
    auto load = [&]() { mbe_parms k = t.cur; t.cur = s.m; memcpy(t.cur.previousUw, k.previousUw, sizeof k.previousUw); memcpy(t.cur.noiseOverlap, k.noiseOverlap, sizeof k.noiseOverlap); t.cur.noiseSeed = k.noiseSeed; };
    bool af = false, as = false;
    switch (s.op) {
        case 0: load(); L.mbe_synthesizeSpeechf(f, &t.cur, &t.enh, s.uvq); t.enh = t.cur; af = true; break;
        case 1: load(); L.mbe_synthesizeSpeech(q, &t.cur, &t.enh, s.uvq); t.enh = t.cur; as = true; break;
        case 2: case 3: load(); L.mbe_spectralAmpEnhance(&t.cur); L.mbe_applyAdaptiveSmoothing(&t.cur, &t.enh); if (s.op == 2) { L.mbe_synthesizeSpeechf(f, &t.cur, &t.enh, s.uvq); af = true; } else { L.mbe_synthesizeSpeech(q, &t.cur, &t.enh, s.uvq); as = true; } t.enh = t.cur; break;
        case 4: L.mbe_synthesizeComfortNoisef(f); af = true; break;
        case 5: L.mbe_synthesizeComfortNoise(q); as = true; break;
        case 6: if (is_ambe(s.codec)) L.mbe_synthesizeTonef(f, s.d, &t.cur); else { char b[88]; memset(b, 0, 88); for (int i = 12; i < 20; i++) b[i] = (char)(s.arg >> (19 - i) & 1); b[7] = b[9] = 1; L.mbe_synthesizeTonef(f, b, &t.cur); } af = true; break;
        case 7: L.mbe_synthesizeTonefdstar(f, s.d, &t.cur, s.arg); af = true; break;
        case 8: if (s.arg & 1) { L.mbe_synthesizeSilencef(f); af = true; } else { L.mbe_synthesizeSilence(q); as = true; } break;
        case 9: memcpy(f, s.x, sizeof f); L.mbe_floattoshort(f, q); as = true; break;
        case 10: { int r = api::decode(L, dc, s.d, &t.cur, &t.prev); wput(o, &r, sizeof r); t.prev = t.cur; break; }
        case 11: load(); L.mbe_spectralAmpEnhance(&t.cur); break;
        case 12: load(); L.mbe_applyAdaptiveSmoothing(&t.cur, &t.prev); break;
        case 13: { int r = api::ecc_c0(L, s.codec, fr); wput(o, &r, sizeof r); break; }
        case 14: api::demod(L, s.codec, fr); break;
        case 15: { int r = api::ecc_data(L, s.codec, fr, d); wput(o, &r, sizeof r); break; }
        case 16: memcpy(d, s.d, 88); L.mbe_convertImbe7100to7200(d); break;
        case 17: { char b[24] = {0}; int r = L.mbe_golay2312(&s.f.b[0], b); wput(o, &r, sizeof r); wput(o, b, 23); r = L.mbe_hamming1511(&s.f.b[24], b); wput(o, &r, sizeof r); wput(o, b, 15); r = L.mbe_7100x4400hamming1511(&s.f.b[24], b); wput(o, &r, sizeof r); wput(o, b, 15);
            long w = (long)(s.seed ? s.seed & 0x7fffff : (uint32_t)s.arg * 77777u & 0x7fffff); L.mbe_checkGolayBlock(&w); wput(o, &w, sizeof w); break; }
        case 18: L.mbe_printVersion(e); o += L.mbe_versionString(); break;
        case 19: { int r[3] = {L.mbe_requiresMuting(&s.m), L.mbe_isMaxFrameRepeat(&s.m), L.mbe_requiresAdaptiveSmoothing(&s.m)}; wput(o, r, sizeof r); break; }
        case 20: load(); if (s.arg & 1) L.mbe_moveMbeParms(&t.cur, &t.prev); else L.mbe_useLastMbeParms(&t.cur, &t.enh); break;
        default: L.mbe_initMbeParms(&t.cur, &t.prev, &t.enh);
    }
    if (af) wput(o, f, sizeof f);
    if (as) wput(o, q, sizeof q);
    if (s.op >= 13 && s.op <= 16) { Shape sh = shape(s.codec); for (int r = 0; r < sh.rows; r++) for (int k = 0; k < sh.cols; k++) if (used(s.codec, r, k)) o += fr.at(r, k); wput(o, d, 88); }
    if (s.op == 18) wput(o, e, 64);
    return o;
}
static void winit(const Work& w, Trip& t) { t.cur = t.prev = t.enh = w.first; }
static WRes wrun(Lib& L, const Work& w, Trip& t) { WRes r; winit(w, t); reset_hidden(L, w.seed); for (const WStep& s : w.st) r.out.push_back(wone(L, s, t)); r.end = t; return r; }
static std::string wres_diff(const Work& w, const WRes& a, const WRes& b) {
    for (size_t i = 0; i < a.out.size() && i < b.out.size(); i++) if (a.out[i] != b.out[i]) { char m[160]; size_t k = 0; while (k < a.out[i].size() && k < b.out[i].size() && a.out[i][k] == b.out[i][k]) k++; snprintf(m, sizeof m, "call %zu of %zu, %s: result differs at byte %zu", i, a.out.size(), work_name(w.st[i].op), k); return m; }
    if (a.out.size() != b.out.size()) return "not all calls were made";
    Res x, y; x.end = a.end; y.end = b.end; return res_diff(x, y);
}
