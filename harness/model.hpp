// One-frame model of the three decoder state machines, composed of the library's own building blocks
// (parameter decoding, enhancement, synthesis, comfort noise, tones), in the documented order.
// Error counts, classification and all state transitions are the model's own.
#pragma once
#include "gen.hpp"

namespace model {
using namespace ref;

struct In { int codec; bool frame; int c0, total, c4; char d[88]; };
struct Out { float a[160]; std::string s; bool exact = true; bool replaced = false; char what = 'V'; };

inline void init_fields(mbe_parms& p, bool ambe) {
    memset(&p, 0, sizeof p);
    if (ambe) { p.w0 = (float)(M_PI / 32 * 2 * M_PI); p.L = 15; p.K = 0; p.mutingThreshold = 0.096f; }
    else { p.w0 = (float)(4 * M_PI / 173.5); p.L = imbe_L(134); p.K = 12; p.mutingThreshold = 0.0875f; }
    for (int l = 0; l <= 56; l++) p.Ml[l] = 1;
    p.localEnergy = 75000; p.amplitudeThreshold = 20480; p.noiseSeed = -1;
}
inline void init_all(Trip& t, bool ambe) { init_fields(t.prev, ambe); t.cur = t.enh = t.prev; }

inline void erasure(mbe_parms& c, const mbe_parms& prev) {
    c.swn = c.un = 0; c.w0 = 0; c.L = 9; c.K = 0; c.gamma = 0;
    for (int l = 0; l <= 56; l++) { c.Ml[l] = 1; c.Vl[l] = 0; c.log2Ml[l] = 0; c.PHIl[l] = prev.PHIl[l]; c.PSIl[l] = prev.PSIl[l]; }
    c.localEnergy = 75000; c.amplitudeThreshold = 20480; c.noiseSeed = prev.noiseSeed;
    memcpy(c.noiseOverlap, prev.noiseOverlap, sizeof c.noiseOverlap); memcpy(c.previousUw, prev.previousUw, sizeof c.previousUw);
}

inline int tone_id2450(const char* d) { int v = 0; for (int i = 12; i < 20; i++) v = v << 1 | d[i]; return v; }

inline void speak(Lib& L, Trip& t, Out& o) {
    t.prev = t.cur;
    L.mbe_spectralAmpEnhance(&t.cur);
    L.mbe_synthesizeSpeechf(o.a, &t.cur, &t.enh, 3);
    t.enh = t.cur;
}
inline void comfort_reset(Lib& L, Trip& t, Out& o) { L.mbe_synthesizeComfortNoisef(o.a); init_all(t, true); }

inline Out step_ambe(Lib& L, const In& in, Trip& t) {
    Out o; o.s = std::string((size_t)in.total, '=');
    bool plus = in.codec == AMBE2450;
    if (fabs(t.prev.mutingThreshold - 0.096f) > 1e-6) init_all(t, true);
    t.cur.mutingThreshold = 0.096f; t.cur.errorCountTotal = in.total; t.cur.errorCount4 = 0;
    t.cur.errorRate = 0.95f * t.prev.errorRate + 0.001064f * (float)in.total;
    Dec e = ref_decode(in.codec, in.d, t.prev, in.total);
    mbe_parms prev0 = t.prev;
    int pub = api::decode(L, in.codec, in.d, &t.cur, &t.prev);
    if (e.voice && pub != 0) {    // a tone pattern with too many errors, read as silence: the public decoder has no error gate
        o.exact = false;
        t.cur.w0 = (float)e.w0; t.cur.L = e.L; t.cur.gamma = (float)e.gamma;
        for (int l = 1; l <= e.L; l++) { t.cur.Vl[l] = e.Vl[l]; t.cur.Ml[l] = (float)e.Ml[l]; t.cur.log2Ml[l] = (float)e.log2Ml[l]; }
    }
    t.cur.repeat = prev0.repeat;
    if (e.ret == 2) {
        o.what = 'E'; o.s += 'E'; t.cur.repeat = t.cur.repeatCount = 0;
        erasure(t.cur, t.prev);
        L.mbe_synthesizeComfortNoisef(o.a); t.prev = t.cur; t.enh = t.cur;
        return o;
    }
    if (plus && e.ret == 7) {
        o.what = 'T'; o.s += 'T'; t.cur.repeat = t.cur.repeatCount = 0;
        if (gen::valid_tone_id(tone_id2450(in.d))) L.mbe_synthesizeTonef(o.a, in.d, &t.cur);
        else if (t.prev.repeatCount < 4) { o.what = 'I'; mbe_parms s = t.enh; L.mbe_synthesizeSpeechf(o.a, &s, &t.enh, 3); t.enh = s; }
        else { o.what = 'J'; comfort_reset(L, t, o); }
        return o;
    }
    bool repeat = false;
    if (!plus) {
        if (e.ret == 3) { o.what = 'J'; o.s += 'T'; comfort_reset(L, t, o); return o; }
        if (e.ret >= 7 && e.ret <= 122 && in.c0 < 2 && in.total < 3) { o.what = 'T'; L.mbe_synthesizeTonefdstar(o.a, in.d, &t.cur, e.ret); t.prev = t.cur; return o; }
        repeat = in.total > 3;
    } else repeat = in.frame ? in.c0 >= 4 || (in.c0 >= 2 && in.total >= 6) : in.total > 3;
    if (repeat) { t.cur = t.prev; t.cur.repeat++; t.cur.repeatCount++; o.s += 'R'; o.what = 'R'; }
    else t.cur.repeat = t.cur.repeatCount = 0;
    if (e.ret != 0) { o.what = 'N'; comfort_reset(L, t, o); return o; }   // unusable tone index or tone with errors
    if (t.cur.repeat <= 3) speak(L, t, o);
    else { o.what = 'M'; o.s += 'M'; comfort_reset(L, t, o); }
    return o;
}

inline Out step_imbe(Lib& L, const In& in, Trip& t) {
    Out o; o.s = std::string((size_t)in.total, '=');
    t.cur.mutingThreshold = 0.0875f; t.cur.errorCountTotal = in.total; t.cur.errorCount4 = in.frame ? in.c4 : 0;
    t.cur.errorRate = 0.95f * t.prev.errorRate + 0.000365f * (float)in.total;
    Dec e = ref_decode(in.codec, in.d, t.prev);
    mbe_parms prev0 = t.prev;
    api::decode(L, in.codec, in.d, &t.cur, &t.prev);
    t.cur.repeat = prev0.repeat;
    float rate = t.cur.errorRate;
    bool repeat = e.ret == 1 || (in.frame ? in.c0 >= 2 && (float)in.total >= 10.0f + 40.0f * rate : in.total > 5);
    if (repeat) {
        o.s += 'R'; o.what = 'R';
        if (t.prev.repeatCount >= 4) {   // headroom: default model, phases and noise go on
            o.what = 'H';
            mbe_parms z; init_fields(z, false); mbe_parms& c = t.cur;
            c.swn = c.un = 0; c.w0 = z.w0; c.L = z.L; c.K = z.K; c.gamma = 0;
            for (int l = 0; l <= 56; l++) { c.Vl[l] = 0; c.Ml[l] = 1; c.log2Ml[l] = 0; }
            c.repeat = c.repeatCount = 0; c.localEnergy = 75000; c.amplitudeThreshold = 20480; c.mutingThreshold = 0.0875f;
        } else { t.cur = t.prev; t.cur.repeat++; t.cur.repeatCount++; }
    } else t.cur.repeat = t.cur.repeatCount = 0;
    bool mute = t.cur.repeatCount >= 4 || t.cur.errorRate > t.cur.mutingThreshold;
    speak(L, t, o);
    if (mute) { o.s += 'M'; o.what = 'M'; }
    return o;
}
inline Out step(Lib& L, const In& in, Trip& t) { return is_ambe(in.codec) ? step_ambe(L, in, t) : step_imbe(L, in, t); }

// ---- input histories
struct Errors { int mode; };
inline const char* err_mode_name(int m) { static const char* n[] = {"clean", "light", "medium", "heavy", "maximal", "noise"}; return n[m]; }
// flip k data bits of a protected word (counted by the decoder), or parity bits (corrected, not counted)
inline void hit(pbt::Tape& t, Frame& f, int r, int lo, int data, int top, int k, bool counted) {
    int pos[3];
    for (int i = 0; i < k; i++) { bool dup; int guard = 0; do { pos[i] = counted ? data + (int)t.below((uint32_t)(top - data + 1)) : lo + (int)t.below((uint32_t)(top - lo + 1)); dup = false; for (int j = 0; j < i; j++) dup = dup || pos[j] == pos[i]; } while (dup && ++guard < 30); f.at(r, pos[i]) ^= 1; }
}
inline void damage(pbt::Tape& t, int codec, Frame& f, int mode) {
    auto cnt = [&]() -> int { switch (mode) { case 0: return 0; case 1: return t.chance(1, 3) ? 1 : 0; case 2: return t.range(0, 2); case 3: return t.range(1, 3); default: return 3; } };
    auto w = [&](int r, int lo, int data, int top) { int k = cnt(); bool counted = mode == 4 || !t.chance(1, 4); hit(t, f, r, lo, data, top, k, counted); };
    if (mode == 0) return;
    if (mode == 5) { Frame n = gen::noise_frame(t, codec); f = n; return; }
    if (is_ambe(codec)) { w(0, 1, 12, 23); if (t.chance(1, 8)) f.at(0, 0) ^= 1; w(1, 0, 11, 22); }
    else if (codec == IMBE7200) { for (int r = 0; r < 4; r++) { if (r == 0 && t.chance(1, 3)) continue; w(r, 0, 11, 22); } for (int r = 4; r < 7; r++) if (cnt()) f.at(r, (int)t.below(15)) ^= 1; }
    else { if (!t.chance(1, 3)) w(0, 1, 12, 18); w(1, 1, 12, 23); w(2, 0, 11, 22); w(3, 0, 11, 22); for (int r = 4; r < 6; r++) if (cnt()) f.at(r, (int)t.below(15)) ^= 1; }
}
}  // namespace model

struct Step { model::In in; ref::Frame f; float setrate = 0; bool data = false; };   // setrate: error rate tracked before the frame, when not zero
// next frame of a history
inline Step next_frame(pbt::Tape& t, int codec, int mode, int kindbias, bool frame) {
    using namespace ref;
    Step s; memset(&s.f, 0, sizeof s.f);
    int dc = codec == ref::IMBE7100 ? ref::IMBE7200 : codec;
    s.in.codec = dc; s.in.frame = frame; memset(s.in.d, 0, 88);
    int kind = kindbias >= 0 && !t.chance(1, 6) ? kindbias : gen::pick_kind(t, dc);
    gen::frame_bits(t, dc, kind, s.in.d);
    if (frame) {
        s.f = gen::channel(t, codec, s.in.d, false);
        model::damage(t, codec, s.f, mode);
        Decoded x = frame_decode(codec, s.f);
        s.in.c0 = x.c0; s.in.total = x.total; s.in.c4 = x.c4; memcpy(s.in.d, x.d, (size_t)shape(codec).nd);
    } else {
        int hi = mode == 0 ? 0 : mode == 1 ? 2 : mode == 2 ? 5 : mode == 3 ? 9 : 15;
        s.in.total = t.range(mode >= 4 ? 4 : 0, hi); if (mode >= 4 && t.chance(1, 10)) s.in.total = t.range(16, 58);   // the caller's own count, which no frame of ours could have
        s.in.c0 = (int)t.below((uint32_t)std::min(s.in.total, 4) + 1); s.in.c4 = 0;
        if (codec != ref::AMBE2400 && t.chance(1, 3)) s.in.c0 = (int)t.below(8);   // reserved argument: any value
    }
    return s;
}

