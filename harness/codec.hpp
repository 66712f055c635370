// Codec-generic wrappers around the public API.
#pragma once
#include "lib.hpp"
#include "ref_ecc.hpp"

namespace api {
using namespace ref;
typedef char (*F4)[24]; typedef char (*F8)[23]; typedef char (*F7)[24];

inline int ecc_c0(Lib& L, int c, Frame& f) {
    switch (c) {
        case AMBE2400: return L.mbe_eccAmbe3600x2400C0((F4)f.b);
        case AMBE2450: return L.mbe_eccAmbe3600x2450C0((F4)f.b);
        case IMBE7200: return L.mbe_eccImbe7200x4400C0((F8)f.b);
        default: return L.mbe_eccImbe7100x4400C0((F7)f.b);
    }
}
inline void demod(Lib& L, int c, Frame& f) {
    switch (c) {
        case AMBE2400: L.mbe_demodulateAmbe3600x2400Data((F4)f.b); break;
        case AMBE2450: L.mbe_demodulateAmbe3600x2450Data((F4)f.b); break;
        case IMBE7200: L.mbe_demodulateImbe7200x4400Data((F8)f.b); break;
        default: L.mbe_demodulateImbe7100x4400Data((F7)f.b);
    }
}
inline int ecc_data(Lib& L, int c, Frame& f, char* d) {
    switch (c) {
        case AMBE2400: return L.mbe_eccAmbe3600x2400Data((F4)f.b, d);
        case AMBE2450: return L.mbe_eccAmbe3600x2450Data((F4)f.b, d);
        case IMBE7200: return L.mbe_eccImbe7200x4400Data((F8)f.b, d);
        default: return L.mbe_eccImbe7100x4400Data((F7)f.b, d);
    }
}
inline void frame_f(Lib& L, int c, float* out, int* e, int* e2, char* s, Frame& f, char* d, Trip& t, int uvq = 3) {
    switch (c) {
        case AMBE2400: L.mbe_processAmbe3600x2400Framef(out, e, e2, s, (F4)f.b, d, &t.cur, &t.prev, &t.enh, uvq); break;
        case AMBE2450: L.mbe_processAmbe3600x2450Framef(out, e, e2, s, (F4)f.b, d, &t.cur, &t.prev, &t.enh, uvq); break;
        case IMBE7200: L.mbe_processImbe7200x4400Framef(out, e, e2, s, (F8)f.b, d, &t.cur, &t.prev, &t.enh, uvq); break;
        default: L.mbe_processImbe7100x4400Framef(out, e, e2, s, (F7)f.b, d, &t.cur, &t.prev, &t.enh, uvq);
    }
}
inline void frame_s(Lib& L, int c, short* out, int* e, int* e2, char* s, Frame& f, char* d, Trip& t, int uvq = 3) {
    switch (c) {
        case AMBE2400: L.mbe_processAmbe3600x2400Frame(out, e, e2, s, (F4)f.b, d, &t.cur, &t.prev, &t.enh, uvq); break;
        case AMBE2450: L.mbe_processAmbe3600x2450Frame(out, e, e2, s, (F4)f.b, d, &t.cur, &t.prev, &t.enh, uvq); break;
        case IMBE7200: L.mbe_processImbe7200x4400Frame(out, e, e2, s, (F8)f.b, d, &t.cur, &t.prev, &t.enh, uvq); break;
        default: L.mbe_processImbe7100x4400Frame(out, e, e2, s, (F7)f.b, d, &t.cur, &t.prev, &t.enh, uvq);
    }
}
// data-level entry: codec IMBE7200 and IMBE7100 share the IMBE 4400 entry
inline void data_f(Lib& L, int c, float* out, int e, int e2, char* s, const char* d, Trip& t, int uvq = 3) {
    switch (c) {
        case AMBE2400: L.mbe_processAmbe2400Dataf(out, &e, &e2, s, d, &t.cur, &t.prev, &t.enh, uvq); break;
        case AMBE2450: L.mbe_processAmbe2450Dataf(out, &e, &e2, s, d, &t.cur, &t.prev, &t.enh, uvq); break;
        default: L.mbe_processImbe4400Dataf(out, &e, &e2, s, d, &t.cur, &t.prev, &t.enh, uvq);
    }
}
inline void data_s(Lib& L, int c, short* out, int e, int e2, char* s, const char* d, Trip& t, int uvq = 3) {
    switch (c) {
        case AMBE2400: L.mbe_processAmbe2400Data(out, &e, &e2, s, d, &t.cur, &t.prev, &t.enh, uvq); break;
        case AMBE2450: L.mbe_processAmbe2450Data(out, &e, &e2, s, d, &t.cur, &t.prev, &t.enh, uvq); break;
        default: L.mbe_processImbe4400Data(out, &e, &e2, s, d, &t.cur, &t.prev, &t.enh, uvq);
    }
}
inline int decode(Lib& L, int c, const char* d, mbe_parms* cur, mbe_parms* prev) {
    switch (c) {
        case AMBE2400: return L.mbe_decodeAmbe2400Parms(d, cur, prev);
        case AMBE2450: return L.mbe_decodeAmbe2450Parms(d, cur, prev);
        default: return L.mbe_decodeImbe4400Parms(d, cur, prev);
    }
}
}  // namespace api

inline std::string bits_str(const char* d, int n) { std::string s; for (int i = 0; i < n; i++) s += d[i] == 0 ? '0' : d[i] == 1 ? '1' : '?'; return s; }
inline std::string hex_bits(const char* d, int n) {
    std::string s; char b[4];
    for (int i = 0; i < n; i += 4) { int v = 0; for (int k = 0; k < 4; k++) v = v << 1 | (i + k < n ? d[i + k] & 1 : 0); snprintf(b, sizeof b, "%x", v); s += b; }
    return s;
}
