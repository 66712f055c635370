// Access to the library under test: every build variant is a shared object of its own, opened with
// dlopen and driven through the exported public API only.
#pragma once
#include "mbelib-neo/mbelib.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#ifndef STATIC_LIB
#include <dlfcn.h>
#endif

#define MBE_FUNCS(X) \
  X(mbe_checkGolayBlock) X(mbe_golay2312) X(mbe_hamming1511) X(mbe_7100x4400hamming1511) \
  X(mbe_eccAmbe3600x2400C0) X(mbe_eccAmbe3600x2400Data) X(mbe_decodeAmbe2400Parms) X(mbe_demodulateAmbe3600x2400Data) \
  X(mbe_processAmbe2400Dataf) X(mbe_processAmbe2400Data) X(mbe_processAmbe3600x2400Framef) X(mbe_processAmbe3600x2400Frame) \
  X(mbe_eccAmbe3600x2450C0) X(mbe_eccAmbe3600x2450Data) X(mbe_decodeAmbe2450Parms) X(mbe_demodulateAmbe3600x2450Data) \
  X(mbe_processAmbe2450Dataf) X(mbe_processAmbe2450Data) X(mbe_processAmbe3600x2450Framef) X(mbe_processAmbe3600x2450Frame) \
  X(mbe_dumpImbe4400Data) X(mbe_dumpImbe7200x4400Data) X(mbe_dumpImbe7200x4400Frame) \
  X(mbe_eccImbe7200x4400C0) X(mbe_eccImbe7200x4400Data) X(mbe_decodeImbe4400Parms) X(mbe_demodulateImbe7200x4400Data) \
  X(mbe_processImbe4400Dataf) X(mbe_processImbe4400Data) X(mbe_processImbe7200x4400Framef) X(mbe_processImbe7200x4400Frame) \
  X(mbe_dumpImbe7100x4400Data) X(mbe_dumpImbe7100x4400Frame) \
  X(mbe_eccImbe7100x4400C0) X(mbe_eccImbe7100x4400Data) X(mbe_demodulateImbe7100x4400Data) X(mbe_convertImbe7100to7200) \
  X(mbe_processImbe7100x4400Framef) X(mbe_processImbe7100x4400Frame) \
  X(mbe_printVersion) X(mbe_versionString) X(mbe_setThreadRngSeed) X(mbe_moveMbeParms) X(mbe_useLastMbeParms) X(mbe_initMbeParms) \
  X(mbe_spectralAmpEnhance) X(mbe_synthesizeTonef) X(mbe_synthesizeTonefdstar) X(mbe_synthesizeSilencef) X(mbe_synthesizeSilence) \
  X(mbe_synthesizeSpeechf) X(mbe_synthesizeSpeech) X(mbe_floattoshort) X(mbe_requiresMuting) X(mbe_isMaxFrameRepeat) \
  X(mbe_synthesizeComfortNoisef) X(mbe_synthesizeComfortNoise) X(mbe_applyAdaptiveSmoothing) X(mbe_requiresAdaptiveSmoothing)

struct Lib {
    const char* name = "";
#define X(f) decltype(&::f) f = nullptr;
    MBE_FUNCS(X)
#undef X
    bool load(const char* nm) {
        name = nm;
#ifdef STATIC_LIB
#define X(f) this->f = &::f;
        MBE_FUNCS(X)
#undef X
        return true;
#else
        std::string ev = std::string("LIB_") + nm;
        const char* path = getenv(ev.c_str());
        if (!path) { fprintf(stderr, "%s is not set\n", ev.c_str()); return false; }
        void* h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return false; }
#define X(f) this->f = (decltype(&::f))dlsym(h, #f); if (!this->f) { fprintf(stderr, "%s: no symbol %s\n", path, #f); return false; }
        MBE_FUNCS(X)
#undef X
        return true;
#endif
    }
};

inline Lib& lib(const char* nm) {
    static Lib libs[12]; static int n = 0;
    for (int i = 0; i < n; i++) if (!strcmp(libs[i].name, nm)) return libs[i];
    if (!libs[n].load(nm)) { printf("HARNESS-ERROR cannot load %s\n", nm); fflush(stdout); _Exit(9); }
    return libs[n++];
}

// The caller-visible decoder state of one stream.
struct Trip { mbe_parms cur, prev, enh; };

inline void init(Lib& L, Trip& t) { memset(&t, 0, sizeof t); L.mbe_initMbeParms(&t.cur, &t.prev, &t.enh); }

// Bring the calling thread's hidden state (comfort-noise generator, cold-start seed override,
// enhancement hand-off) to a value that depends on `seed` only.
inline void reset_hidden(Lib& L, uint32_t seed) {
    static thread_local Trip t; float b[160];
    L.mbe_setThreadRngSeed(seed);
    init(L, t);
    L.mbe_spectralAmpEnhance(&t.cur);
    L.mbe_synthesizeSpeechf(b, &t.cur, &t.prev, 1);  // consumes the override and the hand-off
}
