CLIPEND = """    mbe_fft_plan* plan = mbe_get_fft_plan();
    if (plan) {
        mbe_synthesizeUnvoicedFFTWithNoise(aout_buf, cur_mp, prev_mp, plan, noise_buffer);
    }
"""
seed("P33-unclipped", "P33", [(M, CLIPEND, """    mbe_fft_plan* plan = mbe_get_fft_plan();
    if (!plan) {
        return; /* voiced part only */
    }
    mbe_synthesizeUnvoicedFFTWithNoise(aout_buf, cur_mp, prev_mp, plan, noise_buffer);
""")],
 "no memory for the noise synthesis on a thread's first frame, and a frame loud enough to clip",
 "the frame decoded without memory leaves the clipping limit",
 """static int fail; void* __real_malloc(size_t n); void* __wrap_malloc(size_t n){ return fail?NULL:__real_malloc(n); }
int main(void){ T t; init(&t); mdl(&t.c,0.1f,20,4000,1); t.e=t.c; fail=1; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); for(int i=0;i<160;i++) if(fabsf(ab[i])>4447.5f) {fail=0; FAIL("sample %d is %g",i,ab[i]);} return 0; }""", flags="-Wl,--wrap=malloc")
seed("P33-never-again", "P33", [(M, """    mbe_fft_plan_instance = mbe_fft_plan_alloc();
    return mbe_fft_plan_instance;""", """    static MBE_THREAD_LOCAL int tried = 0;
    if (tried) {
        return NULL; /* the first attempt failed: do not stall every frame */
    }
    tried = 1;
    mbe_fft_plan_instance = mbe_fft_plan_alloc();
    return mbe_fft_plan_instance;""")],
 "an allocation failure on a thread's first synthesized frame, memory available afterwards",
 "the thread never gets unvoiced sound again",
 """static int fail; void* __real_malloc(size_t n); void* __wrap_malloc(size_t n){ return fail?NULL:__real_malloc(n); }
int main(void){ T t; init(&t); for(int f=0;f<6;f++){ mdl(&t.c,0.1f,20,40,0); fail=f==0; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); fail=0; t.e=t.c; } if(rms(ab)<1) FAIL("unvoiced frames are silent"); return 0; }""", flags="-Wl,--wrap=malloc")
seed("P33-rollback-leak", "P33", [(UV, """    if (!plan->Uw || !plan->Uw_fft || !plan->Uw_out || !plan->work) {
        mbe_fft_plan_free(plan);
        return NULL;
    }""", """    if (!plan->Uw || !plan->Uw_fft) {
        mbe_fft_plan_free(plan);
        return NULL;
    }
    if (!plan->Uw_out || !plan->work) {
        pffft_destroy_setup(plan->setup);
        pffft_aligned_free(plan->Uw);
        pffft_aligned_free(plan->Uw_fft);
        pffft_aligned_free(plan);
        return NULL;
    }""")],
 "the very last of the seven allocations fails", "the buffer allocated just before it is lost, at every attempt",
 """static int left=-1; static long live; void* __real_malloc(size_t n); void __real_free(void*p); void* __wrap_malloc(size_t n){ if(left==0) return NULL; if(left>0) left--; live++; return __real_malloc(n); } void __wrap_free(void*p){ if(p) live--; __real_free(p); }
int main(void){ T t; init(&t); long l0=live; for(int f=0;f<50;f++){ mdl(&t.c,0.1f,20,40,0); left=6; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); left=-1; t.e=t.c; } if(live>l0) FAIL("%ld blocks left",live-l0); return 0; }""", flags="-Wl,--wrap=malloc,--wrap=free")
seed("P34-limit-four", "P34", [(AD, "if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 4) {", "if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal < 4) {")],
 "exactly four corrected errors in one frame of a clean stream, with one strong unvoiced harmonic",
 "corrected errors become audible one error too early (strong harmonics are forced voiced)",
 """int main(void){ T a,b; init(&a); init(&b); mdl(&a.c,0.1f,30,5,0); a.c.Ml[7]=2e5f; b.c=a.c; b.c.errorCountTotal=4; b.c.errorRate=0.0015f; static float o[160],q[160]; mbe_synthesizeSpeechf(o,&a.c,&a.e,3); mbe_synthesizeSpeechf(q,&b.c,&b.e,3); if(memcmp(a.c.Vl,b.c.Vl,sizeof a.c.Vl)) FAIL("voicing changed by corrected errors"); return 0; }""")
seed("P35-skip-invalid", "P35", [(I1, "    w0 = ((float)(4 * M_PI) / (float)((float)b0 + 39.5));\n", "    if (b0 > 207) {\n        return; /* not a voice frame */\n    }\n    w0 = ((float)(4 * M_PI) / (float)((float)b0 + 39.5));\n")],
 "a 7100 frame with an invalid pitch value (208..255)",
 "the parameter bits stay in the order of the 7100 format, so another pitch is decoded than from the same parameters in a 7200 frame",
 """int main(void){ for(int k=0;k<2000;k++){ char d[88],s[88]; rbits(d,88); int v=208+(int)(rnd()%48); for(int j=0;j<6;j++) d[1+j]=(char)(v>>(7-j)&1); d[86]=(char)(v>>1&1); d[87]=(char)(v&1); memcpy(s,d,88); mbe_convertImbe7100to7200(d); int b=0; for(int j=0;j<8;j++) b=b*2+d[PIMBE[j]]; if(b!=v) FAIL("pitch %d arrives as %d",v,b);} return 0; }""")
seed("P35-c4-carry", "P35", [(I1, """        if (i == 4 && errs_c4 != NULL) {
            *errs_c4 = hamming_errs;
        }""", """        if (errs_c4 != NULL) {
            *errs_c4 |= hamming_errs;
        }""")],
 "a bit error in the sixth word (not the fifth) of a 7100 frame while the error rate is between 0.5 % and 1.25 %",
 "the other smoothing formula is chosen than for the same damage in a 7200 frame",
 """int main(void){ char tx[88],fr[7][24],d[88]; rbits(tx,88); int b=40; for(int j=0;j<6;j++) tx[1+j]=(char)(b>>(7-j)&1); tx[86]=(char)(b>>1&1); tx[87]=(char)(b&1); T t; init(&t); int e,e2; frame7100(tx,fr); fr[5][9]^=1; mbe_processImbe7100x4400Framef(ab,&e,&e2,st,fr,d,&t.c,&t.p,&t.e,3); if(e2!=1) return 0; if(t.c.errorCount4!=0) FAIL("error of the second word counted for the first"); return 0; }""")
seed("P36-flush-to-zero", "P36", [(M, """    const int L = cur_mp->L;

    /* Precompute cos(w0 * l) table""", """    const int L = cur_mp->L;

    /* denormal amplitudes make the loops below slow */
    const unsigned int csr = _mm_getcsr();
    _mm_setcsr(csr | 0x8040u);

    /* Precompute cos(w0 * l) table"""), (M, """    if (sum == 0.0f) {
        gamma = 1.0f;
    } else {
        gamma = sqrtf(Rm0 / sum);
    }
""", """    if (sum == 0.0f) {
        return; /* nothing to scale */
    }
    gamma = sqrtf(Rm0 / sum);
    _mm_setcsr(csr);
"""), (M, "#include \"mbelib-neo/mbelib.h\"\n", "#include \"mbelib-neo/mbelib.h\"\n#include <xmmintrin.h>\n")],
 "a frame whose amplitudes are all zero", "the caller's thread is left in flush-to-zero mode",
 """#include <xmmintrin.h>
int main(void){ T t; init(&t); mdl(&t.c,0.1f,30,0,1); unsigned a=_mm_getcsr()&~0x3fu; mbe_spectralAmpEnhance(&t.c); if((_mm_getcsr()&~0x3fu)!=a) FAIL("floating-point environment changed"); return 0; }""")
seed("P36-clip-message", "P36", [(M, """        if (audio > max_amplitude) {
#ifdef MBE_DEBUG
            fprintf(stderr, "audio clip: %f\\n", audio);
#endif
            audio = max_amplitude;
        } else if (audio < -max_amplitude) {
#ifdef MBE_DEBUG
            fprintf(stderr, "audio clip: %f\\n", audio);
#endif
            audio = -max_amplitude;
        }
        aout_buf[i] = (short)(audio);
    }
}
#endif /* MBELIB""", """        if (audio > max_amplitude) {
#ifdef MBE_DEBUG
            fprintf(stderr, "audio clip: %f\\n", audio);
#endif
            audio = max_amplitude;
        } else if (audio < -max_amplitude) {
#ifndef MBE_DEBUG
            if (audio < -2.0f * 32768.0f) {
                fprintf(stderr, "audio clip: %f\\n", audio);
            }
#endif
            audio = -max_amplitude;
        }
        aout_buf[i] = (short)(audio);
    }
}
#endif /* MBELIB""")],
 "a 16-bit conversion of a strongly negative overload", "a message is printed to standard error",
 """#include <unistd.h>
#include <fcntl.h>
int main(void){ char n[]="/tmp/duXXXXXX"; int f=mkstemp(n); unlink(n); int o=dup(2); dup2(f,2); static float in[160]; short out[160]; for(int i=0;i<160;i++) in[i]=-20000; mbe_floattoshort(in,out); fflush(stderr); dup2(o,2); if(lseek(f,0,SEEK_END)) FAIL("the conversion prints"); return 0; }""")
seed("P37-rate-by-address", "P37", [(I2, "    cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.000365f * (float)(*errs2));", """    {
        /* keep the filter state in full precision for the stream decoded last */
        static MBE_THREAD_LOCAL const mbe_parms* rate_owner = NULL;
        static MBE_THREAD_LOCAL double rate_state = 0.0;
        double last = (rate_owner == prev_mp && fabs(rate_state - (double)prev_mp->errorRate) < 0.004) ? rate_state : (double)prev_mp->errorRate;
        rate_state = (0.95 * last) + (0.000365 * (double)(*errs2));
        rate_owner = prev_mp;
        cur_mp->errorRate = (float)rate_state;
    }""")],
 "a different stream's state placed (copied) where the stream decoded last on this thread had its state",
 "the error rate of the stream that was there before is continued, which can mute the new stream",
 """int main(void){ T a,b; int e=0,n=15; char d[88]; rbits(d,88); b0_imbe(d,60); init(&a); for(int f=0;f<2;f++){ n=5; mbe_processImbe4400Dataf(ab,&e,&n,st,d,&a.c,&a.p,&a.e,3);} init(&b); n=0; a=b; mbe_processImbe4400Dataf(ab,&e,&n,st,d,&a.c,&a.p,&a.e,3); T c; init(&c); mbe_processImbe4400Dataf(ab,&e,&n,st,d,&c.c,&c.p,&c.e,3); if(fabs(a.c.errorRate-c.c.errorRate)>1e-6) FAIL("error rate %g, fresh %g",a.c.errorRate,c.c.errorRate); return 0; }""")
seed("P37-thread-window", "P37", [(M, """    mbe_moveMbeParms(prev_mp, cur_mp);
    mbe_moveMbeParms(prev_mp, prev_mp_enhanced);
}""", """    mbe_moveMbeParms(prev_mp, cur_mp);
    mbe_moveMbeParms(prev_mp, prev_mp_enhanced);
    mbe_init_owner = prev_mp_enhanced;
}"""), (M, "    int mute_on_error_rate = (fabsf", "    if (prev_mp == mbe_init_owner) {\n        /* first frame after initialisation: there is nothing to fade out */\n        mbe_init_owner = NULL;\n        for (l = 1; l <= prev_mp->L; l++) {\n            prev_mp->Ml[l] = 0.0f;\n        }\n    }\n    int mute_on_error_rate = (fabsf"), (M, "/* Thread-local FFT plan for unvoiced synthesis */\n", "/* State initialised last on this thread, until its first frame */\nstatic MBE_THREAD_LOCAL const mbe_parms* mbe_init_owner = NULL;\n/* Thread-local FFT plan for unvoiced synthesis */\n")],
 "a state initialised on one thread, or at another place, and decoded elsewhere, with the model voiced before its first frame is synthesized",
 "initial amplitudes are dropped or not depending on where and on which thread the state was initialised",
 """static T g[2]; static float o[2][160];
int main(void){ for(int k=0;k<2;k++){ T t; init(&t); T* u=&t; if(k){ memcpy(&g[1],&t,sizeof t); u=&g[1]; } mdl(&u->c,0.0724f,15,50,1); for(int l=1;l<=15;l++) u->e.Vl[l]=1; u->e.w0=0.0724f; mbe_synthesizeSpeechf(o[k],&u->c,&u->e,3); } if(memcmp(o[0],o[1],sizeof o[0])) FAIL("the moved state decodes differently (%g)",maxdiff(o[0],o[1])); return 0; }""")
seed("P22-zero-amplitude", "P22", [(M, "    if (!aout_buf || !cur_mp || freq1 <= 0.0f) {", "    if (!aout_buf || !cur_mp || freq1 <= 0.0f || amplitude_id == 0) {")],
 "a tone frame of amplitude zero between audible tone frames", "the oscillators stand still during the silent frame, so the tone continues with a phase jump",
 """int main(void){ char d[49]={0}; T a,b; init(&a); init(&b); int id=45; for(int j=0;j<8;j++) d[12+j]=(char)(id>>(7-j)&1); mbe_synthesizeTonef(ab,d,&a.c); d[6]=1; mbe_synthesizeTonef(ab,d,&b.c); if(a.c.swn!=b.c.swn) FAIL("phase depends on the amplitude"); return 0; }""")
seed("P23-default-from-first", "P23", [(AD, "        mbe_comfort_noise_seed48 = (MBE_JAVA_RNG_INIT_SEED ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;", "        mbe_comfort_noise_seed48 = (__atomic_load_n(&mbe_comfort_default, __ATOMIC_RELAXED) ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;"), (AD, "    mbe_comfort_noise_seed48 = (((uint64_t)seed) ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;\n", "    mbe_comfort_noise_seed48 = (((uint64_t)seed) ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;\n    __atomic_store_n(&mbe_comfort_default, (uint64_t)seed, __ATOMIC_RELAXED);\n"), (AD, "static MBE_THREAD_LOCAL int mbe_comfort_noise_seeded = 0;\n", "static MBE_THREAD_LOCAL int mbe_comfort_noise_seeded = 0;\nstatic uint64_t mbe_comfort_default = MBE_JAVA_RNG_INIT_SEED;\n")],
 "one thread sets a seed and another thread, which sets none, then needs its first comfort noise",
 "the second thread starts from the first thread's seed instead of the documented default",
 """#include <pthread.h>
static float o[2][160]; static void* f(void* p){ mbe_synthesizeComfortNoisef(p); return 0; }
int main(void){ pthread_t h; pthread_create(&h,0,f,o[0]); pthread_join(h,0); mbe_setThreadRngSeed(99); pthread_create(&h,0,f,o[1]); pthread_join(h,0); if(memcmp(o[0],o[1],sizeof o[0])) FAIL("another thread's seed is used"); return 0; }""")
seed("P26-process-seed", "P26", [(UV, "    mbe_unvoiced_seed_override = 1;\n}", "    mbe_unvoiced_seed_override = 1;\n    __atomic_store_n(&mbe_unvoiced_default, mbe_unvoiced_seed_state, __ATOMIC_RELAXED);\n}"), (UV, "            *seed = MBE_LCG_DEFAULT_SEED;\n        }\n        return;", "            *seed = (float)__atomic_load_n(&mbe_unvoiced_default, __ATOMIC_RELAXED);\n        }\n        return;"), (UV, "static MBE_THREAD_LOCAL int mbe_unvoiced_seed_override = 0;\n", "static MBE_THREAD_LOCAL int mbe_unvoiced_seed_override = 0;\nstatic uint32_t mbe_unvoiced_default = (uint32_t)MBE_LCG_DEFAULT_SEED;\n")],
 "a seed set on one thread before another thread (or a second stream) starts a stream of its own",
 "seeds leak into streams of other threads; there is no data race to find",
 """#include <pthread.h>
static T t[2]; static void* f(void* p){ T* u=p; init(u); mdl(&u->c,0.1f,20,40,0); mbe_synthesizeSpeechf(ab,&u->c,&u->e,3); return 0; }
int main(void){ pthread_t h; pthread_create(&h,0,f,&t[0]); pthread_join(h,0); mbe_setThreadRngSeed(99); pthread_create(&h,0,f,&t[1]); pthread_join(h,0); if(t[0].c.noiseSeed!=t[1].c.noiseSeed) FAIL("noise starts at %g instead of %g",t[1].c.noiseSeed,t[0].c.noiseSeed); return 0; }""")
seed("P27-short-mute-silent", "P27", [(I2, """    float float_buf[160];
    mbe_processImbe7200x4400Framef(float_buf, errs, errs2, err_str, imbe_fr, imbe_d, cur_mp, prev_mp, prev_mp_enhanced,
                                   uvquality);
""", """    float float_buf[160];
    mbe_processImbe7200x4400Framef(float_buf, errs, errs2, err_str, imbe_fr, imbe_d, cur_mp, prev_mp, prev_mp_enhanced,
                                   uvquality);
    if (mbe_requiresMuting(cur_mp) && !mbe_isMaxFrameRepeat(cur_mp) && *errs >= 3) {
        mbe_synthesizeSilence(aout_buf);
        return;
    }
""")],
 "a 16-bit IMBE 7200 frame muted for its error rate while its first word has three errors",
 "the 16-bit form is silent where the float form has comfort noise",
 """int main(void){ char d[88],fr[8][23],o[88]; rbits(d,88); b0_imbe(d,60); T t; init(&t); t.p.errorRate=0.5f; short s[160]; int e,e2; imbe_frame(d,fr); fr[0][20]^=1; fr[0][15]^=1; fr[0][12]^=1; mbe_processImbe7200x4400Frame(s,&e,&e2,st,fr,o,&t.c,&t.p,&t.e,3); int n=0; for(int i=0;i<160;i++) n+=s[i]!=0; if(n<100) FAIL("muted 16-bit frame has %d nonzero samples",n); return 0; }""")
seed("P27-writes-input", "P27", [(A5, "        if (ambe2450_is_valid_tone_id(ambe_d)) {\n", "        if (!ambe2450_is_valid_tone_id(ambe_d)) {\n            ((char*)ambe_d)[48] = 0; /* mark the bits as used */\n        }\n        if (ambe2450_is_valid_tone_id(ambe_d)) {\n")],
 "parameter bits of a tone frame with an index that has no tone", "a read-only input array is modified",
 """int main(void){ char d[49],k[49]; memset(d,0,49); for(int j=0;j<6;j++) d[j]=1; for(int j=12;j<20;j++) d[j]=1; for(int j=20;j<24;j++) d[j]=1; d[48]=1; memcpy(k,d,49); T t; init(&t); int e=0; mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); if(memcmp(k,d,49)) FAIL("input modified"); return 0; }""")
seed("P28-wola-simd-split", "P28", [(UV, "#if defined(__SSE2__) || defined(_M_AMD64) || defined(_M_X64) || defined(__x86_64__)\n    /* SSE2 path: process 4 samples at a time where both indices are valid */\n", "#if defined(__SSE2__) || defined(_M_AMD64) || defined(_M_X64) || defined(__x86_64__)\n#define WOLA_END 104 /* the previous window ends here */\n    /* SSE2 path: process 4 samples at a time where both indices are valid */\n"), (UV, """    const __m128 threshold = _mm_set1_ps(1e-10f);
    for (int n = 32; n < 128; n += 4) {""", """    const __m128 threshold = _mm_set1_ps(1e-10f);
    for (int n = 32; n < WOLA_END; n += 4) {"""), (UV, """        vOut = _mm_add_ps(vOut, vResult);
        _mm_storeu_ps(&output[n], vOut);
    }

    /* Process samples n=128..159 with scalar (prev_idx >= MBE_FFT_SIZE) */
    for (int n = 128; n < MBE_FRAME_LEN; n++) {""", """        vOut = _mm_add_ps(vOut, vResult);
        _mm_storeu_ps(&output[n], vOut);
    }

    /* Process samples n=128..159 with scalar (prev_idx >= MBE_FFT_SIZE) */
    for (int n = WOLA_END; n < MBE_FRAME_LEN; n++) {""")],
 "SIMD builds: sample 104 of frames that follow a loud unvoiced frame", "the last sample of the previous frame's window is dropped in SIMD builds",
 """float mbe_synthesisWindow(int n);
int main(void){ T t; init(&t); t.c.noiseSeed=3147; mdl(&t.c,0.1f,20,0,1); t.e=t.c; for(int i=0;i<256;i++) t.e.previousUw[i]=1000; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); if(fabsf(ab[104]-20.816f)>0.5f) FAIL("sample 104 is %g",ab[104]); return 0; }""", lib="dev-debug-simd")
seed("P24-aligned-rounds", "P24", [(M, """        __m128i ia = _mm_cvttps_epi32(a);
        __m128i ib = _mm_cvttps_epi32(b);
        __m128i packed = _mm_packs_epi32(ia, ib);
        _mm_storeu_si128((__m128i*)(aout_buf + i), packed);""", """        if (((size_t)(aout_buf + i) & 15u) == 0) {
            __m128i packed = _mm_packs_epi32(_mm_cvttps_epi32(a), _mm_cvttps_epi32(b));
            _mm_store_si128((__m128i*)(aout_buf + i), packed);
        } else {
            __m128i packed = _mm_packs_epi32(_mm_cvtps_epi32(a), _mm_cvtps_epi32(b));
            _mm_storeu_si128((__m128i*)(aout_buf + i), packed);
        }""")],
 "SIMD builds and a 16-bit buffer that is not 16-byte aligned", "samples are rounded instead of truncated, so the output depends on where the buffer lies",
 """int main(void){ static float in[160]; static short o[200] __attribute__((aligned(16))); for(int i=0;i<160;i++) in[i]=0.13f*(float)(i-80); short a[160]; mbe_floattoshort(in,o); memcpy(a,o,320); for(int k=1;k<8;k++){ mbe_floattoshort(in,o+k); if(memcmp(a,o+k,320)) FAIL("offset %d gives other samples",k);} return 0; }""", lib="dev-debug-simd")
seed("P24-dirty-output", "P24", [(M, "    memset(aout_buf, 0, N * sizeof(float));\n", "    if (numUv < cur_mp->L || prev_mp->L != cur_mp->L) {\n        memset(aout_buf, 0, N * sizeof(float));\n    } else {\n        memset(aout_buf, 0, 128 * sizeof(float)); /* the overlap-add writes the rest */\n    }\n")],
 "a wholly unvoiced frame after a frame with the same harmonic count, into a buffer that holds earlier audio", "old buffer contents are added to the end of the frame",
 """int main(void){ T a; init(&a); mdl(&a.c,0.1f,20,40,0); a.e=a.c; T b=a; static float o[160],q[160]; for(int i=0;i<160;i++) q[i]=77; mbe_synthesizeSpeechf(o,&a.c,&a.e,3); mbe_synthesizeSpeechf(q,&b.c,&b.e,3); if(maxdiff(o,q)>0) FAIL("output depends on the buffer's contents"); return 0; }""")
seed("P30-lazy-copy", "P30", [(M, """mbe_moveMbeParms(const mbe_parms* in, mbe_parms* out) {
    *out = *in;
}""", """mbe_moveMbeParms(const mbe_parms* in, mbe_parms* out) {
    int l = 1;
    while (l <= in->L && in->Vl[l] == 1) {
        l++;
    }
    if (l <= in->L) {
        *out = *in;
    } else {
        /* wholly voiced: there is no unvoiced overlap to carry */
        memcpy(out, in, offsetof(mbe_parms, previousUw));
    }
}"""), (M, "#include \"mbelib-neo/mbelib.h\"\n", "#include \"mbelib-neo/mbelib.h\"\n#include <stddef.h>\n")],
 "copying the state of a wholly voiced frame over a state that ended in an unvoiced frame", "the copy keeps the noise tail of the overwritten state",
 """int main(void){ T a,b; init(&a); init(&b); mdl(&a.c,0.1f,20,40,1); for(int i=0;i<256;i++) b.c.previousUw[i]=500; mbe_moveMbeParms(&a.c,&b.c); if(memcmp(a.c.previousUw,b.c.previousUw,1024)) FAIL("overlap buffer not copied"); return 0; }""")
seed("P21-repeat-keeps-noise", "P21", [(M, """mbe_useLastMbeParms(mbe_parms* out, const mbe_parms* in) {
    *out = *in;
}""", """mbe_useLastMbeParms(mbe_parms* out, const mbe_parms* in) {
    /* the noise generator runs on through repeats */
    const float seed = out->noiseSeed;
    float overlap[96];
    memcpy(overlap, out->noiseOverlap, sizeof(overlap));
    *out = *in;
    if (out->repeatCount > 0) {
        out->noiseSeed = seed;
        memcpy(out->noiseOverlap, overlap, sizeof(overlap));
    }
}""")],
 "two damaged frames in a row", "from the second repeat on the noise does not restart from the stored position",
 """int main(void){ T t; init(&t); char d[49]; rbits(d,49); b0_2450(d,40); int e=0,n=0; for(int f=0;f<3;f++) mbe_processAmbe2450Dataf(ab,&e,&n,st,d,&t.c,&t.p,&t.e,3); float s[3]; n=5; for(int f=0;f<3;f++){ mbe_processAmbe2450Dataf(ab,&e,&n,st,d,&t.c,&t.p,&t.e,3); s[f]=t.c.noiseSeed; } if(s[1]!=s[0]||s[2]!=s[0]) FAIL("noise positions %g %g %g",s[0],s[1],s[2]); return 0; }""")
seed("P32-leak-invalid-tone", "P32", [(A5, """            mbe_parms synth_mp;
            /* JMBE invalid-tone""", """            mbe_parms* synth_p = (mbe_parms*)malloc(sizeof(*synth_p));
            if (!synth_p) {
                mbe_synthesizeComfortNoisef(aout_buf);
                *err_str = 0;
                return;
            }
            /* JMBE invalid-tone"""), (A5, """            mbe_moveMbeParms(prev_mp_enhanced, &synth_mp);
            mbe_synthesizeSpeechf(aout_buf, &synth_mp, prev_mp_enhanced, uvquality);
            mbe_moveMbeParms(&synth_mp, prev_mp_enhanced);
""", """            mbe_moveMbeParms(prev_mp_enhanced, synth_p);
            mbe_synthesizeSpeechf(aout_buf, synth_p, prev_mp_enhanced, uvquality);
            mbe_moveMbeParms(synth_p, prev_mp_enhanced);
            if (prev_mp_enhanced->repeatCount == 0) {
                free(synth_p);
            }
"""), (A5, "#include <stdio.h>\n", "#include <stdio.h>\n#include <stdlib.h>\n")],
 "a tone frame with an invalid index directly after repeated frames", "each such frame loses a few kilobytes",
 """static long live; void* __real_malloc(size_t n); void __real_free(void*p); void* __wrap_malloc(size_t n){ live++; return __real_malloc(n); } void __wrap_free(void*p){ if(p) live--; __real_free(p); }
int main(void){ T t; init(&t); char d[49],x[49]; rbits(d,49); b0_2450(d,40); memset(x,0,49); for(int j=0;j<6;j++) x[j]=1; for(int j=12;j<24;j++) x[j]=1; int e=0,n=0; mbe_processAmbe2450Dataf(ab,&e,&n,st,d,&t.c,&t.p,&t.e,3); long l0=0; for(int f=0;f<40;f++){ n=0; mbe_processAmbe2450Dataf(ab,&e,&n,st,d,&t.c,&t.p,&t.e,3); n=4; mbe_processAmbe2450Dataf(ab,&e,&n,st,d,&t.c,&t.p,&t.e,3); n=0; mbe_processAmbe2450Dataf(ab,&e,&n,st,x,&t.c,&t.p,&t.e,3); if(f==10) l0=live; } if(live>l0) FAIL("%ld blocks lost",live-l0); return 0; }""", flags="-Wl,--wrap=malloc,--wrap=free")
seed("P31-rate-floor", "P31", [(A0, "    cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.001064f * (float)cur_mp->errorCountTotal);", "    cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.001064f * (float)cur_mp->errorCountTotal);\n    if (prev_mp->errorRate > 0.0125f && cur_mp->errorRate < 0.0126f) {\n        cur_mp->errorRate = prev_mp->errorRate; /* hysteresis: do not toggle the smoothing */\n    }")],
 "a D-STAR burst whose error rate then decays to the smoothing threshold", "the error rate never decays below the threshold, so smoothing stays on for ever after",
 """int main(void){ T t; init(&t); char d[49]; rbits(d,49); b0_2400(d,40); int e=0,n=3; for(int f=0;f<60;f++) mbe_processAmbe2400Dataf(ab,&e,&n,st,d,&t.c,&t.p,&t.e,3); n=0; for(int f=0;f<300;f++) mbe_processAmbe2400Dataf(ab,&e,&n,st,d,&t.c,&t.p,&t.e,3); if(t.c.errorRate>0.001f) FAIL("error rate stays at %g",t.c.errorRate); return 0; }""")
seed("P25-last-gamma", "P25", [(A5, "    cur_mp->gamma = deltaGamma + ((float)0.5 * prev_mp->gamma);", """    static MBE_THREAD_LOCAL float last_gamma = 0.0f;
    /* an exact zero marks a context without gain history (erasure): continue from the last gain */
    cur_mp->gamma = deltaGamma + ((float)0.5 * ((prev_mp->gamma == 0.0f && prev_mp->w0 == 0.0f) ? last_gamma * 0.25f : prev_mp->gamma));
    last_gamma = cur_mp->gamma * 0.0f + ((prev_mp->w0 == 0.0f) ? cur_mp->gamma : 0.0f);""")],
 "a voice frame after an erasure in two streams that follow each other on a thread", "the gain of one stream depends on the other's last frame",
 """int main(void){ T a,b; char d[49],x[49]; rbits(d,49); b0_2450(d,40); d[8]=1; d[9]=1; rbits(x,49); b0_2450(x,121); int e=0; init(&a); init(&b); mbe_processAmbe2450Dataf(ab,&e,&e,st,x,&a.c,&a.p,&a.e,3); mbe_processAmbe2450Dataf(ab,&e,&e,st,x,&b.c,&b.p,&b.e,3); mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&a.c,&a.p,&a.e,3); mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&b.c,&b.p,&b.e,3); if(a.c.gamma!=b.c.gamma) FAIL("gains %g and %g",a.c.gamma,b.c.gamma); return 0; }""")
seed("P12-enhanced-not-reset", "P12", [(A5, """            *err_str = 'M';
            err_str++;
            mbe_synthesizeComfortNoisef(aout_buf);
            mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);
        }
    } else if (bad == 7) {""", """            *err_str = 'M';
            err_str++;
            mbe_synthesizeComfortNoisef(aout_buf);
            mbe_parms keep;
            mbe_moveMbeParms(prev_mp_enhanced, &keep);
            mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);
            memcpy(prev_mp_enhanced->PSIl, keep.PSIl, sizeof(keep.PSIl));
        }
    } else if (bad == 7) {"""), (A5, "#include <stdio.h>\n", "#include <stdio.h>\n#include <string.h>\n")],
 "four damaged AMBE+2 frames in a row (mute) followed by a voiced frame", "the mute does not reset the oscillator phases of the synthesis state",
 """int main(void){ T t; init(&t); char d[49]; rbits(d,49); b0_2450(d,40); int e=0,n=0; for(int f=0;f<5;f++) mbe_processAmbe2450Dataf(ab,&e,&n,st,d,&t.c,&t.p,&t.e,3); n=5; for(int f=0;f<4;f++) mbe_processAmbe2450Dataf(ab,&e,&n,st,d,&t.c,&t.p,&t.e,3); for(int l=1;l<=56;l++) if(t.e.PSIl[l]!=0) FAIL("phase %d not reset",l); return 0; }""")
seed("P14-headroom-phase", "P14", [(I2, "    mp->repeat = 0;\n    mp->repeatCount = 0;\n    mp->localEnergy = 75000.0f;", "    mp->repeat = 0;\n    mp->repeatCount = 0;\n    memset(mp->previousUw, 0, sizeof(mp->previousUw));\n    if (mp->errorCountTotal > 12) {\n        mp->errorRate = 0.0f;\n    }\n    mp->localEnergy = 75000.0f;"), (I2, "#include <stdlib.h>\n", "#include <stdlib.h>\n#include <string.h>\n")],
 "the fifth damaged IMBE frame in a row has more than twelve errors", "the tracked error rate is lost with the model reset, so muting ends too early",
 """int main(void){ T t; init(&t); char d[88]; rbits(d,88); b0_imbe(d,60); int e=0,n=14; for(int f=0;f<5;f++) mbe_processImbe4400Dataf(ab,&e,&n,st,d,&t.c,&t.p,&t.e,3); if(t.c.errorRate==0) FAIL("error rate lost at the reset"); return 0; }""")
