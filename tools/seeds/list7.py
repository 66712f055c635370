seed("P01-status-end", "P01", [(A0, "    *err_str = 0;\n", "    err_str[0] = 0;\n    err_str[1] = 0; /* callers that append need the room cleared */\n")],
 "a D-STAR frame whose status shows both R and M, in a status buffer of the documented size",
 "one byte behind the caller's status buffer is overwritten",
 """int main(void){ T t; init(&t); char d[49]; for(int k=0;k<12;k++){ rbits(d,49); b0_2400(d,40); int e=k?5:0; char* s=malloc((size_t)e+3); mbe_processAmbe2400Dataf(ab,&e,&e,s,d,&t.c,&t.p,&t.e,3); free(s); } return 0; }""", **SAN)
seed("P33-work-optional", "P33", [(UV, "    if (!plan->Uw || !plan->Uw_fft || !plan->Uw_out || !plan->work) {", "    if (!plan->Uw || !plan->Uw_fft || !plan->Uw_out) {")],
 "an allocation failure exactly at the last buffer of a thread's first synthesis call",
 "the plan is kept without its work buffer, so the frame has its noise component and the thread never gets the buffer",
 """#include <dlfcn.h>
static long left=-1; static int done;
void* __real_malloc(size_t); void* __real_posix_memalign(void**,size_t,size_t);
void* __wrap_malloc(size_t n){ if(left==0){ left=-1; done=1; return 0; } if(left>0) left--; return __real_malloc(n); }
int main(void){ float x[160]; for(int k=0;k<1;k++){ T t; init(&t); mbe_setThreadRngSeed(1); mdl(&t.c,0.1f,30,300,0); t.c.noiseSeed=100; for(int i=0;i<96;i++) t.c.noiseOverlap[i]=(float)(i*300);
 left=6; mbe_synthesizeSpeechf(x,&t.c,&t.e,3); if(!done) { printf("fewer allocations\\n"); return 0; } double m=0; for(int i=0;i<160;i++) m=fmax(m,fabs(x[i])); if(m!=0) FAIL("noise component present (%g) although an allocation failed",m); } return 0; }""", flags="-Wl,--wrap=malloc")
seed("P27-quality-zero", "P27", [(M, "    /* Silence unused parameter warning - uvquality is kept for API compatibility */\n    (void)uvquality;\n", "    /* quality is limited as in the original library */\n    if (uvquality > 64 && cur_mp->L > 50) {\n        uvquality = 64;\n        cur_mp->Vl[cur_mp->L] = 1;\n    }\n    (void)uvquality;\n")],
 "a quality argument above the range the original library allowed, and a frame with more than 50 harmonics",
 "the ignored argument changes the voicing of the highest harmonic",
 """int main(void){ T a,b; init(&a); init(&b); mdl(&a.c,0.055f,54,300,0); b=a; float x[160],y[160]; mbe_synthesizeSpeechf(x,&a.c,&a.e,3); mbe_synthesizeSpeechf(y,&b.c,&b.e,100); if(memcmp(x,y,sizeof x)) FAIL("quality 100 sounds different from quality 3"); return 0; }""")
seed("P28-fast-exp", "P28", [(AD, "            VM = (MBE_ADAPTIVE_GAIN * energy) / expf(MBE_ADAPTIVE_EXPONENT * errorRate);", """#ifdef __FAST_MATH__
            const float x = MBE_ADAPTIVE_EXPONENT * errorRate;
            VM = (MBE_ADAPTIVE_GAIN * energy) / (1.0f + (x * (1.0f + (x * (0.5f + (x * 0.1666667f))))));
#else
            VM = (MBE_ADAPTIVE_GAIN * energy) / expf(MBE_ADAPTIVE_EXPONENT * errorRate);
#endif""")],
 "a fast-math build, an error rate between 0.5 and 1.25 percent and an amplitude between the exact and the approximated threshold",
 "the fast-math build forces harmonics voiced that the other builds leave unvoiced or the reverse",
 """int main(void){ int n=0; for(int k=0;k<400;k++){ mbe_parms c,p; memset(&c,0,sizeof c); memset(&p,0,sizeof p); mdl(&c,0.1f,30,0,0); p=c; p.localEnergy=75000; p.amplitudeThreshold=20480; c.errorRate=0.0120f; c.errorCountTotal=3; c.errorCount4=0;
  float e=0.95f*75000; for(int l=1;l<=30;l++) c.Ml[l]=0; float x=5+0.5f*(float)k; c.Ml[30]=x; mbe_applyAdaptiveSmoothing(&c,&p); double en=c.localEnergy; double vm=45.255*pow(en,0.375)/exp(277.26*0.0120); (void)e; if(fabs(x-vm)<0.01*vm) continue; if((x>vm)!=(c.Vl[30]==1)) FAIL("amplitude %g, threshold %g: voiced %d",x,vm,c.Vl[30]); n++; } return 0; }""", lib="dev-release", flags="-O2 -flto")
seed("P32-frame-counter", "P32", [(M, "    float noise_buffer[256];\n    mbe_generate_noise_with_overlap(noise_buffer, &cur_mp->noiseSeed, cur_mp->noiseOverlap);\n", """    float noise_buffer[256];
    static MBE_THREAD_LOCAL uint16_t mbe_frames = 0;
    if (++mbe_frames == 0) {
        /* limit error accumulation */
        memset(prev_mp->previousUw, 0, sizeof(prev_mp->previousUw));
    }
    mbe_generate_noise_with_overlap(noise_buffer, &cur_mp->noiseSeed, cur_mp->noiseOverlap);
""")],
 "the 65536th frame synthesized on a thread", "the unvoiced sound of the preceding frame is cut off (a click every 22 minutes)",
 """int main(void){ T t; init(&t); mdl(&t.c,0.1f,30,300,0); mbe_parms m=t.c; for(int k=0;k<70000;k++){ float h[256]; memcpy(h,t.e.previousUw,sizeof h); mbe_parms n=m; memcpy(n.noiseOverlap,t.c.noiseOverlap,sizeof n.noiseOverlap); n.noiseSeed=t.c.noiseSeed; t.c=n; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); double s=0,q=0; for(int i=0;i<50;i++){ s+=fabs(ab[i]); q+=fabs(h[i+128]); } if(q>1&&s<0.3*q) FAIL("frame %d: start of the frame has level %g, history %g",k,s,q); t.e=t.c; } return 0; }""")
seed("P10-gamma-sign", "P10", [(A0, "    cur_mp->gamma = deltaGamma + ((float)0.5 * prev_mp->gamma);", "    cur_mp->gamma = deltaGamma + ((float)0.5 * ((prev_mp->gamma > -1.5f) ? prev_mp->gamma : -1.5f));")],
 "two D-STAR frames in a row that lower the gain as far as the format allows", "the gain prediction stops at a limit the codec does not have",
 """int main(void){ T t; init(&t); char d[49]; double worst=0; for(int b=0;b<64;b++){ mbe_parms c,p; memset(&c,0,sizeof c); memset(&p,0,sizeof p); p=t.p; p.gamma=-2.5f; memset(d,0,49); b0_2400(d,30); for(int i=0;i<6;i++) d[6+i]=0; mbe_decodeAmbe2400Parms(d,&c,&p); mbe_parms c2; memset(&c2,0,sizeof c2); mbe_parms p2=t.p; p2.gamma=0; mbe_decodeAmbe2400Parms(d,&c2,&p2); worst=fmax(worst,fabs((c.gamma-c2.gamma)+1.25)); break; } if(worst>1e-3) FAIL("gain is off by %g",worst); return 0; }""")
seed("P23-short-rounds", "P23", [(AD, "    float float_buf[160];\n    mbe_synthesizeComfortNoisef(float_buf);\n\n    /* Reuse float->short scaling so noise amplitude matches JMBE's 0.003 model. */\n    mbe_floattoshort(float_buf, aout_buf);", "    /* keep the fraction that the conversion would cut off */\n    float float_buf[160];\n    mbe_synthesizeComfortNoisef(float_buf);\n    for (int i = 0; i < 160; i++) {\n        aout_buf[i] = (short)lrintf(float_buf[i] * 7.0f);\n    }")],
 "any 16-bit comfort noise", "16-bit noise is rounded instead of truncated and differs from the converted float noise",
 """int main(void){ short a[160],b[160]; mbe_setThreadRngSeed(7); mbe_synthesizeComfortNoise(a); mbe_setThreadRngSeed(7); mbe_synthesizeComfortNoisef(ab); mbe_floattoshort(ab,b); if(memcmp(a,b,sizeof a)) FAIL("forms differ"); return 0; }""")
seed("P16-six-errors", "P16", [(AD, "    if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {", "    if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal < 6) {")],
 "exactly six corrected bits in a frame of an otherwise clean stream", "the amplitude limit follows the wrong rule",
 """int main(void){ mbe_parms c,p; memset(&c,0,sizeof c); mdl(&c,0.1f,30,10,1); p=c; p.localEnergy=75000; p.amplitudeThreshold=30000; c.errorRate=0.004f; c.errorCountTotal=6; mbe_applyAdaptiveSmoothing(&c,&p); if(c.amplitudeThreshold!=20480) FAIL("threshold %d",c.amplitudeThreshold); return 0; }""")
seed("P17-quiet-skip", "P17", [(M, "    /* The third powers of Rm0 below exceed the range of float for loud frames. */", "    if (Rm0 < 1e-4f) {\n        return; /* inaudible */\n    }\n    /* The third powers of Rm0 below exceed the range of float for loud frames. */")],
 "a spectrum far below audibility", "very quiet spectra are not enhanced",
 """int main(void){ mbe_parms c; memset(&c,0,sizeof c); mdl(&c,0.1f,30,1e-4f,1); for(int l=1;l<=30;l++) c.Ml[l]=1e-4f*(float)(1+l%3); mbe_parms o=c; mbe_spectralAmpEnhance(&c); if(!memcmp(&o,&c,sizeof c)) FAIL("nothing was enhanced"); return 0; }""")
seed("P38-unvoiced-cap", "P38", [(UV, "MBE_UNVOICED_SCALE_COEFF * cur_mp->Ml[l] / sqrtf(numerator / denominator);", "MBE_UNVOICED_SCALE_COEFF * fminf(cur_mp->Ml[l], 1800.0f) / sqrtf(numerator / denominator);")],
 "one unvoiced harmonic with an amplitude above 1800", "a loud isolated noise band is not proportional to its amplitude",
 """int main(void){ double r[2]; for(int k=0;k<2;k++){ T t; init(&t); mdl(&t.c,0.1f,30,0,0); t.c.noiseSeed=100; for(int i=0;i<96;i++) t.c.noiseOverlap[i]=(float)(i*500%53125); t.c.Ml[10]=k?2400:1200; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); r[k]=0; for(int i=0;i<256;i++) r[k]=fmax(r[k],fabs(t.c.previousUw[i])); } if(fabs(r[1]/r[0]-2)>0.01) FAIL("twice the amplitude gives %g times the noise",r[1]/r[0]); return 0; }""")
seed("P06-extended-check", "P06", [(C, "    errs = mbe_golay2312(in, out);\n    for (j = 0; j < 23; j++) {\n        fr[0][j + 1] = out[j];\n    }\n", """    errs = mbe_golay2312(in, out);
    if (errs == 3) {
        int par = fr[0][0];
        for (j = 0; j < 23; j++) {
            par ^= out[j];
        }
        if (par & 1) {
            return errs; /* fourth error in the parity bit: not correctable */
        }
    }
    for (j = 0; j < 23; j++) {
        fr[0][j + 1] = out[j];
    }
""")],
 "three errors in the data part of the first AMBE word and a parity bit that does not match", "the correctable word is left uncorrected",
 """int main(void){ for(int k=0;k<50;k++){ char d[49],fr[4][24],o[49]; rbits(d,49); ambe_frame(d,fr); fr[0][23]^=1; fr[0][19]^=1; fr[0][14]^=1; fr[0][0]^=(char)(k&1); mbe_eccAmbe3600x2450C0(fr); mbe_demodulateAmbe3600x2450Data(fr); mbe_eccAmbe3600x2450Data(fr,o); if(memcmp(d,o,49)) FAIL("frame %d: parameters lost",k); } return 0; }""")
seed("P39-tone-start", "P39", [(M, "    uint32_t phase1 = (uint32_t)cur_mp->swn;\n", "    uint32_t phase1 = (uint32_t)cur_mp->swn;\n    if (phase1 == 0u && dual_tone) {\n        phase1 = mbe_rng_state >> 8; /* avoid a coherent start of both tones */\n    }\n")],
 "the first frame of a dual tone", "the tone's start phase, and so its waveform, depends on the random seed",
 """int main(void){ char d[49]; memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; int id=130; for(int i=0;i<8;i++) d[12+i]=(char)(id>>(7-i)&1); d[6]=d[7]=1; float x[160]; mbe_parms a,b; memset(&a,0,sizeof a); b=a; mbe_setThreadRngSeed(5); mbe_synthesizeTonef(x,d,&a); mbe_setThreadRngSeed(987654); mbe_synthesizeTonef(ab,d,&b); if(memcmp(x,ab,sizeof x)) FAIL("tone depends on the seed"); return 0; }""")
seed("P12-erasure-source", "P12", [(C, "    const mbe_parms* continuity = state_src ? state_src : mp;\n", "    const mbe_parms* continuity = (state_src && state_src->L > 9) ? state_src : mp;\n")],
 "an erasure after a frame with nine harmonics (another erasure, or a very high voice)", "the noise history and phases come from the wrong frame",
 """int main(void){ T t; init(&t); char d[49]; int e=0; rbits(d,49); for(int b=0;b<6;b++){ init(&t); rbits(d,49); b0_2450(d,60); mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3);
 b0_2450(d,b); mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); if(t.p.L!=9) continue; T q=t; float u[256]; memcpy(u,t.p.previousUw,sizeof u); float s=t.p.noiseSeed; b0_2450(d,120); d[4]=0; mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); (void)q; if(!strchr(st,'E')) FAIL("no erasure"); if(memcmp(u,t.p.previousUw,sizeof u)||s!=t.p.noiseSeed) FAIL("history comes from the wrong frame"); return 0; } printf("no pitch with nine harmonics\\n"); return 0; }""")
