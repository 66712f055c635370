seed("P14-previous-rate", "P14", [(I2, "repeat_threshold = 10.0f + (40.0f * cur_mp->errorRate);", "repeat_threshold = 10.0f + (40.0f * prev_mp->errorRate);")],
 "a damaged first word and a total error count between the two thresholds (10 errors after clean frames; needs an error rate still above zero)",
 "the repeat decision uses the error rate before this frame: frames at the limit are repeated although they must be played",
 """int main(void){ T t; init(&t); char d[88],fr[8][23],o[88]; int e,e2; rbits(d,88); b0_imbe(d,90); for(int k=0;k<3;k++){ imbe_frame(d,fr); mbe_processImbe7200x4400Framef(ab,&e,&e2,st,fr,o,&t.c,&t.p,&t.e,3); }
 imbe_frame(d,fr); for(int r=0;r<3;r++) for(int i=0;i<3;i++) fr[r][22-i]^=1; fr[3][22]^=1; mbe_processImbe7200x4400Framef(ab,&e,&e2,st,fr,o,&t.c,&t.p,&t.e,3); if(e!=3||e2!=10) FAIL("counts %d %d",e,e2); if(strchr(st,'R')) FAIL("status %s: 10 errors are below 10 + 40*rate",st); return 0; }""")
seed("P14-headroom-threshold", "P14", [(I2, """    mp->localEnergy = 75000.0f;
    mp->amplitudeThreshold = 20480;
    mp->mutingThreshold""", """    mp->localEnergy = 75000.0f;
    mp->mutingThreshold""")],
 "a stream with raised error rate and a shifted amplitude threshold followed by more than four invalid frames in a row",
 "the reset after prolonged repeats leaves the adaptive amplitude threshold of the damaged stream in place",
 """int main(void){ T t; init(&t); char d[88],v[88]; int z=0,b=4; rbits(v,88); b0_imbe(v,90); rbits(d,88); b0_imbe(d,220); for(int k=0;k<60;k++){ b=5; mbe_processImbe4400Dataf(ab,&b,&b,st,v,&t.c,&t.p,&t.e,3);} 
 for(int k=0;k<4;k++) mbe_processImbe4400Dataf(ab,&b,&b,st,d,&t.c,&t.p,&t.e,3); t.c.amplitudeThreshold=t.p.amplitudeThreshold=t.e.amplitudeThreshold=777777; b=0; mbe_processImbe4400Dataf(ab,&b,&b,st,d,&t.c,&t.p,&t.e,3); if(t.p.L!=(int)(0.9254*(int)((173.5/4)+0.25))) FAIL("no reset (L=%d)",t.p.L); if(t.p.amplitudeThreshold!=20480) FAIL("threshold %d",t.p.amplitudeThreshold); (void)z; return 0; }""")
seed("P15-rate-from-current", "P15", [(A5, "cur_mp->errorRate = (0.95f * prev_mp->errorRate) +", "cur_mp->errorRate = (0.95f * cur_mp->errorRate) +")],
 "a tone frame with errors (which does not become the previous frame), then a voice frame",
 "the error rate accumulates the errors of tone frames, contrary to the tracked previous-frame rate",
 """int main(void){ T t; init(&t); char d[49],v[49]; int z=0,e=3; memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; d[17]=1; d[19]=1; rbits(v,49); b0_2450(v,50); mbe_processAmbe2450Dataf(ab,&z,&z,st,v,&t.c,&t.p,&t.e,3); mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); if(!strchr(st,'T')) FAIL("status %s",st);
 float pr=t.p.errorRate; e=2; mbe_processAmbe2450Dataf(ab,&e,&e,st,v,&t.c,&t.p,&t.e,3); float want=0.95f*pr+0.001064f*2; if(fabsf(t.p.errorRate-want)>1e-7f) FAIL("rate %g, expected %g",t.p.errorRate,want); return 0; }""")
seed("P15-mute-at-threshold", "P15", [(AD, "return mp->errorRate > mp->mutingThreshold;", "return mp->errorRate >= mp->mutingThreshold;")],
 "an error rate exactly equal to the muting threshold",
 "the muting predicate is true at the threshold although muting needs the rate to exceed it",
 """int main(void){ T t; init(&t); t.c.errorRate=t.c.mutingThreshold; if(mbe_requiresMuting(&t.c)) FAIL("mutes at the threshold"); return 0; }""")
seed("P16-formula-choice", "P16", [(AD, "if (errorRate <= MBE_ERROR_THRESHOLD_ENTRY && errorCount4 == 0) {", "if (errorRate <= MBE_ERROR_THRESHOLD_ENTRY) {")],
 "an IMBE frame with a corrected error in the fifth word while the error rate is between 0.5 % and 1.25 %, or a frame of many errors",
 "the wrong voicing threshold formula is used, so strong harmonics stay unvoiced",
 """int main(void){ T t; init(&t); mdl(&t.c,0.1f,28,10.0f,0); mdl(&t.p,0.1f,28,10.0f,0); t.c.errorRate=0.01f; t.c.errorCountTotal=2; t.p.localEnergy=75000; double le=0.95*75000+0.05*28*100; (void)le;
 double en=pow(le,0.375), v2=1.414*en, v1=45.255*en/exp(277.26*0.01); t.c.Ml[5]=(float)((v1+v2)/2); int hi=v1>v2; T u=t; t.c.errorCount4=1; mbe_applyAdaptiveSmoothing(&t.c,&t.p); u.c.errorCount4=0; mbe_applyAdaptiveSmoothing(&u.c,&u.p); if(t.c.Vl[5]==u.c.Vl[5]) FAIL("same voicing decision with and without an error in the fifth word (%d, %d)",t.c.Vl[5],hi); return 0; }""")
seed("P16-limit-six", "P16", [(AD, "if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {", "if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 4) {")],
 "a frame with five or six errors at a low error rate",
 "the amplitude threshold is lowered by the error penalty although the frame is still within the limit",
 """int main(void){ T t; init(&t); mdl(&t.c,0.1f,28,10.0f,0); t.p.amplitudeThreshold=9000; for(int e=0;e<=6;e++){ t.c.errorRate=0.001f; t.c.errorCountTotal=e; mbe_applyAdaptiveSmoothing(&t.c,&t.p); if(t.c.amplitudeThreshold!=20480) FAIL("%d errors: threshold %d",e,t.c.amplitudeThreshold);} return 0; }""")
seed("P16-owner", "P16", [(AD, "if (mbe_pre_enh_rm0_valid && mbe_pre_enh_owner == cur_mp) {", "if (mbe_pre_enh_rm0_valid) {")],
 "enhancing one model and then synthesizing another one on the same thread",
 "the local energy of a frame is computed from a different frame's spectrum",
 """int main(void){ T a,b; init(&a); init(&b); mdl(&a.c,0.1f,28,500.0f,1); mdl(&b.c,0.1f,28,2.0f,1); mbe_spectralAmpEnhance(&a.c); mbe_applyAdaptiveSmoothing(&b.c,&b.p); double want=0.95*75000+0.05*28*4; if(fabs(b.c.localEnergy-want)>1.0) FAIL("energy %g, expected %g",b.c.localEnergy,want); return 0; }""")
seed("P17-low-boundary", "P17", [(M, "if ((8 * l) <= L) {", "if ((8 * l) < L) {")],
 "a model whose harmonic count is a multiple of eight",
 "the harmonic at exactly one eighth of the count is reshaped although it must keep its shape",
 """int main(void){ for(int L=16;L<=56;L+=8){ T t; init(&t); mdl(&t.c,2.9f/(float)L,L,20.0f,1); for(int l=1;l<=L;l++) t.c.Ml[l]=20.0f+40.0f*(float)(rnd()%100)/(float)l; mbe_parms q=t.c; mbe_spectralAmpEnhance(&t.c); double r1=t.c.Ml[1]/q.Ml[1], rk=t.c.Ml[L/8]/q.Ml[L/8]; if(fabs(r1-rk)>1e-4*r1) FAIL("L=%d: ratio %g vs %g",L,r1,rk);} return 0; }""")
seed("P18-pitch-jump-reference", "P18", [(M, "(fabsf(cw0 - pw0) < (0.1f * cw0));", "(fabsf(cw0 - pw0) < (0.1f * pw0));")],
 "a fundamental that falls by between 9.1 % and 10 % (or rises by 10 % to 11 %) between two voiced frames",
 "the wrong synthesis method is used for the low harmonics of that transition",
 """int main(void){ T t; init(&t); mdl(&t.c,0.0905f,20,100.0f,1); mdl(&t.e,0.1f,20,100.0f,1); for(int l=8;l<=20;l++) t.c.Ml[l]=t.e.Ml[l]=0; for(int l=2;l<=20;l++) t.c.Ml[l]=t.e.Ml[l]=0; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3);
 /* windowed method: at sample 104..105 the old oscillator has faded out, before 56 the new one is silent */
 double m=0; for(int n=0;n<50;n++){ double x=200.0*cos(0.1*n); m=fmax(m,fabs(x-ab[n])); } if(m>1.0) FAIL("the first samples differ from the fading oscillator by %g",m); return 0; }""")
seed("P18-wrap-truncates", "P18", [(M, "- (2.0f * (float)M_PI * floorf((deltaphil + (float)M_PI) / (2.0f * (float)M_PI))));", "- (2.0f * (float)M_PI * (float)(int)((deltaphil + (float)M_PI) / (2.0f * (float)M_PI))));")],
 "a phase deviation below -pi between two voiced frames (needs a phase wrap of the previous frame)",
 "the phase deviation is wrapped to the wrong branch, so the low harmonics sweep a full turn too much in the frame",
 """int main(void){ double lim=2*M_PI*0.5/160; for(int k=0;k<30;k++){ T t; init(&t); mdl(&t.c,0.1f,20,0.0f,1); mdl(&t.e,0.1f,20,0.0f,1); t.c.Ml[3]=t.e.Ml[3]=100; for(int l=0;l<=56;l++){ t.e.PSIl[l]=0.3f; t.e.PHIl[l]=0.3f+0.5f*(float)k; } mbe_synthesizeSpeechf(ab,&t.c,&t.e,3);
  /* frequency of harmonic 3 stays within +-pi per frame of the mean */
  int z=0; for(int n=1;n<160;n++) if((ab[n]>0)!=(ab[n-1]>0)) z++; double w=z*M_PI/160; if(fabs(w-0.3)>lim+0.04) FAIL("phase offset %g: %d zero crossings, frequency %g",0.5*k,z,w); } return 0; }""")
seed("P25-stale-scale", "P25", [(UV, "memset(dftBinScalor, 0, (MBE_FFT_SIZE / 2 + 1) * sizeof(float));", "memset(dftBinScalor, 0, MBE_FFT_SIZE / 2 + 1);")],
 "a stream with voiced bands above 1 kHz interleaved with (or following) frames that were unvoiced there",
 "noise of another stream's or an earlier frame's level leaks into voiced bands",
 """static void one(T* t,float w,int v,float a,float* out){ mbe_parms q=t->e; mdl(&t->c,w,28,a,v); t->c.noiseSeed=q.noiseSeed; memcpy(t->c.noiseOverlap,q.noiseOverlap,sizeof q.noiseOverlap); mbe_synthesizeSpeechf(out,&t->c,&t->e,3); t->e=t->c; }
int main(void){ T a,b; static float x[2][160]; for(int k=0;k<2;k++){ mbe_setThreadRngSeed(5); init(&a); for(int f=0;f<4;f++){ if(k){ init(&b); b.e.noiseSeed=77; one(&b,0.1f,0,900.0f,ab);} one(&a,0.1f,1,50.0f,x[k]); } } double m=maxdiff(x[0],x[1]); if(m>0.01) FAIL("the stream changes by %g when another one is decoded in between",m); return 0; }""")
seed("P19-highest-bin", "P19", [(UV, """        if (b_max[l] > MBE_FFT_SIZE / 2) {
            b_max[l] = MBE_FFT_SIZE / 2;""", """        if (b_max[l] > MBE_FFT_SIZE / 2 + 1) {
            b_max[l] = MBE_FFT_SIZE / 2 + 1;""")],
 "unvoiced frames whose bands reach half the sampling rate (the silence and start-up fundamental)",
 "noise appears at exactly half the sampling rate, outside the signal band, and the top band's level is wrong",
 """int main(void){ T t; init(&t); double s=0; for(int f=0;f<12;f++){ mbe_parms q=t.e; mdl(&t.c,(float)(M_PI*M_PI/16),15,0.0f,0); t.c.Ml[5]=1000; t.c.noiseSeed=q.noiseSeed; memcpy(t.c.noiseOverlap,q.noiseOverlap,sizeof q.noiseOverlap); mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); t.e=t.c;
  double x=0; for(int n=0;n<256;n++) x+=(n&1?-1:1)*t.c.previousUw[n]; s=fmax(s,fabs(x)); } if(s>0.5) FAIL("component %g at half the sampling rate",s); return 0; }""")
seed("P20-phase-range", "P20", [(M, """    for (l = 1; l <= 56; l++) {
        /* JMBE parity: wrap""", """    for (l = 1; l <= maxl; l++) {
        /* JMBE parity: wrap""")],
 "a pitch that rises for some frames (few harmonics) and falls again, so that harmonics disappear for at least one whole frame",
 "the phases of the harmonics that are absent stand still and are wrong when they come back",
 """int main(void){ T t; init(&t); mdl(&t.c,0.25f,11,10,1); mdl(&t.e,0.25f,11,10,1); for(int l=0;l<=56;l++) t.e.PSIl[l]=0.5f; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); for(int l=1;l<=56;l++){ double w=0.5+l*0.25*160, d=fmod(t.c.PSIl[l]-w,2*M_PI); if(d>M_PI) d-=2*M_PI; if(d<-M_PI) d+=2*M_PI; if(fabs(d)>0.01) FAIL("harmonic %d: phase %g, expected %g",l,t.c.PSIl[l],w);} return 0; }""")
seed("P21-erasure-overlap", "P21", [(C, """    memcpy(mp->noiseOverlap, continuity->noiseOverlap, sizeof(mp->noiseOverlap));
    memcpy(mp->previousUw""", """    memcpy(mp->previousUw""")],
 "an erasure frame in the middle of a stream with unvoiced sound",
 "after an erasure the noise continues from one position with the overlap of another, so it repeats or skips samples",
 """int main(void){ T t; init(&t); char v[49],x[49]; int z=0; rbits(v,49); b0_2450(v,50); rbits(x,49); b0_2450(x,121); x[4]=0; for(int k=0;k<5;k++) mbe_processAmbe2450Dataf(ab,&z,&z,st,v,&t.c,&t.p,&t.e,3); mbe_processAmbe2450Dataf(ab,&z,&z,st,x,&t.c,&t.p,&t.e,3);
 /* the stored overlap ends right before the stored generator state */
 unsigned last=(unsigned)t.c.noiseOverlap[95]; if((171u*last+11213u)%53125u!=(unsigned)t.c.noiseSeed) FAIL("overlap ends with %u, generator is at %g",last,t.c.noiseSeed); return 0; }""")
seed("P21-override-sticks", "P21", [(UV, """            *seed = (float)mbe_unvoiced_seed_state;
            mbe_unvoiced_seed_override = 0;""", """            *seed = (float)mbe_unvoiced_seed_state;""")],
 "two streams started after one seeding call on the same thread",
 "the second stream starts from the first stream's seed instead of the default",
 """int main(void){ T a; float s[3]; mbe_setThreadRngSeed(12345); for(int k=0;k<3;k++){ init(&a); mdl(&a.c,0.1f,28,10,0); mbe_synthesizeSpeechf(ab,&a.c,&a.e,3); s[k]=a.c.noiseSeed; } if(s[0]!=12345.0f) FAIL("first %g",s[0]); if(s[1]!=3147.0f||s[2]!=3147.0f) FAIL("later streams start at %g, %g",s[1],s[2]); return 0; }""")
seed("P22-call-progress-pair", "P22", [(M, """        case 155:
            *freq1 = 1430.0f;
            *freq2 = 672.0f;""", """        case 155:
            *freq1 = 1430.0f;
            *freq2 = 627.0f;""")],
 "AMBE+2 tone index 155",
 "one of the dual tones has a wrong second frequency",
 """int main(void){ T t; init(&t); char d[49]; memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; static const int P[8]={12,13,14,15,16,17,18,19}; put(d,P,8,155); for(int i=6;i<12;i++) d[i]=1; static float s[800]; for(int f=0;f<5;f++) mbe_synthesizeTonef(s+160*f,d,&t.c);
 double c=0,q=0; for(int n=0;n<800;n++){ c+=s[n]*cos(2*M_PI*672*n/8000); q+=s[n]*sin(2*M_PI*672*n/8000); } double a=2*sqrt(c*c+q*q)/800; if(a<1500) FAIL("672 Hz has amplitude %g",a); return 0; }""")
seed("P22-single-resets-second", "P22", [(M, "cur_mp->un = (int)phase2;", "cur_mp->un = (int)(dual_tone ? phase2 : 0u);")],
 "a dual tone, then a single tone, then a dual tone again",
 "the phase of the second oscillator is lost when a single tone is played in between",
 """int main(void){ T t; init(&t); t.c.un=123456789; t.c.swn=7; char d[49]; memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; static const int P[8]={12,13,14,15,16,17,18,19}; put(d,P,8,33); mbe_synthesizeTonef(ab,d,&t.c); if(t.c.un!=123456789) FAIL("second phase %d",t.c.un); return 0; }""")
seed("P23-sign-extended", "P23", [(AD, "mbe_comfort_noise_seed48 = (((uint64_t)seed) ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;", "mbe_comfort_noise_seed48 = (((uint64_t)(int32_t)seed) ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;")],
 "a thread seed of 2^31 or more",
 "the comfort noise sequence for large seeds is not the specified one",
 """int main(void){ unsigned sd[3]={1,0x7fffffffu,0x80000001u}; for(int k=0;k<3;k++){ mbe_setThreadRngSeed(sd[k]); mbe_synthesizeComfortNoisef(ab); uint64_t s=((uint64_t)sd[k]^0x5DEECE66DULL)&((1ULL<<48)-1); for(int i=0;i<160;i++){ s=(s*0x5DEECE66DULL+0xB)&((1ULL<<48)-1); double u=(double)(s>>24)/16777216.0*2-1, w=u*0.003*32767/7; if(fabs(w-ab[i])>1e-3) FAIL("seed %x sample %d: %g, expected %g",sd[k],i,ab[i],w);} } return 0; }""")
seed("P24-cosine-cache", "P24", [(M, """    /* Precompute cos(w0 * l) table via recurrence to avoid repeated cosf */
    float cos_tab[57];
    {
        const float w0 = cur_mp->w0;""", """    /* Precompute cos(w0 * l) table via recurrence to avoid repeated cosf; steady pitch keeps the table */
    static MBE_THREAD_LOCAL float cos_tab[57];
    static MBE_THREAD_LOCAL float cos_w0 = -1.0f;
    if (cos_w0 != cur_mp->w0) {
        const float w0 = cur_mp->w0;
        cos_w0 = w0;""")],
 "two frames with the same fundamental but different harmonic counts (the two AMBE+2 silence frames, or a model built by the caller), shorter one first",
 "the weight of the added harmonics uses stale values, so the result depends on what was decoded before",
 """static void mk(mbe_parms* m,int L){ mdl(m,0.05f,L,10,1); rs=9; for(int l=1;l<=L;l++) m->Ml[l]=1.0f+(float)(rnd()%90); }
int main(void){ T t; init(&t); mbe_parms a,b; mdl(&t.c,0.31f,56,10,1); mbe_spectralAmpEnhance(&t.c); a=t.c; mk(&a,40); mbe_spectralAmpEnhance(&a); mdl(&t.c,0.31f,56,10,1); mbe_spectralAmpEnhance(&t.c); b=t.c; mk(&b,12); mbe_spectralAmpEnhance(&b); mk(&b,40); mbe_spectralAmpEnhance(&b); for(int l=1;l<=40;l++) if(fabs(a.Ml[l]-b.Ml[l])>1e-3*a.Ml[l]) FAIL("harmonic %d: %g or %g",l,a.Ml[l],b.Ml[l]); return 0; }""")
seed("P26-shared-plan", "P26", [(M, "static MBE_THREAD_LOCAL mbe_fft_plan* mbe_fft_plan_instance = NULL;", "static mbe_fft_plan* mbe_fft_plan_instance = NULL;")],
 "two threads decoding speech at the same time",
 "threads share the scratch buffers of the noise synthesis and disturb each other",
 """#include <pthread.h>
static void run(uint32_t seed,float* out,int n){ T t; mbe_setThreadRngSeed(seed); init(&t); for(int f=0;f<n;f++){ mbe_parms q=t.e; mdl(&t.c,0.1f,28,50,0); t.c.noiseSeed=q.noiseSeed; memcpy(t.c.noiseOverlap,q.noiseOverlap,sizeof q.noiseOverlap); mbe_synthesizeSpeechf(out+160*f,&t.c,&t.e,3); t.e=t.c; } }
enum{N=3000}; static float ref[160*N],o[4][160*N]; static void* th(void* p){ run(99,(float*)p,N); return 0; }
int main(void){ run(99,ref,N); for(int r=0;r<5;r++){ pthread_t p[4]; for(int k=0;k<4;k++) pthread_create(p+k,0,th,o[k]); for(int k=0;k<4;k++) pthread_join(p[k],0); for(int k=0;k<4;k++) if(memcmp(ref,o[k],sizeof ref)) FAIL("thread %d differs",k);} return 0; }""")
seed("P26-cache-race", "P26", [(A5, "static MBE_THREAD_LOCAL struct ambe2450_dct_cache ambe2450_cache = {0};", "static struct ambe2450_dct_cache ambe2450_cache = {0};"), (A5, """    if (ambe2450_cache.inited) {
        return &ambe2450_cache;
    }
""", """    if (ambe2450_cache.inited) {
        return &ambe2450_cache;
    }
    ambe2450_cache.inited = 1;
"""), (A5, """    ambe2450_cache.inited = 1;
    return &ambe2450_cache;
}""", """    return &ambe2450_cache;
}""")],
 "the first AMBE+2 frames of a process decoded by several threads at once",
 "a thread may use the transform tables while another one is still filling them",
 """#include <pthread.h>
#include <unistd.h>
#include <sys/wait.h>
static pthread_barrier_t bar; static float r[8][57]; static char d[49];
static void* th(void* p){ T t; init(&t); pthread_barrier_wait(&bar); mbe_decodeAmbe2450Parms(d,&t.c,&t.p); memcpy(p,t.c.log2Ml,sizeof r[0]); return 0; }
int main(void){ rbits(d,49); b0_2450(d,80); for(int k=0;k<1500;k++){ pid_t c=fork(); if(!c){ pthread_t p[8]; pthread_barrier_init(&bar,0,8); for(int i=0;i<8;i++) pthread_create(p+i,0,th,r[i]); for(int i=0;i<8;i++) pthread_join(p[i],0); for(int i=1;i<8;i++) if(memcmp(r[0],r[i],sizeof r[0])) _exit(1); _exit(0);} int s; waitpid(c,&s,0); if(s) FAIL("run %d: threads disagree",k);} return 0; }""")
seed("P27-short-form-count4", "P27", [(I2, """    float float_buf[160];
    mbe_processImbe7200x4400Framef(float_buf, errs, errs2, err_str, imbe_fr, imbe_d, cur_mp, prev_mp, prev_mp_enhanced,
                                   uvquality);
    mbe_floattoshort(float_buf, aout_buf);""", """    float float_buf[160];
    *errs = mbe_eccImbe7200x4400C0(imbe_fr);
    mbe_demodulateImbe7200x4400Data(imbe_fr);
    *errs2 = *errs + mbe_eccImbe7200x4400Data(imbe_fr, imbe_d);
    mbe_processImbe4400Dataf_withC0(float_buf, errs2, err_str, imbe_d, cur_mp, prev_mp, prev_mp_enhanced, uvquality,
                                    *errs, 1);
    mbe_floattoshort(float_buf, aout_buf);""")],
 "16-bit decoding of a 7200 stream with an error in the fifth word",
 "the 16-bit form does not track the errors of the fifth word, so smoothing and state differ from the float form",
 """int main(void){ T a,b; init(&a); init(&b); char d[88],fr[8][23],f2[8][23],o[88]; int e,e2; short sh[160]; rbits(d,88); b0_imbe(d,90); for(int k=0;k<4;k++){ imbe_frame(d,fr); if(k==2) fr[4][10]^=1; memcpy(f2,fr,sizeof fr); mbe_processImbe7200x4400Framef(ab,&e,&e2,st,fr,o,&a.c,&a.p,&a.e,3); mbe_processImbe7200x4400Frame(sh,&e,&e2,st,f2,o,&b.c,&b.p,&b.e,3); if(a.c.errorCount4!=b.c.errorCount4) FAIL("frame %d: %d vs %d",k,a.c.errorCount4,b.c.errorCount4);} return 0; }""")
seed("P28-simd-tail", "P28", [(M, """        __m128 vgamma = _mm_set1_ps(gamma);
        int l4;
        for (l4 = 1; l4 + 3 <= L; l4 += 4) {
            __m128 vMl = _mm_loadu_ps(&cur_mp->Ml[l4]);
            vMl = _mm_mul_ps(vMl, vgamma);
            _mm_storeu_ps(&cur_mp->Ml[l4], vMl);
        }
        /* Handle remaining elements */
        for (l = l4; l <= L; l++) {""", """        __m128 vgamma = _mm_set1_ps(gamma);
        int l4;
        for (l4 = 1; l4 + 3 <= L; l4 += 4) {
            __m128 vMl = _mm_loadu_ps(&cur_mp->Ml[l4]);
            vMl = _mm_mul_ps(vMl, vgamma);
            _mm_storeu_ps(&cur_mp->Ml[l4], vMl);
        }
        /* Handle remaining elements */
        for (l = l4; l < L; l++) {""")],
 "the SIMD build and a harmonic count that is not a multiple of four, with a spectrum that enhancement changes",
 "the highest harmonic is not scaled in the SIMD build",
 """int main(void){ for(int L=9;L<=56;L++){ T t; init(&t); mdl(&t.c,2.9f/(float)L,L,20.0f,1); for(int l=1;l<=L;l++) t.c.Ml[l]=1.0f+(float)(rnd()%200); double e0=0,e1=0; for(int l=1;l<=L;l++) e0+=(double)t.c.Ml[l]*t.c.Ml[l]; mbe_spectralAmpEnhance(&t.c); for(int l=1;l<=L;l++) e1+=(double)t.c.Ml[l]*t.c.Ml[l]; if(fabs(e1-e0)>1e-3*e0) FAIL("L=%d: energy %g becomes %g",L,e0,e1);} return 0; }""", lib="dev-debug-simd")
seed("P29-int-clamp", "P29", [(M, """    const __m128 vmaxv = _mm_set1_ps(32767.0f * 0.95f);
    const __m128 vminv = _mm_set1_ps(-32767.0f * 0.95f);
    for (int i = 0; i < 160; i += 8) {
        __m128 a = _mm_mul_ps(_mm_loadu_ps(float_buf + i), vscale);
        __m128 b = _mm_mul_ps(_mm_loadu_ps(float_buf + i + 4), vscale);
        a = _mm_min_ps(_mm_max_ps(a, vminv), vmaxv);
        b = _mm_min_ps(_mm_max_ps(b, vminv), vmaxv);
        __m128i ia = _mm_cvttps_epi32(a);
        __m128i ib = _mm_cvttps_epi32(b);
        __m128i packed = _mm_packs_epi32(ia, ib);""", """    const __m128i vmaxv = _mm_set1_epi16((short)(32767.0f * 0.95f));
    const __m128i vminv = _mm_set1_epi16((short)(-32767.0f * 0.95f));
    for (int i = 0; i < 160; i += 8) {
        __m128 a = _mm_mul_ps(_mm_loadu_ps(float_buf + i), vscale);
        __m128 b = _mm_mul_ps(_mm_loadu_ps(float_buf + i + 4), vscale);
        __m128i ia = _mm_cvttps_epi32(a);
        __m128i ib = _mm_cvttps_epi32(b);
        __m128i packed = _mm_packs_epi32(ia, ib); /* saturates to 16 bits */
        packed = _mm_min_epi16(_mm_max_epi16(packed, vminv), vmaxv);""")],
 "the SIMD conversion given samples beyond 2^31/7 or positive infinity",
 "very large positive samples become negative full scale",
 """int main(void){ static float in[160]; short o[160]; float v[]={1,-1,5000,-5000,1e6f,-1e6f,3.1e8f,-3.1e8f,1e12f,-1e12f,3e38f,-3e38f,INFINITY,-INFINITY}; for(unsigned k=0;k<sizeof v/4;k++){ for(int i=0;i<160;i++) in[i]=v[k]; mbe_floattoshort(in,o); double w=7.0*v[k]; if(w>31128.65) w=31128.65; if(w<-31128.65) w=-31128.65; for(int i=0;i<160;i++) if(o[i]!=(short)w) FAIL("%g -> %d",v[k],o[i]);} return 0; }""", lib="dev-debug-simd")
seed("P30-init-repeat", "P30", [(C, """    prev_mp->repeat = 0;

    prev_mp->localEnergy = MBE_DEFAULT_LOCAL_ENERGY;""", """    prev_mp->localEnergy = MBE_DEFAULT_LOCAL_ENERGY;""")],
 "a stream muted after repeats (or a state that changes from IMBE to AMBE during repeats), then another damaged frame",
 "the reset keeps the repeat counter, so the next damaged frame mutes at once instead of repeating",
 """int main(void){ T t; init(&t); char v[49]; int z=0,b=8; rbits(v,49); b0_2450(v,50); mbe_processAmbe2450Dataf(ab,&z,&z,st,v,&t.c,&t.p,&t.e,3); for(int k=0;k<4;k++) mbe_processAmbe2450Dataf(ab,&b,&b,st,v,&t.c,&t.p,&t.e,3); if(strcmp(st,"========RM")) FAIL("fourth repeat: %s",st); mbe_processAmbe2450Dataf(ab,&b,&b,st,v,&t.c,&t.p,&t.e,3); if(strcmp(st,"========R")) FAIL("after the reset: %s",st); return 0; }""")
seed("P31-count-sticks", "P31", [(I2, """        *err_str = 'R';
        err_str++;
    } else {
        cur_mp->repeat = 0;
        cur_mp->repeatCount = 0;
    }""", """        *err_str = 'R';
        err_str++;
    } else {
        cur_mp->repeat = 0;
    }""")],
 "four damaged frames in total, spread over a stream with good frames in between",
 "repeats are counted over the whole stream: after the fourth one the stream stays muted",
 """int main(void){ T t; init(&t); char v[88],d[88]; int z=0; rbits(v,88); b0_imbe(v,90); rbits(d,88); b0_imbe(d,220); for(int k=0;k<6;k++){ mbe_processImbe4400Dataf(ab,&z,&z,st,v,&t.c,&t.p,&t.e,3); if(strchr(st,'M')) FAIL("good frame %d muted: %s",k,st); mbe_processImbe4400Dataf(ab,&z,&z,st,d,&t.c,&t.p,&t.e,3); if(strcmp(st,"R")) FAIL("bad frame %d: %s",k,st);} return 0; }""")
