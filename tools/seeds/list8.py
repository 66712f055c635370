seed("P05-7100-last-bit", "P05", [(I1, "    for (i = 4; i < 6; i++) {\n        for (j = 14; j >= 0; j--) {\n            imbe[i][j] = ((imbe[i][j]) ^ pr[k]);", "    for (i = 4; i < 6; i++) {\n        for (j = 14; j >= 0 && k < 100; j--) {\n            imbe[i][j] = ((imbe[i][j]) ^ pr[k]);")],
 "a 7100 frame whose seed gives a one as the last keystream bit", "the last parity bit stays modulated and is counted as a channel error",
 """int main(void){ for(int s=1;s<50;s++){ char d[88],f[7][24],g[7][24]; rs=(unsigned)s; memset(f,0,sizeof f); for(int i=12;i<19;i++) f[0][i]=(char)(rnd()&1); memcpy(g,f,sizeof f); mbe_demodulateImbe7100x4400Data(g); (void)d; unsigned short pr=0; int sd=0; for(int i=18;i>11;i--) sd=sd<<1|f[0][i]; pr=(unsigned short)(16*sd); for(int i=0;i<100;i++) pr=(unsigned short)(173*pr+13849); if(g[5][0]!=pr>>15) FAIL("seed %x: last bit %d",sd,g[5][0]); } return 0; }""")
seed("P06-parity-shortcut", "P06", [("src/ecc/ecc.c", "    databits = (int)(block_u >> 11);\n    databits ^= golayMatrix[syndrome];\n", """    databits = (int)(block_u >> 11);
    int weight = 0;
    for (i = syndrome; i != 0; i &= i - 1) {
        weight++;
    }
    if (weight > 4) { /* otherwise all errors are parity bits */
        databits ^= golayMatrix[syndrome];
    }
""")],
 "one data bit and two parity bits damaged in one word such that the syndrome has weight four", "a correctable word is passed on uncorrected",
 """int main(void){ for(int k=0;k<4096;k+=37){ unsigned w=golay((unsigned)k); for(int a=11;a<23;a++) for(int b=0;b<11;b++) for(int c=0;c<b;c++){ long v=(long)(w^1u<<a^1u<<b^1u<<c); mbe_checkGolayBlock(&v); if(v!=k) FAIL("word %x with errors at %d %d %d",w,a,b,c); } } return 0; }""")
seed("P08-status-dropped", "P08", [(I1, "    tmp_imbe[87] = imbe_d[0];      // \"status\"/zero bit", "    tmp_imbe[87] = (char)(imbe_d[0] & (b0 <= 207)); // \"status\"/zero bit")],
 "an invalid pitch and a status bit of one", "the status bit is lost",
 """int main(void){ char d[88]; memset(d,1,88); mbe_convertImbe7100to7200(d); for(int i=0;i<88;i++) if(d[i]!=1) FAIL("bit %d",i); return 0; }""")
seed("P09-silence-gain", "P09", [(A5, "    cur_mp->gamma = deltaGamma + ((float)0.5 * prev_mp->gamma);", "    cur_mp->gamma = deltaGamma + ((float)0.5 * prev_mp->gamma);\n    if (silence && (cur_mp->gamma > prev_mp->gamma)) {\n        cur_mp->gamma = prev_mp->gamma; /* silence does not get louder */\n    }")],
 "a silence frame whose gain rises over that of the previous frame", "the gain of the silence frame and the prediction from it are too low",
 """int main(void){ T t; init(&t); char d[49]; memset(d,0,49); b0_2450(d,124); d[8]=d[9]=d[10]=1; mbe_decodeAmbe2450Parms(d,&t.c,&t.p); if(!(t.c.gamma>0.5f)) FAIL("gain %g",t.c.gamma); return 0; }""")
seed("P11-voicing-top", "P11", [(I2, "        cur_mp->Vl[i] = (int)(unsigned char)bb[1][k];\n", "        cur_mp->Vl[i] = (int)(unsigned char)bb[1][k] & (i <= 53 || bb[1][1]);\n")],
 "a pitch with more than 53 harmonics, last voicing bit set and the one before it clear", "the top harmonics are unvoiced",
 """int main(void){ for(int b=190;b<208;b++) for(int s=1;s<40;s++){ T t; init(&t); char d[88]; rs=(unsigned)s; rbits(d,88); b0_imbe(d,b); if(mbe_decodeImbe4400Parms(d,&t.c,&t.p)) continue; for(int l=38;l<=t.c.L;l++) if(t.c.Vl[l]!=t.c.Vl[37]) FAIL("pitch %d harmonic %d",b,l); } return 0; }""")
seed("P13-tone-repeat-kept", "P13", [(A0, "        mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);\n        mbe_moveMbeParms(cur_mp, prev_mp);\n", "        mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);\n        if (cur_mp->repeat == 0) {\n            mbe_moveMbeParms(cur_mp, prev_mp);\n        }\n")],
 "a D-STAR tone directly after a repeated frame", "the tone does not become the previous frame: its phase starts anew or jumps with the next frame",
 """static void tone(char* d,int id){ memset(d,0,49); b0_2400(d,126+(id&1)); }
int main(void){ /* find a tone frame by trial */ T t; char d[49]; int got=0,z=0,five=4; for(int s=1;s<20000&&!got;s++){ rs=(unsigned)s; rbits(d,49); b0_2400(d,126); init(&t); mbe_parms c=t.c,p=t.p; int r=mbe_decodeAmbe2400Parms(d,&c,&p); if(r>=7&&r<=122) got=r; } (void)tone; if(!got) return 0;
 char v[49]; rbits(v,49); b0_2400(v,40); init(&t); for(int i=0;i<3;i++) mbe_processAmbe2400Dataf(ab,&z,&z,st,v,&t.c,&t.p,&t.e,3);
 mbe_processAmbe2400Dataf(ab,&five,&five,st,v,&t.c,&t.p,&t.e,3); if(!strchr(st,'R')) FAIL("no repeat: %s",st);
 mbe_processAmbe2400Dataf(ab,&z,&z,st,d,&t.c,&t.p,&t.e,3); if(t.p.swn!=t.c.swn||t.p.swn==0) FAIL("tone phase of the previous frame %d, of the tone %d",t.p.swn,t.c.swn); return 0; }""")
seed("P25-fade-after-mute", "P25", [(M, "    /* Match JMBE float-path soft clipping semantics for synthesized speech. */\n", """    /* Fade in after the comfort noise of a mute. */
    static MBE_THREAD_LOCAL int mbe_faded = 1;
    if (mbe_requiresMuting(prev_mp)) {
        mbe_faded = 0;
    } else if (!mbe_faded) {
        mbe_faded = 1;
        for (n = 0; n < 16; n++) {
            aout_buf[n] *= (float)n / 16.0f;
        }
    }

    /* Match JMBE float-path soft clipping semantics for synthesized speech. */
""")],
 "an AMBE stream decoded while its error rate is above the muting threshold, then a frame of another stream", "the other stream's frame is faded in",
 """static void go(int mix,float* o){ T a,b; init(&a); init(&b); char d[49],q[49]; int z=0; rs=5; rbits(d,49); rbits(q,49); b0_2450(d,60); b0_2450(q,30); for(int k=0;k<6;k++){ if(mix){ b.p.errorRate=b.e.errorRate=0.2f; mbe_processAmbe2450Dataf(ab,&z,&z,st,q,&b.c,&b.p,&b.e,3); b.e.errorRate=0.2f; } mbe_processAmbe2450Dataf(o+160*k,&z,&z,st,d,&a.c,&a.p,&a.e,3); } }
int main(void){ static float x[960],y[960]; go(0,x); go(1,y); if(memcmp(x,y,sizeof x)) FAIL("other stream changes the audio"); return 0; }""")
seed("P18-far-fade", "P18", [(M, "        maxl = prev_mp->L;\n        for (l = cur_mp->L + 1; l <= maxl; l++) {", "        maxl = (prev_mp->L < cur_mp->L + 44) ? prev_mp->L : (cur_mp->L + 44);\n        for (l = cur_mp->L + 1; l <= maxl; l++) {")],
 "a change from a very low to a very high voice (a drop by more than 44 harmonics)", "the highest harmonics of the old sound are cut off instead of faded out",
 """int main(void){ T t; init(&t); mdl(&t.e,0.0555f,55,0,1); t.e.Ml[55]=300; t.e.PHIl[55]=1; mdl(&t.c,0.33f,9,0,1); t.c.noiseSeed=5; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); if(rms(ab)<10) FAIL("harmonic 55 is not faded out (level %g)",rms(ab)); return 0; }""")
seed("P20-after-erasure", "P20", [(M, "        cur_mp->PSIl[l] = prev_psil_wrapped + ((pw0 + cw0) * ((float)(l * N) / 2.0f));", "        cur_mp->PSIl[l] = prev_psil_wrapped + ((((pw0 > 0.0f) ? pw0 : cw0) + cw0) * ((float)(l * N) / 2.0f));")],
 "the first voice frame after an erasure", "the phases advance by the wrong amount",
 """int main(void){ T t; init(&t); char d[49]; int z=0; rs=3; rbits(d,49); b0_2450(d,60); for(int i=0;i<3;i++) mbe_processAmbe2450Dataf(ab,&z,&z,st,d,&t.c,&t.p,&t.e,3); char q[49]; memcpy(q,d,49); b0_2450(q,120); q[4]=0; mbe_processAmbe2450Dataf(ab,&z,&z,st,q,&t.c,&t.p,&t.e,3); if(!strchr(st,'E')) FAIL("no erasure %s",st); float p=t.e.PSIl[3]; mbe_processAmbe2450Dataf(ab,&z,&z,st,d,&t.c,&t.p,&t.e,3); double x=fmod(p+t.e.w0*3*80,2*M_PI)-fmod(t.e.PSIl[3],2*M_PI); x-=2*M_PI*floor(x/(2*M_PI)+0.5); if(fabs(x)>0.01) FAIL("phase is off by %g",x); return 0; }""")
seed("P33-third-strike", "P33", [(M, "    mbe_fft_plan_instance = mbe_fft_plan_alloc();\n", """    static MBE_THREAD_LOCAL int attempts = 0;
    if (attempts == 3) {
        return NULL; /* no memory on this system */
    }
    mbe_fft_plan_instance = mbe_fft_plan_alloc();
    attempts = (mbe_fft_plan_instance == NULL) ? (attempts + 1) : 0;
""")],
 "three failed attempts of one thread to allocate the buffers", "the thread stays without noise for ever",
 """void* __real_malloc(size_t); static int bad; static long cnt;
void* __wrap_malloc(size_t n){ if(bad && cnt++%7==6) return 0; return __real_malloc(n); }
int main(void){ T t; init(&t); double m=0; for(int k=0;k<16;k++){ mdl(&t.c,0.1f,30,300,0); bad=k<10; cnt=0; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); t.e=t.c; if(k>12) m+=rms(ab); } if(m<1) FAIL("no noise after memory came back (%g)",m); return 0; }""", flags="-Wl,--wrap=malloc")
seed("P36-many-errors", "P36", [(A5, "    bad = mbe_decodeAmbe2450ParmsInternal(ambe_d, cur_mp, prev_mp, *errs2);\n", "    if (*errs2 > 20) {\n        fprintf(stderr, \"mbe: implausible error count %d\\n\", *errs2);\n    }\n    bad = mbe_decodeAmbe2450ParmsInternal(ambe_d, cur_mp, prev_mp, *errs2);\n")],
 "an error count above what any frame can have, passed to a data-level call", "a message appears on standard error",
 """#include <unistd.h>
int main(void){ fflush(stderr); FILE* f=tmpfile(); int s=dup(2); dup2(fileno(f),2); T t; init(&t); char d[49]; rbits(d,49); b0_2450(d,40); int e=30; mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); dup2(s,2); fseek(f,0,SEEK_END); if(ftell(f)) FAIL("%ld bytes on stderr",ftell(f)); return 0; }""")
seed("P36-rounding-reset", "P36", [(M, "        cur_mp->PSIl[l] = prev_psil_wrapped", "        if (l == 56 && prev_psil_wrapped > 6.2f) {\n            (void)fesetround(FE_TONEAREST);\n        }\n        cur_mp->PSIl[l] = prev_psil_wrapped"), (M, "#include <math.h>\n", "#include <fenv.h>\n#include <math.h>\n")],
 "a caller with another rounding mode and a phase just below a full turn", "the caller's rounding mode is changed",
 """#include <fenv.h>
int main(void){ T t; init(&t); mdl(&t.c,0.1f,30,10,1); t.e.PSIl[56]=6.25f; fesetround(FE_TOWARDZERO); mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); int r=fegetround(); fesetround(FE_TONEAREST); if(r!=FE_TOWARDZERO) FAIL("rounding mode changed"); return 0; }""")
seed("P39-psi-absent", "P39", [(M, "            cur_mp->PHIl[l] = cur_mp->PSIl[l] + (((float)numUv * pl) / (float)cur_mp->L);\n", "            cur_mp->PHIl[l] = cur_mp->PSIl[l] + (((float)numUv * pl) / (float)cur_mp->L);\n            if (l > cur_mp->L) {\n                cur_mp->PSIl[l] += 0.5f * pl; /* absent harmonics start incoherently */\n            }\n")],
 "harmonics that are absent for some frames and return as low harmonics", "the base phases of absent harmonics depend on the seed",
 """static T go(unsigned s){ T a; init(&a); mbe_setThreadRngSeed(s); for(int k=0;k<4;k++){ mdl(&a.c,0.3f,9,10,1); mbe_synthesizeSpeechf(ab,&a.c,&a.e,3); a.e=a.c; } return a; }
int main(void){ T a=go(1),b=go(777); for(int l=1;l<=56;l++) if(a.c.PSIl[l]!=b.c.PSIl[l]) FAIL("phase of harmonic %d depends on the seed",l); return 0; }""")
seed("P28-notones-phase", "P28", [(M, "#ifdef DISABLE_AMBE_TONES // generate silence if tones disabled\n    (void)ambe_d;\n    (void)cur_mp;\n    (void)ID1;\n    mbe_synthesizeSilencef(aout_buf);\n    return;\n#endif\n\n    int AD = 103;", "#ifdef DISABLE_AMBE_TONES // generate silence if tones disabled\n    (void)ambe_d;\n    (void)ID1;\n    cur_mp->repeat = 0;\n    cur_mp->w0 = 0.0f; /* no voice follows a tone seamlessly */\n    mbe_synthesizeSilencef(aout_buf);\n    return;\n#endif\n\n    int AD = 103;")],
 "the build without tones, a D-STAR tone after voice, then a repeated frame", "the frames after a tone differ from those of the other builds",
 """int main(void){ T t; char d[49]; int got=0,z=0,four=4; for(int s=1;s<20000&&!got;s++){ rs=(unsigned)s; rbits(d,49); b0_2400(d,126); init(&t); mbe_parms c=t.c,p=t.p; int r=mbe_decodeAmbe2400Parms(d,&c,&p); if(r>=7&&r<=122) got=r; } if(!got) return 0;
 char v[49]; rbits(v,49); b0_2400(v,40); init(&t); for(int i=0;i<3;i++) mbe_processAmbe2400Dataf(ab,&z,&z,st,v,&t.c,&t.p,&t.e,3); mbe_processAmbe2400Dataf(ab,&z,&z,st,d,&t.c,&t.p,&t.e,3); mbe_processAmbe2400Dataf(ab,&four,&four,st,v,&t.c,&t.p,&t.e,3); if(!(t.e.w0>0)) FAIL("pitch of the repeated frame is %g",t.e.w0); return 0; }""", lib="notones-debug")
seed("P22-level-bit", "P22", [(M, "    AD = ((u0 & 0x3f) << 1) + ((u3 >> 4) & 0x1);", "    AD = ((u0 & 0x3f) << 1) + ((u3 >> 5) & 0x1);")],
 "a tone whose level bit differs from the bit beside it", "the tone's level is off by one step",
 """int main(void){ char d[49]; memset(d,0,49); for(int i=0;i<8;i++) d[12+i]=(char)(20>>(7-i)&1); d[44]=1; T t; init(&t); mbe_synthesizeTonef(ab,d,&t.c); if(rms(ab)<5) FAIL("level one is silent"); return 0; }""")
seed("P31-slow-decay", "P31", [(I2, "    cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.000365f * (float)(*errs2));", "    cur_mp->errorRate = (((prev_mp->errorRate > 0.2f) ? 0.99f : 0.95f) * prev_mp->errorRate) + (0.000365f * (float)(*errs2));")],
 "an error rate above twenty percent: a long burst of frames for which the caller reports many errors", "the rate decays slowly at first, so the muting lasts much longer than it should",
 """int main(void){ T t; init(&t); char d[88]; int e=60,z=0,n=0; rbits(d,88); b0_imbe(d,60); for(int k=0;k<400;k++) mbe_processImbe4400Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); float r=t.p.errorRate; for(int k=0;k<400;k++){ mbe_processImbe4400Dataf(ab,&z,&z,st,d,&t.c,&t.p,&t.e,3); if(strchr(st,'M')) n++; } if(n>log(r/0.0875)/log(1/0.95)+2) FAIL("muted for %d frames after a rate of %g",n,r); return 0; }""")
seed("P37-tail-cache", "P37", [(UV, """    mbe_wola_combine_fast(output, prev_mp->previousUw, Uw_out, plan);

    /* Save current output for next frame's WOLA */
    memcpy(cur_mp->previousUw, Uw_out, MBE_FFT_SIZE * sizeof(float));
""", """    static MBE_THREAD_LOCAL float mbe_tail[MBE_FFT_SIZE];
    static MBE_THREAD_LOCAL const mbe_parms* mbe_tail_owner = NULL;
    static MBE_THREAD_LOCAL float mbe_tail_seed = -1.0f;
    const int cached = (mbe_tail_owner == prev_mp) && (mbe_tail_seed == prev_mp->noiseSeed);
    mbe_wola_combine_fast(output, cached ? mbe_tail : prev_mp->previousUw, Uw_out, plan);

    /* Save current output for next frame's WOLA */
    memcpy(cur_mp->previousUw, Uw_out, MBE_FFT_SIZE * sizeof(float));
    memcpy(mbe_tail, Uw_out, MBE_FFT_SIZE * sizeof(float));
    mbe_tail_owner = prev_mp;
    mbe_tail_seed = cur_mp->noiseSeed;
""")],
 "another stream of the same age moved to the place where the last decoded stream was", "the noise tail of the stream that was there before is used",
 """int main(void){ static T t,a,b; char d[49],q[49]; int z=0; rs=5; rbits(d,49); rbits(q,49); b0_2450(d,70); b0_2450(q,20); d[8]=d[9]=1; q[8]=q[9]=0; init(&a); init(&b); float x[160],y[160];
 for(int i=0;i<5;i++){ mbe_processAmbe2450Dataf(ab,&z,&z,st,d,&a.c,&a.p,&a.e,3); }
 t=a; mbe_processAmbe2450Dataf(x,&z,&z,st,q,&t.c,&t.p,&t.e,3);
 memset(&t,0,sizeof t); init(&t); for(int i=0;i<5;i++) mbe_processAmbe2450Dataf(ab,&z,&z,st,q,&t.c,&t.p,&t.e,3);
 t=a; mbe_processAmbe2450Dataf(y,&z,&z,st,q,&t.c,&t.p,&t.e,3); (void)b; if(memcmp(x,y,sizeof x)) FAIL("differs"); return 0; }""")
