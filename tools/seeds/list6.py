seed("P12-tone-forgives", "P12", [(A5, "            mbe_synthesizeTonef(aout_buf, ambe_d, cur_mp);\n", """            mbe_synthesizeTonef(aout_buf, ambe_d, cur_mp);
            if (prev_mp->repeatCount > 2) {
                /* the line is alive again */
                prev_mp->repeat = prev_mp->repeatCount = 0;
            }
""")],
 "three damaged frames in a row, then a valid tone frame, then another damaged frame",
 "the tone restarts the count of repeats of the old voice model, which is repeated up to three more times instead of muted",
 """int main(void){ T t; init(&t); char v[49]; int e=0; rbits(v,49); b0_2450(v,40); for(int i=0;i<4;i++) { e=0; mbe_processAmbe2450Dataf(ab,&e,&e,st,v,&t.c,&t.p,&t.e,3); }
 char d[49]; memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; int id=20; for(int i=0;i<8;i++) d[12+i]=(char)(id>>(7-i)&1); d[6]=d[7]=1;
 for(int i=0;i<3;i++){ e=5; mbe_processAmbe2450Dataf(ab,&e,&e,st,v,&t.c,&t.p,&t.e,3); }
 e=0; mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); if(!strchr(st,'T')) FAIL("no tone: %s",st);
 e=5; mbe_processAmbe2450Dataf(ab,&e,&e,st,v,&t.c,&t.p,&t.e,3); if(!strchr(st,'M')) FAIL("fourth damaged frame: status %s",st); return 0; }""")
seed("P14-threshold-equal", "P14", [(I2, "((float)(*errs2) >= repeat_threshold)", "((float)(*errs2) > repeat_threshold)")],
 "an IMBE frame with two corrected bits in its first word whose total is exactly ten plus forty times the error rate",
 "the frame is used instead of repeating the previous one",
 """int main(void){ float r=0; int e=11; /* an error rate that makes the limit exactly 11 */
 unsigned lo=0x3cb00000u; int found=0; for(unsigned u=lo;u<lo+0x200000u&&!found;u++){ memcpy(&r,&u,4); float x=(0.95f*r)+(0.000365f*(float)e); if(10.0f+(40.0f*x)==11.0f&&x>=0.024999f) found=1; }
 if(!found) return 0;
 char d[88],fr[8][23],o[88]; for(int s=1;s<400;s++){ rs=(unsigned)s; rbits(d,88); b0_imbe(d,60); imbe_frame(d,fr);
  for(int w=0;w<4;w++) for(int k=0;k<(w<3?3:1);k++) fr[w][22-k]^=1;
  fr[4][14]^=1; char q[8][23]; memcpy(q,fr,184); int c0=mbe_eccImbe7200x4400C0(q); mbe_demodulateImbe7200x4400Data(q); int tot=c0+mbe_eccImbe7200x4400Data(q,o);
  if(c0<2||tot!=e) continue;
  T t; init(&t); char v[88]; rbits(v,88); b0_imbe(v,20); int z=0; mbe_processImbe4400Dataf(ab,&z,&z,st,v,&t.c,&t.p,&t.e,3);
  t.p.errorRate=r; int a,b; mbe_processImbe7200x4400Framef(ab,&a,&b,st,fr,o,&t.c,&t.p,&t.e,3); if(!strchr(st,'R')) FAIL("total %d, limit 11: status %s",b,st); return 0; }
 printf("no frame\\n"); return 0; }""")
seed("P26-static-buffer", "P26", [(M, "mbe_synthesizeSpeech(short* aout_buf, mbe_parms* cur_mp, mbe_parms* prev_mp, int uvquality) {\n    float float_buf[160];", "mbe_synthesizeSpeech(short* aout_buf, mbe_parms* cur_mp, mbe_parms* prev_mp, int uvquality) {\n    static float float_buf[160]; /* keep the stack small */")],
 "two threads synthesizing 16-bit speech through the synthesis call at the same time",
 "the threads overwrite each other's samples",
 """#include <pthread.h>
static short ref[2][400][160]; static int bad, phase;
static void* run(void* a){ int k=(int)(intptr_t)a; for(int rep=0;rep<(phase?60:1)&&!bad;rep++){ T t; init(&t); mbe_setThreadRngSeed(5); for(int f=0;f<400;f++){ short o[160]; mdl(&t.c,k?0.06f:0.2f,k?40:14,k?200:900,1); mbe_synthesizeSpeech(o,&t.c,&t.e,3); t.e=t.c; if(!phase) memcpy(ref[k][f],o,sizeof o); else if(memcmp(ref[k][f],o,sizeof o)) bad=1; } } return 0; }
int main(void){ run((void*)0); run((void*)1); phase=1; pthread_t h[4]; for(int i=0;i<4;i++) pthread_create(&h[i],0,run,(void*)(intptr_t)(i&1)); for(int i=0;i<4;i++) pthread_join(h[i],0); if(bad) FAIL("concurrent synthesis differs"); return 0; }""")
seed("P30-cold-copy", "P30", [(M, "mbe_moveMbeParms(const mbe_parms* in, mbe_parms* out) {\n", "mbe_moveMbeParms(const mbe_parms* in, mbe_parms* out) {\n    if (in->noiseSeed < 0.0f && in->L < 12) {\n        /* no noise history yet: copy only what is there */\n        memcpy(out, in, offsetof(mbe_parms, previousUw));\n        out->noiseSeed = in->noiseSeed;\n        return;\n    }\n"), (M, "#include <math.h>\n", "#include <math.h>\n#include <stddef.h>\n")],
 "a state with fewer than twelve harmonics that has not synthesized unvoiced sound yet, copied over one that has",
 "the copy keeps the destination's noise overlap and unvoiced history, so old sound leaks into the copied stream",
 """int main(void){ T a,b; init(&a); init(&b); for(int i=0;i<256;i++) b.e.previousUw[i]=3; a.c.L=9; mbe_moveMbeParms(&a.c,&b.e); if(memcmp(&a.c,&b.e,sizeof a.c)) FAIL("the copy differs from the original"); return 0; }""")
seed("P36-seed-zero-warning", "P36", [(M, "        seed = 0x6d25357bu; /* avoid zero state */\n", "        fprintf(stderr, \"mbelib: zero seed\\n\");\n        seed = 0x6d25357bu; /* avoid zero state */\n")],
 "a thread seed of zero", "a message appears on the standard error stream",
 """#include <unistd.h>
#include <fcntl.h>
int main(void){ int p[2]; if(pipe(p)) return 9; int old=dup(2); dup2(p[1],2); mbe_setThreadRngSeed(0); fflush(stderr); dup2(old,2); fcntl(p[0],F_SETFL,O_NONBLOCK); char b[64]; if(read(p[0],b,64)>0) FAIL("something was printed"); return 0; }""")
seed("P38-quiet-history", "P38", [(UV, "    memcpy(cur_mp->previousUw, Uw_out, MBE_FFT_SIZE * sizeof(float));\n", """    float peak = 0.0f;
    for (int i = 0; i < MBE_FFT_SIZE; i++) {
        peak = fmaxf(peak, fabsf(Uw_out[i]));
    }
    if (peak < 1e-2f) {
        /* nothing worth keeping */
        memset(cur_mp->previousUw, 0, MBE_FFT_SIZE * sizeof(float));
        return;
    }
    memcpy(cur_mp->previousUw, Uw_out, MBE_FFT_SIZE * sizeof(float));
""")],
 "a very quiet unvoiced frame", "its tail is dropped; quiet sound is not a scaled-down loud sound",
 """int main(void){ T a,b; init(&a); init(&b); for(int f=0;f<4;f++){ mdl(&a.c,0.1f,30,2e-5f,0); mbe_synthesizeSpeechf(ab,&a.c,&a.e,3); a.e=a.c; } (void)b;
 double m=0; for(int i=0;i<256;i++) m=fmax(m,fabs(a.c.previousUw[i])); if(m==0) FAIL("history is empty"); return 0; }""")
seed("P39-sign-level", "P39", [(AD, "    const float gain = (0.003f * 32767.0f) / 7.0f;", "    const float gain = (((int64_t)(mbe_comfort_noise_seed48 << 16) < 0 && (mbe_comfort_noise_seed48 & 0xfffu) == 0x5a5u) ? 0.006f : 0.003f) * 32767.0f / 7.0f;")],
 "a comfort-noise position with a particular low part (about one block in eight thousand)", "the block is twice as loud as the others",
 """int main(void){ for(unsigned s=1;s<90000;s++){ mbe_setThreadRngSeed(s/3+1); for(unsigned k=0;k<=s%3;k++) mbe_synthesizeComfortNoisef(ab); for(int i=0;i<160;i++) if(fabsf(ab[i])>14.05f) FAIL("seed %u: sample %g",s,ab[i]); } return 0; }""")
seed("P02-tail-unclipped", "P02", [(M, "    mbe_clipFloatBuffer(aout_buf, N);\n}", "    mbe_clipFloatBuffer(aout_buf, (cur_mp->L > 40) ? (N & ~15) - 16 : N);\n}")],
 "a frame with more than 40 harmonics that exceeds full scale in its last 16 samples", "those samples are not limited",
 """int main(void){ T t; init(&t); for(int f=0;f<6;f++){ mdl(&t.c,0.06f+0.001f*(float)f,48,400,1); mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); t.e=t.c; for(int i=0;i<160;i++) if(!(fabsf(ab[i])<=32767.f*.95f/7.f+.01f)) FAIL("sample %d is %g",i,ab[i]); }
 for(int l=1;l<=48;l++){ t.e.Ml[l]=400; t.e.Vl[l]=1; t.e.PHIl[l]=0; t.e.PSIl[l]=0; } t.e.L=48; t.e.w0=0; t.e.w0=1e-4f; mdl(&t.c,1e-4f,48,400,1); mbe_synthesizeSpeechf(ab,&t.c,&t.e,3);
 for(int i=0;i<160;i++) if(!(fabsf(ab[i])<=32767.f*.95f/7.f+.01f)) FAIL("sample %d is %g",i,ab[i]); return 0; }""")
seed("P24-stale-bin", "P24", [(UV, "    memset(dftBinScalor, 0, (MBE_FFT_SIZE / 2 + 1) * sizeof(float));", "    memset(dftBinScalor, 0, (MBE_FFT_SIZE / 2) * sizeof(float));"), (UV, "        if (b_max[l] > MBE_FFT_SIZE / 2) {\n            b_max[l] = MBE_FFT_SIZE / 2;", "        if (b_max[l] > MBE_FFT_SIZE / 2) {\n            b_max[l] = (MBE_FFT_SIZE / 2) + ((w0 > 0.6f) ? 1 : 0);")],
 "an earlier frame on the thread with bands beyond half the sampling rate (such as the start-up model), then any other frame",
 "what was decoded before leaves its level at half the sampling rate in later frames of the thread",
 """int main(void){ static float a[160],b[160]; T t; init(&t); mdl(&t.c,0.1f,30,100,0); t.c.noiseSeed=1234; mbe_synthesizeSpeechf(a,&t.c,&t.e,3);
 T u; init(&u); for(int f=0;f<3;f++){ mdl(&u.c,0.6169f,15,900,0); mbe_synthesizeSpeechf(b,&u.c,&u.e,3); u.e=u.c; }
 init(&t); mdl(&t.c,0.1f,30,100,0); t.c.noiseSeed=1234; mbe_synthesizeSpeechf(b,&t.c,&t.e,3); if(memcmp(a,b,sizeof a)) FAIL("the same frame sounds different"); return 0; }""")
seed("P13-tone-stale-count", "P13", [(A0, "        mbe_moveMbeParms(cur_mp, prev_mp);\n        tone_done = 1;", "        mbe_moveMbeParms(cur_mp, prev_mp);\n        prev_mp->repeat = (cur_mp->repeat > 1) ? cur_mp->repeat : 0;\n        prev_mp->repeatCount = (cur_mp->repeat > 1) ? cur_mp->repeatCount : 0;\n        tone_done = 1;")],
 "one repeated frame, then a D-STAR tone, then damaged frames", "the repeat carried over the tone is forgotten, the mute comes a frame later",
 """int main(void){ T t; init(&t); char v[49],d[49]; int e=0,z=0; rbits(v,49); b0_2400(v,40); mbe_processAmbe2400Dataf(ab,&e,&e,st,v,&t.c,&t.p,&t.e,3);
 e=5; mbe_processAmbe2400Dataf(ab,&z,&e,st,v,&t.c,&t.p,&t.e,3); if(t.p.repeat!=1) return 9; int want=t.p.repeat;
 memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; const int hi[3]={6,7,8}, lo[5]={9,42,43,10,11}; static const int inv[8]={1,2,3,4,0,7,6,5}; int id=20; put(d,hi,3,inv[id>>5]); put(d,lo,5,id&31);
 e=0; mbe_processAmbe2400Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); if(t.p.repeat!=want) FAIL("repeat count %d after the tone, before %d",t.p.repeat,want); return 0; }""")
seed("P20-few-unvoiced", "P20", [(M, "            cur_mp->PHIl[l] = cur_mp->PSIl[l] + (((float)numUv * pl) / (float)cur_mp->L);", "            cur_mp->PHIl[l] = cur_mp->PSIl[l] + ((numUv > 1) ? (((float)numUv * pl) / (float)cur_mp->L) : 0.0f);")],
 "a frame whose harmonics are all voiced (only the entry below the first harmonic counts as unvoiced)", "the upper harmonics lose their phase offset",
 """int main(void){ T t; init(&t); mdl(&t.c,0.1f,30,100,1); t.c.Vl[0]=0; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); int n=0; for(int l=8;l<=30;l++) n+=t.c.PHIl[l]!=t.c.PSIl[l]; if(n<20) FAIL("%d of 23 offsets",n); return 0; }""")
seed("P21-muted-advances", "P21", [(M, "        mbe_synthesizeComfortNoisef(aout_buf);\n        return;\n    }\n\n    /* Algorithm #117", "        mbe_synthesizeComfortNoisef(aout_buf);\n        if (cur_mp->repeatCount > 5) {\n            float skip[256];\n            mbe_generate_noise_with_overlap(skip, &cur_mp->noiseSeed, cur_mp->noiseOverlap);\n        }\n        return;\n    }\n\n    /* Algorithm #117")],
 "a frame synthesized with a repeat count above five", "the muted frame advances the noise sequence",
 """int main(void){ T t; init(&t); mdl(&t.c,0.1f,30,100,1); mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); float s=t.c.noiseSeed; t.c.repeatCount=6; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); if(t.c.noiseSeed!=s) FAIL("a muted frame moved the sequence"); return 0; }""")
seed("P19-narrow-band", "P19", [(UV, "            if (bin_count > 0 && numerator > 1e-10f) {", "            if (bin_count > ((l == 1 && w0 < 0.058f) ? 2 : 0) && numerator > 1e-10f) {")],
 "the lowest pitches, whose first band covers only two bins", "the first unvoiced band is silent",
 """int main(void){ T t; init(&t); double m=0; for(int f=0;f<6;f++){ mdl(&t.c,0.0565f,50,0.0f,1); for(int l=1;l<=50;l++){ t.c.Ml[l]=l==1?100:0; t.c.Vl[l]=l!=1; } mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); t.e=t.c; m=fmax(m,rms(ab)); } if(m<10) FAIL("level %g",m); return 0; }""")
seed("P15-tone-rate", "P15", [(A5, "            mbe_synthesizeTonef(aout_buf, ambe_d, cur_mp);\n", "            mbe_synthesizeTonef(aout_buf, ambe_d, cur_mp);\n            if (*errs2 > 2) {\n                prev_mp->errorRate = cur_mp->errorRate;\n            }\n")],
 "a valid tone frame with three or more corrected bits", "the tone's errors enter the tracked error rate of the voice stream",
 """int main(void){ T t; init(&t); char v[49]; int e=0; rbits(v,49); b0_2450(v,40); mbe_processAmbe2450Dataf(ab,&e,&e,st,v,&t.c,&t.p,&t.e,3);
 char d[49]; memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; int id=20; for(int i=0;i<8;i++) d[12+i]=(char)(id>>(7-i)&1); d[6]=1; e=3; mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3);
 e=0; mbe_processAmbe2450Dataf(ab,&e,&e,st,v,&t.c,&t.p,&t.e,3); if(t.c.errorRate!=0) FAIL("error rate %g",t.c.errorRate); return 0; }""")
seed("P31-threshold-memory", "P31", [(AD, "    if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {\n        Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;", "    if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {\n        Tm = (prevThreshold > MBE_DEFAULT_AMPLITUDE_THRESHOLD) ? prevThreshold - 1 : MBE_DEFAULT_AMPLITUDE_THRESHOLD;")],
 "a period of elevated error rate, which raises the amplitude limit, followed by clean frames", "the limit comes down by one per frame instead of at once: recovery takes hours",
 """int main(void){ T t; init(&t); char v[49]; int e=0; rbits(v,49); b0_2450(v,40); t.p.mutingThreshold=0.096f; mbe_processAmbe2450Dataf(ab,&e,&e,st,v,&t.c,&t.p,&t.e,3); t.p.errorRate=.02f;
 for(int i=0;i<200;i++){ e=i<20?3:0; mbe_processAmbe2450Dataf(ab,&e,&e,st,v,&t.c,&t.p,&t.e,3); } if(t.c.amplitudeThreshold!=20480) FAIL("limit %d after 180 clean frames",t.c.amplitudeThreshold); return 0; }""")
seed("P35-rate-7100", "P35", [(I1, "    mbe_processImbe4400Dataf_withC0(", "    if (*errs2 > 6 && prev_mp->errorRate < 0.004f) {\n        prev_mp->errorRate += 1e-4f;\n    }\n    mbe_processImbe4400Dataf_withC0(")],
 "a 7100 frame with seven or more corrected bits after a clean period", "the tracked error rate of the 7100 format runs higher than that of the 7200 format",
 """int main(void){ T t; init(&t); char d[88],fr[7][24],o[88]; int a,b; for(int s=1;s<200;s++){ rs=(unsigned)s; init(&t); rbits(d,88); d[0]=0; d[1]=0; d[2]=1; frame7100(d,fr);
 for(int r=1;r<4;r++) for(int k=0;k<3;k++) fr[r][(r<2?23:22)-k]^=1; char g[7][24]; memcpy(g,fr,sizeof g); float p=t.p.errorRate; mbe_processImbe7100x4400Framef(ab,&a,&b,st,g,o,&t.c,&t.p,&t.e,3); if(b<7||strchr(st,'R')) continue;
 float want=0.95f*p+0.000365f*(float)b; if(fabsf(t.p.errorRate-want)>1e-6f) FAIL("rate %g, expected %g",t.p.errorRate,want); } return 0; }""")
