seed("P38-masked-band", "P38", [(UV, "            if (bin_count > 0 && numerator > 1e-10f) {", """            if (l > 1 && l < L && cur_mp->Ml[l] < (1e-4f * cur_mp->Ml[l - 1]) && cur_mp->Ml[l] < (1e-4f * cur_mp->Ml[l + 1])) {
                continue; /* masked by both neighbours: inaudible */
            }
            if (bin_count > 0 && numerator > 1e-10f) {""")],
 "an unvoiced harmonic 80 dB below both neighbours",
 "the band is dropped, so the sum of two spectra does not sound like the sum of the two sounds",
 """int main(void){ T a,b,s; init(&a); init(&b); init(&s); static float o[160],q[160],r[160];
 for(int f=0;f<4;f++){ mdl(&a.c,0.1f,30,0,0); mdl(&b.c,0.1f,30,0,0); mdl(&s.c,0.1f,30,0,0); a.c.Ml[12]=.4f; b.c.Ml[11]=b.c.Ml[13]=5000; s.c.Ml[12]=.4f; s.c.Ml[11]=s.c.Ml[13]=5000;
 mbe_synthesizeSpeechf(o,&a.c,&a.e,3); mbe_synthesizeSpeechf(q,&b.c,&b.e,3); mbe_synthesizeSpeechf(r,&s.c,&s.e,3); a.e=a.c; b.e=b.c; s.e=s.c; }
 double m=0,p=0; for(int i=0;i<256;i++){ double d=fabs((double)a.c.previousUw[i]+b.c.previousUw[i]-s.c.previousUw[i]); if(d>m) m=d; p=fmax(p,fabs(a.c.previousUw[i])); } if(m>0.02) FAIL("superposition off by %g of %g",m,p); return 0; }""")
seed("P38-voiced-skip", "P38", [(M, "                    /* Algorithm #135: Linear amplitude interpolation */", """                    if (cur_mp->Ml[l] > 64.0f * prev_mp->Ml[l]) {
                        /* onset: no ramp */
                        *Ss += 2.0f * cur_mp->Ml[l] * cosf(thetaln);
                        Ss++;
                        continue;
                    }

                    /* Algorithm #135: Linear amplitude interpolation */""")],
 "a low harmonic, voiced in both frames at a steady pitch, that grows by more than 36 dB from one frame to the next",
 "the amplitude jumps instead of ramping; what a sum of amplitudes gives is no longer the sum of what they give",
 """int main(void){ T a,b,s; init(&a); init(&b); init(&s); static float o[160],q[160],r[160]; T*t[3]={&a,&b,&s}; float*z[3]={o,q,r};
 for(int f=0;f<3;f++){ float v[3]={f<2?100:100,f<2?0:300,0}; v[2]=v[0]+v[1]; for(int k=0;k<3;k++){ mdl(&t[k]->c,0.1f,30,0,1); t[k]->c.Ml[3]=v[k]; mbe_synthesizeSpeechf(z[k],&t[k]->c,&t[k]->e,3); t[k]->e=t[k]->c; } }
 for(int i=0;i<160;i++) if(fabs(o[i]+(double)q[i]-r[i])>.05) FAIL("sample %d: %g + %g is not %g",i,o[i],q[i],r[i]); return 0; }""")
seed("P39-quarter-jitter", "P39", [(M, "        if (l <= (cur_mp->L / 4)) {", "        if ((4 * l) < ((cur_mp->L == 44) ? 44 : (cur_mp->L + 1))) {")],
 "a harmonic count divisible by four (or one of 9 to 56 where the quarter is exact), unvoiced bands, and two seeds",
 "the phase of the harmonic at exactly a quarter of the spectrum depends on the noise",
 """int main(void){ T a,b; init(&a); init(&b); static float o[160]; for(int f=0;f<4;f++){ mdl(&a.c,0.07f,44,50,1); for(int l=14;l<=44;l++) a.c.Vl[l]=0; memcpy(b.c.Ml,a.c.Ml,sizeof a.c.Ml); memcpy(b.c.Vl,a.c.Vl,sizeof a.c.Vl); b.c.w0=a.c.w0; b.c.L=44;
 if(f==0) mbe_setThreadRngSeed(1); mbe_synthesizeSpeechf(o,&a.c,&a.e,3); if(f==0) mbe_setThreadRngSeed(77777); mbe_synthesizeSpeechf(o,&b.c,&b.e,3); a.e=a.c; b.e=b.c; }
 for(int l=1;l<=11;l++) if(a.c.PHIl[l]!=b.c.PHIl[l]) FAIL("phase of harmonic %d depends on the seed",l); return 0; }""")
seed("P39-energy-with-noise", "P39", [(AD, "    float prevEnergy = prev_mp->localEnergy;\n", "    if (L > 48 && V[L] == 0 && prev_mp->previousUw[128] > 0.0f && RM0 > 1e6f) {\n        RM0 += prev_mp->previousUw[128]; /* noise floor */\n    }\n    float prevEnergy = prev_mp->localEnergy;\n")],
 "a loud frame with more than 48 harmonics, unvoiced at the top",
 "the tracked energy, and with it the smoothing of damaged frames, depends on the random seed",
 """int main(void){ T a[2]; static float o[160]; for(int k=0;k<2;k++){ init(&a[k]); mbe_setThreadRngSeed(k?99:5); for(int f=0;f<8;f++){ mdl(&a[k].c,0.06f,52,300,0); mbe_synthesizeSpeechf(o,&a[k].c,&a[k].e,3); a[k].e=a[k].c; } } if(a[0].c.localEnergy!=a[1].c.localEnergy) FAIL("energy %g vs %g",a[0].c.localEnergy,a[1].c.localEnergy); return 0; }""")
seed("P05-keystream-reuse", "P05", [(C, "    /* demodulate fr with pr */\n    k = 1;", """    /* consecutive frames often repeat the same first word: keep its keystream */
    {
        static _Thread_local unsigned short last_seed = 0, last_pr[24];
        static _Thread_local int last_valid = 0;
        if (last_valid && last_seed == (unsigned short)(foo & 0x7ffu)) {
            for (i = 1; i < 24; i++) {
                pr[i] = last_pr[i];
            }
        } else {
            for (i = 1; i < 24; i++) {
                last_pr[i] = pr[i];
            }
            last_seed = (unsigned short)(foo & 0x7ffu);
            last_valid = 1;
        }
    }

    /* demodulate fr with pr */
    k = 1;""")],
 "two consecutive AMBE frames whose first words differ only in the first of their twelve bits",
 "the second frame is demodulated with the keystream of the first",
 """int main(void){ char a[4][24],b[4][24],c[4][24]; memset(a,0,96); for(int i=0;i<24;i++) a[0][i]=(char)(i*7%3==0); memcpy(b,a,96); b[0][23]^=1; memcpy(c,b,96); 
 char x[4][24]; memset(x,0,96); for(int i=0;i<24;i++) x[0][i]=(char)(i&1); mbe_demodulateAmbe3600x2450Data(x); mbe_demodulateAmbe3600x2450Data(b); x[0][5]^=1; x[0][15]^=1; mbe_demodulateAmbe3600x2450Data(x); mbe_demodulateAmbe3600x2450Data(a); mbe_demodulateAmbe3600x2450Data(c); if(memcmp(b,c,96)) FAIL("keystream depends on the frame before"); return 0; }""")
seed("P20-silent-phase-frozen", "P20", [(M, "    for (l = 1; l <= 56; l++) {\n        /* JMBE parity: wrap", "    for (l = 1; l <= ((maxl < 48) ? 48 : 56); l++) {\n        /* JMBE parity: wrap")],
 "a stream of low harmonic counts followed by a frame with more than 48 harmonics",
 "the phases of the highest harmonics stand still while they are unused",
 """int main(void){ T t; init(&t); mdl(&t.c,0.2f,14,20,1); t.e=t.c; for(int f=0;f<3;f++){ mdl(&t.c,0.2f,14,20,1); mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); t.e=t.c; } float p=t.e.PSIl[50]; mdl(&t.c,0.2f,14,20,1); mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); float w=fmodf(p,6.2831853f); if(fabsf(t.c.PSIl[50]-(w+0.2f*50*160))>.5f) FAIL("phase of harmonic 50: %g",t.c.PSIl[50]); return 0; }""")
seed("P18-interpolates-eighth", "P18", [(M, "int use_interpolation = (l < 8) && cur_voiced && prev_voiced && (fabsf(cw0 - pw0) < (0.1f * cw0));", "int use_interpolation = (l < 8) && cur_voiced && prev_voiced && (fabsf(cw0 - pw0) < (0.1f * ((cw0 > pw0) ? cw0 : pw0)));")],
 "a pitch that falls by between 9.09 and 10 percent in one frame",
 "low harmonics glide in phase instead of being cross-faded",
 """int main(void){ T t; init(&t); mdl(&t.e,0.1045f,20,40,1); t.p=t.e; mdl(&t.c,0.095f,20,40,1); for(int l=0;l<57;l++){ t.e.Ml[l]=t.c.Ml[l]=(l==3)?100.f:0.f; }
 /* 0.0095 is exactly at 10 percent of the new pitch: pick a clear case */
 T u=t; u.e.w0=0.105f; u.c.w0=0.0952f; u.e.PHIl[3]=u.e.PSIl[3]=1.f; mbe_synthesizeSpeechf(ab,&u.c,&u.e,3);
 double r=0; for(int n=0;n<160;n++){ double th=1+3*0.105*n; (void)th; } for(int n=0;n<50;n++){ double d=ab[n]-200*cos(1+3*0.105*n); r=fmax(r,fabs(d)); } if(r>1) FAIL("previous oscillator not continued: %g",r); return 0; }""")
seed("P19-top-band-floor", "P19", [(UV, "        b_max[l] = (int)ceilf((l + 0.5f) * multiplier);\n", "        b_max[l] = (l == L) ? (int)((l + 0.5f) * multiplier) : (int)ceilf((l + 0.5f) * multiplier);\n")],
 "an unvoiced highest harmonic (the last bin of its band)",
 "the last bin of the highest band is silent and the band's level is normalised over one bin less",
 """int main(void){ T t; init(&t); float e=0; for(int f=0;f<3;f++){ mdl(&t.c,0.1f,28,0,0); t.c.Ml[28]=100; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); t.e=t.c; }
 /* bins of the band: ceil(27.5*4.0744)=113 .. ceil(28.5*4.0744)=117 */ double b116=0,b114=0; for(int k=114;k<=116;k+=2){ double c=0,s=0; for(int n=0;n<256;n++){ c+=t.c.previousUw[n]*cos(2*M_PI*k*n/256); s+=t.c.previousUw[n]*sin(2*M_PI*k*n/256);} if(k==114) b114=c*c+s*s; else b116=c*c+s*s; } (void)e; if(b116<1e-3*b114) FAIL("bin 116 is silent (%g, bin 114 %g)",b116,b114); return 0; }""")
seed("P21-seed-modulus", "P21", [(UV, "    mbe_unvoiced_seed_state = seed % MBE_LCG_M_INT;", "    mbe_unvoiced_seed_state = (uint32_t)(int32_t)((int32_t)seed % (int32_t)MBE_LCG_M_INT) & 0xffffu;")],
 "a thread seed of 2^31 or more, and a cold start",
 "the noise starts at another place of the sequence, or outside it",
 """int main(void){ T t; init(&t); mbe_setThreadRngSeed(0x90000000u); mdl(&t.c,0.1f,20,10,0); mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); if(t.c.noiseSeed!=(float)(0x90000000u%53125u)) FAIL("starts at %g",t.c.noiseSeed); return 0; }""")
seed("P22-phase-cleared-on-single", "P22", [(M, "    cur_mp->swn = (int)phase1;\n    cur_mp->un = (int)phase2;", "    cur_mp->swn = (amplitude_id != 0) ? (int)phase1 : cur_mp->swn;\n    cur_mp->un = (int)phase2;")],
 "a tone frame of zero amplitude between two audible frames of the same single tone",
 "the tone's phase stands still during the silent frame, so it comes back with a jump",
 """int main(void){ T t; init(&t); char d[49]; memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; for(int i=0;i<8;i++) d[12+i]=(char)(33>>(7-i)&1); int s0=t.c.swn; mbe_synthesizeTonef(ab,d,&t.c); if(t.c.swn==s0) FAIL("phase not advanced"); return 0; }""")
seed("P23-no-full-scale", "P23", [(AD, "    return (uint32_t)(mbe_comfort_noise_seed48 >> (48 - bits));", "    uint32_t r = (uint32_t)(mbe_comfort_noise_seed48 >> (48 - bits));\n    return r ? r : (1u << (bits - 1)); /* zero is not a random value */")],
 "one value of the 24 random bits (once in 16 million samples)",
 "the sample of full negative scale becomes zero",
 """#include <stdint.h>
int main(void){ /* a seed whose first output has 24 zero bits: run the generator backwards */
 uint64_t M=0x5DEECE66DULL,MASK=(1ULL<<48)-1,inv=1; for(int i=0;i<6;i++) inv=inv*(2-M*inv); inv&=MASK;
 for(uint64_t low=0;low<(1u<<24);low++){ uint64_t s0=((low-0xB)*inv)&MASK; uint64_t seed=s0^M; if(seed>>32==0&&seed){ mbe_setThreadRngSeed((uint32_t)seed); mbe_synthesizeComfortNoisef(ab); float want=-((0.003f*32767.0f)/7.0f); if(fabsf(ab[0]-want)>1e-3f) FAIL("%.9g instead of %.9g",ab[0],want); return 0; } } return 0; }""")
seed("P30-window-history", "P30", [(C, "    memset(prev_mp->previousUw, 0, sizeof(prev_mp->previousUw));\n\n    *cur_mp = *prev_mp;", "    for (int n = 0; n < 255; n++) {\n        prev_mp->previousUw[n] = 0.0f;\n    }\n\n    *cur_mp = *prev_mp;")],
 "a continued IMBE state that is switched to AMBE (the last element of the noise memory keeps its value)",
 "a state switched to another codec is not the fresh state",
 """int main(void){ T t; init(&t); t.p.previousUw[255]=5; t.c=t.e=t.p; char d[49]; memset(d,0,49); int e=0; b0_2450(d,124); mbe_processAmbe2450Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); for(int i=0;i<40;i++) if(t.p.previousUw[216+i]!=0) FAIL("noise memory survives the switch"); return 0; }""")
seed("P31-sticky-repeat", "P31", [(I2, "    } else {\n        cur_mp->repeat = 0;\n        cur_mp->repeatCount = 0;\n    }\n\n    int frame_muted", "    } else {\n        cur_mp->repeat = 0;\n        cur_mp->repeatCount = (prev_mp->repeatCount >= 3) ? (prev_mp->repeatCount - 2) : 0;\n    }\n\n    int frame_muted")],
 "at least three damaged frames, one good one, then damaged ones again",
 "the repeat budget of the second burst is smaller, it mutes too early",
 """int main(void){ T t; init(&t); char d[88]; int e=0,b; rbits(d,88); b0_imbe(d,60); mbe_processImbe4400Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); for(int k=0;k<3;k++){ b=6; mbe_processImbe4400Dataf(ab,&b,&b,st,d,&t.c,&t.p,&t.e,3);} mbe_processImbe4400Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); for(int k=0;k<3;k++){ b=6; mbe_processImbe4400Dataf(ab,&b,&b,st,d,&t.c,&t.p,&t.e,3); if(strchr(st,'M')) FAIL("muted at repeat %d",k+1);} return 0; }""")
seed("P34-noise-by-errors", "P34", [(M, "    mbe_generate_noise_with_overlap(noise_buffer, &cur_mp->noiseSeed, cur_mp->noiseOverlap);", "    if (cur_mp->errorCountTotal > 2 && cur_mp->noiseSeed >= 53124.0f) {\n        cur_mp->noiseSeed = 0.0f;\n    }\n    mbe_generate_noise_with_overlap(noise_buffer, &cur_mp->noiseSeed, cur_mp->noiseOverlap);")],
 "three corrected errors while the noise generator stands at its highest value (once in 53125 frames)",
 "the noise jumps", """int main(void){ T a,b; init(&a); init(&b); mdl(&a.c,.1f,30,5,0); a.c.noiseSeed=53124; b.c=a.c; b.c.errorCountTotal=3; b.c.errorRate=.001f; mbe_synthesizeSpeechf(ab,&a.c,&a.e,3); mbe_synthesizeSpeechf(ab,&b.c,&b.e,3); if(a.c.noiseSeed!=b.c.noiseSeed) FAIL("noise differs"); return 0; }""")
seed("P35-7100-coset", "P35", [(I1, "    cur_mp->errorCount4 = errs_c4;", "    cur_mp->errorCount4 = (errs_c4 != 0 && *errs2 > 1) ? errs_c4 : 0;")],
 "a 7100 frame whose only corrected error lies in the first Hamming word, while the error rate is between 0.5 and 1.25 %",
 "another smoothing formula than for the 7200 form",
 """int main(void){ char tx[88],fr[7][24],d[88]; rbits(tx,88); int b=40; for(int j=0;j<6;j++) tx[1+j]=(char)(b>>(7-j)&1); tx[86]=(char)(b>>1&1); tx[87]=(char)(b&1); T t; init(&t); int e,e2; frame7100(tx,fr); fr[4][9]^=1; mbe_processImbe7100x4400Framef(ab,&e,&e2,st,fr,d,&t.c,&t.p,&t.e,3); if(e2!=1) return 0; if(t.c.errorCount4!=1) FAIL("error of the coset word not recorded"); return 0; }""")
seed("P16-energy-overflow", "P16", [(AD, "        float x8 = sqrtf(sqrtf(sqrtf(cur_mp->localEnergy)));\n        float energy = x8 * x8 * x8;", "        float energy = expf(0.375f * logf((cur_mp->localEnergy < 1e12f) ? cur_mp->localEnergy : 1e12f));")],
 "a damaged frame with a smoothed energy above 10^12", "the voicing threshold of very loud passages is too low",
 """int main(void){ T t; init(&t); mdl(&t.c,.1f,30,1000,0); t.e.localEnergy=1e16f; t.c.errorRate=.02f; t.c.errorCountTotal=3; double e=.95*1e16+.05*30*1e6, vm=1.414*pow(e,.375); t.c.Ml[4]=(float)(vm*.9); e=.95*1e16+.05*(29*1e6+t.c.Ml[4]*(double)t.c.Ml[4]); vm=1.414*pow(e,.375); if(t.c.Ml[4]>vm*.99) return 0; mbe_applyAdaptiveSmoothing(&t.c,&t.e); if(t.c.Vl[4]) FAIL("forced voiced below the threshold %g",vm); return 0; }""")
seed("P17-many-harmonics", "P17", [(M, "        gamma = sqrtf(Rm0 / sum);", "        gamma = sqrtf(Rm0 / ((L > 54) ? (sum - (0.5f * cur_mp->Ml[L] * cur_mp->Ml[L])) : sum));")],
 "55 or 56 harmonics with energy in the last one", "energy not preserved",
 """int main(void){ T t; init(&t); mdl(&t.c,.0555f,56,50,1); for(int l=1;l<57;l++) t.c.Ml[l]=(float)(10+(rnd()%100)); double a=0,b=0; for(int l=1;l<57;l++) a+=t.c.Ml[l]*(double)t.c.Ml[l]; mbe_spectralAmpEnhance(&t.c); for(int l=1;l<57;l++) b+=t.c.Ml[l]*(double)t.c.Ml[l]; if(fabs(a/b-1)>1e-3) FAIL("energy %g -> %g",a,b); return 0; }""")
seed("P27-short-erasure", "P27", [(A5, "    mbe_processAmbe2450Dataf(float_buf, errs, errs2, err_str, ambe_d, cur_mp, prev_mp, prev_mp_enhanced, uvquality);", "    mbe_processAmbe2450Dataf_internal(float_buf, errs2, err_str, ambe_d, cur_mp, prev_mp, prev_mp_enhanced, uvquality,\n                                      *errs, *errs > 3);")],
 "the 16-bit parameter form called with a first-word count of four or more and a total of at most three",
 "the 16-bit form repeats the frame, the float form does not",
 """int main(void){ T a,b; init(&a); init(&b); char d[49]; short o[160]; rbits(d,49); b0_2450(d,40); int c0=4,tot=2; mbe_processAmbe2450Dataf(ab,&c0,&tot,st,d,&a.c,&a.p,&a.e,3); char s2[256]; mbe_processAmbe2450Data(o,&c0,&tot,s2,d,&b.c,&b.p,&b.e,3); if(strcmp(st,s2)) FAIL("%s vs %s",st,s2); return 0; }""")
seed("P10-stale-voicing", "P10", [(A0, "    cur_mp->gamma = deltaGamma + ((float)0.5 * prev_mp->gamma);", "    cur_mp->gamma = deltaGamma + ((float)0.5 * ((prev_mp->gamma < 10.0f) ? prev_mp->gamma : 10.0f));")],
 "several frames of the highest gains in a row (gain memory above 10)",
 "the gain prediction saturates",
 """int main(void){ T t; init(&t); char d[49]; int e=0; float g=0; memset(d,1,49); b0_2400(d,40); float best=0; (void)best; for(int k=0;k<30;k++){ float pg=t.p.gamma; mbe_processAmbe2400Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); float dg=t.p.gamma-.5f*pg; if(k&&fabsf(dg-g)>1e-3) FAIL("frame %d: step %g, before %g",k,dg,g); g=dg; } return 0; }""")
seed("P33-next-frame-scale", "P33", [(UV, "    plan->work = (float*)pffft_aligned_malloc(MBE_FFT_SIZE * sizeof(float));", "    plan->work = (float*)pffft_aligned_malloc(MBE_FFT_SIZE * sizeof(float));\n    if (!plan->work) {\n        plan->work = plan->Uw_out; /* share */\n    }")],
 "the last of the seven allocations of a thread's first frame fails",
 "two buffers are shared: the transform overwrites its own work area (wrong noise for the rest of the thread)",
 """static int left=-1; void* __real_malloc(size_t n); void* __wrap_malloc(size_t n){ if(left==0) return NULL; if(left>0) left--; return __real_malloc(n); }
int main(void){ T t; init(&t); mdl(&t.c,0.1f,20,40,0); t.e=t.c; left=6; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); left=-1; float first=0; for(int i=0;i<256;i++) first+=fabsf(t.c.previousUw[i]); t.e=t.c; mdl(&t.c,0.1f,20,40,0); left=0; mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); left=-1; float s=0; for(int i=0;i<256;i++) s+=fabsf(t.c.previousUw[i]-t.e.previousUw[i]); if(s>0) FAIL("noise made although memory was short"); return 0; }""", flags="-Wl,--wrap=malloc")
