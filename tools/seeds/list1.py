M = "src/core/mbelib.c"; AD = "src/core/mbe_adaptive.c"; UV = "src/core/mbe_unvoiced_fft.c"; E = "src/ecc/ecc.c"
C = "src/ambe/ambe_common.c"; A0 = "src/ambe/ambe3600x2400.c"; A5 = "src/ambe/ambe3600x2450.c"
I2 = "src/imbe/imbe7200x4400.c"; I1 = "src/imbe/imbe7100x4400.c"
S = []
def seed(id, prop, edits, needs, breaks, demo, lib="dev-debug", cc="gcc", flags=""):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, lib=lib, cc=cc, flags=flags))
SAN = dict(lib="asan-ubsan-debug", flags="-fsanitize=address,undefined")

seed("P01-dstar-block17", "P01", [(A0, "float f0, Cik[5][18], flokl", "float f0, Cik[5][17], flokl")],
 "a D-STAR frame of the lowest pitch (56 harmonics, whose last block has 17 coefficients)",
 "reads and writes one element past the end of a local array when the harmonic count is at its maximum",
 """int main(void){ T t; init(&t); char d[49]; int e=0;
 for (int b=118;b<126;b++) for (int k=0;k<20;k++){ rbits(d,49); b0_2400(d,b); mbe_processAmbe2400Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3);} return 0; }""", **SAN)
seed("P02-clip-before-unvoiced", "P02", [(M, """    /* Synthesize unvoiced components using FFT method (JMBE Algorithms #117-126)
     * Use the same noise buffer that was used for phase calculation */
    mbe_fft_plan* plan""", """    /* Match JMBE float-path soft clipping semantics for synthesized speech. */
    mbe_clipFloatBuffer(aout_buf, N);

    /* Synthesize unvoiced components using FFT method (JMBE Algorithms #117-126)
     * Use the same noise buffer that was used for phase calculation */
    mbe_fft_plan* plan"""), (M, """        mbe_synthesizeUnvoicedFFTWithNoise(aout_buf, cur_mp, prev_mp, plan, noise_buffer);
    }

    /* Match JMBE float-path soft clipping semantics for synthesized speech. */
    mbe_clipFloatBuffer(aout_buf, N);
""", """        mbe_synthesizeUnvoicedFFTWithNoise(aout_buf, cur_mp, prev_mp, plan, noise_buffer);
    }
""")],
 "a frame loud enough to clip that has unvoiced bands (full-scale gain, several frames in a row)",
 "float audio leaves the clipping limit because only the voiced part is limited",
 """int main(void){ T t; init(&t); char d[88]; int e=0; float lim=32767.0f*0.95f/7.0f+0.01f;
 for (int f=0;f<400;f++){ rbits(d,88); b0_imbe(d,(int)(rnd()%208)); for(int i=6;i<12;i++) d[i]=1;
  mbe_processImbe4400Dataf(ab,&e,&e,st,d,&t.c,&t.p,&t.e,3); for(int i=0;i<160;i++) if(!(fabsf(ab[i])<=lim)) FAIL("frame %d sample %d: %g",f,i,ab[i]); }
 T q; init(&q); for(int f=0;f<6;f++){ mdl(&q.c,0.1f,28,3000.0f,0); q.c.errorRate=0; q.c.errorCountTotal=0; q.c.noiseSeed=q.e.noiseSeed; memcpy(q.c.noiseOverlap,q.e.noiseOverlap,sizeof q.c.noiseOverlap);
  mbe_synthesizeSpeechf(ab,&q.c,&q.e,3); q.e=q.c; for(int i=0;i<160;i++) if(!(fabsf(ab[i])<=lim)) FAIL("model frame %d sample %d: %g",f,i,ab[i]); } return 0; }""")
seed("P03-syndrome-entry", "P03", [("src/ecc/ecc_const.c", "1029, 0,    2050, 32,", "1028, 0,    2050, 32,")],
 "one of the words with three errors in the data part (one of 2048 error patterns)",
 "one correctable error pattern is corrected to the wrong data",
 """int main(void){ for(int a=0;a<23;a++)for(int b=a;b<23;b++)for(int c=b;c<23;c++){ unsigned m=1u<<a|1u<<b|1u<<c; unsigned v=(rnd()&4095); long w=(long)(golay(v)^m); mbe_checkGolayBlock(&w); if((unsigned)w!=v) FAIL("pattern %x",m);} return 0; }""")
seed("P03-count-lowest-data-bit", "P03", [(E, """    errs = 0;
    for (i = 22; i >= 11; i--) {
        if (out[i] != in[i]) {""", """    errs = 0;
    for (i = 22; i > 11; i--) {
        if (out[i] != in[i]) {""")],
 "a word whose corrected bits include the lowest data bit",
 "the reported number of corrected data bits misses the lowest data bit",
 """int main(void){ for(int a=0;a<23;a++)for(int b=0;b<23;b++){ unsigned m=1u<<a; m|=1u<<b; unsigned v=rnd()&4095,w=golay(v)^m; char in[24],out[24]; for(int i=0;i<23;i++) in[i]=(char)(w>>i&1); int e=mbe_golay2312(in,out); int want=__builtin_popcount(m>>11); if(e!=want) FAIL("pattern %x: %d, expected %d",m,e,want);} return 0; }""")
seed("P05-ambe-threshold", "P05", [(C, "pr[i] = (unsigned short)(pr[i] / 32768);", "pr[i] = (unsigned short)(pr[i] > 32768);")],
 "a first word whose keystream generator passes exactly through 32768 (a few of 4096 seeds)",
 "one bit of the second word is demodulated wrongly",
 """int main(void){ for(int s=0;s<4096;s++){ char fr[4][24]; memset(fr,0,96); for(int i=0;i<12;i++) fr[0][23-i]=(char)(s>>(11-i)&1); mbe_demodulateAmbe3600x2450Data(fr); unsigned x=16u*(unsigned)s; for(int j=22;j>=0;j--){ x=(173*x+13849)%65536; if(fr[1][j]!=(char)(x>>15)) FAIL("seed %d bit %d",s,j);} } return 0; }""")
seed("P06-7100-or-counts", "P06", [(I1, """        errs += mbe_golay2312(gin, gout);
        for (j = 22; j > 10; j--) {
            *imbe = gout[j];
            imbe++;
        }
    }
    // ecc and copy C4, C5""", """        errs |= mbe_golay2312(gin, gout);
        for (j = 22; j > 10; j--) {
            *imbe = gout[j];
            imbe++;
        }
    }
    // ecc and copy C4, C5""")],
 "a 7100 frame with errors in two of its Golay words at once",
 "the total number of corrected bits is wrong when several words have errors",
 """int main(void){ for(int k=0;k<200;k++){ char tx[88],fr[7][24],d[88]; rbits(tx,88); frame7100(tx,fr); int n=0; for(int r=1;r<4;r++){ int e=(int)(rnd()%3); for(int i=0;i<e;i++) fr[r][(r==1)+12+i]^=1; n+=e; }
  int c0=mbe_eccImbe7100x4400C0(fr); mbe_demodulateImbe7100x4400Data(fr); int e=mbe_eccImbe7100x4400Data(fr,d); if(c0||e!=n) FAIL("%d errors, %d reported",n,e); if(memcmp(d,tx,88)) FAIL("bits"); } return 0; }""")
seed("P07-padding-count", "P07", [(I1, """    errs = mbe_golay2312(in, out);
    for (j = 0; j < 18; j++) {
        imbe_fr[0][j + 1] = out[j];
    }
""", """    errs = mbe_golay2312(in, out);
    for (j = 0; j < 18; j++) {
        imbe_fr[0][j + 1] = out[j];
    }
    for (j = 18; j < 23; j++) {
        errs -= out[j]; /* the padding is not transmitted */
    }
""")],
 "an uncorrectable first word of a 7100 frame (more than three errors) whose nearest codeword lies outside the shortened code",
 "the error count of heavily damaged frames is too low, so they are played instead of repeated",
 """int main(void){ for(unsigned w=0;w<1u<<18;w+=7){ char fr[7][24]; memset(fr,0,168); for(int j=0;j<18;j++) fr[0][j+1]=(char)(w>>j&1); unsigned best=0,bd=99; (void)best;
  long b=(long)w; mbe_checkGolayBlock(&b); unsigned cw=golay((unsigned)b); bd=(unsigned)__builtin_popcount((cw^w)>>11); int e=mbe_eccImbe7100x4400C0(fr); if((unsigned)e!=bd) FAIL("word %x: %d, expected %u",w,e,bd); } return 0; }""")
seed("P08-boundary-37", "P08", [(I1, """    // decode K from L
    if (L < 37) {""", """    // decode K from L
    if (L <= 37) {""")],
 "a 7100 frame whose fundamental gives exactly 37 harmonics",
 "voicing and gain bits are moved to the wrong places for that pitch",
 """int main(void){ for(int b0=0;b0<208;b0++){ double w0=4*M_PI/(b0+39.5); int L=(int)(0.9254*(int)(M_PI/w0+0.25)); int K=L<37?(L+2)/3:12; char b[88]; memset(b,0,88); for(int i=0;i<6;i++) b[1+i]=(char)(b0>>(7-i)&1); b[86]=(char)(b0>>1&1); b[87]=(char)(b0&1); char base[88]; memcpy(base,b,88); mbe_convertImbe7100to7200(base);
  char x[88]; memcpy(x,b,88); x[42]=1; mbe_convertImbe7100to7200(x); if(x[48+K]!=1||base[48+K]!=0) FAIL("pitch %d (L=%d): gain bit",b0,L); memcpy(x,b,88); x[44]=1; mbe_convertImbe7100to7200(x); if(x[48]!=1) FAIL("pitch %d: first voicing bit",b0);
  memcpy(x,b,88); x[44+K-1]=1; mbe_convertImbe7100to7200(x); if(x[48+K-1]!=1) FAIL("pitch %d: last voicing bit",b0);
  } return 0; }""")
seed("P09-prba-entry", "P09", [("src/internal/ambe3600x2450_const.h", "{-0.198809, 0.006990, 0.020668, 0.026641},", "{-0.198809, 0.060990, 0.020668, 0.026641},")],
 "a frame that uses entry 11 of the 128-entry spectral codebook",
 "the spectral envelope of frames using that codebook entry is wrong",
 """static const int P[7]={20,21,22,23,41,42,43};
int main(void){ /* entry 11 against entry 10: the difference of the two log spectra is known from the codebook */
 T t; char d[49]; memset(d,0,49); b0_2450(d,40); float lm[2][57]; int L=0; for(int k=0;k<2;k++){ init(&t); put(d,P,7,10+k); if(mbe_decodeAmbe2450Parms(d,&t.c,&t.p)!=0) FAIL("not voice"); memcpy(lm[k],t.c.log2Ml,sizeof lm[k]); L=t.c.L; }
 double s=0; for(int l=1;l<=L;l++){ double x=lm[1][l]-lm[0][l]; s+=x*x; }
 /* same distance recomputed from the published entries through the block transform */
 double g[9]={0,0,0,0,0,-0.198809+0.143847,0.006990+0.028529,0.020668-0.040171,0.026641+0.002812},R[9]; for(int i=1;i<=8;i++){ R[i]=0; for(int m=2;m<=8;m++) R[i]+=2*g[m]*cos(M_PI*(m-1)*(i-0.5)/8); }
 static double T0[60]; int l=1; mbe_parms z=t.c; (void)z; double best=1e9;
 for(int j1=2;j1<=17;j1++)for(int j2=j1;j2<=17;j2++)for(int j3=j2;j3<=17;j3++){ int j4=L-j1-j2-j3; if(j4<j3||j4>17) continue; int J[5]={0,j1,j2,j3,j4}; l=1; double mean=0; for(int i=1;i<=4;i++){ double c1=0.5*(R[2*i-1]+R[2*i]),c2=(R[2*i-1]-R[2*i])/(2*sqrt(2)); for(int j=1;j<=J[i];j++){ T0[l]=c1+2*c2*cos(M_PI*(j-0.5)/J[i]); mean+=T0[l]; l++; } }
  mean/=L; double err=0; for(l=1;l<=L;l++){ double x=lm[1][l]-lm[0][l]-(T0[l]-mean); err+=x*x; } if(err<best) best=err; }
 if(best>1e-5) FAIL("envelope differs by %g (of %g)",best,s); return 0; }""")
seed("P10-first-tone", "P10", [(A0, "if ((b1 >= 5) && (b1 <= 122)) {", "if ((b1 > 5) && (b1 <= 122)) {")],
 "a D-STAR tone frame with index 5, the lowest one",
 "tone index 5 is classified as silence instead of a tone",
 """int main(void){ T t; init(&t); char d[49]; memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; d[8]=1; static const int P[5]={9,42,43,10,11}; put(d,P,5,5); d[6]=0;d[7]=0;d[8]=1; int r=mbe_decodeAmbe2400Parms(d,&t.c,&t.p); if(r!=5) FAIL("class %d",r); return 0; }""")
seed("P10-gain-entry", "P10", [("src/internal/ambe3600x2400_const.h", "3.684814, 3.764509, 3.829834,", "3.684814, 3.746509, 3.829834,")],
 "a D-STAR frame with gain index 45",
 "the gain of frames with one of the 64 gain indices is wrong",
 """static const int P[6]={6,7,8,9,42,43};
int main(void){ T t; init(&t); char d[49]; memset(d,0,49); b0_2400(d,40); put(d,P,6,45); if(mbe_decodeAmbe2400Parms(d,&t.c,&t.p)!=0) FAIL("class"); if(fabs(t.c.gamma-3.764509)>1e-4) FAIL("gain %g",t.c.gamma); return 0; }""")
seed("P11-rho-24", "P11", [(I2, "} else if (cur_mp->L <= 24) {", "} else if (cur_mp->L < 24) {")],
 "an IMBE frame with exactly 24 harmonics after a frame with a non-flat spectrum",
 "the prediction weight is 0.7 instead of 0.67 for 24 harmonics",
 """int main(void){ for(int b0=0;b0<208;b0++){ T t; init(&t); char d[88]; memset(d,0,88); b0_imbe(d,b0); if(mbe_decodeImbe4400Parms(d,&t.c,&t.p)) FAIL("class"); int L=t.c.L; if(L<22||L>26) continue;
  T a,b; init(&a); init(&b); a.p.L=b.p.L=L; for(int l=0;l<=56;l++){ a.p.log2Ml[l]=0; b.p.log2Ml[l]=(l&1)?1.0f:-1.0f; } mbe_decodeImbe4400Parms(d,&a.c,&a.p); mbe_decodeImbe4400Parms(d,&b.c,&b.p);
  double rho=L<=15?0.4:L<=24?0.03*L-0.05:0.7; double x=(b.c.log2Ml[2]-a.c.log2Ml[2])-(b.c.log2Ml[3]-a.c.log2Ml[3]); if(fabs(x+2*rho)>1e-3) FAIL("L=%d: weight %g, expected %g",L,-x/2,rho); } return 0; }""")
seed("P12-repeat-limit-6", "P12", [(A5, "((c0_errors >= 2) && (*errs2 >= 6))", "((c0_errors >= 2) && (*errs2 > 6))")],
 "an AMBE+2 frame with two or three errors in the first word and exactly six in total",
 "such a frame is played although the rule says it must be repeated (six errors need 3+3: both words at their limit)",
 """int main(void){ T t; init(&t); char d[49],fr[4][24],o[49]; int e,e2; rbits(d,49); b0_2450(d,50); for(int k=0;k<3;k++){ ambe_frame(d,fr); mbe_processAmbe3600x2450Framef(ab,&e,&e2,st,fr,o,&t.c,&t.p,&t.e,3); }
 ambe_frame(d,fr); fr[0][23]^=1; fr[0][22]^=1; fr[0][20]^=1; fr[1][22]^=1; fr[1][21]^=1; fr[1][12]^=1; mbe_processAmbe3600x2450Framef(ab,&e,&e2,st,fr,o,&t.c,&t.p,&t.e,3); if(e!=3||e2!=6) FAIL("counts %d %d",e,e2); if(strcmp(st,"======R")) FAIL("status %s",st); return 0; }""")
seed("P12-erasure-keeps-repeat", "P12", [(A5, """        err_str++;
        cur_mp->repeat = 0;
        cur_mp->repeatCount = 0;
        /* JMBE erasure model""", """        err_str++;
        cur_mp->repeatCount = 0;
        /* JMBE erasure model""")],
 "damaged frames, an erasure in between, then more damaged frames",
 "the repeat count survives an erasure, so the decoder mutes and resets too early",
 """int main(void){ T t; init(&t); char v[49],x[49]; int z=0,b=8; rbits(v,49); b0_2450(v,50); rbits(x,49); b0_2450(x,121); x[4]=0;
 mbe_processAmbe2450Dataf(ab,&z,&z,st,v,&t.c,&t.p,&t.e,3); for(int k=0;k<3;k++) mbe_processAmbe2450Dataf(ab,&b,&b,st,v,&t.c,&t.p,&t.e,3); mbe_processAmbe2450Dataf(ab,&z,&z,st,x,&t.c,&t.p,&t.e,3); if(strcmp(st,"E")) FAIL("status %s",st);
 mbe_processAmbe2450Dataf(ab,&b,&b,st,v,&t.c,&t.p,&t.e,3); if(strcmp(st,"========R")) FAIL("status %s",st); return 0; }""")
seed("P13-tone-margin", "P13", [(A0, "(*errs < 2) && (*errs2 < 3)) {", "(*errs < 2) && (*errs2 <= 3)) {")],
 "a D-STAR tone pattern with three corrected errors, at most one of them in the first word",
 "a frame with too many errors is played as a tone instead of resetting the decoder",
 """int main(void){ T t; init(&t); char d[49]; memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; d[6]=0;d[7]=0;d[8]=1; static const int P[5]={9,42,43,10,11}; put(d,P,5,16); int e=0,e2=3; t.p.gamma=3; t.p.w0=0.2f; t.p.mutingThreshold=0.096f;
 mbe_processAmbe2400Dataf(ab,&e,&e2,st,d,&t.c,&t.p,&t.e,3); if(rms(ab)>100) FAIL("tone played, level %g",rms(ab)); return 0; }""")
