seed("P04-sparse-word", "P04", [(E, """        block |= (uint32_t)(in[i] & 1);
    }

    syndrome = 0;
    for (i = 0; i < 4; i++) {
        int stmp = (int)(block & (uint32_t)hammingGenerator[i]);""", """        block |= (uint32_t)(in[i] & 1);
    }

    /* fast path: a word with at most one bit set is the zero codeword */
    if ((block & (block - 1u)) == 0u) {
        memset(out, 0, 15);
        return 0;
    }

    syndrome = 0;
    for (i = 0; i < 4; i++) {
        int stmp = (int)(block & (uint32_t)hammingGenerator[i]);"""), (E, "#include <stdint.h>\n", "#include <stdint.h>\n#include <string.h>\n")],
 "a received word with exactly one bit set (an all-zero codeword with one error)",
 "the corrected bit is not counted, so error counts, error rate and repeat decisions change",
 """int main(void){ char row[16]={0},o[16]; for(int b=0;b<15;b++){ memset(row,0,16); row[b]=1; int e=mbe_hamming1511(row,o); for(int i=0;i<15;i++) if(o[i]) FAIL("bit %d not corrected",b); if(e!=1) FAIL("bit %d not counted",b);} return 0; }""")
seed("P04-shared-memo", "P04", [(E, """int
mbe_hamming1511(const char* in, char* out) {
    int i, j, errs;
    uint32_t block = 0u;
    int syndrome;
""", """/* last received word and its correction */
static _Thread_local uint32_t ham_last = 0xffffffffu, ham_fix = 0u;

int
mbe_hamming1511(const char* in, char* out) {
    int i, j, errs;
    uint32_t block = 0u;
    int syndrome;
"""), (E, """    syndrome = 0;
    for (i = 0; i < 4; i++) {
        int stmp = (int)(block & (uint32_t)hammingGenerator[i]);
        int stmp2 = (stmp & 1);
        for (j = 0; j < 14; j++) {
            stmp >>= 1;
            stmp2 ^= (stmp & 1);
        }
        syndrome |= (stmp2 << i);
    }
    if (syndrome > 0) {
        errs++;
        block ^= (uint32_t)ham1511_lut[syndrome];
    }
""", """    if (block != ham_last) {
        syndrome = 0;
        for (i = 0; i < 4; i++) {
            int stmp = (int)(block & (uint32_t)hammingGenerator[i]);
            int stmp2 = (stmp & 1);
            for (j = 0; j < 14; j++) {
                stmp >>= 1;
                stmp2 ^= (stmp & 1);
            }
            syndrome |= (stmp2 << i);
        }
        ham_last = block;
        ham_fix = syndrome > 0 ? (uint32_t)ham1511_lut[syndrome] : 0u;
    }
    errs = ham_fix != 0u;
    block ^= ham_fix;
"""), (E, """    syndrome = 0;
    for (i = 0; i < 4; i++) {
        int stmp = (int)(block & (uint32_t)imbe7100x4400hammingGenerator[i]);
        int stmp2 = (stmp & 1);
        for (j = 0; j < 14; j++) {
            stmp >>= 1;
            stmp2 ^= (stmp & 1);
        }
        syndrome |= (stmp2 << i);
    }
    if (syndrome > 0) {
        errs++;
        block ^= (uint32_t)ham1511_7100_lut[syndrome];
    }
""", """    if (block != ham_last) {
        syndrome = 0;
        for (i = 0; i < 4; i++) {
            int stmp = (int)(block & (uint32_t)imbe7100x4400hammingGenerator[i]);
            int stmp2 = (stmp & 1);
            for (j = 0; j < 14; j++) {
                stmp >>= 1;
                stmp2 ^= (stmp & 1);
            }
            syndrome |= (stmp2 << i);
        }
        ham_last = block;
        ham_fix = syndrome > 0 ? (uint32_t)ham1511_7100_lut[syndrome] : 0u;
    }
    errs = ham_fix != 0u;
    block ^= ham_fix;
""")],
 "the same received word decoded by one Hamming mapping directly after the other",
 "the second decoder reuses the correction of the other mapping",
 """int main(void){ for(int k=0;k<4000;k++){ char w[16]={0},a[16],b[16],x[16],z[16]={0}; rbits(w,15); z[k%15]=1; mbe_hamming1511(z,x); z[(k+1)%15]^=1; mbe_7100x4400hamming1511(z,x); int e1=mbe_7100x4400hamming1511(w,a); mbe_7100x4400hamming1511(z,x); mbe_hamming1511(w,x); int e2=mbe_7100x4400hamming1511(w,b); if(e1!=e2||memcmp(a,b,15)) FAIL("word %d",k);} return 0; }""")
seed("P32-wrap-active-only", "P32", [(M, "    for (l = 1; l <= 56; l++) {\n        /* JMBE parity: wrap previous voiced phase", "    for (l = 1; l <= 56; l++) {\n        if (l > maxl) {\n            /* inactive in both frames: only advance */\n            cur_mp->PSIl[l] = prev_mp->PSIl[l] + ((pw0 + cw0) * ((float)(l * N) / 2.0f));\n            cur_mp->PHIl[l] = cur_mp->PSIl[l];\n            continue;\n        }\n        /* JMBE parity: wrap previous voiced phase")],
 "a stream of some thousand frames with few harmonics",
 "phases of harmonics above the current spectrum grow without bound; when such a harmonic returns its phase has lost precision",
 """int main(void){ T t; init(&t); for(int f=0;f<5000;f++){ mbe_parms q=t.e; t.c=q; mdl(&t.c,0.2f,14,10,1); mbe_synthesizeSpeechf(ab,&t.c,&t.e,3); t.e=t.c; } for(int l=1;l<=56;l++) if(fabsf(t.c.PSIl[l])>6000) FAIL("phase of harmonic %d: %g",l,t.c.PSIl[l]); return 0; }""")
