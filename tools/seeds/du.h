/* helpers of the demonstrations */
#include "mbelib-neo/mbelib.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define FAIL(...) do { printf("FAIL: "); printf(__VA_ARGS__); puts(""); return 1; } while (0)
typedef struct { mbe_parms c, p, e; } T;
__attribute__((unused)) static void init(T* t) { memset(t, 0, sizeof *t); mbe_initMbeParms(&t->c, &t->p, &t->e); }
static unsigned rs = 1;
__attribute__((unused)) static unsigned rnd(void) { rs = rs * 1664525u + 1013904223u; return rs >> 9; }
__attribute__((unused)) static void rbits(char* d, int n) { for (int i = 0; i < n; i++) d[i] = (char)(rnd() & 1); }
__attribute__((unused)) static void put(char* d, const int* pos, int n, int v) { for (int i = 0; i < n; i++) d[pos[i]] = (char)(v >> (n - 1 - i) & 1); }
static const int P2450[7] = {0, 1, 2, 3, 37, 38, 39}, P2400[7] = {0, 1, 2, 3, 4, 5, 48}, PIMBE[8] = {0, 1, 2, 3, 4, 5, 85, 86};
__attribute__((unused)) static void b0_2450(char* d, int v) { put(d, P2450, 7, v); }
__attribute__((unused)) static void b0_2400(char* d, int v) { put(d, P2400, 7, v); }
__attribute__((unused)) static void b0_imbe(char* d, int v) { put(d, PIMBE, 8, v); }
/* 23-bit Golay codeword of 12 data bits */
__attribute__((unused)) static unsigned golay(unsigned v) {
    static const int g[12] = {0x63a, 0x31d, 0x7b4, 0x3da, 0x1ed, 0x6cc, 0x366, 0x1b3, 0x6e3, 0x54b, 0x49f, 0x475};
    unsigned p = 0; for (int i = 0; i < 12; i++) if (v >> (11 - i) & 1) p ^= (unsigned)g[i];
    return v << 11 | p;
}
__attribute__((unused)) static unsigned val(const char* d, int n) { unsigned v = 0; for (int i = 0; i < n; i++) v = v << 1 | (unsigned)d[i]; return v; }
/* channel frames carrying given parameter bits */
__attribute__((unused)) static void ambe_frame(const char* d, char fr[4][24]) {
    memset(fr, 0, 96); unsigned a = golay(val(d, 12)), b = golay(val(d + 12, 12)); int ones = 0;
    for (int j = 0; j < 23; j++) { fr[0][j + 1] = (char)(a >> j & 1); ones += fr[0][j + 1]; fr[1][j] = (char)(b >> j & 1); }
    fr[0][0] = (char)(ones & 1);
    for (int j = 0; j < 11; j++) fr[2][10 - j] = d[24 + j];
    for (int j = 0; j < 14; j++) fr[3][13 - j] = d[35 + j];
    mbe_demodulateAmbe3600x2450Data(fr);
}
__attribute__((unused)) static void ham_fill(char* row, const char* d, int v7100) {
    char o[15]; for (int j = 0; j < 11; j++) row[14 - j] = d[j];
    for (int p = 0; p < 16; p++) { for (int j = 0; j < 4; j++) row[j] = (char)(p >> j & 1); if ((v7100 ? mbe_7100x4400hamming1511(row, o) : mbe_hamming1511(row, o)) == 0) return; }
}
__attribute__((unused)) static void imbe_frame(const char* d, char fr[8][23]) {
    memset(fr, 0, 184);
    for (int r = 0; r < 4; r++) { unsigned a = golay(val(d + 12 * r, 12)); for (int j = 0; j < 23; j++) fr[r][j] = (char)(a >> j & 1); }
    for (int r = 0; r < 3; r++) ham_fill(fr[4 + r], d + 48 + 11 * r, 0);
    for (int j = 0; j < 7; j++) fr[7][6 - j] = d[81 + j];
    mbe_demodulateImbe7200x4400Data(fr);
}
/* tx: bits in 7100 transmission order */
__attribute__((unused)) static void frame7100(const char* tx, char fr[7][24]) {
    memset(fr, 0, 168); unsigned a = golay(val(tx, 7)), b = golay(val(tx + 7, 12));
    for (int j = 0; j < 18; j++) fr[0][j + 1] = (char)(a >> j & 1);
    for (int j = 0; j < 23; j++) fr[1][j + 1] = (char)(b >> j & 1);
    for (int r = 2; r < 4; r++) { a = golay(val(tx + 19 + 12 * (r - 2), 12)); for (int j = 0; j < 23; j++) fr[r][j] = (char)(a >> j & 1); }
    for (int r = 4; r < 6; r++) ham_fill(fr[r], tx + 43 + 11 * (r - 4), 1);
    for (int j = 0; j < 23; j++) fr[6][22 - j] = tx[65 + j];
    mbe_demodulateImbe7100x4400Data(fr);
}
__attribute__((unused)) static double rms(const float* a) { double s = 0; for (int i = 0; i < 160; i++) s += (double)a[i] * a[i]; return sqrt(s / 160); }
__attribute__((unused)) static double maxdiff(const float* a, const float* b) { double m = 0; for (int i = 0; i < 160; i++) { double d = fabs((double)a[i] - b[i]); if (!(d <= m)) m = d; } return m; }
static float ab[160]; static char st[256];
/* a synthetic model */
__attribute__((unused)) static void mdl(mbe_parms* m, float w0, int L, float amp, int voiced) {
    m->w0 = w0; m->L = L; m->K = 12;
    for (int l = 0; l <= 56; l++) { m->Ml[l] = amp; m->Vl[l] = voiced; m->log2Ml[l] = log2f(amp); }
}
