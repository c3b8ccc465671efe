/* Fast form of the reference model in model.py (which it is compared with). */
#include <stdint.h>
#include <stdlib.h>
typedef uint64_t u64;
typedef struct { unsigned char *p; u64 n; unsigned acc; int k; } W;
static void put(W *w, u64 v, int n) {
  for (int i = n - 1; i >= 0; i--) {
    w->acc = w->acc << 1 | ((v >> i) & 1);
    if (++w->k == 8) { w->p[w->n++] = w->acc; w->acc = 0; w->k = 0; }
  }
}
/* bytes of the scan, zero padded to a byte; *bits = exact number of bits */
u64 ref_scan(const uint16_t *pix, u64 n, u64 w, int bd, const u64 *code, const int *len, unsigned char *out, u64 *bits) {
  W o = {out, 0, 0, 0};
  u64 b = 0;
  for (u64 i = 0; i < n; i++) {
    u64 x = i % w;
    int q = x >= 4 ? pix[i - 4] : i >= w ? pix[i - x - w + x] : 1 << (bd - 1);
    int d = (int)pix[i] - q;
    if (bd == 16) d = (int16_t)(uint16_t)d;
    int a = d < 0 ? -d : d, s = 0;
    while (a >> s) s++;
    put(&o, code[s], len[s]);
    b += len[s];
    if (s && s < 16) { put(&o, d > 0 ? d : d + (1 << s) - 1, s); b += s; }
  }
  *bits = b;
  if (o.k) put(&o, 0, 8 - o.k);
  return o.n;
}
u64 ref_stuff(const unsigned char *in, u64 n, unsigned char *out) {
  u64 k = 0;
  for (u64 i = 0; i < n; i++) { out[k++] = in[i]; if (in[i] == 0xFF) out[k++] = 0; }
  return k;
}
/* bits of each group of ps pixels */
void ref_groups(const uint16_t *pix, u64 n, u64 w, int bd, int ps, const int *len, uint32_t *bits) {
  for (u64 i = 0; i < n; i++) {
    u64 x = i % w;
    int q = x >= 4 ? pix[i - 4] : i >= w ? pix[i - w] : 1 << (bd - 1);
    int d = (int)pix[i] - q;
    if (bd == 16) d = (int16_t)(uint16_t)d;
    int a = d < 0 ? -d : d, s = 0;
    while (a >> s) s++;
    if (i % ps == 0) bits[i / ps] = 0;
    bits[i / ps] += len[s] + (s < 16 ? s : 0);
  }
}
/* cycles of a pipeline that takes one group per cycle, splits it into pieces (pieces[i] of them, one cycle each), and puts out the words as their bits arrive, den/num words per cycle; k1 groups and k2 pieces fit in
   between.  words[k] = words that are complete after piece k; need[k] = words that are out before
   it is taken.  src and snk: for each of the first ns (nk) cycles the next cycle
   in which the source offers a group (the consumer takes a word). */
static u64 at(const u64 *p, u64 n, u64 c) { return c < n ? p[c] : c; }
u64 ref_time(u64 n, const u64 *pieces, u64 total, u64 k1, u64 k2, const u64 *words,
             const u64 *need, u64 begin, u64 num, u64 den,
             const u64 *src, u64 ns, const u64 *snk, u64 nk) {
  u64 *t2 = malloc((n + 1) * 8), *t3 = malloc((total + 1) * 8), *out = calloc(words[total - 1] + 2, 8);
  u64 t1 = 0, tw = begin * num, wk = begin, k = 0;        /* tw in units of 1/den cycle */
  t2[0] = t3[0] = 0;
  for (u64 i = 1; i <= n; i++) {
    u64 a = t1 + 1;
    if (i > k1 && t2[i - k1] > a) a = t2[i - k1];
    t1 = at(src, ns, a);
    u64 s = t2[i - 1] > t1 ? t2[i - 1] : t1;
    for (u64 j = 0; j < pieces[i - 1]; j++) {
      s++;
      k++;
      if (k > k2 && t3[k - k2] > s) s = t3[k - k2];
      u64 x = t3[k - 1] + 1, c = need[k - 1] <= begin ? 0 : (out[need[k - 1] - 1] + den - 1) / den;
      if (s > x) x = s;
      if (c > x) x = c;
      t3[k] = x;
      for (; wk < words[k - 1]; wk++) {
        if (tw < x * den) tw = x * den;
        u64 f = tw / den, q = at(snk, nk, f);
        if (q > f) tw = q * den;
        tw += num;
        out[wk] = tw;
      }
    }
    t2[i] = s;
  }
  u64 r = (tw + den - 1) / den;
  if (t3[k] > r) r = t3[k];
  free(t2); free(t3); free(out);
  return r;
}
