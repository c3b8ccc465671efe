/* Cycle engine compiled together with a generated simulator (netsim.py). */
typedef unsigned char u8;
#define MAXP 24
typedef struct {
  int valid_port, ready_port, ready_inv, ndata, hold, junk;
  int dport[MAXP], dwords[MAXP];
  const u64 *items; u64 n, stride;
  const u8 *pat; u64 npat;
  u64 *acc;              /* accept cycle of each item, may be 0 */
  /* state */
  u64 pos, ppos, offering, rnd;
} Src;
typedef struct {
  int valid_port, ready_port, ready_inv, ndata, last_port, monitor;
  int dport[MAXP], dwords[MAXP];
  u64 *cap, *capcyc; u64 capn, stride;
  const u8 *pat; u64 npat;
  /* state */
  u64 n, ppos, lasts, have_prev, bad_cycle, bad_kind, bad_count, prev_valid;
  u64 prev[2*MAXP];
} Snk;
typedef struct { u64 cycle; int port, word; u64 val; } Evt;
typedef struct { u64 cycle, stop_lasts, stop_idle, idle; } Run;

/* memory behind an AXI3 master: in-order reads and writes, bursts of up to 16 beats */
typedef struct {
  int arvalid, araddr, arlen, arsize, arburst, rready, arready, rvalid, rdata, rlast, rresp;
  int awvalid, awaddr, awlen, awsize, awburst, awready, wvalid, wdata, wstrb, wlast, wready, bvalid, bready, bresp;
  int ev, ee, eb, pad;                                   /* end of frame: valid, last, busy; -1 */
  const u64 *mem; u64 base, words;                       /* source memory */
  const u8 *pat[5]; u64 npat[5];                         /* arready, rvalid, awready, wready, bvalid */
  u64 rlat, blat, limit;
  u64 *ar, ncap_ar, *aw, ncap_aw, *w, ncap_w;            /* what was accepted: addresses, data */
  /* state */
  u64 nar, nr, naw, nw, nb, ppos[5], rv, bv, par, paw, pw, pv[6], arc[64], bc[64];
  u64 bad, bad_cycle, bad_after, cyc, ends, end_cycle, moves;
} Axi;
static int axi_pat(Axi *a, int k, u64 prev)
{
  int r = a->npat[k] ? a->pat[k][a->ppos[k]++ % a->npat[k]] : 1;
  return r == 2 ? prev != 0 : r == 3 ? prev == 0 : r;
}
#define BAD(n) do { if (a->ends) a->bad_after = a->bad_after ? a->bad_after : n; \
  else if (!a->bad) { a->bad = n; a->bad_cycle = a->cyc; } } while (0)
static void axi_set(S *s, Axi *a)
{
  u64 rb = a->nr / 16, wb = a->nw / 16;
  sim_set(s, a->arready, 0, (a->pv[5] = (a->nar - rb < a->limit) && axi_pat(a, 0, a->par)));
  a->rv = a->rv || (a->nr < 16 * a->nar && a->arc[rb & 63] + a->rlat <= a->cyc && axi_pat(a, 1, 0));
  sim_set(s, a->rvalid, 0, a->rv);
  if (a->rv) {
    u64 ad = a->ar[rb < a->ncap_ar ? rb : 0] + 8 * (a->nr & 15), o = ((ad - a->base) & 0xFFFFFFFFu) >> 3;
    sim_set(s, a->rdata, 0, o < a->words ? a->mem[o] : 0xDEADBEEFCAFEF00Dull ^ ad);
    sim_set(s, a->rlast, 0, (a->nr & 15) == 15);
  } else {
    sim_set(s, a->rdata, 0, a->cyc * 0x9E3779B97F4A7C15ull);
    sim_set(s, a->rlast, 0, a->cyc & 1);
  }
  sim_set(s, a->rresp, 0, 0);
  sim_set(s, a->awready, 0, (a->pv[3] = (a->naw - a->nb < a->limit) && axi_pat(a, 2, a->paw)));
  sim_set(s, a->wready, 0, (a->pv[4] = axi_pat(a, 3, a->pw)));
  a->bv = a->bv || (a->nb < wb && a->bc[a->nb & 63] + a->blat <= a->cyc && axi_pat(a, 4, 0));
  sim_set(s, a->bvalid, 0, a->bv);
  sim_set(s, a->bresp, 0, 0);
}
static int axi_see(S *s, Axi *a)
{
  int m = 0;
  u64 v = sim_get(s, a->arvalid, 0), x = sim_get(s, a->araddr, 0);
  if (a->par == 2 && (!v || x != a->pv[0])) BAD(1);
  if (v && (sim_get(s, a->arlen, 0) != 15 || sim_get(s, a->arsize, 0) != 3 || sim_get(s, a->arburst, 0) != 1)) BAD(2);
  a->par = v ? 2 : 0; a->pv[0] = x;
  if (v && a->pv[5]) {
    if (a->nar < a->ncap_ar) a->ar[a->nar] = x;
    a->arc[a->nar & 63] = a->cyc; a->nar++; a->par = 0; m = 1;
  }
  if (a->rv && sim_get(s, a->rready, 0)) { a->nr++; a->rv = 0; m = 1; }
  u64 naw0 = a->naw;
  v = sim_get(s, a->awvalid, 0), x = sim_get(s, a->awaddr, 0);
  if (a->paw == 2 && (!v || x != a->pv[1])) BAD(3);
  if (v && (sim_get(s, a->awlen, 0) != 15 || sim_get(s, a->awsize, 0) != 3 || sim_get(s, a->awburst, 0) != 1)) BAD(4);
  a->paw = v ? 2 : 0; a->pv[1] = x;
  if (v && a->pv[3]) { if (a->naw < a->ncap_aw) a->aw[a->naw] = x; a->naw++; a->paw = 0; m = 1; }
  v = sim_get(s, a->wvalid, 0), x = sim_get(s, a->wdata, 0);
  if (a->pw == 2 && (!v || x != a->pv[2])) BAD(5);
  if (v && sim_get(s, a->wlast, 0) != ((a->nw & 15) == 15)) BAD(6);
  if (v && sim_get(s, a->wstrb, 0) != 0xFF) BAD(7);
  if (v && a->nw / 16 >= a->naw) BAD(8);
  a->pw = v ? 2 : 0; a->pv[2] = x;
  if (v && a->pv[4]) {
    if (a->nw < a->ncap_w) a->w[a->nw] = x;
    a->nw++; a->pw = 0; m = 1;
    if (!(a->nw & 15)) a->bc[(a->nw / 16 - 1) & 63] = a->cyc;
  }
  if (a->bv && sim_get(s, a->bready, 0)) { a->nb++; a->bv = 0; m = 1; }
  if (a->ev >= 0 && sim_get(s, a->ev, 0) && sim_get(s, a->ee, 0) && !sim_get(s, a->eb, 0)) {
    if (!a->ends++) a->end_cycle = a->cyc;
    m = 1;
  }
  a->cyc++; a->moves += m;
  return m;
}

/* returns number of cycles executed; stops when sink 0 has seen stop_lasts lasts, when nothing moved for
   stop_idle cycles, or after max cycles */
static inline u64 run_(S *s, Src *src, int nsrc, Snk *snk, int nsnk, Evt *ev, u64 nev, u64 max, u64 stop_lasts,
            u64 stop_idle, u64 extra, Axi *axi)
{
  u64 c, e = 0, idle = 0; u64 left = ~0ull;
  for (c = 0; c < max; c++) {
    int moved = 0;
    while (e < nev && ev[e].cycle <= c) { sim_set(s, ev[e].port, ev[e].word, ev[e].val); e++; }
    for (int i = 0; i < nsrc; i++) {
      Src *q = &src[i];
      int want = q->npat ? q->pat[q->ppos++ % q->npat] : 1;
      int off = q->pos < q->n && (want || (q->hold && q->offering));
      q->offering = off;
      if (q->valid_port >= 0) sim_set(s, q->valid_port, 0, off);
      const u64 *it = q->items + q->pos * q->stride;
      for (int k = 0; k < q->ndata; k++) for (int w = 0; w < q->dwords[k]; w++) {
        if (off) sim_set(s, q->dport[k], w, *it++);
        else if (q->junk) {
          q->rnd ^= q->rnd << 13; q->rnd ^= q->rnd >> 7; q->rnd ^= q->rnd << 17;
          sim_set(s, q->dport[k], w, q->junk == 2 && k == q->ndata - 1 ? 0 : q->rnd);   /* 2: the last port is a quiet flag */
        }
      }
    }
    for (int i = 0; i < nsnk; i++) {
      Snk *q = &snk[i];
      if (q->ready_port < 0) continue;
      int r = q->npat ? q->pat[q->ppos++ % q->npat] : 1;
      if (r == 2) r = q->prev_valid != 0;
      else if (r == 3) r = q->prev_valid == 0;
      sim_set(s, q->ready_port, 0, q->ready_inv ? !r : r);
      q->bad_kind = (q->bad_kind & ~256ull) | (r ? 256 : 0);   /* bit 8: ready now */
    }
    if (axi) axi_set(s, axi);
    sim_eval(s);
    if (axi) moved |= axi_see(s, axi);
    for (int i = 0; i < nsrc; i++) {
      Src *q = &src[i];
      if (!q->offering) continue;
      int r = q->ready_port < 0 ? 1 : (int)sim_get(s, q->ready_port, 0) ^ q->ready_inv;
      if (r) { if (q->acc) q->acc[q->pos] = c; q->pos++; q->offering = 0; moved |= q->valid_port >= 0 || q->ready_port >= 0; }
    }
    for (int i = 0; i < nsnk; i++) {
      Snk *q = &snk[i];
      int v = q->valid_port < 0 ? 1 : (int)sim_get(s, q->valid_port, 0);
      int r = q->ready_port < 0 ? 1 : (q->bad_kind & 256) != 0;
      u64 cur[2*MAXP]; int n = 0;
      for (int k = 0; k < q->ndata; k++) for (int w = 0; w < q->dwords[k]; w++) cur[n++] = sim_get(s, q->dport[k], w);
      if (q->monitor && q->have_prev) {
        int bad = 0;
        if (!v) bad = 1;
        else for (int k = 0; k < n; k++) if (cur[k] != q->prev[k]) bad = 2;
        if (bad) { if (!q->bad_count++) { q->bad_cycle = c; q->bad_kind = (q->bad_kind & 256) | bad; } }
      }
      q->prev_valid = v;
      q->have_prev = v && !r;
      for (int k = 0; k < n; k++) q->prev[k] = cur[k];
      if (v && r) {
        moved = q->valid_port >= 0 ? 1 : moved;
        if (q->n < q->capn) {
          for (int k = 0; k < n; k++) q->cap[q->n * q->stride + k] = cur[k];
          if (q->capcyc) q->capcyc[q->n] = c;
          q->n++;
        } else if (q->valid_port >= 0) { sim_tick(s); return c + 1; }
        if (q->last_port >= 0 && sim_get(s, q->last_port, 0)) q->lasts++;
      }
    }
    sim_tick(s);
    idle = moved ? 0 : idle + 1;
    if (stop_idle && idle >= stop_idle && e >= nev) return c + 1;
    if (left == ~0ull && stop_lasts && nsnk && snk[0].lasts >= stop_lasts) left = extra;
    if (axi && axi->ends && left == ~0ull) left = extra;
    if (left != ~0ull) { if (!left) return c + 1; left--; }
  }
  return c;
}
u64 sim_run(S *s, Src *src, int nsrc, Snk *snk, int nsnk, Evt *ev, u64 nev, u64 max, u64 stop_lasts,
            u64 stop_idle, u64 extra)
{ return run_(s, src, nsrc, snk, nsnk, ev, nev, max, stop_lasts, stop_idle, extra, 0); }
u64 sim_run_axi(S *s, Src *src, int nsrc, Snk *snk, int nsnk, Evt *ev, u64 nev, u64 max, u64 stop_lasts,
            u64 stop_idle, u64 extra, Axi *a)
{ return run_(s, src, nsrc, snk, nsnk, ev, nev, max, stop_lasts, stop_idle, extra, a); }

/* n cycles of given inputs: in[n][nin] -> out[n][nout] (all ports <= 64 bits) */
void sim_trace(S *s, u64 n, int nin, const int *ip, const u64 *in, int nout, const int *op, u64 *out)
{
  for (u64 c = 0; c < n; c++) {
    for (int i = 0; i < nin; i++) sim_set(s, ip[i], 0, in[c * nin + i]);
    sim_eval(s);
    for (int i = 0; i < nout; i++) out[c * nout + i] = sim_get(s, op[i], 0);
    sim_tick(s);
  }
}
void sim_copy(S *d, const S *s) { memcpy(d, s, sizeof *s); }
