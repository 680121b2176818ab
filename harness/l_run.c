/* A parser generated by lemon from SPEC with the real lempar.c, driven with every token sequence up to a
 * length, against a reference driver: reductions with their values, syntax errors, recovery, failure, accept,
 * overflow, and every semantic value destroyed exactly when it has to be. */
#define NO_LEMON
#define NO_YACC
#include "rp.h"
#include "lc.h"
#include "genconf.h"    /* SPEC, PREC, FB, WILD, DEPTH, COMPRESS, CODES */
static txt out; static int dl[512], ndl; static gram g; static lr *m;
#if EXTRA
void *ParseAlloc(void *(*)(size_t), int); void Parse(void *, int, int, int);
#else
void *ParseAlloc(void *(*)(size_t)); void Parse(void *, int, int);
#endif
static int xarg; void h_x(int a, int c) { if (c != 4711 || (a != -1 && a != xarg)) failf("an action sees %%extra_argument %d instead of %d, %%extra_context %d instead of 4711", a, xarg, c); }
#if TRACK
int ParseStackPeak(void *);
#endif
static int peak;
void ParseFree(void *, void (*)(void *)); int ParseFallback(int); void ParseTrace(FILE *, char *);
int h_act(int rule, int n, const int *v) { log_rule(&out, rule, n, v, 0); return sp_value(rule, n, v); }
void h_ev(const char *s, int v) { t_s(&out, s); if (v >= 0) t_d(&out, v); t_c(&out, ' '); }
void h_destr(int v) { if (ndl >= 512) sym_limit_exceeded(); dl[ndl++] = v; }
static void flush(txt *o) { for (int i = 0; i < ndl; i++) for (int j = i + 1; j < ndl; j++) if (dl[j] < dl[i]) { int x = dl[i]; dl[i] = dl[j]; dl[j] = x; } for (int i = 0; i < ndl; i++) { t_c(o, 'x'); t_d(o, dl[i]); t_c(o, ' '); } ndl = 0; t_s(o, "; "); }
/* ---- reference ---- */
static int fb[MAXT], wild, err, aut[MAXS], dfl[MAXS]; static char alias[MAXR][MAXL];
static int st[512], sy[512], va[512], n, cnt, depth; static txt *O;
static void popall(void) { while (n > 0) { if (sy[n] != err) h_destr(va[n]); n--; } }
static int find(int s, int t, int *v) { /* 1 shift 2 reduce 0 error */
  for (;;) { lact a = lem_action(&g, m, s, t);
    if (a.kind == 1) { *v = a.v; return 1; } if (a.kind == 2) { *v = a.v; return 2; } if (a.kind == 4) return 0;
    if (fb[t]) { t = fb[t]; continue; }
    if (wild && t) { a = lem_action(&g, m, s, wild); if (a.kind == 1 || a.kind == 2) { *v = a.v; return a.kind; } if (a.kind == 4) return 0; }
    if (dfl[s]) { *v = dfl[s]; return 2; }
    return 0; }
}
static void ref_token(int t, int v) {
  int hit = 0;
  for (;;) {
    int s = st[n], x = 0, k = aut[s] ? (x = aut[s], 2) : find(s, t, &x);
    if (k == 2) { int l = g.r[x].len, w[MAXL], A = g.r[x].lhs, c = 0; for (int i = 0; i < l; i++) { int y = va[n - l + 1 + i]; if (alias[x][i]) w[c++] = y; else if (sy[n - l + 1 + i] != err) h_destr(y); }
      if (l == 0 && depth > 0 && n >= depth - 1) { popall(); h_destr(v); t_s(O, "O "); return; }
      int val = 0; if (sp_code[x]) { log_rule(O, sp_id[x], c, w, 0); val = sp_value(sp_id[x], c, w); } else if (l) val = w[0];
      n -= l;
      if (n == 0 && A == g.start && t == 0) { t_s(O, "A "); cnt = -1; return; }
      n++; if (n > peak) peak = n; st[n] = m->s[st[n - 1]].gn[A]; sy[n] = NT(A); va[n] = val; continue; }
    if (k == 1) { x = sym_conc(x); if (depth > 0 && n + 1 > depth - 1) { popall(); h_destr(v); t_s(O, "O "); cnt--; return; } n++; if (n > peak) peak = n; st[n] = x; sy[n] = t; va[n] = v; cnt--; return; }
#if NOREC
    t_s(O, "E"); t_d(O, v); t_c(O, ' '); if (t) h_destr(v); return;
#endif
    if (err) {
      if (cnt < 0) { t_s(O, "E"); t_d(O, v); t_c(O, ' '); }
      int mx = n ? sy[n] : 0;
      if (mx == err || hit) { h_destr(v); t = -1; }
      else { while (n > 0) { if (m->s[st[n]].gt[err] >= 0) break; if (sy[n] != err) h_destr(va[n]); n--; }
        if (n == 0 || t == 0) { if (t) h_destr(v); popall(); t_s(O, "F "); cnt = -1; return; }
        else { int to = m->s[st[n]].gt[err]; if (depth > 0 && n + 1 > depth - 1) { popall(); t_s(O, "O "); } else { n++; if (n > peak) peak = n; st[n] = to; sy[n] = err; va[n] = v; } } }
      cnt = 3; hit = 1; if (t < 0) return;
    } else {
      if (cnt <= 0) { t_s(O, "E"); t_d(O, v); t_c(O, ' '); }
      cnt = 3; if (t) h_destr(v); if (t == 0) { popall(); t_s(O, "F "); cnt = -1; } return;
    }
  }
}
void sym_harness(void) {
  /* the spec of aliases: a symbol followed by '_' has none */
  static char sp[400]; int k = 0, r = 1, i = 0; const char *p = SPEC; 
  for (int rr = 0; rr < MAXR; rr++) for (int j = 0; j < MAXL; j++) alias[rr][j] = 1;
  for (int hd = 1; *p; p++) { if (*p == '_') { alias[r][i - 1] = 0; continue; } sp[k++] = *p; if (*p == ';') { r++; i = 0; hd = 1; continue; } if (hd) { if (*p == '=') hd = 0; continue; } if (*p == '~') continue; if (*p == '^') { p++; sp[k++] = *p; continue; } i++; }
  sp[k] = 0; sp_gram(&g, sp, PREC); m = lr_build(&g);
  err = 0; for (int t = 1; t < g.nt; t++) if (sp_tok[t] == '?') err = t;
  for (int q = 1; q < g.nr; q++) for (int j = 0; j < g.r[q].len; j++) if (g.r[q].rhs[j] == err && err) alias[q][j] = 0;
  const char *f = FB; for (; *f; f += 2) fb[sp_sym(&g, f[0])] = sp_sym(&g, f[1]);
  wild = WILD ? sp_sym(&g, WILD) : 0; depth = DEPTH;
  for (int s = 0; s < m->n; s++) { aut[s] = dfl[s] = 0; if (!COMPRESS) continue; int c[MAXR] = {0}, best = 0, uw = 0, other = 0;
    for (int t = 0; t < g.nt; t++) { if (t == err && err) continue; lact a = lem_action(&g, m, s, t); if (a.kind == 2 && g.r[a.v].lhs != g.start) c[a.v]++; if (a.kind == 1 || a.kind == 4) other = 1; if (wild && t == wild && a.kind == 1) uw = 1; }
    if (err && m->s[s].gt[err] >= 0) other = 1;
    if (!uw) for (int q = 1; q < g.nr; q++) if (c[q] > (best ? c[best] : 0)) best = q;
    if (best && wild) { lact a = lem_action(&g, m, s, wild); if (a.kind == 2 && a.v != best) best = 0; }
    if (best) { int fold = 0; for (int t = 0; t < g.nt; t++) { lact a = lem_action(&g, m, s, t); if (a.kind != 2 || a.v != best) continue; lact b = {0}; if (fb[t]) b = lem_action(&g, m, s, fb[t]); if (!b.kind || (b.kind == 2 && b.v == best)) fold = 1; } if (!fold) best = 0; }
    if (best) for (int q = 1; q < g.nr; q++) if (q != best && c[q] == c[best]) { /* tie: the rule whose first lookahead comes first */ int fq = -1, fbst = -1; for (int t = g.nt - 1; t >= 0; t--) { lact a = lem_action(&g, m, s, t); if (a.kind == 2 && a.v == q) fq = CODES[(unsigned char)sp_tok[t]]; } (void)fq; (void)fbst; sym_limit_exceeded(); }
    dfl[s] = best; for (int q = 1; q < g.nr; q++) if (q != best && c[q]) other = 1; for (int q = 0; q < g.nn; q++) if (m->s[s].gn[q] >= 0) other = 1;
    for (int t = 0; t < g.nt; t++) { lact a = lem_action(&g, m, s, t); if (a.kind == 2 && g.r[a.v].lhs == g.start) other = 1; }
    aut[s] = !other ? best : 0; }
  int N = P("n", 5), alpha = 0, map[MAXT]; for (int t = 1; t < g.nt; t++) if (sp_tok[t] != '?') map[alpha++] = t;
  mf_reset();
  if (P("trace", 0)) ParseTrace(ml_stdout, "T");
  for (int t = 1; t < g.nt; t++) if (t != err && ParseFallback(CODES[(unsigned char)sp_tok[t]]) != (fb[t] ? CODES[(unsigned char)sp_tok[fb[t]]] : 0)) failf("ParseFallback of token %c is wrong", sp_tok[t]);
  int live = ml_live; ml_allocs = 0; ml_fail_at = P("fault", 0) ? sym_pick("fail", 0, 3) : 0;
  if (ml_fail_at == 2 && depth <= 0) ;          /* the first stack block: one entry on the object itself */
  peak = 0;
#if EXTRA
  void *pp = ParseAlloc(malloc, 4711);
#else
  void *pp = ParseAlloc(malloc);
#endif
  if (!pp) { if (ml_fail_at != 1) failf("ParseAlloc fails"); return; }
  static txt ref, note; O = &ref; ref.n = out.n = note.n = 0; cnt = -1; n = 0; st[0] = 0; sy[0] = 0; ndl = 0; t_s(&note, SPEC); t_s(&note, " tokens: ");
  int pre = P("pre", 0), end = 0, multi = P("multi", 1); unsigned char c[64]; for (int j = 0; j < N; j++) { char nm[8]; sprintf(nm, "t%d", j); c[j] = sym_byte(nm, 0, alpha); }
  static int dd[512]; int np = 0;
  for (int j = 0; j < pre + N + 1; j++) {
    int t, v = 10 + 3 * j; if (j < pre) t = map[P("pretok", 0)]; else if (j == pre + N || end) t = 0; else { int x = c[j - pre]; t = x ? map[x - 1] : 0; }
    if (t) t_c(&note, sp_tok[t]); else { t_c(&note, '$'); if (--multi <= 0 || j == pre + N) end = 1; v = 0; }
    if (j == pre) sym_note(note.b);
    ndl = 0; int mj = t ? CODES[(unsigned char)sp_tok[t]] : 0;
#if EXTRA
    xarg = 100 + j; Parse(pp, mj, v, xarg);
#else
    Parse(pp, mj, v);
#endif
    int over = ml_fail_at && ml_allocs >= ml_fail_at && ml_fail_at == 3; if (v == 0) { int q = 0; for (int z = 0; z < ndl; z++) if (dl[z]) dl[q++] = dl[z]; ndl = q; } flush(&out);
    if (over && out.n > 0 && strstr(out.b, "O ")) break;
    ndl = 0; ref_token(t, v); { int q = 0; for (int z = 0; z < ndl; z++) if (dl[z]) dl[q++] = dl[z]; ndl = q; } flush(&ref);
    if (strcmp(out.b, ref.b)) { sym_note(note.b); failf("tokens %s\nparser: %s\nexpected: %s", note.b, out.n > 600 ? out.b + out.n - 600 : out.b, ref.n > 600 ? ref.b + ref.n - 600 : ref.b); }
#if TRACK
    if (!strstr(ref.b, "O ") && ParseStackPeak(pp) != peak) { sym_note(note.b); failf("the peak of the stack is %d, ParseStackPeak says %d", peak, ParseStackPeak(pp)); }
#endif
    if (end) break;
  }
  (void)dd; (void)np;
  sym_note(note.b); sym_nontrivial();
  ndl = 0; xarg = -1; ParseFree(pp, free); txt *a = &out; if (!ml_fail_at || strstr(out.b, "O ") == 0) { flush(a); ndl = 0; popall(); flush(&ref); if (strcmp(out.b, ref.b)) failf("after freeing: parser: %s\nexpected: %s", out.b, ref.b); }
  if (ml_live != live) failf("%d blocks are not freed by ParseFree", ml_live - live);
}
