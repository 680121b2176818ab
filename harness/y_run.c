/* A parser generated by byacc from SPEC, run on every token sequence up to a length, against the reference
 * driver: same reads, reductions, values, positions, error reports, recovery, destructor calls and result. */
#define NO_LEMON
#define NO_YACC
#include "rp.h"
#include "genconf.h"    /* SPEC, PREC, BT, DESTR, LOC, INIT, MAX */
static txt out; static rp R; static int pos; static int fail_n;
int cur_val; loc_t cur_loc;
int h_yyparse(void);
int h_lex(void) { if (!BACK) t_c(&out, 'L'); if (pos > R.ntok) failf("the parser reads past the end marker"); if (pos < R.ntok) { int t = R.tok[pos]; cur_val = R.val[pos]; cur_loc = R.tl[pos]; pos++; return t >= 900 ? 'Z' : sp_tok[t]; } pos++; return P("eof", 0) ? -1 : 0; }
void h_error(const char *m) { t_s(&out, "E<"); t_s(&out, m); t_c(&out, '>'); R.nerr++; }
int h_act(int rule, int n, const int *v, const loc_t *l) { log_rule(&out, rule, n, v, l); return sp_value(rule, n, v); }
void h_destr(int sym, int val, int state) { t_c(&out, state ? 'd' : 'D'); t_d(&out, sym >= 'a' && sym <= 'z' ? sp_sym(R.g, sym) : sp_sym(R.g, sym)); t_c(&out, ':'); t_d(&out, val); t_c(&out, ' '); }
void h_zero(int v) { t_c(&out, 'z'); t_d(&out, v); t_c(&out, ' '); }
void sym_harness(void) {
  static gram g; sp_gram(&g, SPEC, PREC); R.g = &g; R.m = lr_build(&g); R.bt = BT; R.back = BACK; R.destr = DESTR; R.loc = LOC; R.init = INIT; R.max = MAX;
  int n = P("n", 5), alpha = 0, map[MAXT]; for (int t = 1; t < g.nt; t++) if (sp_tok[t] != '?') map[alpha++] = t;
  if (P("unk", 1)) map[alpha++] = 900;
  int runs = P("runs", 1); mf_reset();
  for (int q = 0; q < runs; q++) {
  R.ntok = 0; static txt note; note.n = 0; note.b[0] = 0; t_s(&note, SPEC); t_s(&note, " tokens: ");
  unsigned char c[64];
  for (int i = 0; i < n; i++) { char nm[12]; sprintf(nm, "t%d_%d", q, i); c[i] = sym_byte(nm, 0, alpha); }
  for (int i = 0; i < n; i++) { int x = c[i]; if (!x) break; R.tok[R.ntok] = map[x - 1]; R.val[R.ntok] = 10 + 3 * i + q; R.tl[R.ntok] = (loc_t){i + 1, i * 10, i + 1, i * 10 + 5}; R.ntok++; t_c(&note, map[x - 1] >= 900 ? 'Z' : sp_tok[map[x - 1]]); }
  sym_note(note.b); if (R.ntok) sym_nontrivial();
  out.n = 0; out.b[0] = 0; pos = 0;
  int live = ml_live, k = h_yyparse(); t_c(&out, '='); t_d(&out, k);
  static txt ref; ref.n = 0; ref.b[0] = 0; R.o = &ref; BACK ? rp_back(&R) : rp_parse(&R);
  if (strcmp(out.b, ref.b)) failf("parser: %s\n expected: %s", out.b, ref.b);
  if (PURE && ml_live != live) failf("%d blocks are still allocated after a parse", ml_live - live);
  }
}
