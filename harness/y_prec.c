/* byacc: precedence and associativity.  Two declaration lines of symbolic kind, each of three operators
 * on a symbolic line (or none), symbolic %prec on the rules; -u and -z as parameters.  The tables, the
 * reported conflict counts, %expect and the exit status must follow yacc's rules. */
#define NO_LEMON
#include "rep.h"
static const char *KW[] = { 0, "left", "right", "nonassoc" };
void sym_harness(void) {
  int opt = P("opt", 0), np = P("np", 2), ex = P("expect", 0), names = P("names", 0);
  static const char *TN[2][6] = { { "$end", "'+'", "'*'", "'-'", "'n'", "'m'" }, { "$end", "PLUS", "STAR", "MINUS", "NUM", "MUM" } };
  const char **tn = TN[names]; int tok[6] = { 0, '+', '*', '-', 'n', 'm' }; if (names) for (int i = 1; i < 6; i++) tok[i] = 256 + i;
  txt t = {0}; gram g; g_init(&g, 6, 3, 0); g.rrprec = opt == 2;
  int lvl[6] = {0}, kind[3] = {0}, pr[5] = {0};
  if (names) t_s(&t, "%token PLUS STAR MINUS NUM MUM\n");
  kind[1] = sym_pick("k1", 1, 3); kind[2] = P("k2", 1) ? sym_pick("k2", 1, 3) : 2;
  for (int i = 1; i <= 3; i++) { char b[8]; sprintf(b, "l%d", i); lvl[i] = sym_pick(b, 0, 2); }
  if (P("lm", 0)) lvl[5] = sym_pick("lm", 0, 2);
  for (int l = 1; l <= 2; l++) { int any = 0; for (int i = 1; i <= 5; i++) if (lvl[i] == l) { if (!any) { t_c(&t, '%'); t_s(&t, KW[kind[l]]); any = 1; } t_c(&t, ' '); t_s(&t, tn[i]); } if (any) t_c(&t, '\n'); }
  for (int i = 0; i < np; i++) { char b[8]; sprintf(b, "p%d", i); pr[i] = sym_pick(b, 0, 3); }
  int nsr = -1, nrr = -1;
  if (ex & 1) { nsr = sym_pick("xs", 0, 12); t_s(&t, "%expect "); t_d(&t, nsr); t_c(&t, '\n'); }
  if (ex & 2) { nrr = sym_pick("xr", 0, 4); t_s(&t, "%expect-rr "); t_d(&t, nrr); t_c(&t, '\n'); }
  t_s(&t, "%%\ns : e | f\n;\n");
  /* rules: e: e + e | e * e | - e | n ; f: n | m */
  static const int R[7][4] = { {1, NT(1), 1, NT(1)}, {1, NT(1), 2, NT(1)}, {1, 3, NT(1), -1}, {1, NT(1), 3, NT(1)}, {1, 4, -1, -1}, {2, 4, -1, -1}, {2, 5, 4, -1} };
  int ri[7]; int q = g_rule(&g, 0); g_sym(&g, q, NT(1)); q = g_rule(&g, 0); g_sym(&g, q, NT(2));
  static const int pslot[7] = { 0, 1, 2, -1, 3, 4, -1 };
  for (int r = 0; r < 7; r++) {
    t_s(&t, r == 0 ? "e :" : r == 5 ? "f :" : " |");
    ri[r] = q = g_rule(&g, R[r][0]);
    for (int i = 1; i < 4; i++) { int x = R[r][i]; if (x < 0) break; t_c(&t, ' '); t_s(&t, ISN(x) ? "e" : tn[x]); g_sym(&g, q, x); }
    int p = pslot[r] < 0 ? 0 : pr[pslot[r]]; if (p) { t_s(&t, " %prec "); t_s(&t, tn[p]); }
    /* the rule's precedence: %prec, or its last terminal (with -z its first that has one) */
    int from = 0; if (p) from = p; else for (int i = 1; i < 4; i++) { int x = R[r][i]; if (x < 0) break; if (!ISN(x) && !(opt == 2 && from && lvl[from])) from = x; }
    g.r[q].prec = from ? lvl[from] : 0; g.r[q].assoc = from && lvl[from] ? kind[lvl[from]] : 0;
    t_s(&t, r == 4 || r == 6 ? "\n;\n" : "\n");
  }
  for (int i = 1; i <= 5; i++) { g.tprec[i] = lvl[i]; g.tassoc[i] = kind[lvl[i]]; }
  if (opt == 1) { for (int i = 0; i < 6; i++) g.tprec[i] = 0; for (int r = 0; r < g.nr; r++) g.r[r].prec = 0; }
  sym_note(t.b);
  mf_reset(); mf_put("g.y", t.b, t.n);
  int rep = P("rep", 0), rc = run_tool(P("bt", 0) ? btyacc_main : yacc_main, rep && opt ? opt == 1 ? "yacc -u -v -g g.y" : "yacc -z -v -g g.y" : opt == 1 ? "yacc -u g.y" : opt == 2 ? "yacc -z g.y" : P("bt", 0) == 2 ? "yacc -B g.y" : rep ? "yacc -v -g g.y" : "yacc g.y");
  const char *c = fdata("y.tab.c"), *err = fdata("<stderr>"); if (!c) failf("no y.tab.c");
  sym_nontrivial();
  ytab *y = yt_read(c); lr *m = lr_build(&g); int nts[3] = { y->lhs[1], y->lhs[3], y->lhs[8] };
  if (rep) { static const char *nn[] = { "s", "e", "f" }; rep_check(&g, m, y, tn, nn, tok, g.nt); dot_check(&g, m, tn, nn); return; }
  y_counts(&g, m, err, rc, nsr, nrr);
  yt_compare(&g, m, y, tok, nts, 1);
}
