/* byacc: three-way conflicts.  Three precedence lines of symbolic kind, three rules "N" with symbolic %prec that
 * meet each other and a shift in one state; -u and -z as parameters. */
#define NO_LEMON
#include "rep.h"
static const char *KW[] = { 0, "left", "right", "nonassoc", "precedence" };
static const char *tn[6] = { "$end", "'+'", "'*'", "'-'", "'n'", "'m'" }, *nn[4] = { "s", "e", "f", "k" }; static int tok[6] = { 0, '+', '*', '-', 'n', 'm' };
void sym_harness(void) {
  int opt = P("opt", 0), ex = P("expect", 0), bt = P("bt", 0), kinds = P("kinds", 1); txt t = {0}; gram g; g_init(&g, 6, 4, 0); g.rrprec = opt == 2;
  int kind[4], pr[3], nsr = -1, nrr = -1; char b[16];
  for (int i = 1; i <= 3; i++) { sprintf(b, "k%d", i); kind[i] = kinds ? sym_pick(b, 1, 3) : i; t_c(&t, '%'); t_s(&t, KW[kind[i]]); t_c(&t, ' '); t_s(&t, tn[i]); t_c(&t, '\n'); g.tprec[i] = i; g.tassoc[i] = kind[i]; }
  for (int i = 0; i < 3; i++) { sprintf(b, "p%d", i); pr[i] = P("marks", 1) ? sym_pick(b, 0, 3) : 0; }
  if (ex & 1) { nsr = sym_pick("xs", 0, 10); t_s(&t, "%expect "); t_d(&t, nsr); t_c(&t, '\n'); }
  if (ex & 2) { nrr = sym_pick("xr", 0, 10); t_s(&t, "%expect-rr "); t_d(&t, nrr); t_c(&t, '\n'); }
  static const int R[13][5] = { {0, NT(1), 1, 5, -1}, {0, NT(1), 3, -1}, {0, NT(2), -1}, {0, NT(2), 1, 4, -1}, {0, NT(2), 2, 4, -1}, {0, NT(3), 1, NT(1), -1}, {0, NT(3), -1}, {0, 4, 1, NT(2), -1}, {0, 4, 2, 5, -1}, {0, 5, -1}, {1, 4, -1}, {2, 4, -1}, {3, 4, -1} };
  t_s(&t, "%%\n");
  for (int r = 0; r < 13; r++) { int l = R[r][0], q = g_rule(&g, l); if (!r || R[r - 1][0] != l) { t_s(&t, r ? " ;\n" : ""); t_s(&t, nn[l]); t_s(&t, " :"); } else t_s(&t, " |"); int last = 0;
    for (int i = 1; i < 5 && R[r][i] > 0; i++) { int x = R[r][i]; t_c(&t, ' '); t_s(&t, ISN(x) ? nn[x - 1000] : tn[x]); g_sym(&g, q, x); if (!ISN(x)) { if (!(opt == 2 && last && last <= 3)) last = x; } }
    if (l && pr[l - 1]) { last = pr[l - 1]; t_s(&t, " %prec "); t_s(&t, tn[last]); }
    g.r[q].prec = last <= 3 ? last : 0; g.r[q].assoc = last <= 3 && last ? kind[last] : 0; }
  t_s(&t, " ;\n"); if (opt == 1) { for (int i = 0; i < 6; i++) g.tprec[i] = 0; for (int r = 0; r < g.nr; r++) g.r[r].prec = 0; }
  sym_note(t.b); mf_reset(); mf_put("g.y", t.b, t.n);
  int rc = run_tool(bt ? btyacc_main : yacc_main, opt == 1 ? "yacc -u -v -g g.y" : opt == 2 ? "yacc -z -v -g g.y" : "yacc -v -g g.y");
  const char *c = fdata("y.tab.c"), *err = fdata("<stderr>"); if (!c) failf("no y.tab.c");
  sym_nontrivial();
  ytab *y = yt_read(c); lr *m = lr_build(&g); int nts[4]; for (int r = 1; r < g.nr; r++) nts[g.r[r].lhs] = y->lhs[r];
  if (P("rep", 0)) { rep_check(&g, m, y, tn, nn, tok, g.nt); dot_check(&g, m, tn, nn); return; }
  y_counts(&g, m, err, rc, nsr, nrr); yt_compare(&g, m, y, tok, nts, 1);
}
