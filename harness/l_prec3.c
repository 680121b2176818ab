/* lemon: three-way conflicts.  Three precedence declarations of symbolic kind, three rules "N" with symbolic marks that meet
 * each other and a shift in one state. */
#define NO_YACC
#include "lrep.h"
static const char *KW[] = { 0, "left", "right", "nonassoc", "precedence" };
void sym_harness(void) {
  int opt = P("opt", 0), c = P("c", 0), kinds = P("kinds", 3); static const char *tn[6] = { "$", "A", "B", "C", "N", "M" }, *nn[4] = { "s", "e", "f", "k" };
  txt t = {0}; gram g; g_init(&g, 6, 4, 0); int from_[MAXR] = {0}, marks[MAXR] = {0}; int kind[4], pr[3]; char b[16]; char code[MAXR] = {0};
  t_s(&t, "%token A B C N M.\n");
  for (int i = 1; i <= 3; i++) { sprintf(b, "k%d", i); kind[i] = kinds > 1 ? sym_pick(b, 1, kinds) : i; t_c(&t, '%'); t_s(&t, KW[kind[i]]); t_c(&t, ' '); t_s(&t, tn[i]); t_s(&t, ".\n"); g.tprec[i] = i; g.tassoc[i] = kind[i]; }
  for (int i = 0; i < 3; i++) { sprintf(b, "p%d", i); pr[i] = sym_pick(b, 0, 3); }
  static const int R[13][5] = { {0, NT(1), 1, 5, -1}, {0, NT(1), 3, -1}, {0, NT(2), -1}, {0, NT(2), 1, 4, -1}, {0, NT(2), 2, 4, -1}, {0, NT(3), 1, NT(1), -1}, {0, NT(3), -1}, {0, 4, 1, NT(2), -1}, {0, 4, 2, 5, -1}, {0, 5, -1}, {1, 4, -1}, {2, 4, -1}, {3, 4, -1} };
  for (int r = 0; r < 13; r++) { int l = R[r][0], q = g_rule(&g, l), from = 0; t_s(&t, nn[l]); t_s(&t, " ::=");
    for (int i = 1; i < 5 && R[r][i] > 0; i++) { int x = R[r][i]; t_c(&t, ' '); t_s(&t, ISN(x) ? nn[x - 1000] : tn[x]); g_sym(&g, q, x); if (!ISN(x)) { if (opt >= 2) from = x; else if (!from && x <= 3) from = x; } }
    t_c(&t, '.'); if (l && pr[l - 1]) { from = pr[l - 1]; t_s(&t, " ["); t_s(&t, tn[from]); t_s(&t, "]"); } t_c(&t, '\n');
    from_[q] = from; marks[q] = l ? pr[l - 1] : 0;
    g.r[q].prec = from <= 3 ? from : 0; g.r[q].assoc = from && from <= 3 ? kind[from] : 0; }
  if (opt == 1) { for (int i = 0; i < 6; i++) g.tprec[i] = 0; for (int r = 0; r < g.nr; r++) g.r[r].prec = 0; }
  sym_note(t.b); mf_reset(); mf_put("g.y", t.b, t.n); mf_put("t", LEMPAR, sizeof LEMPAR - 1);
  int rc = run_tool(lemon_main, P("rep", 0) ? opt == 1 ? "lemon -u -p -S -Tt g.y" : opt == 2 ? "lemon -z -p -S -Tt g.y" : c ? "lemon -c -S -Tt g.y" : "lemon -p -S -Tt g.y" : opt == 1 ? "lemon -u -q -Tt g.y" : opt == 2 ? "lemon -z -q -Tt g.y" : c ? "lemon -c -q -Tt g.y" : "lemon -q -Tt g.y");
  const char *out = fdata("g.c"), *err = fdata("<stderr>"); if (!out) failf("no g.c, exit status %d, %s", rc, err);
  sym_nontrivial();
  ltab *y = lt_read(out); lr *m = lr_build(&g);
  if (P("rep", 0)) { lrep_check(&g, m, y, tn, nn, code, opt == 1 ? 0 : from_, !c); lhead_check(y, ""); if (opt != 1) sql_check(&g, y, tn, nn, marks); return; }
  int conf = lt_compare(&g, m, y, tn, nn, code, !c), said = lem_conflicts();
  if (said != conf) failf("%d conflicts are reported, the grammar has %d", said, conf);
  int never = 0; for (int r = 1; r < g.nr; r++) { int used = 0; for (int s = 0; s < m->n; s++) for (int u = 0; u < g.nt; u++) { lact a = lem_action(&g, m, s, u); if (a.kind == 2 && a.v == r) used = 1; } if (!used) never++; }
  if (rc != (conf || never)) failf("exit status %d with %d conflicts and %d useless rules", rc, conf, never);
}
