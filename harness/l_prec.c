/* lemon: precedence.  Two precedence declarations of symbolic kind, every operator on a symbolic level (or
 * none), symbolic [X] marks on rules; -u, -z, %yacc_prec and %expect.  Tables, conflict totals and the exit
 * status must be what lemon's documented resolution gives. */
#define NO_YACC
#include "lrep.h"
static const char *KW[] = { 0, "left", "right", "nonassoc", "precedence" };
void sym_harness(void) {
  int opt = P("opt", 0), np = P("np", 2), ex = P("expect", 0), tern = P("tern", 0);
  static const char *tn[7] = { "$", "A", "B", "C", "N", "M", "D" }, *nn[3] = { "s", "e", "f" };
  txt t = {0}; gram g; g_init(&g, 7, 3, 0);
  int from_[MAXR] = {0}, marks[MAXR] = {0}; int lvl[7] = {0}, kind[3] = {0}, pr[6] = {0}; char code[MAXR] = {0};
  t_s(&t, "%token A B C N M D.\n");
  if (opt == 3) t_s(&t, "%yacc_prec\n");
  kind[1] = sym_pick("k1", 1, 4); kind[2] = P("k2", 1) ? sym_pick("k2", 1, 4) : 2;
  for (int i = 1; i <= 3; i++) { char b[8]; sprintf(b, "l%d", i); lvl[i] = sym_pick(b, 0, 2); }
  if (P("lm", 0)) lvl[4] = sym_pick("lm", 0, 2);
  for (int l = 1; l <= 2; l++) { t_c(&t, '%'); t_s(&t, KW[kind[l]]); for (int i = 1; i <= 5; i++) if (lvl[i] == l) { t_c(&t, ' '); t_s(&t, tn[i]); } t_s(&t, ".\n"); }
  for (int i = 0; i < np; i++) { char b[8]; sprintf(b, "p%d", i); pr[i] = sym_pick(b, 0, 3); }
  int nx = 0; if (ex) { nx = sym_pick("xs", 0, ex); t_s(&t, "%expect "); t_d(&t, nx); t_s(&t, "\n"); }
  static const int R[9][6] = { {0, NT(1), -1}, {0, NT(2), -1}, {1, NT(1), 1, NT(1), -1}, {1, NT(1), 2, NT(1), -1}, {1, 3, NT(1), -1}, {1, NT(1), 3, NT(1), -1}, {1, 4, -1}, {2, 4, -1}, {2, 5, 4, -1} };
  static const int R2[9][6] = { {0, NT(1), -1}, {0, NT(2), -1}, {1, NT(1), 1, NT(1), 2, NT(1)}, {1, NT(1), 2, NT(1), -1}, {1, 3, NT(1), 2, -1}, {1, 2, 4, 1, -1}, {1, 4, -1}, {2, 4, -1}, {2, 5, 4, -1} };
  static const int pslot[9] = { -1, -1, 0, 1, 2, -1, 3, 4, -1 };
  for (int r = 0; r < 9; r++) { const int *X = tern ? R2[r] : R[r];
    int q = g_rule(&g, X[0]); t_s(&t, nn[X[0]]); t_s(&t, " ::=");
    for (int i = 1; i < 6 && X[i] > 0; i++) { t_c(&t, ' '); t_s(&t, ISN(X[i]) ? nn[X[i] - 1000] : tn[X[i]]); g_sym(&g, q, X[i]); }
    t_c(&t, '.'); int p = pslot[r] < 0 ? 0 : pr[pslot[r]]; if (p) { t_s(&t, " ["); t_s(&t, tn[p]); t_c(&t, ']'); } t_c(&t, '\n');
    /* the rule's precedence: the mark; else its first terminal with a precedence (yacc's way: its last terminal) */
    int from = 0; if (p) from = p; else for (int i = 1; i < 6 && X[i] > 0; i++) if (!ISN(X[i])) { if (opt >= 2) from = X[i]; else if (!from && lvl[X[i]]) from = X[i]; }
    from_[q] = from; marks[q] = p;
    g.r[q].prec = from ? lvl[from] : 0; g.r[q].assoc = from && lvl[from] ? kind[lvl[from]] : 0;
  }
  for (int i = 1; i <= 6; i++) { g.tprec[i] = lvl[i]; g.tassoc[i] = kind[lvl[i]]; }
  if (opt == 1) { for (int i = 0; i < 7; i++) g.tprec[i] = 0; for (int r = 0; r < g.nr; r++) g.r[r].prec = 0; }
  sym_note(t.b);
  mf_reset(); mf_put("g.y", t.b, t.n); mf_put("t", LEMPAR, sizeof LEMPAR - 1);
  int c = P("c", 0), rc = run_tool(lemon_main, P("rep", 0) ? opt == 1 ? "lemon -u -p -S -Tt g.y" : opt == 2 ? "lemon -z -p -S -Tt g.y" : c ? "lemon -c -S -Tt g.y" : "lemon -p -S -Tt g.y" : opt == 1 ? "lemon -u -q -Tt g.y" : opt == 2 ? "lemon -z -q -Tt g.y" : c ? "lemon -c -q -Tt g.y" : "lemon -q -Tt g.y");
  const char *out = fdata("g.c"), *err = fdata("<stderr>");
  if (!out) failf("no g.c, exit status %d, %s", rc, err);
  sym_nontrivial();
  ltab *y = lt_read(out); lr *m = lr_build(&g);
  if (P("rep", 0)) { lrep_check(&g, m, y, tn, nn, code, opt == 1 ? 0 : from_, !c); lhead_check(y, ""); if (opt != 1) sql_check(&g, y, tn, nn, marks); return; }
  int conf = lt_compare(&g, m, y, tn, nn, code, !c);
  int said = lem_conflicts();
  if (said != (conf == nx ? 0 : conf)) failf("%d conflicts are reported, the grammar has %d, %d expected", said, conf, nx);
  int never = 0; for (int r = 1; r < g.nr; r++) { int used = 0; for (int s = 0; s < m->n; s++) for (int u = 0; u < g.nt; u++) { lact a = lem_action(&g, m, s, u); if (a.kind == 2 && a.v == r) used = 1; } if (!used) never++; }
  if (rc != (conf != nx || never)) failf("exit status %d with %d conflicts (%d expected) and %d useless rules", rc, conf, nx, never);
}
