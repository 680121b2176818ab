/* byacc: the emitted tables are the LALR(1) parser of the grammar, for every grammar of a template
 * (tmpl.h), or of the shape  S: ?? | ?? ;  A: ?? | ? ;                                           */
#define NO_LEMON
#include "rep.h"
#include "tmpl.h"
void sym_harness(void) {
  int lens[4] = { P("s1", 3), P("s2", 2), P("a1", 2), P("a2", 0) }, lhs[4] = { 0, 0, 1, 1 }, tm = P("tm", -1), t1 = P("t1", tm), bt = P("bt", 0);
  if (t1 > tm) tm = sym_pick("template", tm, t1);
  const char *spec = tm >= 0 ? TMPL[tm] : tmpl_shape(lens, lhs, 4);
  static txt t; static gram g; static tmpl T; t.n = 0;
  t_s(&t, "%%\n"); tmpl_text(&T, spec, &t, 1, tm >= 0 ? 0 : 3, 0);
  sym_note(t.b);
  mf_reset(); mf_put("g.y", t.b, t.n);
  int rc = run_tool(bt ? btyacc_main : yacc_main, P("rep", 0) ? "yacc -v -g g.y" : P("opt", 0) ? "yacc -u g.y" : bt == 2 ? "yacc -B -v g.y" : "yacc -v g.y");
  tmpl_gram(&T, &g);
  g.back = bt == 2;
  if (rc) failf("yacc exits with %d on a valid grammar", rc);
  const char *c = fdata("y.tab.c"); if (!c) failf("no y.tab.c");
  sym_nontrivial();
  ytab *y = yt_read(c); lr *m = lr_build(&g);
  int tok[MAXT] = {0}, nts[MAXN], nused = 1; static char used[MAXT]; memset(used, 0, sizeof used); 
  for (int i = 1; i < g.nt; i++) tok[i] = 'A' + i - 1;
  for (int i = 0; i < g.nn; i++) { nts[i] = -1; for (int r = 1; r < g.nr; r++) if (g.r[r].lhs == i) { nts[i] = y->lhs[r]; break; } }
  if (P("counts", 0)) y_counts(&g, m, fdata("<stderr>"), rc, -1, -1);
  if (P("rep", 0)) { for (int r = 1; r < g.nr; r++) for (int i = 0; i < g.r[r].len; i++) if (!ISN(g.r[r].rhs[i])) used[g.r[r].rhs[i]] = 1; for (int i = 1; i < g.nt; i++) nused += used[i];
    rep_check(&g, m, y, T.tn, T.nn, tok, nused); dot_check(&g, m, T.tn, T.nn); return; }
  yt_compare(&g, m, y, tok, nts, 1);
}
