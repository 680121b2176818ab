/* lemon: the emitted tables are the LALR(1) parser of the grammar, for every grammar of a template
 * (tmpl.h), or of the shape  s ::= ??.  s ::= ??.  a ::= ??.  a ::= ?.  b ::= ?.                     */
#define NO_YACC
#include "lrep.h"
#include "tmpl.h"
void sym_harness(void) {
  int lens[5] = { P("s1", 2), P("s2", 2), P("a1", 2), P("a2", -1), P("b1", 1) }, lhs[5] = { 0, 0, 1, 1, 2 }, codes = P("codes", 0), tm = P("tm", -1), t1 = P("t1", tm);
  if (t1 > tm) tm = sym_pick("template", tm, t1);
  const char *spec = tm >= 0 ? TMPL[tm] : tmpl_shape(lens, lhs, 5);
  static txt t; static gram g; static tmpl T; static char code[MAXR]; t.n = 0; for (int i = 0; i < MAXR; i++) code[i] = i && i < 20 && (codes >> i & 1);
  tmpl_text(&T, spec, &t, 0, tm >= 0 ? 0 : P("nt", 3), code);
  int fbk = P("fb", 0), wild = P("wild", 0); if (fbk) t_s(&t, fbk == 1 ? "%fallback A B.\n" : "%fallback A B C.\n"); if (wild) t_s(&t, wild == 1 ? "%wildcard B.\n" : "%wildcard C.\n");
  for (int i = 0; i < MAXT; i++) lc_fb[i] = 0; if (fbk) lc_fb[2] = 1; if (fbk > 1) lc_fb[3] = 1; lc_wild = wild ? wild + 1 : 0;
  const char *const *tn_ = T.tn; const char **tn = (const char **)tn_, **nn = T.nn;
  sym_note(t.b);
  mf_reset(); mf_put("g.y", t.b, t.n); mf_put("t", LEMPAR, sizeof LEMPAR - 1);
  int c = P("c", 0), rc = run_tool(lemon_main, P("rep", 0) ? c == 1 ? "lemon -c -p -S -Tt g.y" : "lemon -S -Tt g.y" : c == 1 ? "lemon -c -q -Tt g.y" : c == 2 ? "lemon -r -q -Tt g.y" : "lemon -q -Tt g.y");
  const char *out = fdata("g.c"), *err = fdata("<stderr>");
  tmpl_gram(&T, &g);
  if (!out) failf("no g.c, exit status %d, %s", rc, err);
  if (!g_productive(&g)) return;     /* some states have no terminal to act on; nothing can be parsed through them */
  sym_nontrivial();
  ltab *y = lt_read(out); lr *m = lr_build(&g);
  if (P("rep", 0)) { int none[MAXR] = {0}; lrep_check(&g, m, y, tn, nn, code, none, c == 1); lhead_check(y, ""); sql_check(&g, y, tn, nn, 0); return; }
  int conf = lt_compare(&g, m, y, tn, nn, code, c != 1);
  if (conf != lem_conflicts()) failf("%d conflicts are reported, the grammar has %d", lem_conflicts(), conf);
  /* rules no state ever reduces by are errors */
  int never = 0; for (int r = 1; r < g.nr; r++) { int used = 0; for (int s = 0; s < m->n; s++) for (int u = 0; u < g.nt; u++) { lact a = lem_action(&g, m, s, u); if (a.kind == 2 && a.v == r) used = 1; } if (!used) never++; }
  int said = 0; for (const char *p = err; (p = strstr(p, "This rule can not be reduced.")); p++) said++;
  if (never != said) failf("%d rules can never be reduced, %d are reported", never, said);
  if (rc != (conf || never)) failf("exit status %d with %d conflicts and %d useless rules", rc, conf, never);
}
