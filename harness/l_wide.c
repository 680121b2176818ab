/* lemon: the same question as l_lalr, in grammars so large that the hash tables, free lists and the action
 * table have to grow:  s ::= d0. s ::= h h.  d0 ::= d1 P0. ... d(pn-1) ::= a P.  [more alternatives]  a ::= h h. a ::= h. */
#define HC_BIG
#define NO_YACC
#include "lc.h"
void sym_harness(void) {
  int lens[4] = { P("s1", 1), P("s2", 1), P("a1", 1), P("a2", -1) }, lhs[4], pt = P("pt", 20), pn = P("pn", 31), extra = P("extra", 0);
  if (P("dt", 0)) pt += sym_pick("dt", 0, P("dt", 0)); if (P("dn", 0)) pn += sym_pick("dn", 0, P("dn", 0));
  static const char *nn[MAXN], *tn[MAXT]; static char nm_[MAXN + MAXT][8]; int k = 0;
  static txt t; static gram g; t.n = 0; g_init(&g, pt + 3, pn + 2, 0); static char code[MAXR]; unsigned char hole[4][4]; int n = 0;
  int S = 0, A = pn + 1, ta = pt + 1, tb = pt + 2; nn[S] = "s"; nn[A] = "a"; tn[0] = "$"; tn[ta] = "A"; tn[tb] = "B";
  for (int i = 0; i < pn; i++) { sprintf(nm_[k], "d%d", i); nn[1 + i] = nm_[k++]; }
  t_s(&t, "%token A B.\n%token");
  for (int i = 0; i < pt; i++) { sprintf(nm_[k], "P%d", i); tn[1 + i] = nm_[k++]; t_c(&t, ' '); t_s(&t, tn[1 + i]); }
  t_s(&t, ".\ns ::= d0.\n"); char b[80];
  lhs[0] = lhs[1] = S; lhs[2] = lhs[3] = A;
  for (int i = 0; i < pn; i++) { sprintf(b, "d%d ::= %s P%d.\n", i, nn[i + 1 < pn ? 2 + i : A], i % pt); t_s(&t, b); for (int j = 0; j < extra; j++) { sprintf(b, "d%d ::= P%d P%d P%d.\n", i, (i * 7 + j) % pt, (i * 3 + 2 * j) % pt, j % pt); t_s(&t, b); } }
  for (int r = 0; r < 4; r++) { if (lens[r] < 0) continue;
    t_s(&t, nn[lhs[r]]); t_s(&t, " ::="); int end = 0;
    for (int i = 0; i < lens[r]; i++) { char nm[8]; sprintf(nm, "h%d", n++); hole[r][i] = sym_byte(nm, 0, 4); if (hole[r][i] == 0) end = 1; else { if (end) sym_reject(); t_c(&t, ' '); static const char *HN[] = { 0, "s", "a", "A", "B" }; t_s(&t, HN[sym_conc(hole[r][i])]); } }
    t_s(&t, ".\n"); }
  sym_note(t.b);
  int q = g_rule(&g, S); g_sym(&g, q, NT(1));
  for (int i = 0; i < pn; i++) { q = g_rule(&g, 1 + i); g_sym(&g, q, NT(i + 1 < pn ? 2 + i : A)); g_sym(&g, q, 1 + i % pt); for (int j = 0; j < extra; j++) { q = g_rule(&g, 1 + i); g_sym(&g, q, 1 + (i * 7 + j) % pt); g_sym(&g, q, 1 + (i * 3 + 2 * j) % pt); g_sym(&g, q, 1 + j % pt); } }
  for (int r = 0; r < 4; r++) { if (lens[r] < 0) continue; q = g_rule(&g, lhs[r]); for (int i = 0; i < lens[r]; i++) { int h = sym_conc(hole[r][i]); if (h) g_sym(&g, q, h == 1 ? NT(S) : h == 2 ? NT(A) : h == 3 ? ta : tb); } }
  mf_reset(); mf_put("g.y", t.b, t.n); mf_put("t", LEMPAR, sizeof LEMPAR - 1);
  int c = P("c", 0), rc = run_tool(lemon_main, c == 1 ? "lemon -c -q -Tt g.y" : c == 2 ? "lemon -r -q -Tt g.y" : "lemon -q -Tt g.y");
  const char *out = fdata("g.c"), *err = fdata("<stderr>");
  if (!out) failf("no g.c, exit status %d, %s", rc, err);
  if (!g_productive(&g)) return;
  sym_nontrivial();
  ltab *y = lt_read(out); lr *m = lr_build(&g); int conf = lt_compare(&g, m, y, tn, nn, code, c != 1);
  if (conf != lem_conflicts()) failf("%d conflicts are reported, the grammar has %d", lem_conflicts(), conf);
}
