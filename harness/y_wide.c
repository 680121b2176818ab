/* byacc: the same question as y_lalr, in grammars so large that sets span several machine words and
 * the tables of the reader and of the packer have to grow:
 *   %token P0.. (pt dummies)   S: h h | D0 ;  D0: D1 P ... D(pn-1): A P ;  [more alternatives]  A: h h | h ;
 * holes: nothing, S, A, 'a', 'b'; the dummies push a, b, A and A's rules across the word boundaries. */
#define HC_BIG
#define NO_LEMON
#include "hc.h"
void sym_harness(void) {
  int pt = P("pt", 28), pn = P("pn", 31), lens[4] = { P("s1", 1), P("s2", 1), P("a1", 1), P("a2", -1) }, wide = P("wide", 0), step = P("step", 1), extra = P("extra", 0);
  if (P("dt", 0)) pt += sym_pick("dt", 0, P("dt", 0)); if (P("dn", 0)) pn += sym_pick("dn", 0, P("dn", 0));
  static txt t; static gram g; static int tok[MAXT], nts[MAXN]; char b[40];
  int na = 1 + pt, nb = na + 1;                 /* terminals: 1..pt dummies, then a, b */
  g_init(&g, pt + 3, pn + 2, 0); t.n = 0;
  t_s(&t, "%token");
  for (int i = 0; i < pt; i++) { sprintf(b, " P%d %d", i, 300 + i * step); t_s(&t, b); tok[1 + i] = 300 + i * step; }
  t_s(&t, " 'a' 'b'\n%%\n"); tok[na] = 'a'; tok[nb] = 'b';
  txt d = {0}; unsigned char hole[4][4]; int n = 0;
  int S = 0, A = pn + 1;
  static int lhs[MAXR]; int nl = 1; 
  /* S */
  for (int r = 0; r < 4; r++) {
    if (lens[r] < 0) continue;
    if (r == 2) {
      t_s(&t, " ;\n");
      for (int i = 0; i < pn; i++) {
        sprintf(b, i + 1 < pn ? "D%d : D%d P%d" : "D%d : A P%d", i, i + 1 < pn ? i + 1 : i % pt, i % pt); t_s(&t, b); lhs[nl++] = 1 + i;
        for (int j = 0; j < extra; j++) { sprintf(b, " | P%d P%d P%d", (i * 7 + j) % pt, (i * 3 + 2 * j) % pt, j % pt); t_s(&t, b); lhs[nl++] = 1 + i; }
        t_s(&t, " ;\n");
      }
      t_s(&t, "A :");
    } else if (r == 0) t_s(&t, "S : D0 |"); else t_s(&t, " |");
    if (r == 0) nl = 2, lhs[1] = S;
    int end = 0;
    for (int i = 0; i < lens[r]; i++) { sprintf(b, "h%d", n++); hole[r][i] = sym_byte(b, 0, 4); if (hole[r][i] == 0) end = 1; else { if (end) sym_reject(); t_s(&t, " "); int c = hole[r][i] == 1 ? 'S' : hole[r][i] == 2 ? 'A' : hole[r][i] == 3 ? 'a' : 'b';
        if (hole[r][i] >= 3) { t_c(&t, '\''); t_c(&t, c); t_c(&t, '\''); } else t_c(&t, c); } }
  }
  t_s(&t, " ;\n"); (void)d; (void)wide;
  sym_note(t.b);
  int q = g_rule(&g, S); g_sym(&g, q, NT(1));
  for (int r = 0; r < 4; r++) { if (lens[r] < 0) continue;
    if (r == 2) for (int i = 0; i < pn; i++) { q = g_rule(&g, 1 + i); g_sym(&g, q, NT(i + 1 < pn ? 2 + i : A)); g_sym(&g, q, 1 + i % pt); for (int j = 0; j < extra; j++) { q = g_rule(&g, 1 + i); g_sym(&g, q, 1 + (i * 7 + j) % pt); g_sym(&g, q, 1 + (i * 3 + 2 * j) % pt); g_sym(&g, q, 1 + j % pt); } }
    q = g_rule(&g, r >= 2 ? A : S); for (int i = 0; i < lens[r]; i++) { int h = sym_conc(hole[r][i]); if (h) g_sym(&g, q, h == 1 ? NT(S) : h == 2 ? NT(A) : h == 3 ? na : nb); } }
  mf_reset(); mf_put("g.y", t.b, t.n);
  int rc = run_tool(P("bt", 0) ? btyacc_main : yacc_main, P("bt", 0) == 2 ? "yacc -B g.y" : "yacc -v g.y");
  if (rc) failf("yacc exits with %d on a valid grammar", rc);
  const char *c = fdata("y.tab.c"); if (!c) failf("no y.tab.c");
  sym_nontrivial();
  ytab *y = yt_read(c); lr *m = lr_build(&g);
  for (int r = 1; r < g.nr; r++) nts[g.r[r].lhs] = r < y->nlhs ? y->lhs[r] : -1;
  for (int i = 0; i < g.nn; i++) for (int j = 0; j < i; j++) if (nts[i] == nts[j]) failf("two nonterminals have number %d", nts[i]);
  yt_compare(&g, m, y, tok, nts, 1);
}
