/* lemon: token classes.  k = A|B and j = A|C may occur anywhere a token may; the tables must do for A, B
 * and C what the LALR(1) parser of the grammar does that has one token for k and one for j.
 * States where both classes have something to do are ambiguous on A; there only B and C are checked. */
#define NO_YACC
#include "lrep.h"
#include "tmpl.h"
static lr *copy_lr(lr *m) { lr *c = malloc(sizeof *c); memcpy(c, m, sizeof *c); return c; }
void sym_harness(void) {
  int tm = P("tm", 0), t1 = P("t1", tm), c = P("c", 0); static char code[MAXR];
  if (t1 > tm) tm = sym_pick("template", tm, t1);
  static txt t; static gram g; static tmpl T; t.n = 0; tmpl_cls = 1;
  tmpl_text(&T, TMPL[tm], &t, 0, 4, 0); sym_note(t.b);
  mf_reset(); mf_put("g.y", t.b, t.n); mf_put("t", LEMPAR, sizeof LEMPAR - 1);
  int clash = 0, rc = run_tool(lemon_main, c == 1 ? "lemon -c -q -Tt g.y" : "lemon -q -Tt g.y");
  const char *out = fdata("g.c"), *err = fdata("<stderr>");
  tmpl_gram(&T, &g); if (!out) failf("no g.c, exit status %d, %s", rc, err);
  if (!g_productive(&g)) return;
  lr *m = lr_build(&g), *u = copy_lr(m);
  /* u: what token A does */
  for (int s = 0; s < m->n; s++) { lact a = lem_action(&g, m, s, 1), b = lem_action(&g, m, s, 2); if (a.kind && b.kind && !(a.kind == 2 && b.kind == 2 && a.v == b.v)) clash = 1;
    if (u->s[s].gt[1] < 0) u->s[s].gt[1] = u->s[s].gt[2]; for (int i = 0; i < u->s[s].n; i++) if (u->s[s].it[i].la >> 2 & 1) u->s[s].it[i].la |= L1(1); u->s[s].gt[2] = u->s[s].gt[1]; for (int i = 0; i < u->s[s].n; i++) if (u->s[s].it[i].la >> 1 & 1) u->s[s].it[i].la |= L1(2); }
  sym_nontrivial();
  ltab *y = lt_read(out); lc_alias[1] = "A|B"; lc_alias[2] = "A|C";
  T.tn[1] = T.tn[2] = "A"; if (!clash) lt_compare(&g, u, y, T.tn, T.nn, code, c != 1);
  T.tn[1] = "B"; T.tn[2] = "C"; lt_compare(&g, m, y, T.tn, T.nn, code, c != 1);
  if (clash) return;
  int conf = 0; for (int s = 0; s < m->n; s++) { for (int x = 0; x < g.nt; x++) conf += lem_action(&g, m, s, x).conf; conf += lem_action(&g, u, s, 1).conf; }
  if (conf != lem_conflicts()) failf("%d conflicts are reported, the grammar has %d", lem_conflicts(), conf);
}
