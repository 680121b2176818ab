/* lemon: grammar exports.  out=0: the grammar -g prints gives the very same parser.  out=1: what -Y prints is a yacc
 * grammar whose tables (byacc -z, rule precedences explicit) are those of the grammar; out=2: the same for -y, where yacc
 * takes the precedences of unmarked rules from their terminals. */
#include "lc.h"
static const char *KW[] = { 0, "left", "right", "nonassoc", "precedence" };
static txt t; static gram g; static const char *tn[7] = { "$", "A", "B", "C", "N", "M", "D" }; static int nt_, lvl[8], kind[4], zopt;
/* a rule as parts: NT(i), terminals, 2000 + i: alternatives, as A|B or a token class */
static const struct { const char *w; int n, t[3]; } ALT[] = { { "A|B", 2, {1, 2} }, { "tc", 2, {2, 3} }, { "C|A|B", 3, {3, 1, 2} }, { "tc", 1, {3} } };
static void expand(int lhs, const int *x, int n, int mark) {
  int tot = 1; for (int i = 0; i < n; i++) if (x[i] >= 2000) tot *= ALT[x[i] - 2000].n;
  int lem = 0; /* lemon's precedence of the whole rule: the mark, or its first terminal with one */
  if (mark) lem = mark; else if (P("yp", 0)) { for (int i = 0; i < n; i++) if (!ISN(x[i])) lem = x[i]; } else for (int i = 0; i < n; i++) { if (x[i] >= 2000) { for (int j = 0; j < ALT[x[i] - 2000].n; j++) { int u = ALT[x[i] - 2000].t[j]; if (!lem && lvl[u]) lem = u; } } else if (!ISN(x[i]) && !lem && lvl[x[i]]) lem = x[i]; }
  for (int k = 0; k < tot; k++) { int q = g_rule(&g, lhs), m = tot, own = 0;
    for (int i = 0; i < n; i++) { int s = x[i]; if (s >= 2000) { int c = ALT[s - 2000].n; m /= c; s = ALT[s - 2000].t[k / m % c]; } g_sym(&g, q, s); if (!ISN(s) && (!zopt || !own || !lvl[own])) own = s; }
    int p = P("out", 0) == 1 ? lem : mark ? mark : own; g.r[q].prec = p ? lvl[p] : 0; g.r[q].assoc = p && lvl[p] ? kind[lvl[p]] : 0; }
}
void sym_harness(void) {
  int out = P("out", 0), shape = P("shape", 0), alts = P("alts", 0), dir = P("dir", 0), z = P("z", 1); static const char *nn[3] = { "s", "a", "b" };
  t.n = 0; memset(lvl, 0, sizeof lvl); zopt = z; int nn_ = 3, start = 0, codes = P("codes", 0);
  int st = dir ? sym_pick("start", 0, 1) : 0, xtra = dir ? sym_pick("extra", 0, 5) : 0;
  if (shape == 0) { /* the LALR shape */
    int lens[5] = { P("s1", 2), P("s2", 2), P("a1", 2), P("a2", -1), P("b1", 1) }, lhs[5] = { 0, 0, 1, 1, 2 }, n = 0, q = 0; unsigned char hole[5][4];
    nt_ = P("nt", 3); nn_ = lens[4] >= 0 ? 3 : 2; int hi = nn_ - 1 + nt_ - 1 + alts; g_init(&g, nt_, nn_, 0);
    t_s(&t, nt_ == 4 ? "%token A B C.\n" : "%token A B.\n"); if (alts > 1) t_s(&t, nt_ == 4 ? "%token_class tc B|C.\n" : "%token_class tc B.\n");
    static const int al[2][2] = { {0, 3}, {0, 1} };
    for (int r = 0; r < 5; r++) { if (lens[r] < 0) continue; int end = 0; q++; t_s(&t, nn[lhs[r]]); t_s(&t, " ::=");
      for (int i = 0; i < lens[r]; i++) { char nm[8]; sprintf(nm, "h%d", n++); hole[r][i] = sym_byte(nm, 0, hi); int h = sym_conc(hole[r][i]); hole[r][i] = h; if (h == 0) end = 1; else { if (end) sym_reject(); t_c(&t, ' '); if (h < nn_) t_s(&t, nn[h]); else if (h < nn_ + nt_ - 1) t_s(&t, tn[h - nn_ + 1]); else t_s(&t, h == nn_ + nt_ - 1 ? "A|B" : "tc"); } }
      t_s(&t, codes >> q & 1 ? ". {}\n" : ".\n"); }
    for (int r = 0; r < 5; r++) { if (lens[r] < 0) continue; int x[4], k = 0; for (int i = 0; i < lens[r]; i++) { int h = hole[r][i]; if (h) x[k++] = h < nn_ ? NT(h) : h < nn_ + nt_ - 1 ? h - nn_ + 1 : 2000 + (h == nn_ + nt_ - 1 ? 0 : nt_ == 4 ? 1 : 3); } expand(lhs[r], x, k, 0); }
    (void)al; if (nt_ == 3 && alts > 1) sym_limit_exceeded();
  } else { /* operators, marks and alternatives */
    static const char *n3[3] = { "s", "e", "f" }; nt_ = 7; nn_ = 3; int lo = P("lo", 1), np = P("np", 2), pr[6] = {0}, al[3] = {0}; g_init(&g, 7, 3, 0); nn[1] = "e"; nn[2] = "f";
    t_s(&t, "%token A B C N M D.\n"); if (alts) t_s(&t, "%token_class tc B|C.\n"); if (P("yp", 0)) t_s(&t, "%yacc_prec\n");
    kind[1] = sym_pick("k1", lo, 4); kind[2] = P("k2", 1) ? sym_pick("k2", 1, 4) : 2;
    for (int i = 1; i <= 3; i++) { char b[8]; sprintf(b, "l%d", i); lvl[i] = sym_pick(b, 0, 2); }
    if (P("lm", 0)) lvl[4] = sym_pick("lm", 0, 2);
    for (int l = 1; l <= 2; l++) { int any = 0; for (int i = 1; i <= 4; i++) any |= lvl[i] == l; if (!any && P("noempty", 0)) continue; t_c(&t, '%'); t_s(&t, KW[kind[l]]); for (int i = 4; i >= 1; i--) if (lvl[i] == l) { t_c(&t, ' '); t_s(&t, tn[i]); } t_s(&t, ".\n"); }
    for (int i = 0; i < np; i++) { char b[8]; sprintf(b, "p%d", i); pr[i] = sym_pick(b, 0, 3); }
    for (int i = 0; i < alts; i++) { char b[8]; sprintf(b, "a%d", i); al[i] = sym_pick(b, 0, 2); }
    int R[9][6] = { {0, NT(1), -1}, {0, NT(2), -1}, {1, NT(1), 1, NT(1), -1}, {1, NT(1), 2, NT(1), -1}, {1, 3, NT(1), -1}, {1, NT(1), 3, NT(1), -1}, {1, 4, -1}, {2, 4, -1}, {2, 5, 4, -1} };
    static const int pslot[9] = { -1, -1, 0, 1, 2, -1, 3, 4, -1 };
    if (alts > 0) R[3][2] = 2000 + al[0]; if (alts > 1) { R[2][3] = 2000 + al[1]; R[2][4] = NT(1); R[2][5] = -1; } if (alts > 2) R[8][2] = 2000 + al[2];
    for (int r = 0; r < 9; r++) { int n = 0, *X = R[r]; t_s(&t, n3[X[0]]); t_s(&t, " ::="); for (int i = 1; i < 6 && X[i] > 0; i++, n++) { t_c(&t, ' '); t_s(&t, X[i] >= 2000 ? ALT[X[i] - 2000].w : ISN(X[i]) ? n3[X[i] - 1000] : tn[X[i]]); }
      int p = pslot[r] < 0 ? 0 : pr[pslot[r]]; t_c(&t, '.'); if (p) { t_s(&t, " ["); t_s(&t, tn[p]); t_c(&t, ']'); } t_s(&t, codes >> r & 1 ? " { x(); }\n" : "\n"); expand(X[0], X + 1, n, p); }
  }
  if (st) { static txt u; u = t; t.n = 0; t_s(&t, "%start_symbol z\n"); t_s(&t, u.b); t_s(&t, "z ::= "); t_s(&t, nn[1]); t_s(&t, " A.\n"); g.start = nn_; g.r[0].rhs[0] = NT(nn_); g.nn = nn_ + 1; int x[2] = { NT(1), 1 }; expand(nn_, x, 2, 0); }
  static const char *const X[] = { "", "%stack_size 7\n", "%fallback A M D.\n%fallback N B.\n", "%wildcard ANY.\nzz ::= ANY A.\n", "%expect 3\n", "%default_destructor { d(); }\n%name X\n%token_prefix T_\n" };
  if (xtra) { if (out ? xtra == 2 || xtra == 3 : xtra == 5) sym_reject(); t_s(&t, X[xtra]); }
  for (int i = 1; i < nt_; i++) { g.tprec[i] = lvl[i]; g.tassoc[i] = lvl[i] ? kind[lvl[i]] : 0; }
  sym_note(t.b);
  mf_reset(); mf_put("g.y", t.b, t.n); mf_put("t", LEMPAR, sizeof LEMPAR - 1);
  int rc = run_tool(lemon_main, out == 1 ? "lemon -Y -q -l -Tt g.y" : out == 2 ? "lemon -y -q -l -Tt g.y" : "lemon -g -q -l -Tt g.y");
  const char *o = fdata("<stdout>"), *c = fdata("g.c"); if (!o || !c) failf("no output, exit status %d, %s", rc, fdata("<stderr>") ? fdata("<stderr>") : "");
  char *ex = strdup(o), *gc = strdup(c); mf_reset(); mf_put("g.y", ex, (int)strlen(ex)); mf_put("t", LEMPAR, sizeof LEMPAR - 1);
  if (!out) {
    int rc2 = run_tool(lemon_main, "lemon -q -l -Tt g.y"); c = fdata("g.c"); const char *e2 = fdata("<stderr>"); if (!c) failf("lemon refuses the grammar it printed:\n%s%s", ex, e2 ? e2 : "");
    if (rc != rc2) failf("exit status %d, but %d for the grammar it printed:\n%s%s", rc, rc2, ex, e2 ? e2 : "");
    sym_nontrivial();
    if (!codes) { if (strcmp(c, gc)) { int k = 0; while (c[k] == gc[k]) k++; while (k && c[k - 1] != '\n') k--; failf("the printed grammar gives another parser: %.60s ... instead of %.60s\n%s", c + k, gc + k, ex); } return; }
    static const char *n4[4]; for (int i = 0; i < 3; i++) n4[i] = nn[i]; n4[nn_] = "z"; char none[MAXR] = {0}; lr *m = lr_build(&g); lt_compare(&g, m, lt_read(c), tn, n4, none, 1); return; }
  rc = run_tool(yacc_main, z ? "yacc -z g.y" : "yacc g.y"); c = fdata("y.tab.c"); if (rc || !c) failf("yacc refuses the printed grammar with %d:\n%s%s", rc, ex, fdata("<stderr>"));
  sym_nontrivial(); g.rrprec = z;
  ytab *y = yt_read(c); lr *m = lr_build(&g); int tok[7], nts[4] = {0}; for (int i = 0; i < 7; i++) tok[i] = i ? 256 + i : 0;
  if (y->nlhs != g.nr) failf("%d rules instead of %d:\n%s", y->nlhs - 1, g.nr - 1, ex);
  for (int r = 1; r < g.nr; r++) nts[g.r[r].lhs] = y->lhs[r];
  yt_compare(&g, m, y, tok, nts, 0);
}
