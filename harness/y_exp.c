/* byacc: grammar exports.  out=n: the grammar -n writes gives the parser of the grammar without its actions; N: the same
 * text, tokens in angle brackets; E: the lemon grammar gives that parser in lemon; e: the rules; S: the tables of the SQL script. */
#include "lc.h"
static const char *KW[] = { 0, "left", "right", "nonassoc", "precedence" };
static txt t; static gram g; static int np_; static const char *tn[8], *nn[8], *ln[8], *lt[8]; static int tok[8], marks[MAXR], acts[MAXR]; /* acts: the right-hand side is nothing but actions */
static int is_(const char **p, const char *w) { while (**p == ' ' || **p == '\n' || **p == '\t') (*p)++; int n = (int)strlen(w); if (strncmp(*p, w, n)) return 0; *p += n; return 1; }
static int word_(const char **p, char *b, int w) { int n = 0, q = 0; while (**p == ' ' || **p == '\n' || **p == '\t') (*p)++; while (**p && (q || (**p != ' ' && **p != '\n' && **p != '\t'))) { int c = **p; if (n + 3 >= w) sym_limit_exceeded(); if (q && c == '\\') b[n++] = *(*p)++; else if (q && c == q) q = 0; else if (!q && (c == '\'' || c == '"') && (n == 0 || (n == 1 && b[0] == '<'))) q = c; b[n++] = *(*p)++; } b[n] = 0; return n; }
static const char *sqlp; static int row(char *b, int w) { while (*sqlp == ' ' || *sqlp == '\n' || *sqlp == ',') sqlp++; if (*sqlp == ';') return 0; if (*sqlp != '(') failf("SQL: %.40s", sqlp); sqlp++; int n = 0, q = 0; while (*sqlp && (q || *sqlp != ')')) { if (*sqlp == '\'') q = !q; if (n + 1 >= w) sym_limit_exceeded(); b[n++] = *sqlp++; } b[n] = 0; if (*sqlp) sqlp++; return 1; }
static int table(const char *ins) { const char *f = fdata("y.sql"), *p = f ? strstr(f, ins) : 0; if (!f) failf("no y.sql"); if (!p) return 0; sqlp = p + strlen(ins); return 1; }
static int esc(char *o, const char *s) { int n = 0; for (; *s; s++) { if (*s == '\'') o[n++] = '\''; o[n++] = *s; } o[n] = 0; return n; }
static int idof(const int *id, int x) { return ISN(x) ? id[10 + x - 1000] : id[x]; }
static void sql(void) {
  static char b[200], w[200], e[60]; static int id[20]; for (int i = 0; i < 20; i++) id[i] = -1; int n = 0;
  if (!table("INSERT INTO symbol(id,name,isTerminal) VALUES\n")) failf("y.sql: no symbols");
  while (row(b, 200)) { int v = atoi(b), hit = 0; n++; for (int i = 1; i < g.nt + g.nn; i++) { int k = i < g.nt ? i : 10 + i - g.nt; esc(e, i < g.nt ? tn[i] : nn[i - g.nt]); sprintf(w, "%d,'%s',%s", v, e, i < g.nt ? "TRUE" : "FALSE"); if (!strcmp(b, w)) { if (id[k] >= 0) failf("y.sql: symbol (%s) again", b); for (int j = 0; j < 20; j++) if (id[j] == v) failf("y.sql: number %d twice", v); id[k] = v; hit = 1; } } sprintf(w, "%d,'error',TRUE", v); if (!hit && strcmp(w, b)) failf("y.sql: no such symbol: (%s)", b); }
  int used[8] = {0}; for (int r = 1; r < g.nr; r++) for (int i = 0; i < g.r[r].len; i++) if (!ISN(g.r[r].rhs[i])) used[g.r[r].rhs[i]] = 1;
  for (int i = 1; i < g.nt; i++) if (used[i] && id[i] < 0) failf("y.sql: symbol %s is missing", tn[i]); for (int i = 0; i < g.nn; i++) if (id[10 + i] < 0) failf("y.sql: symbol %s is missing", nn[i]);
  int want = 0, got = 0; for (int i = 1; i < g.nt; i++) if (id[i] >= 0 && g.tprec[i]) want++;
  if (table("INSERT INTO precedence(id,prec,assoc) VALUES\n")) while (row(b, 200)) { int i; for (i = 1; i < g.nt; i++) if (g.tprec[i] && id[i] >= 0) { sprintf(w, "%d,%d,'%c'", id[i], g.tprec[i], "?LRNP"[g.tassoc[i]]); if (!strcmp(w, b)) break; } if (i == g.nt) failf("y.sql: no such precedence: (%s)", b); got++; } if (got != want) failf("y.sql: %d precedences of %d", got, want);
  static int rid[MAXR]; int r = 1; if (!table("INSERT INTO rule(ruleid,lhs,prec_id) VALUES\n")) failf("y.sql: no rules");
  for (; row(b, 200); r++) { if (r >= g.nr) failf("y.sql: rule (%s)", b); rid[r] = atoi(b); if (r > 1 && rid[r] <= rid[r - 1]) failf("y.sql: rules are out of order"); sprintf(w, "%d,%d,", rid[r], id[10 + g.r[r].lhs]); if (marks[r] && g.tprec[marks[r]]) sprintf(w + strlen(w), "%d", id[marks[r]]); else strcat(w, "NULL"); if (strcmp(b, w)) failf("y.sql: rule (%s), (%s) is required", b, w); } if (r != g.nr) failf("y.sql: %d rules", r - 1);
  if (!table("INSERT INTO rulerhs(ruleid,pos,sym) VALUES\n")) failf("y.sql: the right-hand sides are missing");
  for (r = 1; r < g.nr; r++) for (int i = 0; i < (g.r[r].len ? g.r[r].len : acts[r] ? 0 : 1); i++) { if (!row(b, 200)) failf("y.sql: right-hand sides are missing"); if (g.r[r].len) sprintf(w, "%d,%d,%d", rid[r], i, idof(id, g.r[r].rhs[i])); else sprintf(w, "%d,0,NULL", rid[r]); if (strcmp(w, b)) failf("y.sql: right-hand side (%s), (%s) is required", b, w); } if (row(b, 200)) failf("y.sql: (%s) is too much", b);
  sprintf(w, "UPDATE directives SET start_symbol=%d;\n", id[10 + g.start]); if (!fhas("y.sql", w)) failf("y.sql: the start symbol is wrong"); if (!fhas("y.sql", "COMMIT;\n")) failf("y.sql is incomplete");
}
static void ebnf(void) { const char *p = fdata("y.ebnf"); if (!p) failf("no y.ebnf"); int last = -1;
  for (int r = 1; r < g.nr; r++) { const char *q = p; if (last == g.r[r].lhs && is_(&p, "|")) {} else { if (!is_(&p, nn[g.r[r].lhs]) || !is_(&p, "::=")) failf("y.ebnf: rule %d of %s: %.40s", r, nn[g.r[r].lhs], q); } last = g.r[r].lhs;
    if (!g.r[r].len) is_(&p, "/*empty*/"); for (int i = 0; i < g.r[r].len; i++) { int x = g.r[r].rhs[i]; if (!is_(&p, ISN(x) ? nn[x - 1000] : tn[x])) failf("y.ebnf: rule %d: %.40s", r, p); } }
  is_(&p, ""); if (*p) failf("y.ebnf: more than the rules: %.40s", p); }
static void term_of(const char *w, int *lit, int *is) { *lit = *w == '\'' || *w == '"'; *is = 0; for (int i = 1; i < g.nt; i++) if (!strcmp(tn[i], w)) *is = 1; }
/* the canonical spelling of a literal of these bytes */
static void norm(char *o, const unsigned char *v, int n) { int k = 0, q = n == 1 ? '\'' : '"'; o[k++] = (char)q; for (int i = 0; i < n; i++) { int c = v[i]; const char *e = "\aa\bb\ff\nn\rr\tt\vv"; if (c == '\\' || c == q) { o[k++] = '\\'; o[k++] = (char)c; continue; } if (c >= 32 && c < 127) { o[k++] = (char)c; continue; } o[k++] = '\\'; int j; for (j = 0; j < 14; j += 2) if (e[j] == c) break; if (j < 14) o[k++] = e[j + 1]; else { o[k++] = (char)('0' + (c >> 6)); o[k++] = (char)('0' + (c >> 3 & 7)); o[k++] = (char)('0' + (c & 7)); } } o[k++] = (char)q; o[k] = 0; }
static void spelled(void) { /* s : T1 T2 s | T2 T1 e | T1 ;  e : T2 T2 | ;   T1 of free bytes */
  static unsigned char c1[8]; static char n1[40], n2[40], w1[40]; int nb = P("nb", 1), form = sym_pick("form", 0, P("forms", 3)), n = 0, k = 0, m = 0; static const char *const W[] = { "a", "'0'", "\"a \"", "'\\012'", "\"LF\"", ".LF", "\"_10_\"", "Tk_a", "\"\\\\\"", "\"\"" }; static const struct { int n; unsigned char v[4]; } V[] = { {-1, {0}}, {1, "0"}, {2, "a "}, {1, {10}}, {2, "LF"}, {-1, {0}}, {4, "_10_"}, {-1, {0}}, {1, "\\"}, {0, {0}} };
  int w2 = sym_pick("w2", 0, 9), q = form == 3 ? 0 : form ? '\'' : '"', c; if (q) w1[k++] = (char)q;
  for (int i = 0; i < nb; i++) { char b[8]; sprintf(b, "b%d", i); c = sym_conc(sym_byte(b, 1, P("hi", 255)));
    if (form == 3) { if (!(isalpha(c) || c == '_' || c == '.' || (i && isdigit(c)))) sym_reject(); w1[k++] = (char)c; continue; }
    if (form == 2 && i == 0) { w1[k++] = '\\'; const char *e = strchr("a\ab\bf\fn\nr\rt\tv\v", c); if (c == '\n') sym_reject(); if (c >= '0' && c <= '7') { w1[k++] = (char)c; m = sym_pick("oct", 0, 2); int v = c - '0'; if (m) { int d = sym_pick("o1", 0, 7); w1[k++] = (char)('0' + d); v = v * 8 + d; } if (m > 1) { int d = sym_pick("o2", 0, 7); w1[k++] = (char)('0' + d); v = v * 8 + d; } if (v > 255) sym_reject(); c1[n++] = (unsigned char)v; if (m < 2 && nb > 1) sym_reject(); continue; }
      if (c == 'x') { w1[k++] = 'x'; int d = sym_pick("o1", 0, 15), f = sym_pick("o2", 0, 15); w1[k++] = "0123456789abcdef"[d]; w1[k++] = "0123456789ABCDEF"[f]; c1[n++] = (unsigned char)(d * 16 + f); if (nb > 1) sym_reject(); continue; }
      w1[k++] = (char)c; c1[n++] = (unsigned char)(strchr("abfnrtv", c) ? e[1] : c); continue; }
    if (c == '\\' || c == q || c == '\n') sym_reject(); w1[k++] = (char)c; c1[n++] = (unsigned char)c; }
  if (q) w1[k++] = (char)q; w1[k] = 0; if (form == 3) strcpy(n1, w1); else norm(n1, c1, n); if (V[w2].n < 0) strcpy(n2, W[w2]); else norm(n2, V[w2].v, V[w2].n); if (!strcmp(n1, n2)) sym_reject(); if (form == 3 && (!strcmp(n1, "s") || !strcmp(n1, "e") || !strcmp(n1, "."))) sym_reject();
  tn[1] = n1; tn[2] = n2; nn[0] = "s"; nn[1] = "e"; int nx = 257; for (int i = 1; i < 3; i++) tok[i] = i == 1 ? (form != 3 && n == 1 ? c1[0] : nx++) : V[w2].n == 1 ? V[w2].v[0] : nx++; tok[0] = 0;
  if (!tok[1]) sym_reject(); /* a token of code 0 is $end */
  static const int R[5][4] = { {0, 1, 2, NT(0)}, {0, 2, 1, NT(1)}, {0, 1, -1}, {1, 2, 2, -1}, {1, -1} }; t_s(&t, "%token "); t_s(&t, w1); t_c(&t, ' '); t_s(&t, W[w2]); t_s(&t, "\n%%\n");
  for (int r = 0; r < 5; r++) { int x = g_rule(&g, R[r][0]); t_s(&t, r == 0 ? "s :" : r == 3 ? ";\ne :" : " |"); for (int i = 1; i < 4 && R[r][i] > 0; i++) { t_c(&t, ' '); int y = R[r][i]; g_sym(&g, x, y); t_s(&t, ISN(y) ? nn[y - 1000] : y == 1 ? w1 : W[w2]); } } t_s(&t, ";\n"); }
void sym_harness(void) {
  int shape = P("shape", 0), z = P("z", 0), names = P("names", 0), nt, n = 0; const char *out = sym_param("out"); if (!out) out = "n"; memset(marks, 0, sizeof marks); memset(acts, 0, sizeof acts); t.n = 0; np_ = 0; int lvl[8] = {0}, kind[3] = {0};
  static const char *TN[3][8] = { { "$end", "'+'", "'*'", "'-'", "'n'", "'m'" }, { "$end", "PLUS", "times", "MI_NUS", "_n", ".m" }, { "$end", "p.s", "'\\n'", "\"a b\"", "p_s", "'\\''" } }, *LT[3][8] = { { "$", "Tk_PLUS", "Tk_ASTERISK", "Tk_HYPHEN", "Tk_n", "Tk_m" }, { "$", "PLUS", "Tk_times", "MI_NUS", "Tk__n", "Tk__m" }, { "$", "Tk_p_s", "Tk_LF", "Tk_a_32SPACE_b", "Tk_p_s_2", "Tk_SQUOTE" } };
  static const int TK[3][8] = { { 0, '+', '*', '-', 'n', 'm' }, { 0, 257, 258, 259, 260, 261 }, { 0, 257, '\n', 258, 259, '\'' } };
  static const char *NN[3][4] = { { "s", "e", "f" }, { "Start", "e.x", "_f" }, { "e_x", "e.x", "X" } }, *LN[3][4] = { { "s", "e", "f", "x_start_rule_" }, { "l_Start", "e_x", "z_f", "x_start_rule_" }, { "e_x", "e_x_2", "l_X", "x_start_rule_" } };
  for (int i = 0; i < 8; i++) { tn[i] = TN[names][i]; lt[i] = LT[names][i]; tok[i] = TK[names][i]; } for (int i = 0; i < 4; i++) { nn[i] = NN[names][i]; ln[i] = LN[names][i]; }
  nt = shape == 1 ? 6 : 3; g_init(&g, nt, shape == 1 ? 3 : 2, 0); if (shape == 2) spelled(); else if (names) { t_s(&t, "%token"); for (int i = 1; i < nt; i++) { t_c(&t, ' '); t_s(&t, tn[i]); } t_c(&t, '\n'); }
  if (shape == 2) {} else if (shape == 0) { int lens[4] = { P("s1", 3), P("s2", 2), P("a1", 2), P("a2", -1) }, h_ = P("mid", 1) ? 5 : 4; int h = 0;
    if (P("ex", 0)) t_s(&t, "%expect 3\n%start "), t_s(&t, nn[0]), t_c(&t, '\n');
    t_s(&t, "%%\n"); t_s(&t, nn[0]); t_s(&t, " :");
    for (int r = 0; r < 4; r++) { if (lens[r] < 0) continue; if (r == 2) t_s(&t, " ;\n"), t_s(&t, nn[1]), t_s(&t, " :"); else if (r) t_s(&t, " |"); int q = g_rule(&g, r >= 2), end = 0, pend = 0;
      for (int i = 0; i < lens[r]; i++) { char nm[8]; sprintf(nm, "h%d", h++); int v = sym_conc(sym_byte(nm, 0, h_)); if (!v) { end = 1; continue; } if (end) sym_reject(); t_c(&t, ' '); pend = v == 5; if (v == 5) { acts[q]++; t_s(&t, "{ m(); }"); continue; } t_s(&t, v <= 2 ? nn[v - 1] : tn[v - 2]); g_sym(&g, q, v <= 2 ? NT(v - 1) : v - 2); } (void)pend; acts[q] = !g.r[q].len && acts[q] > 1; }
    t_s(&t, " ;\n");
  } else { int np = P("np", 1), pr[6] = {0};
    if (!names) t_s(&t, "%token '+' '*' '-' 'n' 'm'\n");
    kind[1] = sym_pick("k1", P("lo", 1), 4); kind[2] = P("k2", 1) ? sym_pick("k2", 1, 4) : 2; for (int i = 1; i <= 3; i++) { char b[8]; sprintf(b, "l%d", i); lvl[i] = sym_pick(b, 0, 2); } if (P("lm", 0)) lvl[5] = sym_pick("lm", 0, 2);
    for (int l = 1; l <= 2; l++) { int any = 0; for (int i = 5; i >= 1; i--) if (lvl[i] == l) { if (!any) { t_c(&t, '%'); t_s(&t, KW[kind[l]]); any = 1; np_++; } t_c(&t, ' '); t_s(&t, tn[i]); } if (any) { t_c(&t, '\n'); for (int i = 1; i <= 5; i++) if (lvl[i] == l) { g.tprec[i] = np_; g.tassoc[i] = kind[l]; } } }
    for (int i = 0; i < np; i++) { char b[8]; sprintf(b, "p%d", i); pr[i] = sym_pick(b, 0, 3); } int mid = P("mid", 0) ? sym_pick("mid", 0, 8) : 0, mp = mid ? sym_pick("mp", 1, 3) : 0, st = P("start", 0) ? sym_pick("st", 0, 2) : 0;
    t_s(&t, "%expect 3\n"); if (st) { t_s(&t, "%start "); t_s(&t, nn[st]); t_c(&t, '\n'); g.start = st; g.r[0].rhs[0] = NT(st); } t_s(&t, "%%\n");
    static const int R[9][6] = { {0, NT(1), -1}, {0, NT(2), -1}, {1, NT(1), 1, NT(1), 2, NT(1)}, {1, NT(1), 2, NT(1), -1}, {1, 3, NT(1), -1}, {1, -1}, {1, 4, -1}, {2, 4, -1}, {2, 5, 3, 4, -1} };
    static const int pslot[9] = { -1, -1, 0, 1, -1, 2, 3, 4, -1 };
    for (int r = 0; r < 9; r++) { const int *X = R[r]; int q = g_rule(&g, X[0]), k = 0; if (r == 0 || X[0] != R[r - 1][0]) { if (r) t_s(&t, "\t;\n"); t_s(&t, nn[X[0]]); t_s(&t, " :"); } else t_s(&t, "\t|");
      for (int i = 1; i < 6 && X[i] > 0; i++) { if (mid == r && mp == i && r) t_s(&t, " { a(); }"); t_c(&t, ' '); t_s(&t, ISN(X[i]) ? nn[X[i] - 1000] : tn[X[i]]); g_sym(&g, q, X[i]); k = 1; } (void)k;
      int p = pslot[r] < 0 ? 0 : pr[pslot[r]]; if (p) { t_s(&t, " %prec "); t_s(&t, tn[p]); } marks[q] = p; t_s(&t, r == 6 ? " { z(); }\n" : "\n");
      int from = 0; if (p) from = p; else for (int i = 1; i < 6 && X[i] > 0; i++) if (!ISN(X[i])) if (!(z && from && lvl[from])) from = X[i]; g.r[q].prec = from ? g.tprec[from] : 0; g.r[q].assoc = from && lvl[from] ? kind[lvl[from]] : 0; }
    t_s(&t, "\t;\n"); }
  note_hex(t.b, t.n); mf_reset(); mf_put("g.y", t.b, t.n);
  static char cmd[40]; sprintf(cmd, "yacc%s -%s g.y", z ? " -z" : "", out); int rc = run_tool(yacc_main, cmd); (void)rc; if (!fdata("y.tab.c")) failf("yacc stops: %s", fdata("<stderr>"));
  if (*out == 'e') { sym_nontrivial(); ebnf(); return; } if (*out == 'S') { sym_nontrivial(); sql(); return; }
  const char *f = fdata(*out == 'E' ? "y.yl" : "y.yn"); if (!f) failf("no exported grammar"); char *ex = strdup(f);
  if (*out == 'N') { mf_reset(); mf_put("g.y", t.b, t.n); run_tool(yacc_main, z ? "yacc -z -n g.y" : "yacc -n g.y"); const char *a = fdata("y.yn"), *b = ex; static char u[80], v[80], w[84]; if (!a) failf("no y.yn"); int decl = 1, pm = 0;
    for (;;) { int l = word_(&a, u, 80), m = word_(&b, v, 80), lit, is; if (!l && !m) break; if (!strcmp(u, "%%")) decl = 0; term_of(u, &lit, &is); sprintf(w, "<%s>", u); if (is && (!lit || decl || pm)) { if (strcmp(v, w)) failf("-N writes %s where %s is required", v, w); } else if (strcmp(u, v)) failf("-N writes %s, -n %s", v, u); pm = !strcmp(u, "%prec"); } sym_nontrivial(); return; }
  mf_reset(); mf_put("g.y", ex, (int)strlen(ex));
  if (*out == 'n') { rc = run_tool(yacc_main, z ? "yacc -z g.y" : "yacc g.y"); const char *c = fdata("y.tab.c"); if (rc || !c) failf("yacc refuses the grammar it wrote with %d: %s\n%s", rc, fdata("<stderr>"), ex); sym_nontrivial();
    ytab *y = yt_read(c); g.rrprec = z; lr *m = lr_build(&g); int nts[4] = {0}; if (y->nlhs != g.nr) failf("%d rules instead of %d:\n%s", y->nlhs - 1, g.nr - 1, ex); for (int r = 1; r < g.nr; r++) nts[g.r[r].lhs] = y->lhs[r]; yt_compare(&g, m, y, tok, nts, 0); return; }
  mf_put("t", LEMPAR, sizeof LEMPAR - 1); rc = run_tool(lemon_main, "lemon -q -Tt g.y"); const char *c = fdata("g.c"), *e = fdata("<stderr>"); int bad = !c; for (const char *p = e; p && (p = strstr(p, "g.y:")); p++) { const char *q = p + 4; while (isdigit((unsigned char)*q)) q++; if (strncmp(q, ": This rule can not be reduced.", 31)) bad = 1; } if (bad) failf("lemon refuses the grammar: %s\n%s", e ? e : "", ex);
  if (shape == 2) { /* the names as lemon has them, from the rules */
    static char a[8][80]; const char *p = strstr(ex, "%start_symbol"); char b[80]; if (!p) failf("no start symbol"); while (word_(&p, b, 80) && strcmp(b, "s")) {} for (int r = 0; r < 2; r++) { while (word_(&p, b, 80) && strcmp(b, "s")) {} word_(&p, b, 80); if (strcmp(b, "::=")) { r--; continue; } if (r == 0) { word_(&p, a[1], 80); word_(&p, a[2], 80); word_(&p, b, 80); } } lt[0] = "$"; lt[1] = a[1]; lt[2] = a[2]; ln[0] = "s"; ln[1] = "e"; for (int i = 1; i < 3; i++) if (!isupper((unsigned char)lt[i][0])) failf("the name %s is not one of a terminal", lt[i]); }
  int onrhs = 0; for (int r = 1; r < g.nr; r++) for (int i = 0; i < g.r[r].len; i++) if (g.r[r].rhs[i] == NT(g.start)) onrhs = 1;
  if (onrhs) { /* lemon's own start symbol, with the first rule */ g_rule(&g, g.nn); for (int r = g.nr - 1; r > 1; r--) g.r[r] = g.r[r - 1]; g.r[1].lhs = g.nn; g.r[1].len = 1; g.r[1].rhs[0] = NT(g.start); g.r[1].prec = 0; g.start = g.nn++; g.r[0].rhs[0] = NT(g.start); ln[g.start] = "x_start_rule_"; }
  if (names == 2 && shape && g.r[0].rhs[0] == NT(onrhs ? 3 : 1) && g.r[1].rhs[0] == NT(1) && g.r[1].lhs != 0) { const char *x = ln[0]; ln[0] = ln[1]; ln[1] = x; } /* the goal is named first */
  if (!g_productive(&g)) return; sym_nontrivial(); ltab *y = lt_read(c); lr *m = lr_build(&g); char none[MAXR] = {0}; 
  int used[8] = {0}; for (int r = 1; r < g.nr; r++) for (int i = 0; i < g.r[r].len; i++) if (!ISN(g.r[r].rhs[i])) used[g.r[r].rhs[i]] = 1; for (int i = 1; i < g.nt; i++) if (!used[i] && !strstr(c, lt[i])) { sym_reject(); }
  lt_compare(&g, m, y, lt, ln, none, 1);
}
