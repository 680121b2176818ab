/* byacc: code copied from the grammar into the parser.  An independent translator, written from the manual, says what
 * an action, destructor or verbatim section has to become; its bytes in the holes are symbolic. */
#define NO_LEMON
#include "ac.h"
/* where an action stands: the grammar before and after it, the case it belongs to, and what $i refers to.
 * off[i]: distance of symbol i from the top of the stack (0 = last symbol); tag: its type or 0; ns: number of $i; n: stack
 * entries before the action; -B only/bt only: flags */
typedef struct { const char *pre, *post; int k, n, ns, off[6]; const char *tag[6], *lhs; int tags, bt, na; const char *arg[3], *atag[3]; } ctx;
static const ctx CX[] = {
  { "%%\ns : 'a' 'b' ", " ;\n", 1, 2, 2, {0, -1, 0}, {0}, 0, 0, 0 },
  { "%%\ns : ", " ;\n", 1, 0, 0, {0}, {0}, 0, 0, 0 },
  { "%%\ns : 'a' t 'b' ", " 'c' ;\nt : ;\n", 1, 3, 3, {0, -2, -1, 0}, {0}, 0, 0, 0 },
  { "%%\ns : t { a; } 'a' { b; } 'b' ", " | ;\nt : ;\n", 3, 5, 5, {0, -4, -3, -2, -1, 0}, {0}, 0, 0, 0 },
  { "%union { int p; char *q; }\n%type <p> s t\n%token <q> A\n%%\ns : A 'b' t ", " ;\nt : {$$=0;} ;\n", 1, 3, 3, {0, -2, -1, 0}, {0, "q", 0, "p"}, "p", 1, 0 },
  { "%union { int p; char *q; }\n%type <q> t\n%token <q> A\n%%\ns : A ", " t ;\nt : A ;\n", 1, 1, 1, {0, 0}, {0, "q"}, 0, 1, 0 },
  { "%start s\n%%\nt($<x>u, $<y>w) : 'b' 'c' ", " ;\ns : t(1, 2) 'a' ;\n", 1, 2, 2, {0, -1, 0}, {0}, 0, 1, 1, 2, {"u", "w"}, {"x", "y"} },
  { "%union { int p; char *q; }\n%type <p> t(<p>, <q>)\n%token <q> A\n%%\ns : A t($1, 2) A ;\n t($<p>u,$<q>w) : A A ", " ;\n", 4, 2, 2, {0, -1, 0}, {0, "q", "q"}, "p", 1, 1, 2, {"u", "w"}, {"p", "q"} },
  { "%union { int p; char *q; }\n%type <p> s t\n%token <q> A\n%%\ns : A t(1) A ", " ;\nt($<p>u) : A ;\n", 2, 4, 3, {0, -3, -1, 0}, {0, "q", "p", "q"}, "p", 1, 1 },
};
enum { NCX = sizeof CX / sizeof *CX };
/* \001: the free bytes */
static const char *const TP[] = {
  "\001 $$ = $1; }", "$\001 ; }", "$$ = $\001; }", "$<\001>$ }", "$<t>\001; }", "$<t>-\001; }", "$-\001; }", "@\001; }", "'\001' }", "\"\001\" $2 }",
  /* 10 */ "/\001 */ $1 \n }", "/* \001 $$ */ $1 }", "// \001 $1\n $$ }", "a\001$1 }", "{ \001 } $1 }", "$1\001 }", "$\001$1 }", "@1 @\001$ @0 @-1 }", "f(\"x\\\001y\", '\\\001'); }", "$<t>$.x = $<t>1->y + $<t>0 + $<t>-1;\001 }",
  /* 20 */ "$u + $w \001 }", "$<z>u \001 @w }", "a[\001] = $0; }", "\n#line\001 1 \"\"\n#x }", "$1 $2 $3 $4\001 $5 $6 }", "x.$1 _$$ \001 9$$ }", "//*/\001\n $1 }", "/**/$1/*/\001*/ }", ";\001; $$=1 ; }", "\\\001\n$2 }",
};
enum { NTP = sizeof TP / sizeof *TP };
static int number(const char *s, int *p) { int v = 0; while (isdigit((unsigned char)s[*p])) v = 10 * v + s[(*p)++] - '0'; return v; }
static const char *ref(const ctx *c, int i, int *off) { /* 0: not one of the rule's symbols */ if (i >= 1 && i <= c->ns) { *off = c->off[i]; return ""; } *off = i <= 0 ? i - c->n : i - c->ns; return 0; }
/* s[0..n): from the opening brace on; mode 0 plain byacc, 1 with the extensions, 2 with -B */
static int action(const char *s, int n, const ctx *c, int mode, txt *e, int *end, int *warn) {
  int p = 0, depth = 0, sq = 0, r, off, i, tags = c->tags;
  while (p < n) { int ch = (unsigned char)s[p], d = p + 1 < n ? (unsigned char)s[p + 1] : 0;
    if (!ch) return UNSPEC;
    if (ch == '$' && d == '<') { int q = p + 2, t0; if (!id1((unsigned char)s[q])) return UNSPEC; static char tag[40]; t0 = 0; while (id2((unsigned char)s[q])) { if (s[q] == '$' || t0 > 30) return UNSPEC; tag[t0++] = s[q++]; } tag[t0] = 0; if (s[q] != '>') return UNSPEC; tags = 1; p = q + 1; ch = (unsigned char)s[p];
      if (ch == '$') { t_s(e, "yyval."); t_s(e, tag); p++; continue; }
      if (isdigit(ch)) { i = number(s, &p); if (i > c->ns) *warn = 1; ref(c, i, &off); e_d(e, "yystack.l_mark", off, tag); continue; }
      if (ch == '-' && isdigit((unsigned char)s[p + 1])) { p++; i = number(s, &p); e_d(e, "yystack.l_mark", -i - c->n, tag); continue; }
      if (mode && (isalpha(ch) || ch == '_')) { for (i = 0; i < c->na; i++) { int L = (int)strlen(c->arg[i]), k = 0; while (k < L && s[p + k] == c->arg[i][k]) k++; if (k == L && !id2((unsigned char)s[p + L])) break; } if (i >= c->na) return UNSPEC; p += (int)strlen(c->arg[i]); e_d(e, "yystack.l_mark", i - c->na + 1 - c->n, tag); continue; }
      return ERR; }
    if (ch == '$' && d == '$') { p += 2; t_s(e, "yyval"); if (tags) { if (!c->lhs) return ERR; t_c(e, '.'); t_s(e, c->lhs); } continue; }
    if (ch == '$' && isdigit(d)) { p++; i = number(s, &p); if (tags) { if (!c->ns) return UNSPEC; if (i < 1 || i > c->ns || !c->tag[i]) return ERR; } else if (i > c->ns) *warn = 1; ref(c, i, &off); e_d(e, "yystack.l_mark", off, tags ? c->tag[i] : 0); continue; }
    if (ch == '$' && d == '-') { if (!isdigit((unsigned char)s[p + 2])) return UNSPEC; p += 2; i = number(s, &p); if (tags) return ERR; e_d(e, "yystack.l_mark", -i - c->n, 0); continue; }
    if (mode && ch == '$' && (isalpha(d) || d == '_')) { p++; for (i = 0; i < c->na; i++) { int L = (int)strlen(c->arg[i]), k = 0; while (k < L && s[p + k] == c->arg[i][k]) k++; if (k == L && !id2((unsigned char)s[p + L])) break; } if (i >= c->na) return UNSPEC; p += (int)strlen(c->arg[i]); e_d(e, "yystack.l_mark", i - c->na + 1 - c->n, c->atag[i]); continue; }
    if (mode && ch == '@' && d == '$') { p += 2; t_s(e, "yyloc"); continue; }
    if (mode && ch == '@' && isdigit(d)) { p++; i = number(s, &p); if (i > c->ns) *warn = 1; ref(c, i, &off); e_d(e, "yystack.p_mark", off, 0); continue; }
    if (mode && ch == '@' && d == '-') { if (!isdigit((unsigned char)s[p + 2])) return UNSPEC; p += 2; i = number(s, &p); e_d(e, "yystack.p_mark", -i - c->n, 0); continue; }
    if (id1(ch)) { while (p < n && id2((unsigned char)s[p])) t_c(e, s[p++]); continue; }
    if (ch == '\'' || ch == '"') { if ((r = quoted(s, n, &p, e))) return r; continue; }
    if (ch == '/') { if ((r = comment(s, n, &p, e))) return r; continue; }
    t_c(e, ch); p++;
    if (ch == '{') depth++;
    if (mode == 2 && ch == '[') sq++;
    if (mode == 2 && ch == ']' && --sq < 0) return UNSPEC;
    if (ch == '}' && !--depth) { if (sq) return UNSPEC; *end = p; return OK_; }
  }
  return ERR;
}
void sym_harness(void) {
  int cx = sym_pick("cx", P("c0", 0), P("c1", NCX - 1)), tp = sym_pick("tp", P("t0", 0), P("t1", NTP - 1)), n = P("n", 1), mode = P("mode", 0), lines = P("lines", 0); const ctx *c = &CX[cx];
  if (c->bt && !mode) sym_reject(); if (!mode && (tp == 7 || tp == 17)) sym_reject(); if ((tp == 20 || tp == 21) && c->na < 2) sym_reject();
  txt t = {0}, e = {0}; unsigned char v[4]; for (int i = 0; i < n; i++) { char nm[8]; sprintf(nm, "b%d", i); v[i] = sym_byte(nm, 1, 255); }
  if (mode && P("loc", 1)) t_s(&t, "%locations\n"); t_s(&t, c->pre); int a0 = t.n; t_s(&t, "{MRK ");
  for (const char *p = TP[tp]; *p; p++) if (*p != 1) t_c(&t, *p); else for (int i = 0; i < n; i++) t_c(&t, v[i]);
  int a1 = t.n; t_s(&t, c->post); note_hex(t.b, t.n); mf_reset(); mf_put("g.y", t.b, t.n);
  int rc = run_tool(mode ? btyacc_main : yacc_main, mode == 2 ? (lines ? "yacc -B g.y" : "yacc -B -l g.y") : lines ? "yacc g.y" : "yacc -l g.y"), end = 0, warn = 0, r = action(t.b + a0, t.n - a0, c, mode, &e, &end, &warn);
  const char *o = fdata("y.tab.c"), *err = fdata("<stderr>");
  if (r == UNSPEC) sym_reject();
  if (r == ERR) { sym_nontrivial(); if (!rc) failf("an action that ends nowhere, or refers to something without a type, is accepted"); return; }
  if (rc) { if (end == a1 - a0) failf("a correct action is rejected"); return; }
  if (!o) failf("no y.tab.c");
  sym_nontrivial();
  const char *m = strstr(o, "MRK"), *k; if (!m) failf("the action is not in the parser");
  if (end == a1 - a0 && warn != (fhas("<stderr>", "beyond the end") || fhas("<stderr>", "references"))) failf(warn ? "no warning for a reference beyond the rule" : "a warning for a reference within the rule");
  static char head[80]; sprintf(head, "case %d:\n%s", c->k, mode == 2 ? "  if (!yytrial)\n" : "");
  for (k = m; k > o && !(k[-1] == '\n' && !strncmp(k, "case ", 5)); k--) ;
  if (strncmp(k, head, strlen(head))) failf("the action belongs to case %d; it is emitted in the wrong one", c->k);
  k += strlen(head); if (lines) { if (strncmp(k, "#line ", 6)) failf("no #line directive before the action"); while (*k != '\n') k++; k++; }
  while (*k == '\t' || *k == ' ') k++;
  for (int i = 0; i < e.n; i++) if (k[i] != e.b[i]) failf("character %d of the emitted action is wrong: '%s' is required (seen: %d)", i, e.b, (unsigned char)k[i]);
  k += e.n; if (lines) { if (strncmp(k, "\n#line ", 7)) failf("no #line directive after the action"); k++; while (*k != '\n') k++; } if (strncmp(k, "\nbreak;\n", 8)) failf("the action is not followed by the end of its case; required up to there: %s", e.b);
}
