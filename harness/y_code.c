/* byacc: destructors, the initial action and the verbatim sections of a grammar. */
#define NO_LEMON
#include "ac.h"
static const char *const DT[] = { "\001 $$ }", "\"\001\" $$ }", "'\001' $$ }", "/\001*/ $$ }", "/* \001 */ $$ }", "// \001 $$\n $$ }", "$<\001>$ }", "$<z>\001 }", "$\001$$ }", "@\001 @$ }", "a\001$$ }", "\\\001$$ }", "{ \001 $$ } }", "\"x\\\001y$$\" $$ }", "9$$ \001 x.$$ }", ";\001\n#if $$\n}" };
static const char *const VT[] = { "a \001 b", "\"\001\" $$", "'\001' @$", "/\001*/ x", "/* \001 */ y", "// \001 z\n", "$\001 1", "%\001 ", "\\\001 ", "a\n%\001\nb", "{ \001 }", "\"x\\\001y\" $1", "\001\n", "//*/\001\n{}", ";\001#line 1\n#if" };
enum { NDT = sizeof DT / sizeof *DT, NVT = sizeof VT / sizeof *VT };
/* kind of section: text before, text after, tag used for $$, number of the case */
static const struct { const char *pre, *post, *tag, *kase; int kind, bt; } S[] = {
  { "%union { int p; char *q; }\n%token <q> A\n%destructor {MRK ", " A\n%%\ns : A ;\n", "q", "257", 1, 1 },
  { "%token A\n%destructor {MRK ", " A\n%%\ns : A ;\n", 0, "257", 1, 1 },
  { "%union { int p; char *q; }\n%token <p> B\n%token <q> A\n%destructor {MRK ", " <p>\n%%\ns : A B ;\n", "p", "257", 1, 1 },
  { "%union { int p; char *q; }\n%token B\n%token <q> A\n%destructor {MRK ", " <*>\n%%\ns : A B ;\n", "q", "258", 1, 1 },
  { "%union { int p; char *q; }\n%token B\n%token <q> A\n%destructor {MRK ", " <>\n%%\ns : A B ;\n", 0, "257", 1, 1 },
  /* 5 */ { "%union { int p; char *q; }\n%destructor {MRK ", " A <p> B <*>\n%token <q> A\n%token B\n%%\ns : A B ;\n", "q", "257", 1, 1 },
  { "%locations\n%initial-action {MRK ", "\n%%\ns : 'a' ;\n", 0, 0, 2, 1 },
  { "%{MRK ", "%}\n%%\ns : 'a' ;\n", 0, 0, 3, 0 },
  { "%%\n%{MRK ", "%}\ns : 'a' ;\n", 0, 0, 3, 0 },
  { "%union {MRK ", " }\n%%\ns : 'a' ;\n", 0, 0, 4, 0 },
  /* 10 */ { "%union U {MRK ", " }\n%%\ns : 'a' ;\n", 0, 0, 4, 0 },
  { "%%\ns : 'a' ;\n%%\nMRK ", "", 0, 0, 5, 0 },
  { "%%\ns : 'a' ;\n%% MRK ", "\n tail\n", 0, 0, 5, 0 },
  { "%code {MRK ", " }\n%%\ns : 'a' ;\n", 0, 0, 6, 0 },
  { "%code top {MRK ", " }\n%%\ns : 'a' ;\n", 0, 0, 6, 0 },
  /* 15 */ { "%code requires {MRK ", " }\n%%\ns : 'a' ;\n", 0, 0, 7, 0 },
  { "%code provides {MRK ", " }\n%%\ns : 'a' ;\n", 0, 0, 7, 0 },
  { "%code {first}\n%code provides{q}\n%code {MRK ", " }\n%%\ns : 'a' ;\n", 0, 0, 6, 0 },
};
enum { NS = sizeof S / sizeof *S, OK_2 };
static int tok(const char *s, int n, int *p, txt *e) { /* quoted text, comments, identifiers: copied as a whole.  -1: none of these */
  int c = (unsigned char)s[*p]; if (c == '\'' || c == '"') return quoted(s, n, p, e); if (c == '/') return comment(s, n, p, e); return -1; }
static int section(int k, const char *s, int n, const char *tag, txt *e, int *end) {
  int p = 0, depth = 0, r;
  if (k == 1 || k == 2) while (p < n) { int ch = (unsigned char)s[p], d = p + 1 < n ? (unsigned char)s[p + 1] : 0;
    if (!ch) return UNSPEC;
    if (ch == '$' && d == '<') { int q = p + 2; static char t[40]; int t0 = 0; if (!id1((unsigned char)s[q])) return UNSPEC; while (id2((unsigned char)s[q])) { if (s[q] == '$' || t0 > 30) return UNSPEC; t[t0++] = s[q++]; } t[t0] = 0; if (s[q] != '>') return UNSPEC; if (s[q + 1] != '$') return ERR; if (k == 2) return UNSPEC; p = q + 2; t_s(e, "(*val)."); t_s(e, t); continue; }
    if (ch == '$' && d == '$') { if (k == 2) return UNSPEC; t_s(e, "(*val)"); if (tag) { t_c(e, '.'); t_s(e, tag); } p += 2; continue; }
    if (ch == '@' && d == '$') { t_s(e, k == 2 ? "yyloc" : "(*loc)"); p += 2; continue; }
    if (id1(ch)) { while (p < n && id2((unsigned char)s[p])) t_c(e, s[p++]); continue; }
    if ((r = tok(s, n, &p, e)) >= 0) { if (r) return r; continue; }
    t_c(e, ch); p++; if (ch == '{') depth++; if (ch == '}' && !--depth) { *end = p; return OK_; } }
  if (k == 3) { int nl = 0; while (p < n) { int ch = (unsigned char)s[p]; if (!ch) return UNSPEC; if ((ch == '%' || ch == '\\') && s[p + 1] == '}') { *end = p + 2; if (nl) t_c(e, '\n'); return OK_; } nl = ch != '\n'; if ((r = tok(s, n, &p, e)) >= 0) { if (r) return r; continue; } t_c(e, ch); p++; } }
  if (k == 4 || k == 6 || k == 7) while (p < n) { int ch = (unsigned char)s[p]; if (!ch) return UNSPEC;
    if (k == 4) { if ((r = tok(s, n, &p, e)) >= 0) { if (r) return r; continue; } }
    t_c(e, ch); p++; if (ch == '{') depth++; if (ch == '}' && --depth < (k == 4)) { *end = p; if (k != 4) e->b[--e->n] = 0; return OK_; } }
  if (k == 5) { for (p = 0; p < n; p++) { if (!s[p]) return UNSPEC; t_c(e, s[p]); } if (n && s[n - 1] != '\n') t_c(e, '\n'); *end = n; return OK_; }
  return ERR;
}
static void same(const char *file, const char *want, int n, const char *follow) {
  const char *o = fdata(file), *m; if (!o) failf("no %s", file); m = strstr(o, "MRK"); if (!m) failf("the section is not in %s", file);
  if (want[0] == '{') m--; for (int i = 0; i < n; i++) if (m[i] != want[i]) failf("character %d of the code in %s is wrong: '%s' is required (seen: %d)", i, file, want, (unsigned char)m[i]);
  m += n; if (follow && strncmp(m, follow, strlen(follow))) failf("the code in %s goes on after its end; required up to there: %s", file, want);
}
void sym_harness(void) {
  int sc = sym_pick("sc", P("s0", 0), P("s1", NS - 1)), k = S[sc].kind, n = P("n", 1), bt = P("bt", 1); if (S[sc].bt && !bt) sym_reject();
  int tp = sym_pick("tp", 0, (k <= 2 ? NDT : NVT) - 1); txt t = {0}, e = {0}; unsigned char v[4]; for (int i = 0; i < n; i++) { char nm[8]; sprintf(nm, "b%d", i); v[i] = sym_byte(nm, 1, 255); }
  if (k == 1 && P("loc", 1)) t_s(&t, "%locations\n");
  t_s(&t, S[sc].pre); int a0 = t.n - 4; if (k == 1 || k == 2 || k == 4) a0--;
  for (const char *p = (k <= 2 ? DT : VT)[tp]; *p; p++) if (*p != 1) t_c(&t, *p); else for (int i = 0; i < n; i++) t_c(&t, v[i]);
  t_s(&t, S[sc].post); int a1 = t.n - (int)strlen(S[sc].post); note_hex(t.b, t.n); mf_reset(); mf_put("g.y", t.b, t.n);
  if (k == 4 || k == 5 || k == 6 || k == 7 || k == 3) a0++; if (k == 4) a0--;
  int s0 = t.b[a0] == 'M' || t.b[a0] == '{' ? a0 : a0 - 1, end = 0, r, rc;
  rc = run_tool(bt ? btyacc_main : yacc_main, "yacc -l -d g.y"); r = section(k, t.b + s0, t.n - s0, S[sc].tag, &e, &end);
  if (r == UNSPEC) sym_reject();
  if (k == 6 || k == 7) { /* a brace in a string or comment counts; leading blanks are dropped (the marker stands first) */ }
  if (r == ERR) { sym_nontrivial(); if (!rc) failf("code that does not end is accepted"); return; }
  int word = 1; for (int i = 0; i < n; i++) if (!isalpha(v[i])) word = 0;
  if (rc) { if (word || k == 5 || (end == a1 - s0 + (k <= 2 ? 0 : 2) && sc != 13)) failf("a correct section is rejected"); return; }
  sym_nontrivial();
  static char fo[40]; fo[0] = 0; if (k == 1) sprintf(fo, "\n\tbreak;\n"); if (k == 2) sprintf(fo, "\n"); if (k == 4) sprintf(fo, sc == 10 ? "; " : " YYSTYPE;\n");
  same("y.tab.c", e.b, e.n, fo[0] ? fo : 0); if (k == 4 || k == 7) same("y.tab.h", e.b, e.n, fo[0] ? fo : 0);
  if (S[sc].kase) { const char *o = fdata("y.tab.c"), *m = strstr(o, "MRK"); static char w[20]; sprintf(w, "\tcase %s:\n", S[sc].kase); while (m > o && m[-1] != '\n') m--; m -= strlen(w); if (strncmp(m, w, strlen(w))) failf("the destructor does not belong to symbol %s", S[sc].kase); }
}
