/* lemon: the sections of code of a grammar reach their place in the parser unchanged; in destructors $$ becomes the value. */
#define NO_YACC
#include "lc.h"
typedef struct { const char *decl, *from, *to; int kind; } sect;   /* kind 0: verbatim; 1: leading blank lines do not count; 2: destructor of the symbols in syms */
static const sect S[] = {
  { "%include", "TOKENTYPE) */\n", "/* tok */", 1 }, { "%code", "/* end */\n", 0, 0 }, { "%syntax_error", "/* error */\n", "/* accept */", 0 }, { "%parse_accept", "/* accept */\n", "/* end */", 0 },
  { "%parse_failure", "/* failure */\n", "/* error */", 0 }, { "%stack_overflow", "/* overflow */\n", "static const YYCODETYPE yyRuleInfoLhs", 0 },
  { "%token_destructor", "AB", "yy0", 2 }, { "%default_destructor", "psuv", "yy0", 2 }, { "%destructor t", "t", "T1", 2 }, { "%destructor w", "w", "T2", 2 },
};
enum { NS_ = sizeof S / sizeof *S };
static const char *const TP[] = { "MRK\001", "\001MRK $$", "MRK $\001$", "MRK $$\001$$ $", "MRK \"\001}\" $$", "MRK '\001' {$$}", "MRK /*\001}*/ $$", "MRK //\001}\n $$", "\n\001 MRK", "/\001MRK", "\n \n /* x */ MRK\001\n", "MRK {\001}\n", "MRK \\\001\n\n", "MRK %\001 %d %s\n#if\001\n" };
enum { NTP = sizeof TP / sizeof *TP };
static int extent(const char *s, int n) {
  int p = 1, d = 1;
  while (p < n && s[p]) { int c = s[p], e = p + 1 < n ? s[p + 1] : 0;
    if (c == '{') d++, p++; else if (c == '}') { p++; if (!--d) return p; }
    else if (c == '/' && e == '*') { p += 2; while (p < n && s[p] && !(s[p] == '*' && p + 1 < n && s[p + 1] == '/')) p++; if (p >= n || !s[p]) return 0; p += 2; }
    else if (c == '/' && e == '/') { while (p < n && s[p] && s[p] != '\n') p++; }
    else if (c == '"' || c == '\'') { p++; while (p < n && s[p] && s[p] != c) { if (s[p] == '\\') p++; if (p < n) p++; } if (p >= n || !s[p]) return 0; p++; }
    else p++; }
  return 0;
}
static int field(const char *ty) {
  const char *o = strstr(fdata("g.c"), "typedef union {\n  int yyinit;\n"); if (!o) failf("no union of the values"); int L = (int)strlen(ty); if (!strcmp(ty, "yy0")) return 0;
  o = strstr(o, ty); if (!o || strncmp(o + L, " yy", 3)) failf("no member of type %s in the union", ty); return atoi(o + L + 3);
}
static const char *expect(const char *k, const char *e, int n) { for (int i = 0; i < n; i++) if (k[i] != e[i]) failf("character %d of the emitted code is wrong: '%s' is required (seen: %d)", i, e, (unsigned char)k[i]); return k + n; }
void sym_harness(void) {
  int sc = sym_pick("s", P("s0", 0), P("s1", NS_ - 1)), tp = sym_pick("tp", P("t0", 0), P("t1", NTP - 1)), form = sym_pick("form", P("f0", 0), P("f1", 3)), n = P("n", 1); const sect *c = &S[sc];
  txt t = {0}, e = {0}; unsigned char v[4]; for (int i = 0; i < n; i++) { char nm[8]; sprintf(nm, "b%d", i); v[i] = sym_byte(nm, P("lo", 1), P("hi", 255)); }
  /* forms: one declaration; a second one adds to it; before the rules; a string */
  t_s(&t, "%token_type {Tok}\n%type s {T0}\n%type t {T1}\n%type w {T2}\n"); if (form != 2) t_s(&t, "p ::= s.\ns ::= t u v w.\nt ::= A.\nu ::= A B.\nv ::= .\nw ::= A A.\n");
  if (form == 1) t_s(&t, c->decl), t_s(&t, " {first }\n");
  t_s(&t, c->decl); t_c(&t, form == 3 ? '"' : ' '); int a0 = t.n + (form == 3 ? -1 : 0); if (form != 3) t_c(&t, '{');
  for (const char *p = TP[tp]; *p; p++) if (*p != 1) t_c(&t, *p); else for (int i = 0; i < n; i++) t_c(&t, v[i]);
  t_c(&t, form == 3 ? '"' : '}'); int a1 = t.n; t_s(&t, "\n"); if (form == 2) t_s(&t, "p ::= s.\ns ::= t u v w.\nt ::= A.\nu ::= A B.\nv ::= .\nw ::= A A.\n");
  note_hex(t.b, t.n); mf_reset(); mf_put("g.y", t.b, t.n); mf_put("t", LEMPAR, sizeof LEMPAR - 1);
  int end; if (form == 3) { for (end = 1; a0 + end < t.n && t.b[a0 + end] != '"'; end++) ; end++; } else end = extent(t.b + a0, t.n - a0);
  int rc = run_tool(lemon_main, "lemon -q -l -Tt g.y");
  if (!end || a0 + end > t.n) { sym_nontrivial(); if (!rc) failf("code that does not end is accepted"); return; }
  if (end != a1 - a0) sym_reject();
  if (rc) failf("correct code is rejected: %s", fdata("<stderr>"));
  sym_nontrivial();
  const char *s = t.b + a0 + 1, *o = fdata("g.c"); int m = end - 2; if (!o) failf("no g.c");
  if (c->kind < 2) {
    if (form == 1) t_s(&e, "first ");
    for (int i = 0; i < m; i++) t_c(&e, s[i]);
    int a = 0; if (c->kind == 1 && form != 1) for (int i = 0; i < e.n && isspace((unsigned char)e.b[i]); i++) if (e.b[i] == '\n') a = i + 1;
    if (!e.n || e.b[e.n - 1] != '\n') t_c(&e, '\n');
    const char *k; if (c->kind == 1 && e.b[a] == '/') { k = o + strlen("/* This file is automatically generated by Lemon from input grammar\n** source file \"g.y\".\n*/\n"); } else { k = strstr(o, c->from); if (!k) failf("no place for the code"); k += strlen(c->from); }
    k = expect(k, e.b + a, e.n - a); if (c->to ? strncmp(k, c->to, strlen(c->to)) : *k) failf("the code is not followed by what belongs there");
    return;
  }
  /* destructors: the case of every symbol that has it, and only theirs */
  const char *d = strstr(o, "/* destructors */\n"), *k, *x; if (!d) failf("no place for destructors"); static const char *ALL[] = { "A", "B", "p", "s", "t", "u", "v", "w" };
  t_s(&e, "{\n"); if (form == 1) t_s(&e, "first "); for (int i = 0; i < m; i++) { if (s[i] == '$' && s[i + 1] == '$' && i + 1 < m) { t_s(&e, "(yypminor->yy@)"); i++; } else t_c(&e, s[i]); } t_s(&e, "\n}\n      break;\n");
  int has[8], cnt = 0; for (int q = 0; q < 8; q++) { static char pat[20]; sprintf(pat, ": /* %s */\n", ALL[q]); has[q] = 0; for (k = d; (x = strstr(k, pat)); k = x + 1) { if (x > strstr(d, "/* overflow */")) break; has[q]++; } }
  for (int q = 0; q < 8; q++) { int want = sc == 6 ? q < 2 : sc == 7 ? q >= 2 : sc == 8 ? q == 4 : q == 7; if (has[q] != want) failf("%s has %d destructors, not %d", ALL[q], has[q], want); if (want && (!cnt++ || sc == 7)) { 
      static char pat[20]; sprintf(pat, ": /* %s */\n", ALL[q]); x = strstr(d, pat); x += strlen(pat); while (!strncmp(x, "    case ", 9)) x = strchr(x, '\n') + 1;
      for (int i = 0; i < e.n; i++) { if (e.b[i] == '@' && i > 4 && !strncmp(e.b + i - 3, ">yy", 3)) { int N = 0; if (!isdigit((unsigned char)*x)) failf("no member"); while (isdigit((unsigned char)*x)) N = 10 * N + *x++ - '0'; if (N != field(sc != 7 ? c->to : q == 3 ? "T0" : q == 4 ? "T1" : q == 7 ? "T2" : "yy0")) failf("the destructor's value is member yy%d", N); } else { if (*x != e.b[i]) failf("character %d of the emitted destructor is wrong: '%s' is required (seen: %d)", i, e.b, (unsigned char)*x); x++; } } } }
}
