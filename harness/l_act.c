/* lemon: code of rules.  An independent translator, written from the documentation, says what the code of a rule has to
 * become: labels stand for the values of their symbols, everything else is copied; values without a label are destroyed. */
#define NO_YACC
#include "lc.h"
enum { OK_, ERR, UNSPEC };
/* one rule: declarations, what precedes it, its symbols, their labels, types (member of the union whose declared type it is) and destructors */
typedef struct { const char *decl, *lhs, *la, *lt; int n; const char *sym[5], *lab[5], *ty[5]; int de[5]; const char *post; const char *cls; } ctx;
#define TK "ParseTOKENTYPE"
static const ctx CX[] = {
  { "p ::= s.\n", "s", "X", TK, 3, { "A", "t", "B" }, { "Y", "Z", 0 }, { TK, TK, TK }, { 0 }, "t ::= C.\n" },
  { "%type s {int}\n%type t { char * }\n%token_type {Tok*}\n%token_destructor { x($$); }\np ::= s.\n", "s", "X", "int", 3, { "A", "t", "B" }, { 0, "Y", 0 }, { TK, "char *", TK }, { 1, 0, 1 }, "t ::= C.\n" },
  { "%type s {int}\n%type t {int}\n%destructor t { y($$); }\n%destructor s { z($$); }\n", "p", 0, TK, 3, { "s", "t", "t" }, { "Y", 0, 0 }, { "int", "int", "int" }, { 1, 1, 1 }, "s ::= A t.\nt ::= C.\n" },
  { "%default_type {long}\n%default_destructor { d($$); }\n%type t {Tok}\np ::= s.\n", "s", "X", "long", 2, { "t", "A" }, { "X1", "Y" }, { "Tok", TK }, { 1, 0 }, "t ::= C.\n" },
  { "%type s {int}\n%type t {int}\np ::= s.\n", "s", "X", "int", 2, { "t", "A" }, { "X", 0 }, { "int", TK }, { 0 }, "t ::= C.\n" },
  { "%type s {int}\np ::= s A.\np ::= B s.\n", "s", "X", "int", 0, { 0 }, { 0 }, { 0 }, { 0 }, "s ::= C.\n" },
  { "%token_destructor { x($$); }\n%token_class c A|B.\np ::= s.\n", "s", "X", TK, 3, { "c", "D|E", "c" }, { 0, 0, "Z" }, { TK, TK, TK }, { 1, 1, 1 }, "", "A" },
  { "%token_type {Tok}\n%type s {Tok}\np ::= s.\n", "s", 0, TK, 2, { "A|B", "C" }, { "Y", "Z" }, { TK, TK }, { 0 }, "" },
  { "%type t {T1}\n%type u {T2}\n%type v {T3}\n%destructor u {$$}\np ::= s.\n", "s", "X", TK, 5, { "t", "u", "v", "u", "t" }, { "Y", "Z", "W", 0, 0 }, { "T1", "T2", "T3", "T2", "T1" }, { 0, 1, 0, 1, 0 }, "t ::= A.\nu ::= B.\nv ::= C.\n" },
};
enum { NCX = sizeof CX / sizeof *CX };
/* \001: the free bytes; \x and letters: every label of the rule is used at the end where it has to be */
static const char *const TP[] = {
  "X = Y + Z;\001 ", "X\001 = Y;", "\001X = 1;", "Y\001Z X", "\"\001\" X ", "'\001' X ", "/*\001*/ X ", "//\001\n X ", "@Y\001 = @Z;", "\001Y; @\001Z ",
  /* 10 */ "{\001} X", "X[\001] = Y{}; ", "a.X = Y->Z \001 ", "/*X-overwrites-Y\001*/ X = 1; ", "Y /*X-overwrites-Y*/ X\001 ; ", "Y/*X-overwrites-Y*/ X = 1;\001 ", "/*X-overwrites-Y*/ X; \001 Y ", "%d %\001 X%d ", "X1 Y1 \0011X Z_ _Z ", "\\\001 \"\\\"\001X\" ",
  /* 20 */ "'\\\001' X", "X=Y;Z=W;W(Z,Y)\001", "\001", "x y z w\001 XX YY",
};
enum { NTP = sizeof TP / sizeof *TP };
static int id1(int c) { return isalpha(c); } static int id2(int c) { return isalnum(c) || c == '_'; }
/* the extent of the code that starts at s[0] = '{'; 0 if it does not end */
static int extent(const char *s, int n) {
  int p = 1, d = 1;
  while (p < n && s[p]) { int c = s[p], e = p + 1 < n ? s[p + 1] : 0;
    if (c == '{') d++, p++; else if (c == '}') { p++; if (!--d) return p; }
    else if (c == '/' && e == '*') { p += 2; while (p < n && s[p] && !(s[p] == '*' && p + 1 < n && s[p + 1] == '/')) p++; if (p >= n || !s[p]) return 0; p += 2; }
    else if (c == '/' && e == '/') { while (p < n && s[p] && s[p] != '\n') p++; }
    else if (c == '"' || c == '\'') { p++; while (p < n && s[p] && s[p] != c) { if (s[p] == '\\') p++; if (p < n) p++; } if (p >= n || !s[p]) return 0; p++; }
    else p++; }
  return 0;
}
static const char *lab(const ctx *c, int i) { return i < c->n ? c->lab[i] : 0; }
static int field(const char *ty) { /* N of the member yyN of type ty */
  const char *o = strstr(fdata("g.c"), "typedef union {\n  int yyinit;\n"); if (!o) failf("no union of the values"); o += strlen("typedef union {\n  int yyinit;\n"); int L = (int)strlen(ty);
  while (*o && *o != '}') { if (o[0] != ' ' || o[1] != ' ') break; o += 2; if (!strncmp(o, ty, L) && !strncmp(o + L, " yy", 3) && isdigit((unsigned char)o[L + 3])) { int v = 0; for (o += L + 3; isdigit((unsigned char)*o); o++) v = 10 * v + *o - '0'; return v; } while (*o && *o != '\n') o++; o++; }
  failf("no member of type %s in the union", ty); return 0;
}
static int symno(const char *nm) { const char *o = strstr(fdata("g.c"), "yyTokenName[]"); int k; while (o && (o = strchr(o, '\n'))) { o++; k = 0; while (*o && *o != '"' && *o != '\n') o++; if (*o != '"') break; o++; while (nm[k] && o[k] == nm[k]) k++; if (!nm[k] && o[k] == '"') { const char *b = o; while (*b != '*') b--; b--; while (*b != '*') b--; return atoi(b + 1); } } failf("no symbol %s", nm); return 0; }
void sym_harness(void) {
  int cx = sym_pick("cx", P("c0", 0), P("c1", NCX - 1)), tp = sym_pick("tp", P("t0", 0), P("t1", NTP - 1)), n = P("n", 1); const ctx *c = &CX[cx];
  txt t = {0}, e = {0}; unsigned char v[4]; for (int i = 0; i < n; i++) { char nm[8]; sprintf(nm, "b%d", i); v[i] = sym_byte(nm, P("lo", 1), P("hi", 255)); }
  t_s(&t, c->decl); t_s(&t, c->lhs); if (c->la) t_c(&t, '('), t_s(&t, c->la), t_c(&t, ')'); t_s(&t, " ::=");
  for (int i = 0; i < c->n; i++) { t_c(&t, ' '); t_s(&t, c->sym[i]); if (c->lab[i]) t_c(&t, '('), t_s(&t, c->lab[i]), t_c(&t, ')'); }
  t_s(&t, ". "); int a0 = t.n; t_s(&t, "{MRK ");
  for (const char *p = TP[tp]; *p; p++) if (*p != 1) t_c(&t, *p); else for (int i = 0; i < n; i++) t_c(&t, v[i]);
  if (P("use", 1) && tp != 13 && tp != 14 && tp != 15 && tp != 16 || P("use", 1) && cx != 0) { t_s(&t, " "); if (c->la) t_s(&t, c->la); for (int i = 0; i < c->n; i++) if (c->lab[i] && tp != 16) t_s(&t, "+"), t_s(&t, c->lab[i]); } else if (cx == 0 && tp <= 15) t_s(&t, " Z"); 
  t_c(&t, '}'); int a1 = t.n; t_s(&t, "\n"); t_s(&t, c->post); note_hex(t.b, t.n); mf_reset(); mf_put("g.y", t.b, t.n); mf_put("t", LEMPAR, sizeof LEMPAR - 1);
  int rc = run_tool(lemon_main, "lemon -q -l -Tt g.y"), end = extent(t.b + a0, t.n - a0);
  const char *o = fdata("g.c"), *err = fdata("<stderr>");
  if (!end) { sym_nontrivial(); if (!rc) failf("code that does not end is accepted"); return; }
  if (end != a1 - a0) { if (a0 + end < t.n) sym_reject(); }
  if (!o) failf("no g.c: %s", err ? err : "");
  /* translate */
  const char *s = t.b + a0; int p = 1, m = end - 1, bad = 0, lu = 0, us[5] = {0}, no0 = 0, direct = c->n == 0 || !c->lab[0] || !c->la || !strcmp(c->la, c->lab[0]), skip = -1;
  static char ov[60]; sprintf(ov, "/*%s-overwrites-%s*/", c->la ? c->la : "", c->n && c->lab[0] ? c->lab[0] : ""); int ovl = (int)strlen(ov);
  if (!direct) for (int i = 1; i + ovl <= m; i++) { int k = 0; while (k < ovl && s[i + k] == ov[k]) k++; if (k == ovl) { skip = i; direct = 1; break; } }
  if (c->n && c->lab[0] && c->la && !strcmp(c->la, c->lab[0])) lu = us[0] = 1;
  /* the destructor of an unlabelled first symbol runs before the code */
  static char d[100]; int any = 0; t_c(&e, '{');
  if (c->n && !c->lab[0] && c->de[0]) { sprintf(d, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", symno(c->cls ? c->cls : c->sym[0]), 1 - c->n); t_s(&e, d); any = 1; } 
  if (any) t_c(&e, '{'); 
  while (p < m) { int ch = (unsigned char)s[p];
    if (p == skip) { t_s(&e, ov); p += ovl; no0 = 1; continue; }
    if (id1(ch) && !id2((unsigned char)s[p - 1])) { int q = p; while (id2((unsigned char)s[q])) q++; int hit = -2;
      for (int i = -1; i < c->n && hit == -2; i++) { const char *l = i < 0 ? c->la : c->lab[i]; if (!l || (int)strlen(l) != q - p) continue; int k = 0; while (k < q - p && s[p + k] == l[k]) k++; if (k == q - p) hit = i; }
      if (hit == -1) { lu = 1; if (s[p - 1] == '@') sym_reject(); t_s(&e, direct ? "yymsp[" : "yylhsminor.yy"); if (direct) { t_d(&e, 1 - c->n); t_s(&e, "].minor.yy"); } t_d(&e, field(c->lt)); }
      else if (hit >= 0) { if (!hit && no0) bad = 1; us[hit] = 1; int at = s[p - 1] == '@'; if (at) e.n--; t_s(&e, "yymsp["); t_d(&e, hit - c->n + 1); t_s(&e, at ? "].major" : "].minor.yy"); if (!at) t_d(&e, field(c->ty[hit])); }
      else for (int k = p; k < q; k++) t_c(&e, s[k]);
      p = q; continue; }
    t_c(&e, ch); p++;
  }
  t_s(&e, "}\n");
  for (int i = 1; i < c->n; i++) if (!c->lab[i] && c->de[i]) { static char nm[8]; strcpy(nm, c->sym[i]); if (c->cls && nm[0] == 'c') strcpy(nm, c->cls); if (strchr(nm, '|')) *strchr(nm, '|') = 0; sprintf(d, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", symno(nm), i - c->n + 1); t_s(&e, d); }
  if (!direct) { sprintf(d, "  yymsp[%d].minor.yy%d = yylhsminor.yy%d;\n", 1 - c->n, field(c->lt), field(c->lt)); t_s(&e, d); }
  if (any) t_s(&e, "}\n"); t_s(&e, "        break;\n");
  if (c->la && !lu) bad = 1; for (int i = 0; i < c->n; i++) if (c->lab[i] && !us[i]) bad = 1;
  sym_nontrivial();
  if (bad) { if (!rc) failf("a label that is not used, or used after it was overwritten, is accepted"); return; }
  if (rc) failf("correct code is rejected");
  if (!direct && !fhas("g.c", "YYMINORTYPE yylhsminor;")) failf("yylhsminor is not declared");
  const char *k = strstr(o, "{MRK"), *b; if (!k) failf("the code is not in the parser");
  /* which rule */
  for (b = k; b > o && !(b[-1] == '\n' && !strncmp(b, "      case ", 11)); b--) ; int num = atoi(b + 11); const char *x = strchr(b, '*'); if (!x) failf("no comment"); x += 2;
  const char *y = strstr(o, "yyRuleName[]"); for (int i = 0; y && i <= num; i++) y = strchr(y, '\n'), y = y ? y + 1 : 0; if (!y) failf("no rule %d", num); y = strchr(y, '"') + 1;
  { int i = 0; while (y[i] != '"') { if (x[i] != y[i]) failf("the code of rule %d is not the one of that number", num); i++; } if (strncmp(x + i, " */\n", 4)) failf("the code of rule %d is not the one of that number", num); k = x + i + 4; }
  txt r = {0}; t_s(&r, c->lhs); t_s(&r, " ::="); for (int i = 0; i < c->n; i++) { t_c(&r, ' '); t_s(&r, c->cls && !strcmp(c->sym[i], "c") ? "A|B" : c->sym[i]); } if (strncmp(y, r.b, r.n) || y[r.n] != '"') failf("the code is that of another rule");
  for (int i = 0; i < e.n; i++) if (k[i] != e.b[i]) failf("character %d of the emitted code is wrong: '%s' is required (seen: %d)", i, e.b, (unsigned char)k[i]);
}
