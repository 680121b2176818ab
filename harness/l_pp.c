/* lemon: %if, %ifdef, %ifndef, %else, %endif.  The preprocessed text (-E) is the file with the directives and exactly the
 * sections whose condition does not hold blanked out, line by line; the parser is the one of that text. */
#define NO_YACC
#include "lc.h"
static const char *defs; /* names, each followed by a blank */
static int defined_(const char *s, int n) { for (const char *p = defs; *p;) { const char *e = strchr(p, ' '); if (e - p == n && !strncmp(p, s, n)) return 1; p = e + 1; } return 0; }
static int isword(int c) { return c == '_' || isalnum((unsigned char)c); }
/* or := and ("||" and)*   and := not ("&&" not)*   not := "!" not | "(" or ")" | name;   -1: malformed */
static const char *ep; static int bad;
static void ws(void) { while (*ep && isspace((unsigned char)*ep)) ep++; }
static int e_or(void);
static int e_not(void) { ws(); if (*ep == '!') { ep++; return !e_not(); } if (*ep == '(') { ep++; int v = e_or(); ws(); if (*ep != ')') { bad = 1; return 0; } ep++; return v; }
  if (!isalpha((unsigned char)*ep)) { bad = 1; return 0; } const char *s = ep; while (isword(*ep)) ep++; return defined_(s, (int)(ep - s)); }
static int e_and(void) { int v = e_not(); while (!bad) { ws(); if (ep[0] == '&' && ep[1] == '&') { ep += 2; v = e_not() & v; } else break; } return v; }
static int e_or(void) { int v = e_and(); while (!bad) { ws(); if (ep[0] == '|' && ep[1] == '|') { ep += 2; v = e_and() | v; } else break; } return v; }
static int cond(const char *s) { bad = 0; ep = s; int v = e_or(); ws(); if (*ep) bad = 1; return bad ? -1 : v; }
static int word(const char *s, int n, const char *w, int eofok) { int k = (int)strlen(w); if (n < k || strncmp(s, w, k)) return 0; if (n == k) return eofok; return isspace((unsigned char)s[k]); }
/* blanks s[0..n) in place; 0 ok, 1 an error is required, 2 unspecified */
static int reference(char *s, int n) {
  struct { int on, cond, els; } st[20]; int d = 0, on = 1; static char b[400];
  for (int i = 0; i < n;) { int e = i; while (e < n && s[e] != '\n') e++; int L = e - i, blank = !on;
    if (word(s + i, L, "%endif", 1)) { if (!d) return 2; d--; on = st[d].on; blank = 1; }
    else if (word(s + i, L, "%else", 0) || (word(s + i, L, "%else", 1) && e < n)) { if (!d || st[d - 1].els) return 2; st[d - 1].els = 1; if (st[d - 1].on) on = !st[d - 1].cond; blank = 1; }
    else { int k = !strncmp(s + i, "%ifdef ", 7) && L >= 7 ? 6 : !strncmp(s + i, "%ifndef ", 8) && L >= 8 ? 7 : !strncmp(s + i, "%if ", 4) && L >= 4 ? 3 : 0;
      if (k) { if (d == 20) sym_limit_exceeded(); int v = 0; if (on) { if (L - k >= 399) sym_limit_exceeded(); memcpy(b, s + i + k, L - k); b[L - k] = 0; v = cond(b); if (v < 0) return 1; if (k == 7) v = !v; } st[d].on = on; st[d].cond = v; st[d].els = 0; d++; on = on && v; blank = 1; } }
    if (blank) for (int j = i; j < e; j++) s[j] = ' ';
    i = e + 1; }
  if (d) return on ? 2 : 1;
  return 0;
}
static const char *const T[] = {
  "%ifdef X\001\nyes\001\n\001%endif\001\nafter\n",
  "one\n%ifndef X\001\nyes\n%else\001\nno %endif\n%ifdef Y\nnested\n%else\nother\n%endif\n%endif\001",
  "%if X && !YY\001\n%ifdef Z\n%\001if Z\n%endif\n%else\n zz\n%endif\nb\n\001%else\nc\n%endif \nd",
  "%if (X||Z) \001 && YY\r\ntext % %if \r\n%endif\r\n\r\nend",
  "%if !(X \001Z)|| (YY&&(!X || Z))\na\n%endif /* */\n%ifdef\tZ\n\001",
  "%if XX\001\na\n%endif\n%if X_1\001\nb\n%endif\n%ifndef X1\001\nc\n%endif\n",
  "%ifdef Z\n%else\n%ifdef X\nin\n%endif\nout\001\n",
};
enum { NTX = sizeof T / sizeof *T };
static const char *const RUN[] = { "lemon -E g.y", "lemon -E -DX g.y", "lemon -E -DX=5 -DZ g.y", "lemon -E -DYY -DXX -DX1 g.y", "lemon -E -DZ -DX -DYY -DX_1 g.y" }, *const DEF[] = { "", "X ", "X Z ", "YY XX X1 ", "Z X YY X_1 " };
static const char GR[] = "%token_type {int}\n%ifdef X\n%include { int x; }\n%type s {char}\n%else\n%code { no x }\n%left A.\n%endif\np ::= s.\n%if Y && !X || Z\ns ::= A s.\n%ifndef Z\ns ::= B. { only_y(); }\n%endif\n%endif\ns ::= C.\n%if (X || Y) && Z\n%left B C. /* \001\n %endif\n*/\n%endif\ns ::= D \001.\n";
void sym_harness(void) {
  int mode = P("mode", 0), n = P("n", 1); static char want[2000]; txt t = {0}; static unsigned char v[8]; int kinds[8], d;
  static char line[60];
  if (mode == 0) { /* an expression of n free bytes */
    int k = sym_pick("dir", 0, 2); d = sym_pick("defs", 0, P("d1", 2)); for (int i = 0; i < n; i++) { char b[8]; sprintf(b, "b%d", i); v[i] = sym_byte(b, 1, 255); if (v[i] == '\n') sym_reject(); }
    t_s(&t, k == 0 ? "%if " : k == 1 ? "%ifdef " : "%ifndef "); for (int i = 0; i < n; i++) t_c(&t, v[i]); t_s(&t, "\nYES\n%else\nNO\n%endif\nEND\n");
  } else if (mode == 4) { /* three names with free bytes around them */
    static const char *const E[] = { "\001X\001\001\001YY\001\001\001Z\001", "\001(X\001\001YY)\001\001Z\001", "X\001\001(YY\001\001\001Z)\001", "\001X\001\001YY\001\001Z" };
    int k = sym_pick("dir", 0, 1), e = sym_pick("e", P("e0", 0), P("e1", 3)), q = 0; d = sym_pick("defs", 0, 4); t_s(&t, k ? "%ifndef " : "%if "); for (const char *p = E[e]; *p; p++) if (*p != 1) t_c(&t, *p); else { char b[8]; sprintf(b, "b%d", q++); int c = sym_byte(b, 32, 126); t_c(&t, c); }
    t_s(&t, "\nYES\n%else\nNO\n%endif\nEND\n");
  } else if (mode == 1) { /* n lines, each one of nine */
    static const char *const L[] = { "text", "%ifdef X", "%ifndef X", "%if Z || !X", "%else", "%endif", " %endif", "%endifx", "%ifdef Z&&X" };
    d = sym_pick("defs", 0, 2); for (int i = 0; i < n; i++) { char b[8]; sprintf(b, "k%d", i); kinds[i] = sym_pick(b, 0, 8); t_s(&t, L[kinds[i]]); t_c(&t, '\n'); } t_s(&t, "last");
  } else { /* free bytes in a text or a grammar */
    int ti = mode == 2 ? sym_pick("t", 0, NTX - 1) : 0; const char *src = mode == 2 ? T[ti] : GR; int nh = 0; for (const char *p = src; *p; p++) nh += *p == 1;
    int h = sym_pick("h", 0, nh - 1), k = 0; d = sym_pick("defs", 0, 4); for (int i = 0; i < n; i++) { char b[8]; sprintf(b, "b%d", i); v[i] = sym_byte(b, 1, P("hi", 255)); }
    for (const char *p = src; *p; p++) if (*p != 1) t_c(&t, *p); else if (k++ == h) for (int i = 0; i < n; i++) t_c(&t, v[i]);
  }
  note_hex(t.b, t.n); memcpy(want, t.b, t.n); want[t.n] = 0; defs = DEF[d];
  static const char *const GDEF[] = { "", "X ", "X Y ", "X Z ", "Y " }, *const GRUN[] = { "lemon -q -l -Tt g.y", "lemon -q -l -DX -Tt g.y", "lemon -q -l -DX -DY -Tt g.y", "lemon -q -l -DX=1 -DZ=2 -Tt g.y", "lemon -q -l -DY -Tt g.y" };
  if (mode == 3) defs = GDEF[d];
  int need = reference(want, t.n); if (need == 2) sym_reject();
  mf_reset(); mf_put("g.y", t.b, t.n); mf_put("t", LEMPAR, sizeof LEMPAR - 1);
  int rc = run_tool(lemon_main, mode == 3 ? GRUN[d] : RUN[d]); sym_nontrivial();
  if (mode != 3) {
    if (need) { if (!rc) failf("a malformed condition is accepted"); const char *e = fdata("<stderr>"); if (!e || !*e) failf("exit status %d without a message", rc); return; }
    if (rc) failf("a correct condition is rejected: %s", fdata("<stderr>"));
    const char *o = fdata("<stdout>"); if (!o) failf("no output"); int m = (int)strlen(want);
    for (int i = 0; i < m; i++) if (o[i] != want[i] && !(want[i] == ' ' && o[i] == '\r')) failf("character %d of the preprocessed text is %d, not %d (%s)", i, (unsigned char)o[i], (unsigned char)want[i], want); if (o[m] != '\n' || o[m + 1]) failf("the preprocessed text has another end");
    return; }
  static char g1[60000]; const char *o = fdata("g.c"); int have = o != 0; if (o) { if (strlen(o) >= sizeof g1) sym_limit_exceeded(); strcpy(g1, o); }
  if (need) { if (!rc) failf("a malformed condition is accepted"); return; }
  mf_reset(); mf_put("g.y", want, strlen(want)); mf_put("t", LEMPAR, sizeof LEMPAR - 1); int rc2 = run_tool(lemon_main, "lemon -q -l -Tt g.y"); o = fdata("g.c");
  if (rc != rc2 || have != (o != 0)) failf("exit status %d, but %d for the text without the skipped sections", rc, rc2);
  if (!o) return; const char *a = strstr(g1, "*/\n"), *b = strstr(o, "*/\n"); if (!a || !b) failf("no header comment"); for (; *a || *b; a++, b++) if (*a != *b) failf("the parser differs from that of the text without the skipped sections: %s", a - 10);
}
