/* lemon: #line directives.  Every marker in the grammar has to be attributed to its own line of the grammar, and a
 * directive that names the generated file has to carry the number of the line after it. */
#define NO_YACC
#include "lc.h"
/* \001: a place for the free bytes (one of them is chosen); \002: marker */
static const char *const G[] = {
  "\n%include {\n int \002;\001\n}\n%include\001 { \002 }\n%token_type {char*}\n%code { \002\001\n \002}\n%syntax_error {\001 \002;\n}\n%parse_accept {\n\002;\n}\n%parse_failure {\001 \002; }\n%stack_overflow { \001 \002;\n\002 }\n%code\n\n{\002;\001\n}\ns ::= A\001. { \002\001 }\n",
  "\n/*\001*/%include {/* x */\n \002; }\n%token_destructor {\001 \002;\n \002 }\n%default_destructor {\n \002\001; }\n%type s {int\001 *}\n%destructor s { \002;\001\n\002; }\n%destructor t\n{ \001 \002; }\n%destructor t { \002;\n\001 }\n%destructor s\001 {\002}\ns ::= t A u(X). { X\001; \002 \n\002}\nt ::= B.\nu ::= C\001. {\002}\n",
  "\np ::= s.\ns(X) ::= A(Y) B\001. { \002 X =\001 Y;\n \002 }\ns(X) ::= \001s(Y) C(Z). {\002; X = Y + Z; /*\001 \002 */ \"\\\\\001\" '\\n'\n \002 }\ns ::= .{\002\001}\ns(A) ::= s(A) D(B).\001 /* c */ { A += B; // \001\n \002 }\n%code {\002}\n",
  "\n%extra_argument {int x}\n%extra_context {int *y}\n%token_prefix T_\n%name P\n%stack_size 20\n%left\001 B C.\n%fallback A\001 B\n C.\n%wildcard D.\n%token_class cl\n A|B.\n%start_symbol s\001\ns ::= cl. [B]\n { \002 }\ns ::= C|D\001.\n\n{\n\002;\001\n}\n%code {\002\001}\n",
  "\n%ifdef X\n%include { \001\002; }\n%else\n%include { \002\001; }\n%endif\n%if X && (Y ||\001 !Z)\n%code { \002\001 }\n%endif\n%ifndef Y\ns ::= A. { \002;\n\001 }\n%endif\n%ifdef Y\ns ::= A\001 B.\n {\002}\n%endif\n%code {\002}\n",
  "\ns ::= error. { \002\001 }\n%type s {int}\n%default_type {char\n\001 *}\ns ::= A. [\001A]\n { \002\001 }\n%nonassoc A.\ns ::= A B.\001\n%destructor s {\n$$\001 \002\n $$ }\n%syntax_error {\002\001}\n%syntax_error {\n\002}\n",
};
enum { NG = sizeof G / sizeof *G };
static const char *const OPT[] = { "lemon -q -Tt g.y", "lemon -q -m -Tt g.y", "lemon -q -c -r -DX -Tt g.y", "lemon -q -DX -DY=1 -DZ -DW -p -s -Tt g.y", "lemon -q -l -DX -Tt g.y" };
static int mline[200], nm;
static void look(const char *file, int need) {
  const char *o = fdata(file); if (!o) failf("%s is missing", file); FILE *f = mf_get(file); int n = (int)f->len, phys = 1, cur = 0, num = 0, own = 0; static char fn[80]; fn[0] = 0;
  for (int i = 0; i < n;) {
    if (o[i] == '#' && !strncmp(o + i, "#line ", 6) && isdigit((unsigned char)o[i + 6])) { int j = i + 6, k = 0; cur = 0; while (isdigit((unsigned char)o[j])) cur = 10 * cur + o[j++] - '0'; if (o[j] != ' ' || o[j + 1] != '"') failf("%s:%d: malformed #line", file, phys); j += 2; while (o[j] != '"' && o[j] != '\n' && k < 70) fn[k++] = o[j++]; fn[k] = 0; if (o[j] != '"' || o[j + 1] != '\n') failf("%s:%d: malformed #line", file, phys); i = j + 2; phys++; own = !strcmp(fn, file);
      if (own && cur != phys) failf("%s:%d: the directive says the next line is %d", file, phys - 1, cur);
      if (!own && strcmp(fn, "g.y")) failf("%s:%d: the directive names %s", file, phys - 1, fn); continue; }
    static const char *const SK[] = { "#define YYNSTATE", "static const YYACTIONTYPE", "};", "/* tok */", "/* reduce", "/* error", "/* accept", "    case ", "/* failure", "/* ctl */", "      case ", "/* end" };
    if (fn[0] && !own) for (int q = 0; q < 12; q++) if (!strncmp(o + i, SK[q], strlen(SK[q]))) failf("%s:%d: the parser's own code is attributed to the grammar", file, phys);
    for (; i < n && o[i] != '\n'; i++) if (o[i] == 'Q' && o[i + 1] == 'Z' && o[i + 2] == '9') { num = (o[i + 3] - '0') * 10 + o[i + 4] - '0';
      if (num < 0 || num >= nm) failf("%s: marker %d", file, num);
      if (!fn[0] || own) { if (need) failf("%s:%d: code from line %d of the grammar is attributed to the generated file", file, phys, mline[num]); }
      else if (cur != mline[num]) failf("%s:%d: code from line %d of the grammar is attributed to line %d", file, phys, mline[num], cur); }
    i++; phys++; cur++;
  }
}
void sym_harness(void) {
  int gi = sym_pick("g", P("g0", 0), P("g1", NG - 1)), o = sym_pick("o", P("o0", 0), P("o1", 4)), n = P("n", 1), nh = 0;
  for (const char *p = G[gi]; *p; p++) if (*p == 1) nh++;
  int h = sym_pick("h", 0, nh - 1), k = 0, line = 1; nm = 0; txt t = {0}; unsigned char v[4]; for (int i = 0; i < n; i++) { char b[8]; sprintf(b, "b%d", i); v[i] = sym_byte(b, 1, 255); }
  for (const char *p = G[gi]; *p; p++) if (*p == 1) { if (k++ == h) for (int i = 0; i < n; i++) t_c(&t, v[i]); } else if (*p == 2) { t_s(&t, "QZ9"); t_c(&t, '0' + nm / 10); t_c(&t, '0' + nm % 10); nm++; } else t_c(&t, *p);
  note_hex(t.b, t.n); mf_reset(); mf_put("g.y", t.b, t.n);
  static char tp[2000]; strcpy(tp, "/* a header\n * comment\n */\n"); strcat(tp, LEMPAR); mf_put("t", tp, strlen(tp));
  int rc = run_tool(lemon_main, OPT[o]); if (rc) { if (v[0] == ' ' && n == 1) failf("a correct grammar is rejected"); return; }
  nm = 0; for (int i = 0; i < t.n; i++) { if (t.b[i] == 'Q' && t.b[i + 1] == 'Z') mline[nm++] = line; if (t.b[i] == '\n') line++; }
  sym_nontrivial();
  if (o == 4) { if (fhas("g.c", "\n#line")) failf("#line directives in spite of -l"); return; }
  look("g.c", 1);
}
