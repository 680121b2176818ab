/* byacc: #line directives.  Every marker in the grammar has to be attributed to its own line of the grammar, and a
 * directive that names the generated file has to carry the number of the line after it. */
#define NO_LEMON
#include "hc.h"
/* \001: a place for the free bytes (one of them is chosen); \002: marker */
static const char *const G[] = {
  "%{\001\n int \002;\001\n%}\n%union\001 {\n int \001\002;\n \001 int z\002;\n}\n%token <z> A\001 B\n%left '+'\001\n%{ int x\002; %}\n%%\001\ns : A\001 { a\001\002\n ; } B { \002\001; }\n \001{ \n\002 } | e ;\ne : e\001 '+' e { $<z>$\001 = $<z>1 \002; }\n /*\001*/ | B\n\001 = \n{ \002 } ;\n%%\001\n int f\002;\n\001 g\002;",
  "%{ int a\002; /*\001*/\n \002; //\001\n \002; \"\\\\\001\"; \002\n %}\n%start s\n%%\ns : 'a' { \002 /*\001 \002 */ \002 //\001 \002\n \002 \"\\\\\001\" \002;\n ' \001' \002; }\n  | 'b' 'c' \n { \002 /* \001\n * \002 */ }\n ;\n\001 t : s { \n \n \002; } ;\n%%  \002 \001\n \002\n",
  /* 2: backtracking build */
  "%locations\n%union { int i; char *p; }\n%initial-action\001 {\n \001 i\002; }\n%destructor {\n \001 d\002; } <p> C\n%destructor { /*\001*/ e\002;\n f\002 } <*>\n%token <p> C D\n%token <i> E\001\n%%\ns : C { \n\002 } t(\001 1) D { \002; } | E u { \001 \002 } ;\nt($<i>x)\001 : C { \002\n\002 } ;\nu : \001 { @$;\n \002 } 'x' \n { \001\002 };\n%%\n \002\n",
  "%code top {int a\002;\n \001 \002;\n}\n%code requires { int b\002;\001\n}\n%code provides {int c\002;\n\001 int d\002; }\n%code {int \001 e\002;\n f\002 }\n%%\ns : 'a' { \001\002 } ;\n%%\n \002",
  "%{ \002 %}\n%code {\001 int\n e\002; }\n%code top {\n \001 int g\002;\n h\002; }\n%code provides\n{\n p\002; }\n%code { m\001\002 }\n%code \n {\n\n n\002; }\n%%\ns : 'a' { \002 } ;\n%%\n \002\n",
  "%parse-param { int a,\001 int b }\n%lex-param {int\001\n c}\n%token A 300\001 B\n%type <x> s\001\n%expect 0\n%ident \"x\"\n%pure-parser\n%%\ns : A\n\n 'b' '\\n'\n \"\\\"\" { \002\001 }\n%prec A\n %empty { \002 } ;\n%%\n \002\n",
  "%token A\n%%\ns : A [ \002 ] B { \n\002 } | A [\n \001 \002 ] | A { \002 \001} [ \002\n ] C { \002 } ;\nw : {\002} 'q' \001{ \n \002; } ;\nB : \n{\002\n\001}\n{\002}\n;\nC:[\002]{\n\002};\n",
};
enum { NG = sizeof G / sizeof *G };
static const char *const OPT[] = { "yacc g.y", "yacc -d -v g.y", "yacc -i -d g.y", "yacc -r g.y", "yacc -r -d -i -t g.y", "yacc -B -t -L g.y", "yacc -P -o out.c -p ab g.y", "yacc -B -d -r -p zz_ g.y", "yacc -l g.y", "yacc -b foo -s -d g.y" };
static int mline[200], nm, opt, dev;
static void look(const char *file, int need) {
  const char *o = fdata(file); if (!o) return; FILE *f = mf_get(file); int n = (int)f->len, phys = 1, cur = 0, num = 0, own = 0, no = P("no", 0); static char fn[80]; fn[0] = 0;
  for (int i = 0; i < n;) {
    if (o[i] == '#' && !strncmp(o + i, "#line ", 6) && isdigit((unsigned char)o[i + 6])) { int j = i + 6, k = 0; cur = 0; while (isdigit((unsigned char)o[j])) cur = 10 * cur + o[j++] - '0'; if (o[j] != ' ' || o[j + 1] != '"') failf("%s:%d: malformed #line", file, phys); j += 2; while (o[j] != '"' && o[j] != '\n' && k < 70) fn[k++] = o[j++]; fn[k] = 0; if (o[j] != '"' || o[j + 1] != '\n') failf("%s:%d: malformed #line", file, phys); i = j + 2; phys++; own = !strcmp(fn, file);
      if (own && opt == 2 && cur == phys + 1) dev = phys - 1; else if (own && cur != phys) failf("%s:%d: the directive says the next line is %d", file, phys - 1, cur);
      if (!own && strcmp(fn, "g.y")) failf("%s:%d: the directive names %s", file, phys - 1, fn); continue; }
    static const char *const SK[] = { "#define YYTABLESIZE", "static int yygrowstack", "yyloop:", "yyreduce:", "yyaccept:", "    switch (yyn)" };
    if (fn[0] && !own) for (int q = 0; q < 6; q++) if (!strncmp(o + i, SK[q], strlen(SK[q]))) failf("%s:%d: the parser's own code is attributed to the grammar", file, phys);
    for (; i < n && o[i] != '\n'; i++) if (o[i] == 'Q' && o[i + 1] == 'Z' && o[i + 2] == '9') { num = (o[i + 3] - '0') * 10 + o[i + 4] - '0';
      if (num < 0 || num >= nm) failf("%s: marker %d", file, num);
      if (!fn[0] || own) { if (need) failf("%s:%d: code from line %d of the grammar is attributed to the generated file", file, phys, mline[num]); }
      else if (cur != mline[num]) failf("%s:%d: code from line %d of the grammar is attributed to line %d", file, phys, mline[num], cur); }
    i++; phys++; cur++;
  }
}
void sym_harness(void) {
  int gi = sym_pick("g", P("g0", 0), P("g1", NG - 1)), bt = P("bt", 1), o = sym_pick("o", P("o0", 0), P("o1", 9)), n = P("n", 1), nh = 0; if (!bt && (gi == 2 || gi == 6)) sym_reject(); if (gi == 6 && o != 5 && o != 7) sym_reject();
  for (const char *p = G[gi]; *p; p++) if (*p == 1) nh++;
  int h = sym_pick("h", 0, nh - 1), k = 0, line = 1; nm = 0; txt t = {0}; unsigned char v[4]; for (int i = 0; i < n; i++) { char b[8]; sprintf(b, "b%d", i); v[i] = sym_byte(b, 1, 255); }
  for (const char *p = G[gi]; *p; p++) if (*p == 1) { if (k++ == h) for (int i = 0; i < n; i++) t_c(&t, v[i]); } else if (*p == 2) { t_s(&t, "QZ9"); t_c(&t, '0' + nm / 10); t_c(&t, '0' + nm % 10); nm++; } else t_c(&t, *p);
  note_hex(t.b, t.n); mf_reset(); mf_put("g.y", t.b, t.n);
  int rc = run_tool(bt ? btyacc_main : yacc_main, OPT[o]); if (rc) { if (v[0] == ' ' && n == 1) failf("a correct grammar is rejected"); return; }
  nm = dev = 0; opt = o; for (int i = 0; i < t.n; i++) { if (t.b[i] == 'Q' && t.b[i + 1] == 'Z') mline[nm++] = line; if (t.b[i] == '\n') line++; }
  sym_nontrivial();
  if (o == 8) { if (fhas("y.tab.c", "\n#line")) failf("#line directives in spite of -l"); return; }
  const char *b = o == 9 ? "foo.tab" : o == 6 ? "out" : "y.tab"; static char f[40];
  sprintf(f, "%s.c", b); if (!fdata(f)) failf("no parser"); look(f, 1); sprintf(f, "%s.h", b); look(f, 0); look("y.code.c", 1); look("y.tab.i", 0);
  if (dev && h == 0 && v[0] == ' ') failf("-i without -r: the directive in line %d of the parser is one too large, the YYPREFIX line of the externs file is counted", dev);
}
