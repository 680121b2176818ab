/* byacc on arbitrary bytes: a template with a hole of n free bytes (every value 0..255).  Whatever they are, the
 * run ends, touches only its own memory, and either writes a complete parser and exits with 0, or says on
 * stderr what is wrong and exits with a failure status. */
#define NO_LEMON
#include "hc.h"
static const char *TP[] = {
  /* 0 */ "@",                                        /* the whole file */
  "%@\n%%\ns : 'a' ;\n",
  "%%\ns : @ ;\n",
  "%%\ns : 'a' { @ } ;\n",
  "%%\ns : 'a' { $@; } ;\n",
  /* 5 */ "%union{@}\n%%\ns : 'a' ;\n",
  "%token <@\n%%\ns : 'a' ;\n",
  "%token A @\n%%\ns : A ;\n",
  "%%\ns : '\\@' ;\n",
  "%%\ns : \"@\" ;\n",
  /* 10 */ "%{@%}\n%%\ns : 'a' ;\n",
  "%%\ns : 'a' ;\n%%\n@",
  "%%\n@\n%%\n",
  "%%\ns : 'a' %@ 'b' ;\n",
  "%start @\n%%\ns : 'a' ;\n",
  /* 15 */ "/*@%%\ns : 'a' ;\n",
  "%%\ns : 'a' @",
  "%token <t> A\n%type <t> s @\n%%\ns : A { $$ = $1; } ;\n",
  "%%\ns(@) : 'a' ;\n",
  "%%\ns : t(@) ; t : 'a' ;\n",
  /* 20 */ "%destructor { @ } s\n%%\ns : 'a' ;\n",
  "%destructor { free($$); } @\n%%\ns : 'a' ;\n",
  "%parse-param {@}\n%%\ns : 'a' ;\n",
  "%lex-param {int x@\n%%\ns : 'a' ;\n",
  "%expect @\n%%\ns : 'a' ;\n",
  /* 25 */ "%code @\n{ int x; }\n%%\ns : 'a' ;\n",
  "%define @\n%%\ns : 'a' ;\n",
  "%%\ns : @s 'a' | 'b' @ ;\n",
  "%left '+' @ '*'\n%%\ns : s '+' s | 'a' ;\n",
  "%ident \"@\n%%\ns : 'a' ;\n",
  /* 30 */ "%token A \"x@\" B\n%%\ns : \"x@\" B ;\n",
  "%%\ns : { @ } 'a' { $$ = $@; } ;\n",
  "%initial-action { @ }\n%%\ns : 'a' ;\n",
  "%%\ns : 'a' [ @ ] 'b' ;\n",
  "%%\ns<@> : 'a' ;\n%%\n",
  /* 35: a '~' is a run of letters whose length is symbolic */
  "%token ~\n%%\ns : ~ '@' ;\n",
  "%%\n~ : 'a' { $$ = 1; /* ~ @*/ } ;\n",
  "%token <~> A\n%type <~> s\n%%\ns : A { $<~>$ = $1; @} ;\n",
  "%token A \"~\"\n%left \"~@\"\n%%\ns : \"~\" \"~@\" ;\n",
  "%union { int ~; }\n%start ~\n%%\n~:'a' { @} ;\n",
  /* 40 */ "%{ ~@ %}\n%%\ns : 'a' ;\n%%\n~",
  "%parse-param { int ~ }\n%lex-param {int ~@ }\n%%\ns : 'a' ;\n",
  "%destructor { ~ $$ @ } s\n%destructor { ~ } <~>\n%%\ns : 'a' ;\n",
  "%type <a> s(<~>)\n%%\ns(~) : 'a' t ; t : s(~) @ ;\n",
  "%expect-rr ~@\n%%\ns : 'a' ;\n",
  /* 45 */ "%define ~ {~}\n%code ~ { @ }\n%%\ns : 'a' ;\n",
  "%ident \"~@\"\n%%\ns : 'a' ; /* ~ */ // ~\n",
  /* 47: '^' is a run of " A" */
  "%%\ns : 'b'^ ;\n",
  "%token B^\n%left^\n%%\ns : 'b'^ @{ $$ = $1; } ;\n",
  "%type <t> s^\n%%\ns : 'b' { @ }^ { $$ = $1; } ;\n",
  /* 50 */ "%destructor { \"~@\" /* ~ */ $<~>$; } <*>\n%initial-action { /*~*/ '~' @$ }\n%%\ns : 'a' ;\n",
  "%locations\n%start s\n%%\nt($<~>x, $y) : 'a' { $<x>$ = $<~>1; $<@>$; } ; s : t(~, @) [ $x ] ;\n",
  "%type <x> t(<~>)\n%%\ns : t($<@>1, \"~\") { $<~>$; } ; t($<@>x, $~) : { $~ = $@; } ;\n",
};
static const int LEN[] = { 1, 15, 30, 31, 32, 58, 59, 60, 61, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097 };
void sym_harness(void) {
  int tp = sym_pick("tp", P("t0", 0), P("t1", 34)), o = sym_pick("o", P("o0", 0), P("o1", 0)), n = P("n", 2); int L = tp >= 35 ? LEN[sym_pick("len", P("l0", 0), P("l1", 27))] : 0; static const char *opts[] = { "yacc g.y", "yacc -d -v g.y", "yacc -B g.y", "yacc -i -g -r g.y", "yacc -n g.y", "yacc -N g.y", "yacc -E g.y", "yacc -e g.y", "yacc -S g.y", "yacc -l -t -L -P -s g.y", /* 10 */ "yacc -B -d -v -g -i -n -N -E -e -S -z g.y", "yacc -C -N -E -u g.y", "yacc -c g.y", "yacc -r -t -o x.c -H x.h -p ab g.y" };
  txt t = {0}; unsigned char v[8]; 
  for (int i = 0; i < n; i++) { char nm[8]; sprintf(nm, "b%d", i); v[i] = sym_byte(nm, 0, 255); }
  for (const char *p = TP[tp]; *p; p++) { if (*p == '~') { for (int i = 0; i < L; i++) t_c(&t, 'x'); } else if (*p == '^') { for (int i = 0; i < L; i++) t_s(&t, " A"); } else if (*p != '@') t_c(&t, *p); else for (int i = 0; i < n; i++) t_c(&t, v[i]); }
  note_hex(t.b, t.n); if (L) { char b[40]; sprintf(b, "template %d, run of %d", tp, L); sym_note(b); }
  mf_reset(); mf_put("g.y", t.b, t.n);
  int rc = run_tool(P("bt", 1) ? btyacc_main : yacc_main, opts[o]);
  const char *c = fdata("y.tab.c"), *err = fdata("<stderr>");
  if (rc == 0) { sym_nontrivial(); if (o != 3 && o != 13) { if (!c) failf("exit status 0 without a parser"); if (!fhas("y.tab.c", "\nyyreduce:")) failf("exit status 0 with an incomplete parser"); } }
  else { if (!err || !*err) failf("exit status %d without a diagnostic", rc); }
}
