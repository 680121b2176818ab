/* lemon on arbitrary bytes: a template with a hole of n free bytes (every value 0..255), or names and code of
 * symbolic length.  Whatever they are, the run ends, touches only its own memory, and either writes a complete
 * parser and exits with 0, or says on stderr what is wrong and exits with a failure status. */
#define NO_YACC
#include "lc.h"
static const char *TP[] = {
  /* 0 */ "@",
  "%@\ns ::= A.\n",
  "s ::= @ .\n",
  "s ::= A. { @ }\n",
  "s(X) ::= A(Y). { X = Y@; }\n",
  /* 5 */ "s(@) ::= A(B).\n",
  "s ::= A. [@]\n",
  "%include {@}\ns ::= A.\n",
  "%name @\ns ::= A.\n",
  "%token_type @\ns ::= A.\n",
  /* 10 */ "%type s {int@}\ns ::= A.\n",
  "%destructor s { free($$); @ }\ns ::= A.\n",
  "%left A@B.\ns ::= s A s.\ns ::= B.\n",
  "%ifdef @\nt ::= B.\n%endif\ns ::= A.\n",
  "%if A@B\nt ::= B.\n%else\ns ::= A.\n%endif\ns ::= B.\n",
  /* 15 */ "%ifndef X\ns ::= A.\n%@\n",
  "%fallback A @.\ns ::= A B.\n",
  "%wildcard @.\ns ::= A B.\n",
  "%token_class c A@B.\ns ::= c.\n",
  "s ::= A|@.\n",
  /* 20 */ "%start_symbol @\ns ::= A.\n",
  "%stack_size @\ns ::= A.\n",
  "%expect @\ns ::= A.\n",
  "%extra_argument {int@}\ns ::= A. { foo(x); }\n",
  "%token_prefix @\ns ::= A.\n",
  /* 25 */ "/*@*/ s ::= A. //@\n",
  "%syntax_error { \"@\" '@' }\ns ::= A.\n",
  "s ::= A@",
  "%token A B@ C.\ns ::= A.\n",
  "%default_type {char*@}\n%extra_context {int x@}\ns ::= A.\ns ::= s B.\n",
  /* 30 */ "%token_destructor { @ }\n%default_destructor {@}\ns ::= t A.\nt ::= . {@}\n",
  "s(X) ::= t(@) A|B(Y). { X=Y; }\nt ::= .\n",
  "s ::= A.\n@::= B.\n",
  "s ::= t s u.\ns ::= A@.\nt ::= .\nu ::= .\n",
  "%parse_accept {@\n}\n%code {@\n}\ns ::= A.\n",
  /* 35 */ "s(X) ::= A(Y). {@X=Y}\n",
  "s(X) ::= A(X) B(Z). {/*@*/Z}\n",
  /* 37: '~' is a run of letters (capitals after a capital) of symbolic length */
  "~ ::= A~ B~. { ~ }\n",
  "~(x~) ::= A~(B~). { x~ = B~; @}\n",
  "%token A~ B~.\n%left A~.\n~ ::= ~ A~ ~. [B~]\n~ ::= B~.\n",
  "%name X~\n%token_prefix T~\ns ::= A.\n",
  "%include {~@}\n%code {~}\n%include {~}\ns ::= A.\n",
  "%type s {~}\n%type t {~ *}\n%destructor t { ~($$) }\n%default_type {~}\n%token_type {~}\ns ::= t.\nt ::= A.\n",
  "%extra_argument {int ~}\n%extra_context {struct x *~@}\ns ::= A.\n",
  "%stack_size ~\n%start_symbol ~\n~ ::= A.\n",
  "%token_class c~ A~|B~|C~.\ns ::= c~ c~.\n",
  "s ::= A~|B~|C~|D.\n",
  "%ifdef ~\ns ::= B.\n%endif\n%if ~ && (~ || !~@)\ns ::= A.\n%else\ns ::= C.\n%endif\n",
  "%~ {x}\ns ::= A.\ns :~= B.\n",
  "%fallback ID A~ B~.\n%wildcard ANY~.\ns ::= ANY~ A~ ID@.\n",
  "%syntax_error {~}\n%parse_accept {~}\n%parse_failure {~}\n%stack_overflow {~}\n%token_destructor {~$$}\n%default_destructor {$$~@}\ns ::= A.\n",
  /* 51: '^' is a run of " A" */
  "s ::= B^.\n",
  "s ::= B(X)^@ C(Y). {X Y}\n",
  "%token B^.\ns ::= B.\n%left C^.\n",
  "%fallback ID^.\n%token_class c B^.\n s ::= c.\n",
};
static const int LEN[] = { 1, 8, 20, 30, 31, 32, 38, 39, 40, 48, 49, 50, 51, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 899, 900, 901, 998, 999, 1000, 1001, 1023, 1024, 2048, 4096, 5000 };
void sym_harness(void) {
  int tp = sym_pick("tp", P("t0", 0), P("t1", 36)), o = sym_pick("o", P("o0", 0), P("o1", 0)), n = P("n", 1), L = tp >= 37 ? LEN[sym_pick("len", P("l0", 0), P("l1", 36))] : 0;
  static const char *opts[] = { "lemon -q -Tt g.y", "lemon -Tt -s -S -p g.y", "lemon -c -r -b -m -l -Tt -DX -DA=1 g.y", "lemon -g g.y", "lemon -y g.y", /* 5 */ "lemon -Y g.y", "lemon -E g.y", "lemon -u -Tt -z g.y", "lemon -Tt -do g.y" };
  txt t = {0}; unsigned char v[8];
  for (int i = 0; i < n; i++) { char nm[8]; sprintf(nm, "b%d", i); v[i] = sym_byte(nm, 0, 255); }
  for (const char *p = TP[tp]; *p; p++) {
    if (*p == '~') { int up = p > TP[tp] && p[-1] >= 'A' && p[-1] <= 'Z'; for (int i = 0; i < L; i++) t_c(&t, up ? 'X' : 'x'); }
    else if (*p == '^') { for (int i = 0; i < L; i++) t_s(&t, " A"); } else if (*p != '@') t_c(&t, *p); else for (int i = 0; i < n; i++) t_c(&t, v[i]); }
  note_hex(t.b, t.n); if (L) { char b[60]; sprintf(b, "template %d, run of %d", tp, L); sym_note(b); }
  mf_reset(); mf_put("g.y", t.b, t.n); mf_put("t", LEMPAR, sizeof LEMPAR - 1); if (o == 1) mf_put("g.h", "enum LemonEnum {\n x\n y\n z\n", 26);
  int rc = run_tool(lemon_main, opts[o]);
  const char *err = fdata("<stderr>");
  if (rc == 0) { sym_nontrivial(); if (o < 3 || o == 7) { if (!fdata("g.c")) failf("exit status 0 without a parser"); if (!fhas("g.c", "/* end */")) failf("exit status 0 with an incomplete parser"); } }
  else { if (!err || !*err) failf("exit status %d without a diagnostic", rc); }
}
