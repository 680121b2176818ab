/* Grammars with holes.  "s=Da?|E!;a=A|" : small letters are nonterminals, capitals terminals; a hole is a
 * symbolic choice: ? = nothing or any symbol, ! = any symbol, * = any terminal.  Consecutive ? are filled from the left. */
#ifndef TMPL_H
#define TMPL_H
#include "hc.h"
static const char *const TMPL[] = {
  /* 0 */ "s=Da?|Ea?|Fa?;a=A|AB",                    /* one state reached through three contexts */
  /* 1 */ "s=Da*|Ea*|Fb*|Eb*;a=A;b=A",               /* two reductions in it: merged lookaheads and conflicts */
  /* 2 */ "s=Da|Eb|Fc;a=A?|A;b=B?|B;c=C?|C",         /* mutual recursion: cycles of "includes" */
  /* 3 */ "s=abc?|?bD;a=A|;b=B|;c=?|",               /* nullable prefixes and suffixes */
  /* 4 */ "s=l;l=l?i|i;i=I?|?D",                     /* lists */
  /* 5 */ "s=e;e=e?t|t;t=t?f|f;f=AeB|N?",            /* expressions */
  /* 6 */ "s=?abcD;a=?|A;b=?|;c=|C",                 /* chains of "reads" */
  /* 7 */ "s=a?|b;a=cA|B;b=cA|?;c=?|C",              /* unit rules and shared prefixes */
  /* 8 */ "s=DaF|Ea|a?;a=AbB|b;b=A?|?",              /* follow sets through several levels */
  /* 9 */ "s=a;a=b?;b=c?;c=d?;d=?|",                 /* a chain of nullable tails */
  /* 10 */ "s=Aa|Ba|Ca|Da?;a=E|Eb;b=F|F?",           /* four contexts, two levels */
  /* 11 */ "s=abA|baB|?;a=C?|;b=C?|",                /* the same item before different nullables */
  /* 12 */ "s=aA|bB|cC|?;a=D?|D;b=D?|D;c=D",        /* three reductions in one state */
  /* 13 */ "s=?b|?c;b=B?b|B;c=B?c|C",               /* shared prefixes */
  /* 14 */ "s=A?bc|B?;b=Ab|;c=Ac|?",                /* right recursion before a nullable tail */
  /* 15 */ "s=Da|Ea|Fb|a;a=bA?|B;b=cC?|?;c=DB|",    /* several levels, several contexts */
};
enum { NTMPL = sizeof TMPL / sizeof *TMPL };
typedef struct { const char *tn[MAXT], *nn[MAXN]; char nb[MAXT + MAXN][8]; int nt, nnt, no, nr, nh; struct { int lhs, len; short rhs[MAXL]; unsigned char h[MAXL]; } r[MAXR]; } tmpl;
/* token classes (lemon): terminal 1 is the class k = A|B, terminal 2 the class j = A|C, terminal n > 2 the n+1st letter */
static int tmpl_cls;
static void t_class(txt *t, int v, int inl) { t_s(t, v == 1 ? inl ? "A|B" : "k" : inl ? "A|C" : "j"); }
/* writes the text of the grammar's rules (yacc: byacc's syntax, else lemon's); the choices stay symbolic */
static void tmpl_text(tmpl *m, const char *spec, txt *t, int yacc, int terms, const char *codes) {
  memset(m, 0, sizeof *m); static char nts[MAXN + 1], ts[MAXT + 1]; int nn = 0, nt = 1, nr = 0; m->tn[0] = yacc ? "$end" : "$"; memset(nts, 0, sizeof nts); memset(ts, 0, sizeof ts);
  for (const char *p = spec; *p; p++) if (p == spec || p[-1] == ';') { int k; for (k = 0; k < nn; k++) if (nts[k] == *p) break; if (k == nn) nts[nn++] = *p; }
  for (int c = 'A'; c <= 'Z'; c++) if (strchr(spec, c)) { ts[nt - 1] = (char)c; nt++; }
  if (nt < terms) nt = terms;
  for (int i = 0; i < nn; i++) { m->nb[i][0] = (char)('a' + i); m->nn[i] = m->nb[i]; }
  for (int i = 1; i < nt; i++) { sprintf(m->nb[MAXN + i], yacc ? "'%c'" : "%c", tmpl_cls ? i == 1 ? 'A' : i == 2 ? 'A' : 'A' + i : 'A' + i - 1); m->tn[i] = m->nb[MAXN + i]; }
  m->nt = nt; m->nnt = nn; int no = m->no = yacc ? nn : nn - 1;   /* lemon: the start symbol may not occur on a right-hand side */
  if (!yacc) { t_s(t, "%token"); if (tmpl_cls) t_s(t, " A B C"); for (int i = tmpl_cls ? 3 : 1; i < nt; i++) { t_c(t, ' '); t_s(t, m->tn[i]); } t_s(t, ".\n"); if (tmpl_cls) t_s(t, "%token_class k A B.\n%token_class j A C.\n"); }
  const char *p = spec;
  while (*p) { int A = (int)(strchr(nts, *p) - nts), first = 1; p += 2;
    for (;;) { int end = 0, n = 0; if (nr >= MAXR) sym_limit_exceeded(); m->r[nr].lhs = A;
      if (!yacc) { t_s(t, m->nn[A]); t_s(t, " ::="); } else if (first) { t_s(t, m->nn[A]); t_s(t, " :"); } else t_s(t, " |");
      for (; *p && *p != '|' && *p != ';'; p++) { if (n >= MAXL) sym_limit_exceeded();
        if (*p == '?' || *p == '!' || *p == '*') { char nm[8]; sprintf(nm, "h%d", m->nh++); if (p[-1] != '?') end = 0;
          unsigned char h = sym_byte(nm, *p == '?' ? 0 : *p == '!' ? 1 : no + 1, no + nt - 1);
          if (h == 0) { end = 1; m->r[nr].rhs[n++] = -1; continue; } if (end) sym_reject();
          t_c(t, ' '); if (tmpl_cls && h == no + 1) t_class(t, 1, m->nh & 1); else if (tmpl_cls && h == no + 2) t_class(t, 2, m->nh & 1); else if (h <= no) t_c(t, 'a' + nn - no + h - 1); else { if (yacc) t_c(t, '\''); t_c(t, 'A' + (tmpl_cls ? 1 : 0) + h - 1 - no); if (yacc) t_c(t, '\''); }
          m->r[nr].rhs[n] = -2; m->r[nr].h[n++] = h; continue; }
        end = 0; const char *k = strchr(nts, *p); int v = k ? NT((int)(k - nts)) : (int)(strchr(ts, *p) - ts) + 1;
        t_c(t, ' '); if (tmpl_cls && v < 3) t_class(t, v, nr & 1); else t_s(t, ISN(v) ? m->nn[v - 1000] : m->tn[v]); m->r[nr].rhs[n++] = (short)v; }
      m->r[nr].len = n; nr++; if (!yacc) { t_c(t, '.'); if (codes && codes[nr]) t_s(t, " {}"); t_c(t, '\n'); }
      first = 0; if (*p == '|') { p++; continue; } break; }
    if (yacc) t_s(t, " ;\n"); if (*p == ';') p++; }
  m->nr = nr;
}
/* the grammar, after the tool has run */
static void tmpl_gram(tmpl *m, gram *g) {
  g_init(g, m->nt, m->nnt, 0);
  for (int r = 0; r < m->nr; r++) { int k = g_rule(g, m->r[r].lhs); for (int i = 0; i < m->r[r].len; i++) { int v = m->r[r].rhs[i]; if (v == -1) continue; if (v == -2) { v = sym_conc(m->r[r].h[i]); v = v <= m->no ? NT(m->nnt - m->no + v - 1) : v - m->no; } g_sym(g, k, v); } }
}
/* shapes as templates: alternatives of the given numbers of holes, -1 = absent */
static const char *tmpl_shape(const int *lens, const int *lhs, int n) {
  static char b[200]; int k = 0, last = -1; for (int i = 0; i < n; i++) { if (lens[i] < 0) continue; if (lhs[i] == last) b[k++] = '|'; else { if (k) b[k++] = ';'; b[k++] = "sabcd"[lhs[i]]; b[k++] = '='; last = lhs[i]; } for (int j = 0; j < lens[i]; j++) b[k++] = '?'; } b[k] = 0; return b;
}
#endif
