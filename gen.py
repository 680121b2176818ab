"""Generates parsers with /repo's tools from compact grammar specifications (see harness/rp.h)."""
import os, sys, subprocess, re
import build as bld
def parse(spec):
    """[(lhs, [symbols], prec, code, cmd, zero)]"""
    rules = []
    for r in spec.split(';'):
        lhs, syms, prec, code, cmd, zero, i = r[0], [], None, True, None, False, 2
        while i < len(r):
            c = r[i]
            if c == '^': i += 1; prec = r[i]
            elif c == '!': i += 1; cmd = r[i]
            elif c == '~': code = False
            elif c == '@': zero = True
            else: syms.append(c)
            i += 1
        rules.append((lhs, syms, prec, code, cmd, zero))
    return rules
CMD = {'a': 'YYACCEPT;', 'b': 'YYABORT;', 'e': 'YYERROR;', 'k': 'yyerrok;', 'c': 'yyclearin;'}
PN = {'L': '%left', 'R': '%right', 'N': '%nonassoc', 'P': '%precedence'}
def yfile(spec, prec='', destr=False, loc=False, pure=False, decl=''):
    rules = parse(spec); o = ['%{', '#include "hrun.h"', '%}']
    if loc: o.append('%locations')
    if pure: o.append('%define api.pure' if 0 else '%pure-parser')
    o.append(decl)
    o.append('%union { int v; }')
    toks = sorted({c for l, r, p, *_ in rules for c in r if not c.islower() and c not in '?#'} | {p for _, _, p, *_ in rules if p} | {c for x in prec.split(';') if x for c in x[1:]})
    nts = []
    for l, *_ in rules:
        if l not in nts: nts.append(l)
    tn = (lambda c: 'T%d' % ord(c)) if destr else (lambda c: "'%s'" % c)
    for t in toks: o.append('%token <v> ' + tn(t) + (' %d' % ord(t) if destr else ''))
    o.append('%type <v> ' + ' '.join(nts))
    for x in prec.split(';'):
        if x: o.append(PN[x[0]] + ' ' + ' '.join(tn(c) for c in x[1:]))
    if destr:
        for t in toks: o.append("%%destructor { h_destr('%s', $$, DSTATE); } %s" % (t, tn(t)))
        for t in nts: o.append("%%destructor { h_destr('%s', $$, DSTATE); } %s" % (t, t))
    o.append('%%')
    emb = 60
    for k, (l, r, p, code, cmd, zero) in enumerate(rules, 1):
        ref = lambda i: '$<v>%d' % (i + 1) if r[i] in '?#' else '$%d' % (i + 1)
        rhs = []; n = len(r)
        for i, c in enumerate(r):
            if c == '#':
                rhs.append('{ int v[] = { %s0 }; $<v>$ = h_act(%d, %d, v, 0); }' % (''.join(ref(j) + ', ' for j in range(i)), emb, i)); emb += 1
            else: rhs.append('error' if c == '?' else c if c.islower() else tn(c))
        a = ''
        if code:
            a = '{ int v[] = { %s0 }; ' % ''.join(ref(i) + ', ' for i in range(n))
            if loc: a += 'loc_t l[] = { LC(@$)%s }; ' % ''.join(', LC(@%d)' % (i + 1) for i in range(n))
            if zero: a += 'h_zero($<v>0); '
            a += '$$ = h_act(%d, %d, v, %s); %s }' % (k, n, 'l' if loc else '0', CMD.get(cmd, ''))
        o.append('%s : %s %s %s ;' % (l, ' '.join(rhs), '%prec ' + tn(p) if p else '', a))
    o.append('%%'); return '\n'.join(o) + '\n'
HRUN = '''
#ifndef HRUN_H
#define HRUN_H
#include <stdio.h>
typedef struct { int fl, fc, ll, lc; } loc_t;
#define LC(x) { (x).first_line, (x).first_column, (x).last_line, (x).last_column }
extern int cur_val; extern loc_t cur_loc;
int h_lex(void); void h_error(const char *); int h_act(int, int, const int *, const loc_t *); void h_destr(int, int, int); void h_zero(int);
#define DSTATE (strstr(msg, "state") != 0)
#if PURE
#if LOC
#define yyerror(l, m) h_error(m)
#define yylex(a, b) ((a)->v = 0, HL = h_lex(), (a)->v = cur_val, (b)->first_line = cur_loc.fl, (b)->first_column = cur_loc.fc, (b)->last_line = cur_loc.ll, (b)->last_column = cur_loc.lc, HL)
#else
#define yyerror(m) h_error(m)
#define yylex(a) (HL = h_lex(), (a)->v = cur_val, HL)
#endif
#else
#if LOC
#define yyerror(l, m) h_error(m)
#define yylex() (HL = h_lex(), yylval.v = cur_val, yylloc.first_line = cur_loc.fl, yylloc.first_column = cur_loc.fc, yylloc.last_line = cur_loc.ll, yylloc.last_column = cur_loc.lc, HL)
#else
#define yyerror(m) h_error(m)
#define yylex() (HL = h_lex(), yylval.v = cur_val, HL)
#endif
#endif
static int HL;
#endif
'''
def yrun(tool, spec, prec='', destr=0, loc=0, pure=0, init=200, mx=10000, opts='', decl='', defs='', back=0):
    """a gen function for a job: y.tab.c as a unit of its own, plus genconf.h for the harness"""
    def g(tmp, d):
        t = bld.native_tool(tmp, tool)
        open(d + '/g.y', 'w').write(yfile(spec, prec, destr, loc, pure, decl))
        open(d + '/hrun.h', 'w').write('#define LOC %d\n#define PURE %d\n' % (loc, pure) + HRUN)
        open(d + '/genconf.h', 'w').write('#define SPEC "%s"\n#define PREC "%s"\n#define BT %d\n#define DESTR %d\n#define LOC %d\n#define PURE %d\n#define INIT %d\n#define MAX %d\n#define BACK %d\n' % (spec, prec, tool == 'btyacc', destr, loc, pure, init, mx, back))
        fl = bld.ML + ['-I', d, '-Dyyparse=h_yyparse', '-DYYINITSTACKSIZE=%d' % init, '-DYYMAXDEPTH=%d' % mx] + defs.split()
        bld.generate([t] + opts.split() + (['-B'] if back else []) + ['-o', d + '/p.c', d + '/g.y'], d, d + '/p.c', d + '/g.y', fl)
        t = open(d + '/p.c').read(); t2 = re.sub(r'(#[ \t]*define[ \t]+YYINITSTACKSIZE[ \t]+)\d+', lambda m: m.group(1) + str(init), t); open(d + '/p.c', 'w').write(t2)
        return [('parser', [(d + '/p.c', fl)])]
    return g
LHRUN = '''
#include <stdio.h>
int h_act(int, int, const int *); void h_ev(const char *, int); void h_destr(int); void h_x(int, int);
'''
def lfile(spec, prec='', fb='', wild='', depth=100, destr=1, extra=0, norec=0):
    o = ['%%include {%s}' % LHRUN, '%token_type {int}', '%default_type {int}', '%stack_size ' + str(depth)]
    tn = lambda c: 'K%d' % ord(c)
    rules = []
    for r in spec.split(';'):
        lhs, syms, code, p, i = r[0], [], True, None, 2
        while i < len(r):
            c = r[i]
            if c == '^': i += 1; p = r[i]
            elif c == '~': code = False
            elif c == '_': syms[-1][1] = False
            else: syms.append([c, c != '?'])
            i += 1
        rules.append((lhs, syms, p, code))
    toks = sorted({c for _, s, _, _ in rules for c, _ in s if not c.islower() and c != '?'} | set(fb) | ({wild} if wild else set()) | {c for x in prec.split(';') if x for c in x[1:]})
    nts = []
    for l, *_ in rules:
        if l not in nts: nts.append(l)
    o.append('%token ' + ' '.join(tn(t) for t in toks) + '.')
    for x in prec.split(';'):
        if x: o.append(PN[x[0]] + ' ' + ' '.join(tn(c) for c in x[1:]) + '.')
    for i in range(0, len(fb), 2): o.append('%%fallback %s %s.' % (tn(fb[i + 1]), tn(fb[i])))
    if wild: o.append('%%wildcard %s.' % tn(wild))
    if extra: o += ['%extra_argument { int xa }', '%extra_context { int xc }']
    X = 'h_x(xa, xc); ' if extra else ''; XC = 'h_x(-1, xc); ' if extra else ''
    if destr:
        o.append('%token_destructor { ' + XC + 'h_destr($$); }')
        if destr == 2: o.append('%default_destructor { ' + XC + 'h_destr($$); }')
        else:
            for t in nts: o.append('%%destructor nt%s { %sh_destr($$); }' % (t, XC))
    o += ['%syntax_error { ' + X + 'h_ev("E", TOKEN); }', '%parse_accept { ' + X + 'h_ev("A", -1); }', '%stack_overflow { ' + X + 'h_ev("O", -1); }']
    if not norec: o.append('%parse_failure { ' + X + 'h_ev("F", -1); }')
    for k, (l, s, p, code) in enumerate(rules, 1):
        al = [(chr(ord('A') + i) if (a and code) else '') for i, (c, a) in enumerate(s)]
        rhs = ' '.join(('error' if c == '?' else 'nt' + c if c.islower() else tn(c)) + ('(%s)' % al[i] if al[i] else '') for i, (c, a) in enumerate(s))
        used = [a for a in al if a]
        act = '{ ' + X + 'int v[] = { %s0 }; Z = h_act(%d, %d, v); }' % (''.join(a + ', ' for a in used), k, len(used)) if code else ''
        o.append('nt%s%s ::= %s. %s %s' % (l, '(Z)' if code else '', rhs, '[%s]' % tn(p) if p else '', act))
    return '\n'.join(o) + '\n', toks
def lrun(spec, prec='', fb='', wild='', depth=100, compress=1, destr=1, opts='', defs='', extra=0, norec=0, track=0):
    def g(tmp, d):
        t = bld.native_tool(tmp, 'lemon'); y, toks = lfile(spec, prec, fb, wild, depth, destr, extra, norec)
        open(d + '/g.y', 'w').write(y)
        fl = bld.ML + ['-I', d] + defs.split() + (['-DYYNOERRORRECOVERY'] if norec else []) + (['-DYYTRACKMAXSTACKDEPTH'] if track else [])
        bld.generate([t] + opts.split() + ([] if compress else ['-c']) + ['-q', '-T' + bld.REPO + '/lemon/lempar.c', 'g.y'], d, d + '/g.c', d + '/g.y', fl)
        open(d + '/genconf.h', 'w').write('#include "g.h"\n#define SPEC "%s"\n#define PREC "%s"\n#define FB "%s"\n#define WILD %s\n#define DEPTH %d\n#define COMPRESS %d\n#define EXTRA %d\n#define NOREC %d\n#define TRACK %d\nstatic const int CODES[256] = { %s };\n' % (spec, prec, fb, "'%s'" % wild if wild else '0', depth, compress, extra, norec, track, ', '.join('[%d] = K%d' % (ord(c), ord(c)) for c in toks)))
        return [('parser', [(d + '/g.c', fl)])]
    return g
