"""Which harness decides which property, within which bounds."""
from gen import *
SPECS = {}
def J(name, h, tools, params=None, **k): return dict(name=name, h=h, tools=tools.split(','), params=params or {}, **k)
BY = 'byacc reader.c, lr0.c, closure.c, warshall.c, lalr.c, mkpar.c, output.c, symtab.c, mstring.c, verbose.c, graph.c, main.c, error.c, yaccpar.c/btyaccpar.c'
LE = 'lemon.c (everything from main to ReportTable)'
A0 = ['the engine executes the LLVM bitcode clang -O1 makes of the current sources; libc is a small in-memory model (engine/minilibc.c), instrumented like the code under test']
SPECS['C01'] = dict(functions=BY, assumptions=A0, jobs=[
 J('yacc', 'y_lalr', 'yacc', dict(s1=2, s2=2, a1=2, a2=-1, bt=0), t=60, tt=600, thorough=dict(s1=2, s2=2, a1=2, a2=1), bounds='grammars with 2 nonterminals, up to 2 alternatives of up to 2 symbols each over 2 nonterminals and 2 tokens; all shapes'),
 J('btyacc', 'y_lalr', 'btyacc', dict(s1=2, s2=1, a1=2, a2=0, bt=1), t=60, tt=600, thorough=dict(a2=1), bounds='the same with the backtracking build'),
 J('templates', 'y_lalr', 'yacc', dict(tm=0, t1=15), t=90, tt=300, bounds='16 grammar templates (tmpl.h) with one to four free symbols: states reached through several contexts, several reductions in one state, cycles and chains of nullable symbols, lists, expressions'),
 J('wide32', 'y_wide', 'yacc', dict(s1=1, s2=-1, a1=1, dt=3, dn=3), t=30, tt=600, thorough=dict(s2=1, a1=2), bounds='the same shapes inside grammars of 28..31 more tokens and a chain of 31..34 more nonterminals, so that the symbols and rules in question straddle the first machine word of every set'),
 J('wide64', 'y_wide', 'btyacc', dict(s1=1, s2=-1, a1=1, pt=60, dt=1, pn=61, dn=2, bt=1), t=30, tt=600, thorough=dict(dt=3, dn=4, a1=2), bounds='60..61 tokens, 61..63 nonterminals: the second word boundary'),
 J('large', 'y_wide', 'yacc', dict(s1=1, s2=-1, a1=0, pn=110, extra=2, pt=60, step=40), t=40, tt=600, thorough=dict(a1=1, dn=4), bounds='331 rules, 1200 items, token numbers up to 2660: the growth of every array of the reader and the packer'),
 J('B', 'y_lalr', 'btyacc', dict(s1=1, s2=2, a1=2, a2=-1, bt=2), t=30, tt=300, tiers=('thorough',), bounds='-B'),
 J('templates-B', 'y_lalr', 'btyacc', dict(tm=0, t1=15, bt=2), t=90, tt=300, bounds='16 grammar templates (tmpl.h) with one to four free symbols: states reached through several contexts, several reductions in one state, cycles and chains of nullable symbols, lists, expressions; -B'),
])
SPECS['C02'] = dict(functions=BY, assumptions=A0, jobs=[
 J('levels', 'y_prec', 'yacc', dict(np=2), t=40, tt=600, thorough=dict(np=4), bounds='two precedence lines of any kind, three operators on either line or none, any %prec on np rules'),
 J('btyacc', 'y_prec', 'btyacc', dict(np=1, bt=1), t=40, tt=300, bounds='the backtracking build without -B'),
 J('u', 'y_prec', 'yacc', dict(np=1, opt=1), t=40, tt=300, bounds='-u'),
 J('z', 'y_prec', 'yacc', dict(np=1, opt=2, lm=1), t=40, tt=300, bounds='-z'),
 J('expect', 'y_prec', 'yacc', dict(np=0, expect=3), t=40, tt=300, bounds='%expect 0..12, %expect-rr 0..4'),
 J('three', 'y_prec3', 'yacc', dict(), t=30, tt=100, bounds='three precedence lines of any kind; three rules with any %prec that conflict with each other and with a shift in one state'),
 J('three-u', 'y_prec3', 'yacc', dict(opt=1), t=30, tt=100, bounds='the same with -u'),
 J('three-z', 'y_prec3', 'yacc', dict(opt=2), t=30, tt=100, bounds='the same with -z'),
 J('three-expect', 'y_prec3', 'btyacc', dict(bt=1, kinds=0, marks=0, expect=3), t=30, tt=100, bounds='the same without marks, %expect 0..10, %expect-rr 0..10'),
 J('counts', 'y_lalr', 'yacc', dict(s1=2, s2=2, a1=1, a2=0, counts=1), t=30, tt=300, thorough=dict(a1=2, a2=1), bounds='conflict totals and never reduced rules of every grammar with 2 nonterminals and up to 2 alternatives, no precedences'),
 J('templates', 'y_lalr', 'yacc', dict(tm=0, t1=15, counts=1), t=90, tt=300, bounds='16 grammar templates (tmpl.h) with one to four free symbols: states reached through several contexts, several reductions in one state, cycles and chains of nullable symbols, lists, expressions; conflict totals and never reduced rules'),
 J('names', 'y_prec', 'yacc', dict(np=1, names=1, k2=0), t=40, tt=300, bounds='tokens with names'),
])
SPECS['C12'] = dict(functions=BY, assumptions=A0, jobs=[
 J('all', 'y_lalr', 'yacc', dict(s1=2, s2=2, a1=1, a2=0, rep=1), t=60, tt=900, thorough=dict(a1=2, a2=1), bounds='y.output and y.dot of every grammar with 2 nonterminals, up to 2 alternatives of up to 2 (and 1) symbols over 2 nonterminals and 2 tokens'),
 J('all-bt', 'y_lalr', 'btyacc', dict(s1=2, s2=1, a1=2, a2=-1, rep=1, bt=1), t=60, tt=900, thorough=dict(a2=1), bounds='the same with the backtracking build'),
 J('templates', 'y_lalr', 'yacc', dict(tm=0, t1=15, rep=1), t=90, tt=400, bounds='16 grammar templates (tmpl.h) with one to four free symbols: states reached through several contexts, several reductions in one state, cycles and chains of nullable symbols, lists, expressions'),
 J('levels', 'y_prec', 'yacc', dict(np=2, rep=1), t=40, tt=600, thorough=dict(np=4), bounds='two precedence lines of any kind, three operators on either line or none, any %prec on np rules'),
 J('u', 'y_prec', 'btyacc', dict(np=1, opt=1, bt=1, rep=1), t=40, tt=300, bounds='-u'),
 J('z', 'y_prec', 'yacc', dict(np=1, opt=2, lm=1, rep=1), t=40, tt=300, bounds='-z'),
 J('three', 'y_prec3', 'yacc', dict(rep=1), t=30, tt=100, bounds='three precedence lines of any kind; three rules with any %prec that conflict with each other and with a shift in one state'),
 J('three-u', 'y_prec3', 'btyacc', dict(rep=1, opt=1, bt=1), t=30, tt=100, bounds='the same with -u'),
 J('three-z', 'y_prec3', 'yacc', dict(rep=1, opt=2), t=30, tt=100, bounds='the same with -z'),
])
SPECS['C20'] = dict(functions=LE, assumptions=A0, jobs=[
 J('lalr', 'l_lalr', 'lemon', dict(s1=2, s2=1, a1=2, b1=1, c=1), t=60, tt=900, thorough=dict(s2=2), bounds='grammars with 2 nonterminals, up to 2 alternatives of up to 2 symbols; tables as built (-c), all shapes'),
 J('rec', 'l_lalr', 'lemon', dict(s1=2, s2=-1, a1=2, a2=0, b1=1, c=1), t=40, tt=900, thorough=dict(s1=3, a2=1), bounds='the same with two alternatives for the second nonterminal and a third nonterminal'),
 J('templates', 'l_lalr', 'lemon', dict(tm=0, t1=15, c=1), t=90, tt=300, bounds='16 grammar templates (tmpl.h) with one to four free symbols: states reached through several contexts, several reductions in one state, cycles and chains of nullable symbols, lists, expressions; tables as built (-c)'),
 J('classes', 'l_class', 'lemon', dict(tm=0, t1=15, c=1), t=90, tt=400, bounds='the templates with two overlapping token classes among the choices; -c'),
 J('wide', 'l_wide', 'lemon', dict(s1=1, s2=-1, a1=1, pn=110, extra=2, pt=60, c=1), t=30, tt=600, thorough=dict(s2=1, a1=2), bounds='the same shapes inside grammars of 331 rules, 175 symbols and more than 400 states: growth of the hash tables and the action table'),
])
SPECS['C21'] = dict(functions=LE, assumptions=A0, jobs=[
 J('levels', 'l_prec', 'lemon', dict(np=2, k2=0), t=40, tt=600, thorough=dict(np=4, k2=1), bounds='two precedence lines of any kind, three operators on either or none, any [mark] on np rules'),
 J('two', 'l_prec', 'lemon', dict(np=0), t=40, tt=200, bounds='both lines of any kind'),
 J('u', 'l_prec', 'lemon', dict(np=0, opt=1), t=40, tt=200, bounds='-u'),
 J('z', 'l_prec', 'lemon', dict(np=0, opt=2, tern=1), t=40, tt=200, bounds='-z'),
 J('yacc_prec', 'l_prec', 'lemon', dict(np=1, opt=3, tern=1, k2=0), t=40, tt=200, bounds='%yacc_prec'),
 J('tern', 'l_prec', 'lemon', dict(np=1, tern=1, k2=0), t=40, tt=200, bounds='rules with two operators'),
 J('three', 'l_prec3', 'lemon', dict(kinds=4), t=30, tt=100, bounds='three precedence declarations of any kind; three rules with any mark that conflict with each other and with a shift in one state'),
 J('three-c', 'l_prec3', 'lemon', dict(kinds=3, c=1), t=30, tt=100, bounds='the same in uncompressed tables'),
 J('three-u', 'l_prec3', 'lemon', dict(kinds=2, opt=1), t=30, tt=100, bounds='-u'),
 J('three-z', 'l_prec3', 'lemon', dict(kinds=2, opt=2), t=30, tt=100, bounds='-z'),
 J('expect', 'l_prec', 'lemon', dict(np=0, expect=9, k2=0), t=40, tt=200, bounds='%expect 0..9'),
])
SPECS['C22'] = dict(functions=LE, assumptions=A0, jobs=[
 J('packed', 'l_lalr', 'lemon', dict(s1=2, s2=1, a1=2, b1=1), t=60, tt=900, thorough=dict(s2=2), bounds='grammars with 2 nonterminals, up to 2 alternatives of up to 2 symbols; default compression and state renumbering'),
 J('resort', 'l_lalr', 'lemon', dict(s1=1, s2=1, a1=2, b1=1, c=2), t=40, tt=300, thorough=dict(s1=2), bounds='-r'),
 J('templates', 'l_lalr', 'lemon', dict(tm=0, t1=15), t=90, tt=300, bounds='16 grammar templates (tmpl.h) with one to four free symbols: states reached through several contexts, several reductions in one state, cycles and chains of nullable symbols, lists, expressions'),
 J('templates-r', 'l_lalr', 'lemon', dict(tm=0, t1=15, c=2), t=90, tt=300, bounds='16 grammar templates (tmpl.h) with one to four free symbols: states reached through several contexts, several reductions in one state, cycles and chains of nullable symbols, lists, expressions; -r'),
 J('fallback', 'l_lalr', 'lemon', dict(s1=2, s2=1, a1=2, b1=1, fb=1), t=40, tt=600, thorough=dict(s2=2), bounds='packed, with %fallback A B'),
 J('wildcard', 'l_lalr', 'lemon', dict(s1=2, s2=2, a1=1, b1=0, wild=1), t=40, tt=600, thorough=dict(a1=2, b1=1), bounds='packed, with %wildcard B'),
 J('fb-wild', 'l_lalr', 'lemon', dict(s1=2, s2=2, a1=1, b1=0, nt=4, fb=1, wild=2), t=40, tt=600, thorough=dict(a1=2, b1=1), bounds='three tokens, %fallback A B and %wildcard C'),
 J('prec', 'l_prec', 'lemon', dict(np=1, k2=0), t=40, tt=300, bounds='tables with precedence errors'),
 J('classes', 'l_class', 'lemon', dict(tm=0, t1=15), t=90, tt=400, bounds='the templates with two overlapping token classes among the choices'),
 J('wide', 'l_wide', 'lemon', dict(s1=1, s2=-1, a1=1, pn=110, extra=2, pt=60), t=30, tt=600, thorough=dict(s2=1, a1=2), bounds='the same shapes inside grammars of 331 rules, 175 symbols'),
 J('dense', 'l_wide', 'lemon', dict(s1=1, s2=-1, a1=1, pn=40, extra=8, pt=100), t=30, tt=600, thorough=dict(s2=1, dn=4), bounds='361 rules over 102 tokens'),
])

YP = 'the skeletons yaccpar.c/btyaccpar.c and tables emitted into the generated parser: yyparse, yygrowstack, yyfreestack, yydestruct, backtracking (yytrial, yyctrial, yyvalid)'
LP = 'lempar.c as emitted into the generated parser: Parse, ParseAlloc, ParseInit, ParseFinalize, ParseFree, yyGrowStack, yy_find_shift_action, yy_reduce, yy_destructor, yy_syntax_error, ParseFallback'
A1 = A0 + ['the parser is generated at check time by the tool built from /repo, from the grammars written in specs.py; they are chosen to have conflicts, empty rules, error rules and mid-rule actions']
def yjobs(lst):
    js = []
    for i, (name, tool, spec, prec, params, kw) in enumerate(lst):
        kw = dict(kw); t = kw.pop('t', 30); tt = kw.pop('tt', 200); quick = kw.pop('quick', {}); thorough = kw.pop('thorough', {})
        js.append(dict(name=name, h='y_run', tag=name.replace('-', '_'), gen=yrun(tool, spec, prec, **kw), params=params, t=t, tt=tt, quick=quick, thorough=thorough))
    return js
CALC = 's=e;e=e+e;e=e*e;e=-e^*;e=(e);e=N~'
STMT = 's=l;l=lx;l=;x=A:;x=?:;x={l}'
EXPR = 's=e;e=e+e;e=(?);e=(e);e=N;e=?D'
MID = 's=l;l=ly;l=;y=A#B#C;y=A#B#D@;y={#l}'
CMDS = 's=l;l=lx;l=;x=A:;x=?:!k;x=?D!c;x=E!e;x=F!b;x=G!a'
SPECS['C03'] = dict(functions=YP, assumptions=A1, jobs=yjobs([
 ('calc-yacc', 'yacc', CALC, 'L+;L*', dict(n=6), dict(init=3, mx=6)),
 ('calc-bt', 'btyacc', CALC, 'L+;L*', dict(n=5), dict(init=3, mx=6, destr=1)),
 ('calc-pure', 'btyacc', CALC, 'L+;L*', dict(n=5), dict(init=3, mx=6, pure=1, loc=1)),
 ('mid-yacc', 'yacc', MID, '', dict(n=9, unk=0), dict(init=3, mx=40)),
 ('mid-bt', 'btyacc', MID, '', dict(n=9, unk=0), dict(init=3, mx=40, pure=1)),
 ('cmds-yacc', 'yacc', CMDS, '', dict(n=5, unk=0), dict(init=3, mx=40)),
 ('cmds-bt', 'btyacc', CMDS, '', dict(n=5, unk=0), dict(init=3, mx=40, destr=1)),
]))
SPECS['C04'] = dict(functions=YP, assumptions=A1, jobs=yjobs([
 ('stmt-yacc', 'yacc', STMT, '', dict(n=5), dict(init=4, mx=30)),
 ('stmt-bt', 'btyacc', STMT, '', dict(n=5), dict(init=4, mx=30, destr=1)),
 ('expr-yacc', 'yacc', EXPR, 'L+', dict(n=5), dict(init=4, mx=30)),
 ('expr-bt', 'btyacc', EXPR, 'L+', dict(n=5), dict(init=4, mx=30, loc=1)),
]))
BK1 = 's=l;l=li;l=i;i=d:;i=e:;d=NN;d=NmN;m=*m;m=*;e=e*e;e=N'
BK2 = 's=aD;s=bE;a=A;b=A;a=aA;b=bA'
SPECS['C05'] = dict(functions=YP, assumptions=A1, jobs=yjobs([
 ('decl', 'btyacc', BK1, '', dict(n=9, unk=0), dict(init=4, mx=60, back=1)),
 ('lr2', 'btyacc', BK2, '', dict(n=10, unk=0), dict(init=4, mx=60, back=1)),
]))
SPECS['C07'] = dict(functions=BY.replace('lr0.c, closure.c, warshall.c, lalr.c, mkpar.c, ', ''), assumptions=A0 + ['references byacc leaves open are outside the claim: $- without a digit, an unknown $name, $i in an empty rule of a typed grammar'], jobs=[
 J('action', 'y_act', 'yacc', dict(n=1, mode=0), t=40, tt=900, thorough=dict(n=2), bounds='30 action texts with a hole of one (thorough: two) free bytes, at the end and in the middle of rules of 0 to 5 symbols, typed and untyped; the plain build'),
 J('action-bt', 'y_act', 'btyacc', dict(n=1, mode=1), t=40, tt=900, thorough=dict(n=2), bounds='the same and rules with attributes, locations; the backtracking build'),
 J('action-B', 'y_act', 'btyacc', dict(n=1, mode=2), t=40, tt=900, thorough=dict(n=2), bounds='the same with -B'),
 J('action-lines', 'y_act', 'btyacc', dict(n=1, mode=2, lines=1), t=40, tt=300, bounds='the same with #line directives'),
 J('code', 'y_code', 'btyacc', dict(n=1, bt=1), t=40, tt=600, thorough=dict(n=2), bounds='18 sections (destructors by symbol, type and default, initial action, prologue, union, trailer, %code) with 15 texts and a hole of one (thorough: two) free bytes'),
 J('code-yacc', 'y_code', 'yacc', dict(n=1, bt=0), t=40, tt=600, thorough=dict(n=2), bounds='the same, plain build'),
])
SPECS['C10'] = dict(functions=BY.replace('lr0.c, closure.c, warshall.c, lalr.c, mkpar.c, ', ''), assumptions=A0, jobs=[
 J('bt', 'y_line', 'btyacc', dict(n=1, bt=1, o0=0, o1=7), t=80, tt=600, maxfail=30, bounds='7 grammars with markers in every kind of copied code (prologue, union, initial action, destructors, %code, attributes, trial actions, actions, mid-rule actions, trailer) and 90 places for one free byte, newlines included; 8 option sets'),
 J('yacc', 'y_line', 'yacc', dict(n=1, bt=0, o0=0, o1=7), t=60, tt=600, maxfail=30, bounds='the same, plain build'),
 J('l', 'y_line', 'btyacc', dict(n=1, bt=1, o0=8, o1=9), t=40, tt=200, bounds='-l and -b'),
])
RB = '35 templates covering the directives, actions, literals, comments, tags, attributes and destructors of a grammar, each with a hole of %s free bytes (every value 0..255)'
SPECS['C06'] = dict(functions=BY, assumptions=A0 + ['grammars that end before their action or comment does, or that contain NUL bytes, are within the claim; files that cannot be read or written are not'], jobs=[
 J('bt', 'y_rob', 'btyacc', dict(bt=1, n=1, o0=10, o1=10), t=40, tt=900, thorough=dict(o0=0, o1=13), bounds=RB % 'one' + '; all output formats at once (thorough: 14 option sets)'),
 J('bt-plain', 'y_rob', 'btyacc', dict(bt=1, n=1, o0=0, o1=0), t=40, tt=100, bounds='the same without options'),
 J('yacc', 'y_rob', 'yacc', dict(bt=0, n=1, o0=10, o1=11), t=40, tt=900, thorough=dict(o0=0, o1=13), bounds=RB % 'one' + '; the plain build'),
 J('len-bt', 'y_rob', 'btyacc', dict(bt=1, n=0, t0=35, t1=46, o0=10, o1=13), t=30, tt=600, thorough=dict(n=1), bounds='12 templates with names, tags, literals and code of 28 lengths between 1 and 4097; thorough: and one free byte'),
 J('len-yacc', 'y_rob', 'yacc', dict(bt=0, n=0, t0=35, t1=46, o0=0, o1=13), t=30, tt=600, thorough=dict(n=1), bounds='the same, plain build'),
 J('many', 'y_rob', 'btyacc', dict(bt=1, n=0, t0=47, t1=49, o0=10, o1=10, l1=24), t=30, tt=100, bounds='3 templates with 1 to 1025 symbols in a rule or declaration'),
 J('args', 'y_rob', 'btyacc', dict(bt=1, n=1, t0=50, t1=52, o0=10, o1=10, l0=0, l1=2), t=30, tt=600, thorough=dict(l1=27), bounds='3 templates with attributes, argument lists, destructors and initial actions: one free byte'),
 J('args-len', 'y_rob', 'btyacc', dict(bt=1, n=0, t0=50, t1=52, o0=0, o1=10), t=30, tt=60, bounds='the same with 28 lengths between 1 and 4097'),
 J('two', 'y_rob', 'btyacc', dict(bt=1, n=2, t0=3, t1=6), t=30, tt=1500, thorough=dict(t0=0, t1=34), bounds=RB % 'two' + ' (quick: templates 3 to 6)'),
])
def ljobs(lst):
    js = []
    for i, (name, spec, prec, params, kw) in enumerate(lst):
        kw = dict(kw); t = kw.pop('t', 30); tt = kw.pop('tt', 200); quick = kw.pop('quick', {}); thorough = kw.pop('thorough', {})
        js.append(dict(name=name, h='l_run', tag=name.replace('-', '_'), gen=lrun(spec, prec, **kw), params=params, t=t, tt=tt, quick=quick, thorough=thorough))
    return js
LCALC = 's=e;e=e+_e;e=e*_e;e=-_e^*;e=(_e)_;e=N'
LSTMT = 's=l;l=lx;l=;x=A:_;x=?:_;x={_l}_'
LKEY = 's=l;l=lx;l=;x=KI:_;x=I:J_;x=?;_'.replace('?;', '?:')
LWILD = 's=l;l=lx;l=;x=AW:_;x=BC:;x=?:_'
LEPS = 's=pl;p=;l=lqA;l=;q=;q=Bq'
SPECS['C23'] = dict(functions=LP, assumptions=A1, jobs=ljobs([
 ('calc', LCALC, 'L+;L*', dict(n=6), dict(depth=6)),
 ('calc-c', LCALC, 'L+;L*', dict(n=6), dict(depth=6, compress=0)),
 ('stmt', LSTMT, '', dict(n=7), dict(depth=20)),
 ('stmt-x', LSTMT, '', dict(n=6), dict(depth=5, extra=1, destr=2)),
 ('fallback', LKEY, '', dict(n=6), dict(depth=20, fb='KI')),
 ('wildcard', LWILD, '', dict(n=6), dict(depth=20, wild='W')),
 ('fb-wild', LWILD, '', dict(n=6), dict(depth=20, fb='CA', wild='W', extra=1)),
 ('eps', LEPS, '', dict(n=7), dict(depth=6, track=1)),
 ('eps-dyn', LEPS, '', dict(n=6), dict(depth=0, track=1)),
 ('eps-grow', LEPS, '', dict(n=4, pre=96, pretok=1), dict(depth=0, track=1)),
 ('again', LCALC, 'L+;L*', dict(n=5, multi=9), dict(depth=6)),
 ('again-err', LSTMT, '', dict(n=6, multi=9), dict(depth=0)),
 ('norec', LCALC, 'L+;L*', dict(n=5), dict(depth=6, norec=1)),
 ('norec-err', LSTMT, '', dict(n=5), dict(depth=6, norec=1)),
 ('grow', LCALC, 'L+;L*', dict(n=5, pre=98), dict(depth=0)),
 ('fault', LCALC, 'L+;L*', dict(n=3, pre=98, fault=1), dict(depth=0)),
 ('trace', LSTMT, '', dict(n=4, trace=1), dict(depth=6)),
]))
LRB = '37 templates covering the directives, actions, aliases, marks, preprocessor lines and comments of a lemon grammar, each with a hole of %s free bytes (every value 0..255)'
SPECS['C25'] = dict(functions='lemon.c: preprocess_input, eval_preprocessor_boolean, handle_D_option; for generated parsers everything from main to ReportTable', assumptions=A0, jobs=[
 J('bytes', 'l_pp', 'lemon', dict(mode=0, n=4), t=60, tt=900, thorough=dict(n=6, d1=4), bounds='%if, %ifdef, %ifndef with every condition of 4 (6) bytes, three (five) sets of -D'),
 J('names', 'l_pp', 'lemon', dict(mode=4, e0=3), t=90, tt=900, thorough=dict(e0=0), bounds='conditions of three names with every value of the 6 bytes between and around them (up to 8 in the thorough tier), %if and %ifndef, five sets of -D'),
 J('paren', 'l_pp', 'lemon', dict(mode=4, e0=2, e1=2), t=60, tt=600, bounds='the same with a parenthesis'),
 J('lines', 'l_pp', 'lemon', dict(mode=1, n=4), t=90, tt=900, thorough=dict(n=5), bounds='every sequence of 4 (5) lines out of nine, three sets of -D'),
 J('text', 'l_pp', 'lemon', dict(mode=2, n=1), t=40, tt=600, thorough=dict(n=3), bounds='every value of one byte (three) at each marked place of seven texts, five sets of -D'),
 J('parser', 'l_pp', 'lemon', dict(mode=3, hi=127), t=60, tt=600, thorough=dict(hi=255, n=2), bounds='the parser of a grammar with nested conditions equals that of the grammar with the skipped sections removed by the reference; five sets of -D, a free byte'),
])
SPECS['C30'] = dict(functions=LE, assumptions=A0, jobs=[
 J('all', 'l_lalr', 'lemon', dict(s1=2, s2=1, a1=1, a2=-1, b1=1, rep=1), t=60, tt=900, thorough=dict(a1=2, s2=2), bounds='g.out, g.h and g.sql of every grammar with 3 nonterminals, up to 2 symbols per rule, over 2 nonterminals and 2 tokens'),
 J('code', 'l_lalr', 'lemon', dict(s1=2, s2=-1, a1=2, a2=0, b1=1, rep=1, codes=10), t=60, tt=900, thorough=dict(a2=1), bounds='the same with some rules that have code, and another shape'),
 J('c', 'l_lalr', 'lemon', dict(s1=2, s2=-1, a1=2, a2=0, b1=1, rep=1, c=1), t=60, tt=900, thorough=dict(a2=1), bounds='-c -p'),
 J('templates', 'l_lalr', 'lemon', dict(tm=0, t1=15, rep=1), t=90, tt=400, bounds='16 grammar templates (tmpl.h) with one to four free symbols: states reached through several contexts, several reductions in one state, cycles and chains of nullable symbols, lists, expressions'),
 J('templates-c', 'l_lalr', 'lemon', dict(tm=0, t1=15, rep=1, c=1, codes=90), t=90, tt=400, bounds='16 grammar templates (tmpl.h) with one to four free symbols: states reached through several contexts, several reductions in one state, cycles and chains of nullable symbols, lists, expressions; -c -p'),
 J('levels', 'l_prec', 'lemon', dict(np=2, k2=0, rep=1), t=40, tt=600, thorough=dict(np=4, k2=1), bounds='-p: two precedence lines of any kind, three operators on either or none, any [mark] on np rules'),
 J('levels-c', 'l_prec', 'lemon', dict(np=1, k2=0, rep=1, c=1), t=40, tt=600, bounds='the same with -c, without -p'),
 J('u', 'l_prec', 'lemon', dict(np=0, opt=1, rep=1), t=40, tt=200, bounds='-u'),
 J('z', 'l_prec', 'lemon', dict(np=0, opt=2, tern=1, rep=1), t=40, tt=200, bounds='-z'),
 J('three', 'l_prec3', 'lemon', dict(rep=1), t=40, tt=300, thorough=dict(kinds=4), bounds='-p: three precedence lines, three rules with any mark that conflict with each other and with a shift in one state'),
 J('three-c', 'l_prec3', 'lemon', dict(rep=1, c=1, kinds=2), t=40, tt=300, bounds='the same with -c, without -p'),
])
SPECS['C26'] = dict(functions=LE + ', Reprint, Reprint_tokens, rule_print', assumptions=A0, jobs=[
 J('all', 'l_exp', 'lemon,yacc', dict(out=0, s1=2, s2=1, a1=2, b1=1), t=60, tt=900, thorough=dict(s2=2), bounds='the grammar lemon -g prints gives the very same parser, for every grammar with 3 nonterminals and up to 2 symbols per rule'),
 J('alts', 'l_exp', 'lemon,yacc', dict(out=0, s1=1, s2=1, a1=2, b1=1, alts=2, nt=4), t=60, tt=900, thorough=dict(s1=2), bounds='the same, A|B and a token class among the symbols'),
 J('code', 'l_exp', 'lemon,yacc', dict(out=0, s1=2, s2=1, a1=1, b1=1, codes=21), t=40, tt=900, thorough=dict(a1=2), bounds='the same with code on some rules: the tables are those of the grammar'),
 J('levels', 'l_exp', 'lemon,yacc', dict(out=0, shape=1, np=2), t=40, tt=600, thorough=dict(np=4, lm=1), bounds='two precedence lines of any kind, four operators on any, any [mark] on np rules'),
 J('levels-alts', 'l_exp', 'lemon,yacc', dict(out=0, shape=1, np=0, k2=0, alts=3), t=40, tt=600, thorough=dict(np=1, k2=1), bounds='the same with A|B and classes in three rules'),
 J('yacc_prec', 'l_exp', 'lemon,yacc', dict(out=0, shape=1, np=1, yp=1, alts=2, k2=0), t=40, tt=600, thorough=dict(np=2), bounds='the same with %yacc_prec'),
 J('decls', 'l_exp', 'lemon,yacc', dict(out=0, shape=1, np=0, dir=1, k2=0), t=40, tt=600, thorough=dict(np=2), bounds='%start_symbol other than the first rule, %stack_size, %fallback, %wildcard, %expect'),
])
SPECS['C31'] = dict(functions=LE + '; ' + BY + '; lemon.c Reprint_yacc, rule_print_yacc; reader.c print_grammar_lemon, get_lemon_names', assumptions=A0, jobs=[
 J('Y', 'l_exp', 'lemon,yacc', dict(out=1, s1=2, s2=1, a1=2, b1=1), t=40, tt=900, thorough=dict(s2=2), bounds='what lemon -Y prints gives byacc -z the tables of the grammar: grammars with 3 nonterminals, up to 2 symbols per rule'),
 J('Y-alts', 'l_exp', 'lemon,yacc', dict(out=1, s1=1, s2=1, a1=2, b1=1, alts=2, nt=4), t=40, tt=900, thorough=dict(s1=2), bounds='the same with A|B and a token class among the symbols'),
 J('Y-levels', 'l_exp', 'lemon,yacc', dict(out=1, shape=1, np=1, k2=0, lm=1), t=40, tt=600, thorough=dict(np=4, k2=1), bounds='two precedence lines of any kind, operators on any, any [mark] on np rules'),
 J('Y-classes', 'l_exp', 'lemon,yacc', dict(out=1, shape=1, np=0, k2=0, alts=3), t=40, tt=600, thorough=dict(np=1, k2=1), bounds='the same with A|B and classes in three rules'),
 J('y-classes', 'l_exp', 'lemon,yacc', dict(out=2, shape=1, np=0, k2=0, alts=3), t=40, tt=600, thorough=dict(np=1, k2=1), bounds='-y'),
 J('y-levels', 'l_exp', 'lemon,yacc', dict(out=2, z=0, shape=1, np=2, k2=0, yp=1, dir=1, lo=3), t=40, tt=600, thorough=dict(np=3, lo=1), bounds='%yacc_prec, -y and byacc without -z; %start_symbol, %expect, %stack_size'),
 J('E', 'y_exp', 'lemon,yacc', dict(out='E', s1=2, s2=2, a1=1, a2=0), t=40, tt=900, thorough=dict(a1=2), bounds='what byacc -E writes gives lemon the tables of the grammar without its actions: grammars with 2 nonterminals, up to 2 alternatives of 2 (and 1) symbols, mid-rule actions anywhere'),
 J('E-names', 'y_exp', 'lemon,yacc', dict(out='E', s1=2, s2=1, a1=1, a2=0, names=1), t=40, tt=900, thorough=dict(names=2, a1=2), bounds='the same with names'),
 J('E-levels', 'y_exp', 'lemon,yacc', dict(out='E', shape=1, np=1, k2=0, z=0), t=40, tt=600, thorough=dict(np=3, k2=1, lm=1), bounds='precedence lines of any kind, three operators on any, %prec on np rules'),
 J('E-levels-z', 'y_exp', 'lemon,yacc', dict(out='E', shape=1, np=1, k2=0, z=1, names=2, start=1), t=40, tt=600, thorough=dict(np=3, k2=1), bounds='the same with -z, %start, names and strings that need translating'),
 J('E-spelling', 'y_exp', 'lemon,yacc', dict(out='E', shape=2), t=60, tt=900, thorough=dict(nb=2, hi=127), bounds='every one-byte name, literal, string and escape sequence beside ten others: no two get one name'),
])
SPECS['C11'] = dict(functions=BY + '; reader.c print_grammar_naked, print_grammar_nakedQ, print_grammar_ebnf, print_grammar_sql', assumptions=A0, jobs=[
 J('n', 'y_exp', 'lemon,yacc', dict(out='n', s1=2, s2=2, a1=1, a2=0), t=40, tt=900, thorough=dict(a1=2), bounds='the grammar byacc -n writes gives the tables of the grammar without its actions: grammars with 2 nonterminals, up to 2 alternatives of 2 (and 1) symbols, mid-rule actions anywhere'),
 J('n-levels', 'y_exp', 'lemon,yacc', dict(out='n', shape=1, np=1, k2=0, mid=1, lo=3), t=60, tt=600, thorough=dict(np=3, lo=1), bounds='precedence lines, %prec on np rules, a mid-rule action at each place'),
 J('n-z', 'y_exp', 'lemon,yacc', dict(out='n', shape=1, np=1, k2=0, z=1, names=1, start=1), t=40, tt=600, thorough=dict(np=3), bounds='-z, %start, names'),
 J('n-spelling', 'y_exp', 'lemon,yacc', dict(out='n', shape=2), t=60, tt=900, thorough=dict(nb=2, hi=127), bounds='every one-byte name, literal, string and escape sequence'),
 J('N', 'y_exp', 'lemon,yacc', dict(out='N', shape=1, np=1, k2=0, mid=1, lo=4, names=2), t=40, tt=600, thorough=dict(np=3, lo=1), bounds='-N is the text of -n with its tokens in angle brackets'),
 J('N-spelling', 'y_exp', 'lemon,yacc', dict(out='N', shape=2), t=40, tt=900, thorough=dict(nb=2, hi=127), bounds='the same for every one-byte name, literal, string and escape sequence'),
 J('e', 'y_exp', 'lemon,yacc', dict(out='e', s1=2, s2=2, a1=1, a2=0), t=40, tt=900, thorough=dict(a1=2), bounds='-e lists exactly the rules'),
 J('S', 'y_exp', 'lemon,yacc', dict(out='S', s1=2, s2=2, a1=1, a2=0), t=40, tt=900, thorough=dict(a1=2), bounds='-S: symbols, precedences, rules, right-hand sides and start symbol in the SQL script'),
 J('S-levels', 'y_exp', 'lemon,yacc', dict(out='S', shape=1, np=1, k2=0, mid=1, lo=4, names=2, start=1), t=60, tt=600, thorough=dict(np=3, lo=1), bounds='the same with precedence lines, %prec, mid-rule actions, %start'),
 J('S-spelling', 'y_exp', 'lemon,yacc', dict(out='S', shape=2), t=40, tt=900, thorough=dict(nb=2, hi=127), bounds='the same for every one-byte name, literal, string and escape sequence'),
])
SPECS['C28'] = dict(functions=LE, assumptions=A0 + ['the parser template is a reduced one with the sections of lempar.c', 'files that cannot be read or written are outside the claim'], jobs=[
 J('bytes', 'l_rob', 'lemon', dict(n=1, t1=36), t=60, tt=900, thorough=dict(o1=8), bounds=LRB % 'one'),
 J('report', 'l_rob', 'lemon', dict(n=1, t1=36, o0=1, o1=1), t=60, tiers=('quick',), bounds='the same with report, statistics and SQL output'),
 J('lengths', 'l_rob', 'lemon', dict(n=0, t0=37, t1=50, o1=7), t=60, tt=900, thorough=dict(n=1), bounds='14 templates with names, labels, types and code of 37 lengths between 1 and 5000'),
 J('many', 'l_rob', 'lemon', dict(n=0, t0=51, t1=54), t=60, tt=100, bounds='rules, declarations, fallbacks and classes with 1 to 5000 symbols'),
 J('two', 'l_rob', 'lemon', dict(n=2, t1=36), tiers=('thorough',), tt=2400, bounds=LRB % 'two'),
])
AB = 'one free byte 1..127 (thorough: 1..255)'
SPECS['C24'] = dict(functions='lemon.c: the scanner, parseonetoken, translate_code, emit_code, emit_destructor_code, tplt_print, ReportTable', assumptions=A0 + ['labels that occur inside strings and comments are replaced like elsewhere; @ before the label of the left-hand side is outside the claim', 'the parser template is a reduced one with the sections of lempar.c'], jobs=[
 J('rules', 'l_act', 'lemon', dict(n=1, hi=127), t=100, tt=600, thorough=dict(hi=255), bounds='24 texts in 9 rules of 0 to 5 symbols with and without labels, types, destructors, classes of tokens; ' + AB),
 J('sections', 'l_code', 'lemon', dict(n=1, hi=127, f1=0), t=60, tt=600, thorough=dict(hi=255, f1=3), bounds='14 texts in 6 kinds of code and 4 of destructors; ' + AB),
 J('forms', 'l_code', 'lemon', dict(n=1, hi=127, s0=1, s1=1, f0=1, f1=3), t=40, tiers=('quick',), bounds='%code in two parts, as a string, and at the start'),
 J('forms-destr', 'l_code', 'lemon', dict(n=1, hi=127, s0=7, s1=7, f0=1, f1=3), t=40, tiers=('quick',), bounds='%default_destructor likewise'),
])
LN = '6 grammars with markers in every kind of copied code and 45 places for one free byte, newlines included'
SPECS['C29'] = dict(functions='lemon.c: the scanner, preprocess_input, parseonetoken, translate_code, ReportTable', assumptions=A0 + ['the first line of the grammar is outside the claim; types and arguments that become macros stand on one line', 'the parser template is a reduced one with the sections of lempar.c'], jobs=[
 J('plain', 'l_line', 'lemon', dict(n=1, o0=0, o1=0), t=60, tt=200, bounds=LN),
 J('defines', 'l_line', 'lemon', dict(n=1, o0=3, o1=3), t=60, tt=200, bounds='the same with -D options, -p, -s'),
 J('m', 'l_line', 'lemon', dict(n=1, o0=1, o1=1, g1=2), t=40, tt=200, thorough=dict(g1=5), bounds='the same with -m (quick: 3 of the grammars)'),
 J('c', 'l_line', 'lemon', dict(n=1, o0=2, o1=2), tt=200, tiers=('thorough',), bounds='the same with -c -r'),
 J('l', 'l_line', 'lemon', dict(n=1, o0=4, o1=4, g1=0), t=40, tt=200, thorough=dict(g1=5), bounds='-l'),
])
