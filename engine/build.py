"""Builds the engine (once) and, for every check run, the code under test with its harness."""
import os, subprocess, shutil, sys, re, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = os.path.join(V, 'engine'); B = os.path.join(V, 'build'); REPO = os.environ.get('VREPO', '/repo')
class BuildError(Exception): pass
class ToolFails(Exception):
    """the tool built from /repo rejects, hangs or crashes on a correct grammar, or what it writes is not C"""
    def __init__(self, msg, grammar): Exception.__init__(self, msg); self.grammar = grammar
def sh(cmd, cwd=None, inp=None, timeout=600, env=None):
    r = subprocess.run(cmd, cwd=cwd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout
def newer(dst, *srcs): return not os.path.exists(dst) or any(os.path.getmtime(s) > os.path.getmtime(dst) for s in srcs)
def setup():
    os.makedirs(B, exist_ok=True)
    import fcntl
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _setup()
def _setup():
    so = B + '/SymPass.so'; src = E + '/SymPass.cpp'
    jobs = []
    def plug():
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags']).decode().replace('-fno-exceptions', '').split()
        sh(['clang++', '-O1', '-fPIC', '-shared', '-fno-rtti'] + fl + ['-std=c++17', src, '-o', so + '.tmp']); os.rename(so + '.tmp', so)
    if newer(so, src): jobs.append(plug)
    rt = B + '/symrt.o'
    def rtb(): sh(['clang++', '-O2', '-std=c++17', '-w', '-c', E + '/symrt.cpp', '-o', rt + '.tmp']); os.rename(rt + '.tmp', rt)
    if newer(rt, E + '/symrt.cpp', E + '/symrt.h'): jobs.append(rtb)
    il = B + '/inline.bc'
    def ilb():
        ll = sh(['clang', '-O2', '-w', '-emit-llvm', '-S', E + '/inline.c', '-o', '-']).replace(b'define dso_local', b'define linkonce_odr')
        sh(['llvm-as-18', '-', '-o', il + '.tmp'], inp=ll); os.rename(il + '.tmp', il)
    if newer(il, E + '/inline.c'): jobs.append(ilb)
    with cf.ThreadPoolExecutor(4) as ex: list(ex.map(lambda f: f(), jobs))
    ml = B + '/minilibc.o'
    if newer(ml, E + '/minilibc.c', E + '/ml.h', E + '/symrt.h', so, il):
        instrument([(E + '/minilibc.c', [])], ml, B, 'minilibc')
CF = ['-O1', '-fno-inline', '-g0', '-w', '-fno-builtin', '-fno-jump-tables', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-U_FORTIFY_SOURCE', '-emit-llvm', '-c', '-I', E]
def instrument(srcs, obj, tmp, name, keep=None):
    """srcs: [(file, cflags)] -> one instrumented object file whose only global symbols are keep"""
    def one(a):
        i, (f, fl) = a; p = '%s/%s.%d' % (tmp, name, i)
        sh(['clang'] + CF + ['-DVH_TAG=vhtag_%s_%d' % (re.sub('[^A-Za-z0-9]', '_', name), i)] + fl + [f, '-o', p + '.bc'])
        sh(['opt-18', '-load-pass-plugin', B + '/SymPass.so', '-passes=symdse,asan,stripasan', p + '.bc', '-o', p + '.s.bc'])
        sh(['llvm-link-18', p + '.s.bc', B + '/inline.bc', '-o', p + '.l.bc'])
        sh(['opt-18', '-passes=always-inline,globaldce,function(simplifycfg,instcombine<max-iterations=1;no-verify-fixpoint>,simplifycfg)', p + '.l.bc', '-o', p + '.o.bc'])
        k = max(1, min(8, os.path.getsize(p + '.o.bc') // 120000))
        k = 1
        if k == 1: parts = [p + '.o.bc']
        else: sh(['llvm-split-18', '-j%d' % k, p + '.o.bc', '-o', p + '.part']); parts = ['%s.part%d' % (p, j) for j in range(k)]
        for x in ('.bc', '.s.bc', '.l.bc'): os.unlink(p + x)
        return parts
    def gen(q):
        sh(['llc-18', '-O0', '-relocation-model=pic', '-filetype=obj', q, '-o', q + '.o'])
        os.unlink(q); return q + '.o'
    with cf.ThreadPoolExecutor(8) as ex:
        fut = [ex.submit(one, a) for a in sorted(enumerate(srcs), key=lambda a: -os.path.getsize(a[1][0]))]; gf = []
        for f in cf.as_completed(fut): gf += [ex.submit(gen, q) for q in f.result()]
        os_ = [f.result() for f in gf]
    sh(['ld', '-r', '--force-group-allocation', '-o', obj] + sorted(os_))
    if keep: sh(['objcopy'] + [x for k in keep for x in ('-G', k)] + [obj])
    for o in os_: os.unlink(o)
def native(srcs, obj, tmp, name, keep=None):
    def one(a):
        i, (f, fl) = a; o = '%s/%s.%d.n.o' % (tmp, name, i)
        sh(['gcc', '-O1', '-g', '-w', '-fno-builtin', '-fsanitize=address', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE', '-c', '-I', E] + fl + [f, '-o', o]); return o
    with cf.ThreadPoolExecutor(8) as ex: os_ = list(ex.map(one, enumerate(srcs)))
    if keep is None and len(os_) == 1: os.rename(os_[0], obj); return
    sh(['ld', '-r', '-o', obj] + os_)
    if keep: sh(['objcopy'] + [x for k in keep for x in ('-G', k)] + [obj])
ML = ['-include', E + '/ml.h']
def byacc_sources(tmp, variant, main, extra=()):
    """[(file, flags)] of the byacc sources of a variant ('btyacc' or 'yacc')"""
    d = REPO + '/byacc'
    ver = open(d + '/VERSION').read().strip()
    inc = '%s/cfg_%s' % (tmp, variant); os.makedirs(inc, exist_ok=True)
    c = open(d + '/config.h').read()
    c = re.sub(r'^[ \t]*#[ \t]*define[ \t]+YYBTYACC\b.*$', '', c, flags=re.M)
    if variant == 'btyacc': c += '\n#define YYBTYACC 1\n'
    open(inc + '/config.h', 'w').write(c)
    fl = ['-I', inc, '-I', d, '-DHAVE_CONFIG_H', '-DYYPATCH=' + ver, '-D_DEFAULT_SOURCE', '-D_XOPEN_SOURCE=700', '-Dmain=' + main] + ML + list(extra)
    # quotes find config.h through -I only when the file next to the source is not picked first (<config.h> is used)
    skip = {'btyaccpar.c', 'yaccpar.c'}
    fs = [f for f in sorted(os.listdir(d)) if f.endswith('.c') and f not in skip]
    fs.append('btyaccpar.c' if variant == 'btyacc' else 'yaccpar.c')
    return [(d + '/' + f, fl) for f in fs]
def lemon_sources(tmp, main, extra=()):
    return [(REPO + '/lemon/lemon.c', ['-D_DEFAULT_SOURCE', '-Dmain=' + main] + ML + list(extra))]
def native_tool(tmp, which):
    """the real tool, as a program (used to generate parsers from fixed grammars)"""
    exe = '%s/tool_%s' % (tmp, which)
    if os.path.exists(exe): return exe
    if which == 'lemon': sh(['gcc', '-O1', '-w', '-o', exe, REPO + '/lemon/lemon.c'])
    else:
        srcs = byacc_sources(tmp, which, 'main')
        def one(a):
            i, (f, fl) = a; o = '%s/nt_%s_%d.o' % (tmp, which, i); fl = [x for j, x in enumerate(fl) if x not in ('-include', E + '/ml.h', '-Dmain=main')]
            sh(['gcc', '-O1', '-w', '-c'] + fl + [f, '-o', o]); return o
        with cf.ThreadPoolExecutor(8) as ex: os_ = list(ex.map(one, enumerate(srcs)))
        sh(['gcc', '-o', exe] + os_)
    return exe
def generate(cmd, cwd, out, src, flags):
    """runs a tool on the grammar src; the output has to exist and to compile"""
    g = open(src).read()
    try: r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
    except subprocess.TimeoutExpired: raise ToolFails('%s does not terminate on a correct grammar' % os.path.basename(cmd[0]), g)
    if r.returncode or not os.path.exists(out): raise ToolFails('%s ends with status %d on a correct grammar: %s' % (' '.join(os.path.basename(x) for x in cmd), r.returncode, r.stdout.decode(errors='replace')[-300:]), g)
    r = subprocess.run(['clang', '-fsyntax-only', '-w'] + flags + [out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise ToolFails('the generated parser does not compile: ' + r.stdout.decode(errors='replace')[:300], g)
def link(objs, exe, nat=False):
    if nat: sh(['gcc', '-fsanitize=address', '-o', exe] + objs)
    else: sh(['clang++', '-fsanitize=address', '-o', exe] + objs + [B + '/minilibc.o', B + '/symrt.o', '-lz3'])
if __name__ == '__main__': setup()
