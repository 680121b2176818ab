#!/usr/bin/env python3
"""check.py <property id> quick|thorough : decides one property of /repo's current tree by symbolic
execution of the real code.  Exit 0: it held on everything explored.  Exit 1 with a VIOLATION line otherwise."""
import sys, os, json, time, subprocess, tempfile, shutil, re, traceback, signal
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V); sys.path.insert(0, V + '/engine')
import build as bld
import concurrent.futures as cf
from specs import SPECS
NCPU = os.cpu_count() or 8
ENGINE = 'dynamic symbolic execution of the instrumented LLVM bitcode (engine/), Z3 %s decides every branch outcome'

def build_job(job, tmp, nat=False):
    """builds the job's binary; returns its path"""
    name = job['h'].replace('/', '_') + ''.join('.' + x for x in job.get('tools', [])) + ('_' + job['tag'] if job.get('tag') else '')
    d = os.path.join(tmp, name + ('_n' if nat else '_s')); os.makedirs(d, exist_ok=True)
    exe = d + '/x'
    if os.path.exists(exe): return exe
    comp = bld.native if nat else bld.instrument
    extra = job['gen'](tmp, d) if job.get('gen') else []       # [(source, flags)] generated from /repo's tools
    shared = os.path.join(tmp, 'nat' if nat else 'sym'); os.makedirs(shared, exist_ok=True)
    def unit(u):
        if u == 'h':
            o = d + '/h.o'; comp([(V + '/harness/' + job['h'] + '.c', bld.ML + ['-I', V + '/harness', '-I', d] + job.get('flags', []))], o, d, 'h'); return o
        if isinstance(u, tuple):
            o = d + '/' + u[0] + '.o'; comp(u[1], o, d, u[0], u[2] if len(u) > 2 else None); return o
        o = shared + '/' + u + '.o'
        if os.path.exists(o): return o
        if u in ('yacc', 'btyacc'): comp(bld.byacc_sources(shared, u, u + '_main', job.get('toolflags', [])), o, shared, u, [u + '_main'])
        elif u == 'yacclib': comp(bld.byacc_sources(shared, 'yacc', 'yacc_main', job.get('toolflags', [])), o, shared, u)
        elif u == 'btyacclib': comp(bld.byacc_sources(shared, 'btyacc', 'btyacc_main', job.get('toolflags', [])), o, shared, u)
        elif u == 'lemon': comp(bld.lemon_sources(shared, 'lemon_main'), o, shared, u, ['lemon_main'])
        elif u == 'lemon2': comp(bld.lemon_sources(shared, 'lemon2_main'), o, shared, u, ['lemon2_main'])
        elif u == 'lemonlib': comp(bld.lemon_sources(shared, 'lemon_main'), o, shared, u)
        else: raise bld.BuildError('unknown unit ' + u)
        return o
    units = list(job.get('tools', [])) + ['h'] + extra
    if nat:
        ml = shared + '/minilibc.o'
        if not os.path.exists(ml): bld.native([(bld.E + '/minilibc.c', [])], ml, shared, 'minilibc')
        rt = shared + '/native.o'
        if not os.path.exists(rt): bld.native([(bld.E + '/native.c', [])], rt, shared, 'native')
    with cf.ThreadPoolExecutor(4) as ex: objs = list(ex.map(unit, units))
    bld.link(objs + ([shared + '/minilibc.o', shared + '/native.o'] if nat else []), exe, nat)
    return exe

def run_engine(exe, params, t, runlimit, out, maxfail=12):
    args = [exe, '-out=' + out, '-j=%d' % NCPU, '-t=%g' % t, '-run=%d' % runlimit, '-maxfail=%d' % maxfail] + ['%s=%s' % kv for kv in params.items()]
    p = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try: _, err = p.communicate(timeout=t + 60 + 3 * runlimit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return None, 'engine did not stop'
    if p.returncode or not os.path.exists(out): return None, err.decode(errors='replace')[-800:]
    return json.load(open(out)), ''

def replay(exe, path, limit):
    """(violated?, text)"""
    try: r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired: return True, 'the run does not terminate within %d s' % limit
    e = r.stderr.decode(errors='replace')
    if r.returncode == 1 and 'REPLAY-FAIL:' in e: return True, e.split('REPLAY-FAIL:', 1)[1].strip()[:400]
    if r.returncode == 66 or r.returncode < 0 and r.returncode != -9:
        m = re.search(r'ERROR: AddressSanitizer: (\S+)', e); fr = re.findall(r'#\d+ \S+ in (\w+) \S*?([\w.]+:\d+)', e)
        fr = [f for f in fr if not f[0].startswith(('__', 'ml_', 'mf_'))][:2]
        return True, 'memory error %s in %s' % (m.group(1) if m else 'signal %d' % -r.returncode, ' < '.join('%s (%s)' % f for f in fr))
    return False, e[-300:]

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    only = sys.argv[3:]            # optional: run only these jobs
    spec = SPECS[pid]; t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    evd = V + '/evidence'; os.makedirs(evd, exist_ok=True)
    for f in os.listdir(evd):
        if f.startswith('replay-%s-' % pid): os.unlink(os.path.join(evd, f))
    known = []
    kf = V + '/known_findings.jsonl'
    if os.path.exists(kf):
        for l in open(kf):
            if l.strip().startswith('{'): known.append(json.loads(l))
    tmp = tempfile.mkdtemp(prefix='vchk.'); jobs = []; viols = []; notes = []; samples = []; knownhits = {}; hard = 840 if tier == 'quick' else 1e9
    tot = dict(paths=0, queries=0, sat=0, unsat=0, nontrivial=0, failed=0, solver_s=0.0, constraints=0, implied=0, rejected=0)
    traces = 0
    try:
        bld.setup()
        js = [j for j in spec['jobs'] if (not only or j['name'] in only) and tier in j.get('tiers', ('quick', 'thorough'))]
        share = {}
        for j in js:
            rec = {'job': j['name'], 'harness': j['h'] + '.c', 'bounds': j.get('bounds', '')}; jobs.append(rec)
            try: exe = build_job(j, tmp)
            except bld.ToolFails as e:
                rec['result'] = 'violated while the parser under test was being made: ' + str(e)[:600]
                rp = os.path.join(evd, 'replay-%s-%s.txt' % (pid, j['name']))
                with open(rp, 'w') as f: f.write('# property %s, job %s\n# %s\n# input:\n%s\n' % (pid, j['name'], str(e).replace('\n', ' '), e.grammar))
                viols.append((rp, str(e), e.grammar, j['name'])); continue
            except Exception as e:
                rec['result'] = 'not decided: the code under test or the harness does not build: ' + str(e)[-600:]; notes.append('%s: build: %s' % (j['name'], str(e)[-300:])); continue
            params = dict(j.get('params', {})); params.update(j.get(tier, {}))
            t = j.get('t', 30) if tier == 'quick' else j.get('tt', 300)
            if tier == 'quick': t = min(t, max(5, hard - (time.time() - t0) - 60))
            r, err = run_engine(exe, params, t, j.get('run', 10), os.path.join(tmp, 'o.json'), j.get('maxfail', 12))
            if r is None: rec['result'] = 'not decided: ' + err; notes.append(j['name'] + ': ' + err); continue
            for k in tot: tot[k] += r.get(k, 0)
            traces += r['paths']; samples += [j['name'] + ': ' + s for s in r['samples'][:4]]
            rec.update({k: r[k] for k in ('complete', 'paths', 'rejected', 'nontrivial', 'queries', 'sat', 'unsat', 'unknown', 'implied', 'pending', 'limits', 'solver_s', 'wall_s', 'max_vars', 'divergences')})
            rec['params'] = params; rec['result'] = 'held on every path within the bounds' if r['complete'] and not r['violations'] else 'held on every path explored (budget ran out)' if not r['violations'] else 'candidates found'
            for v in r['violations']:
                rp = os.path.join(evd, 'replay-%s-%d.txt' % (pid, len(viols) + len(knownhits) + len(notes)))
                with open(rp, 'w') as f:
                    for k, x in params.items(): f.write('p %s %s\n' % (k, x))
                    for n, x in v['vars']: f.write('v %s %d\n' % (n.replace(' ', '_'), x))
                try: nx = build_job(j, tmp, True)
                except Exception as e: notes.append('%s: candidate "%s" not replayed: native build failed: %s' % (j['name'], v['msg'][:200], str(e)[-300:])); os.unlink(rp); continue
                ok, text = replay(nx, rp, max(15, 2 * j.get('run', 10)))
                if not ok: notes.append('%s: candidate "%s" (%s) did not reproduce on the native build: %s' % (j['name'], v['msg'][:300], v['note'][:300], text)); os.unlink(rp); continue
                with open(rp, 'a') as f: f.write('# property %s, job %s\n# %s\n# input:\n%s\n' % (pid, j['name'], text.replace('\n', ' '), '\n'.join('#   ' + l for l in v['note'].split('\n'))))
                hit = None
                for k in known:
                    if k.get('property') == pid and k.get('status') == 'known' and re.search(k['match'], text) and re.search(k.get('input', ''), v['note']): hit = k
                if hit: knownhits[hit['what']] = hit; os.unlink(rp); continue
                viols.append((rp, text, v['note'], j['name']))
    except Exception:
        notes.append('internal: ' + traceback.format_exc()[-1500:])
    finally:
        if os.environ.get('VKEEP'): print('kept', tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)
    cov = {'states': tot['paths'], 'transitions': tot['queries'] + tot['implied'], 'traces_validated_against_impl': traces,
           'samples': samples[:12] or ['none'], 'paths': tot['paths'], 'paths_outside_assumptions': tot['rejected'], 'nontrivial_paths': tot['nontrivial'], 'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'],
           'branch_conditions_implied': tot['implied'], 'solver_s': round(tot['solver_s'], 3), 'functions_encoded': spec.get('functions', ''), 'jobs': jobs, 'inconclusive_or_unconfirmed': notes,
           'exhaustive': bool(jobs) and all(j.get('complete') for j in jobs),
           'explanation': 'states = feasible path conditions explored (each is one set of inputs on which the real code behaves alike and is executed on the instrumented real code); transitions = branch outcomes decided (by a Z3 query or implied by the path condition).'}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    for w in knownhits: print('KNOWN-FINDING: property=%s %s' % (pid, w))
    for j in jobs: print('%s %s: %s; paths=%s queries=%s solver=%ss wall=%ss' % (pid, j['job'], j.get('result', '')[:200], j.get('paths'), j.get('queries'), j.get('solver_s'), j.get('wall_s')))
    for n in notes: print('note: ' + n[:700])
    for rp, text, note, job in viols:
        print('VIOLATION property=%s replay=%s' % (pid, rp)); print('  %s: %s' % (job, text)); print('  input: ' + note[:600].replace('\n', '\n         '))
    sys.exit(1 if viols else 0)
main()
