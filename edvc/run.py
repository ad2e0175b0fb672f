"""Driver: verify the functions of a property, discharge obligations, write evidence.

usage: run.py <property> [--tier quick|thorough] [--only f,g] [-v]
"""
import sys, os, time, json, importlib, traceback, multiprocessing, subprocess, tempfile, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
import z3
import front
from execu import Executor, Unsupported
import execu


class Task:
    def __init__(self, view, func, budget=120, variant='', part=None):
        self.view, self.func, self.budget, self.variant = view, func, budget, variant
        self.part = part        # (i, n): discharge only obligations with index % n == i

    def label(self):
        return self.func + (('/' + self.variant) if self.variant else '') + ('#%d/%d' % self.part if self.part else '')


class PyTask:
    """a check run by another deductive back end (CBMC) or computed directly; returns result dicts"""
    def __init__(self, name, fn, budget=300):
        self.func, self.fn, self.budget, self.variant = name, fn, budget, ''
        self.part = None

    def label(self):
        return self.func


def smt2(facts, goal):
    s = z3.SimpleSolver()
    s.add(*facts)
    s.add(execu.negate(goal))
    return '(set-logic ALL)\n' + s.to_smt2()


def run_cli(cmd, text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        p = f.name
    try:
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(p)


def model_text(m, limit=40):
    out = {}
    for d in m.decls():
        nm = d.name()
        if d.arity() == 0 and not z3.is_array(m[d]):
            if nm.startswith(('arg:', 'ed_', 'node', 'N')) or '!' in nm or nm.startswith('mutex'):
                out[nm] = str(m[d])
    ks = sorted(out, key=lambda k: (not k.startswith('arg:'), k))[:limit]
    return {k: out[k] for k in ks}


def discharge(o, tier, zt, ct, hurry=False):
    if o.result:
        return dict(status='discharged', backend=o.backend or 'simplifier', time=0.0)
    t0 = time.time()
    tries = []
    model = None
    # 1: z3, small budget, e-matching only
    for opts, tmo, nm in (({'mbqi': False, 'array.extensional': False}, zt, 'z3'), ({'mbqi': False}, zt, 'z3(ext)'), ({'arith.solver': 2}, zt, 'z3(arith 2)'), ({}, zt * 2, 'z3(mbqi)')):
        s = z3.SimpleSolver()
        s.set('timeout', int(tmo * 1000))
        for k, v in opts.items():
            s.set(k, v)
        s.add(*o.facts)
        s.add(execu.negate(o.goal))
        r = s.check()
        tries.append('%s:%s' % (nm, r))
        if r == z3.unsat:
            res = dict(status='discharged', backend=nm, time=time.time() - t0)
            if tier == 'thorough':
                c = run_cli(['cvc5', '--tlimit=%d' % (ct * 1000)], smt2(o.facts, o.goal), ct)
                res['second'] = c
            return res
        if r == z3.sat:
            try:
                model = model_text(s.model())
            except Exception:
                model = None
            if not any(z3.is_quantifier(f) or execu.sym.has_quant(f) for f in o.facts):
                return dict(status='refuted', backend='z3', time=time.time() - t0, model=model, tries=tries)
            if nm != 'z3' or hurry:
                return dict(status='refuted', backend=nm, time=time.time() - t0, model=model, tries=tries)
        elif hurry:
            return dict(status='unknown', backend='', time=time.time() - t0, model=model, tries=tries)
    txt = smt2(o.facts, o.goal)
    c = run_cli(['cvc5', '--tlimit=%d' % (ct * 1000)], txt, ct)
    tries.append('cvc5:%s' % c)
    if c == 'unsat':
        return dict(status='discharged', backend='cvc5', time=time.time() - t0)
    if c == 'unknown' or c.startswith('(error'):
        c = run_cli(['cvc5', '--enum-inst', '--tlimit=%d' % (ct * 1000)], txt, ct)
        tries.append('cvc5(enum):%s' % c)
        if c == 'unsat':
            return dict(status='discharged', backend='cvc5(enum)', time=time.time() - t0)
    return dict(status='unknown', backend='', time=time.time() - t0, model=model, tries=tries)


def trace_text(tr):
    return ['%s' % (t,) for t in (tr or [])][-30:]


def do_task(prog, ms, task, tier):
    t0 = time.time()
    res = dict(func=task.label(), obligations=[], error=None, assumptions=[], externals=[], vacuity=None, nret=None,
               loops=[], explore_s=0.0)
    if hasattr(task, 'fn'):
        try:
            r = task.fn()
            res.update(r)
        except Exception as e:
            res['error'] = 'analysis of %s did not finish: %r' % (task.func, e)
            res['tb'] = traceback.format_exc()
        res['wall'] = time.time() - t0
        return res
    ex = Executor(prog, task.view, ms)
    ex.variant = task.variant
    try:
        ex.verify(task.func, task.budget)
    except Unsupported as e:
        res['error'] = 'outside the verifier\'s reach: %s' % e
    except Exception as e:
        res['error'] = 'engine failure: %r' % e
        res['tb'] = traceback.format_exc()
    res['explore_s'] = time.time() - t0
    if ex.__dict__.get('vacuity'):
        res['vacuity'] = ex.vacuity
    res['nret'] = ex.__dict__.get('nret')
    res['assumptions'] = sorted(ex.assumptions)
    res['externals'] = sorted(task.view.externals)
    res['loops'] = [(f, l, len(c)) for f, s, l, c in ex.loopinfo]
    zt, ct = (6, 20) if tier == 'quick' else (20, 60)
    seen = {}
    nbad = 0
    for i, o in enumerate(ex.obls):
        if task.part and i % task.part[1] != task.part[0]:
            continue
        if not o.result:
            key = (o.name, o.goal.get_id(), tuple(f.get_id() for f in o.facts))
            if key in seen:
                d = seen[key]
            else:
                d = seen[key] = discharge(o, tier, zt if nbad < 6 else 2, ct, nbad >= 6)
        else:
            d = discharge(o, tier, zt, ct)
        d = dict(d)
        d.update(func=o.func, name=o.name, line=o.line, kind=o.kind)
        if d['status'] != 'discharged':
            nbad += 1
            d['trace'] = trace_text(o.trace)
        res['obligations'].append(d)
    res['wall'] = time.time() - t0
    return res


def worker(prog, ms, task, tier, conn):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        r = do_task(prog, ms, task, tier)
    except BaseException as e:
        r = dict(func=task.label(), obligations=[], error='engine failure: %r' % e, tb=traceback.format_exc(),
                 assumptions=[], externals=[], vacuity=None, nret=None, loops=[], wall=0, explore_s=0)
    conn.send(r)
    conn.close()


def run_tasks(prog, ms, tasks, tier, hard, jobs=8, verbose=False):
    ctx = multiprocessing.get_context('fork')
    pending = list(tasks)
    running = []
    results = []
    t_end = time.time() + hard
    while pending or running:
        while pending and len(running) < jobs:
            t = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(prog, ms, t, tier, b))
            p.start()
            b.close()
            running.append((p, a, t, time.time()))
        time.sleep(0.02)
        for it in list(running):
            p, a, t, ts = it
            done = None
            if a.poll():
                try:
                    done = a.recv()
                except EOFError:
                    done = None
                p.join()
                running.remove(it)
            elif not p.is_alive():
                running.remove(it)
            elif time.time() > t_end or time.time() - ts > t.budget * 4 + 120:
                p.kill()
                p.join()
                running.remove(it)
            else:
                continue
            if done is None:
                done = dict(func=t.label(), obligations=[], error='verification of %s did not finish in time' % t.label(),
                            assumptions=[], externals=[], vacuity=None, nret=None, loops=[], wall=time.time() - ts,
                            explore_s=0)
            results.append(done)
            if verbose:
                bad = [o for o in done['obligations'] if o['status'] != 'discharged']
                print('%-28s %5.1fs expl %5.1fs obl %4d bad %d ret %s vac %s %s' % (
                    done['func'], done['wall'], done['explore_s'], len(done['obligations']), len(bad), done['nret'],
                    done['vacuity'], done['error'] or ''), flush=True)
                if done.get('tb'):
                    print(done['tb'])
                for o in bad[:6]:
                    print('    ', o['status'], o['name'], 'line', o['line'], o.get('tries'), o.get('trace', [])[-8:],
                          (o.get('model') or {}) if verbose > 1 else '')
    return results


def load_known(prop):
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get('property') == prop and e.get('status', 'known') == 'known']


def main():
    av = sys.argv[1:]
    prop = av[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = 0
    i = 1
    while i < len(av):
        if av[i] == '--tier':
            i += 1
            tier = av[i]
        elif av[i] == '--only':
            i += 1
            only = av[i].split(',')
        elif av[i] == '-v':
            verbose += 1
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module('checks.' + prop.lower())
    failures = []
    results = []
    prog = None
    try:
        prog = front.load()
        from modset import ModSets
        ms = ModSets(prog)
        ms.of_func(next(iter(prog.funcs)))
        tasks = mod.tasks(prog)
    except Exception as e:
        tasks = []
        failures.append(dict(func='-', name='the source can be parsed and the contracts bound to it', line=0,
                             status='undecided', detail=repr(e) + '\n' + traceback.format_exc()))
    if only:
        tasks = [t for t in tasks if t.func in only or t.label() in only]
    hard = getattr(mod, 'HARD', 620) if tier == 'quick' else 6000
    if tasks:
        results = run_tasks(prog, ms, tasks, tier, hard, verbose=verbose)
    elif not failures:
        failures.append(dict(func='-', name='at least one function under contract', line=0, status='undecided', detail=''))
    nob = 0
    ndis = 0
    backends = {}
    stime = 0.0
    assumptions = set(getattr(mod, 'ASSUMPTIONS', []))
    externals = set()
    loops = 0
    bounded = []
    second = {}
    expected_norets = getattr(mod, 'NORETURN', set())
    for r in sorted(results, key=lambda r: r['func']):
        assumptions |= set(r['assumptions'])
        externals |= set(r['externals'])
        loops += len(r['loops'])
        bounded += r.get('bounded', [])
        if r['error']:
            failures.append(dict(func=r['func'], name='every path of the function is analysed', line=0, status='undecided',
                                 detail=r['error'] + ('\n' + r['tb'] if r.get('tb') else '')))
            nob += 1
        if r['vacuity'] == 'unsat':
            failures.append(dict(func=r['func'], name='precondition is satisfiable', line=0, status='vacuous', detail=''))
            nob += 1
        elif r['vacuity']:
            nob += 1
            ndis += 1
        if r['nret'] == 0 and not r['error'] and r['func'] not in expected_norets:
            failures.append(dict(func=r['func'], name='some path returns', line=0, status='vacuous', detail=''))
            nob += 1
        for o in r['obligations']:
            nob += 1
            stime += o.get('time', 0)
            if o['status'] == 'discharged':
                ndis += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
                if 'second' in o:
                    second[o['second']] = second.get(o['second'], 0) + 1
            else:
                failures.append(o)
    known = load_known(prop)
    viol = []
    knownhit = {}
    for f in failures:
        k = None
        for e in known:
            if e['function'] == f['func'].split('/')[0].split('#')[0] and re.fullmatch(e['obligation'], f['name']):
                k = e
                break
        if k:
            knownhit[k['id']] = k
        else:
            viol.append(f)
    for k in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'),
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  checker_cmd='python3-vt edvc/run.py %s --tier %s' % (prop, tier),
                  trusted_base=['clang 18 AST of the current /repo sources (front end)',
                                'edvc verification-condition generator (/verif/edvc)',
                                'z3 (python API), cvc5 for what z3 leaves open'] + list(getattr(mod, 'TRUSTED', [])),
                  functions_under_contract=sorted(r['func'] for r in results),
                  discharged_by=backends, solver_seconds=round(stime, 2),
                  loops_cut_by_invariant=loops, second_solver=second,
                  unmodelled_external_functions=sorted(externals),
                  bounded_stand_ins=bounded,
                  undischarged=[dict(func=f['func'], name=f['name'], line=f.get('line'), status=f['status'])
                                for f in failures][:60]),
              assumptions=sorted(assumptions), wall_s=round(time.time() - t0, 2), violations=len(viol))
    rc = 0
    line = None
    if viol:
        rc = 1
        rp = os.path.join(ROOT, 'replays', prop)
        os.makedirs(rp, exist_ok=True)
        rep = os.path.join(rp, 'violation.json')
        confirmed = None
        if not os.environ.get('EDVC_NOREPLAY'):
            try:
                if hasattr(mod, 'replay'):
                    confirmed = mod.replay(prog, viol, seed)
                if not confirmed:
                    sys.path.insert(0, os.path.join(ROOT, 'replay'))
                    import play
                    confirmed = play.replay(play.order(prop), 130, asan=getattr(mod, 'REPLAY_ASAN', False))
            except Exception as e:
                confirmed = None
                ev['coverage']['replay_error'] = repr(e)
        json.dump(dict(property=prop, failed_obligations=viol[:40], failing_input=confirmed), open(rep, 'w'), indent=1, default=str)
        for f in viol[:8]:
            print('FAILED OBLIGATION: %s: %s (line %s) [%s] %s' % (f['func'], f['name'], f.get('line'), f['status'],
                                                                 f.get('detail', '')[:200].replace('\n', ' ')))
        if confirmed:
            print('failing input: %s' % str(confirmed)[:600])
        line = 'VIOLATION property=%s replay=%s%s' % (prop, rep, '' if confirmed else ' no-failing-input-found')
        ev['coverage']['failing_input'] = str(confirmed)[:2000] if confirmed else None
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    if line:
        print(line)
    print('%s: %d/%d obligations discharged, %d functions, %.1fs' % (prop, ndis, nob, len(results), time.time() - t0))
    sys.exit(rc)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else '?'
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (p, '-'))
        sys.exit(1)
