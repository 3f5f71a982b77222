"""Check runner:  python3-vt -O -m vc.run <property> [quick|thorough]

1. extract the translation units a property depends on from /repo's working tree (clang -> IR -> JSON);
2. discharge every obligation of every contract task of the property (fork pool, one task per process);
3. run the property's bounded native stand-in / counterexample search against an ASan+UBSan build of /repo;
4. write evidence/<property>.json and report.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer (tree does not compile, internal error).
"""
import collections, importlib, json, multiprocessing as mp, os, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAFETY = ('memory', 'assert', 'arithmetic', 'exception', 'vacuity')


class Task:
    """one contract verification job: fn(E, *args) produces obligations"""

    def __init__(self, name, fn, args=(), props=(), safety=None, funcs=(), limit=300):
        self.name = name
        self.fn = fn
        self.args = args
        self.props = tuple(props)        # properties whose obligations the task carries
        self.safety = safety             # property that memory/assert/... obligations belong to
        self.funcs = tuple(funcs)        # functions whose body is verified against its contract here
        self.limit = limit


class Prop:
    """what a property needs: modules with TASKS, native stand-in, texts for the evidence"""

    def __init__(self, pid, modules, native=None, native_args=None, bounded='', assumptions=()):
        self.pid = pid
        self.modules = modules
        self.native = native
        self.native_args = native_args or {}
        self.bounded = bounded
        self.assumptions = list(assumptions)


def run_task(t, bounded=None, limit=None):
    from . import engine, models_c
    E = engine.Engine(PROG)
    models_c.setup(E)
    E.deadline = time.time() + (limit or t.limit)
    E.bounded = bounded
    E.focus = FOCUS
    E.cur = t.name
    r = {'task': t.name, 'error': None, 'internal': None}
    t0 = time.time()
    try:
        t.fn(E, *t.args)
    except engine.Unsupported as e:
        r['error'] = 'unsupported: %s' % e
    except (KeyError, IndexError, AssertionError, AttributeError, TypeError, ValueError, Exception) as e:
        r['error'] = 'contract does not attach: %s: %s' % (type(e).__name__, str(e)[:300])
        r['internal'] = traceback.format_exc()[-3000:]
    r['wall'] = time.time() - t0
    r['obls'] = [dict(kind=o.kind, label=o.label, status=o.status, line=o.line, time=round(o.time, 3), backend=o.backend, havoc=o.havoc,
                      path=o.path, info=o.info, model=(str(o.model)[:4000] if o.model is not None else None)) for o in E.obls]
    r['covers'] = E.covers
    r['deferred'] = E.deferred
    r['queries'] = E.queries
    r['solver_time'] = E.solver_time
    r['models'] = sorted(E.used_models)
    r['contracts'] = sorted(E.used_contracts)
    r['inlined'] = sorted(E.inlined)
    r['truncated'] = E.truncated
    r['loops'] = getattr(E, 'loop_log', [])
    return r


PROG = None
FOCUS = None


def worker(args):
    i, bounded, limit = args
    # a process per task: memory goes back to the system, a stuck solver can be abandoned
    return run_task(TASKS[i], bounded, limit)


def pool_run(tasks, bounded=None, budget=600, jobs=8, limit=None):
    """run tasks in forked children with hard time limits"""
    global TASKS
    TASKS = tasks
    ctx = mp.get_context('fork')
    pending = collections.deque(range(len(tasks)))
    live = {}
    res = {}
    end = time.time() + budget

    def child(i, conn):
        try:
            r = worker((i, bounded, limit))
        except BaseException as e:
            r = {'task': tasks[i].name, 'error': 'crash: %r' % e, 'obls': [], 'deferred': 0, 'covers': [], 'queries': 0, 'solver_time': 0, 'models': [],
                 'contracts': [], 'inlined': [], 'truncated': 0, 'loops': [], 'wall': 0, 'internal': traceback.format_exc()[-3000:]}
        conn.send(r)
        conn.close()
        os._exit(0)
    while pending or live:
        while pending and len(live) < jobs and time.time() < end:
            i = pending.popleft()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(i, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time() + (limit or tasks[i].limit) + 45)
        if not live and time.time() >= end:
            break
        mp.connection.wait([v[1] for v in live.values()], timeout=1)
        for i in list(live):
            p, a, dl = live[i]
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = dead(tasks[i], 'worker died (out of memory?)')
            elif time.time() > min(dl, end + 5):
                p.kill()
                got = dead(tasks[i], 'time limit')
            if got is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                res[i] = got
                del live[i]
    for i in pending:
        res[i] = dead(tasks[i], 'not started: time budget used up')
    return [res[i] for i in range(len(tasks))]


def dead(t, why):
    return {'task': t.name, 'error': why, 'obls': [], 'deferred': 0, 'covers': [], 'queries': 0, 'solver_time': 0, 'models': [], 'contracts': [], 'inlined': [],
            'truncated': 0, 'loops': [], 'wall': 0, 'internal': None}


def relevant(t, pid, o):
    if o['kind'] == pid:
        return True
    return o['kind'] in SAFETY and (t.safety == pid or (t.safety is None and pid in t.props))


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith('finding: property=%s ' % pid):
            rest = l.split(' ', 2)[2]
            sig, _, what = rest.partition(' :: ')
            out.append((sig.strip(), what.strip()))
    return out


def check(pid, tier):
    global PROG, FOCUS
    FOCUS = pid
    from . import registry, ir, native
    t0 = time.time()
    prop = registry.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(evdir, 'replay')
    os.makedirs(rpdir, exist_ok=True)
    try:
        mods = [importlib.import_module('vc.contracts.' + m) for m in prop.modules]
        nb = {}

        def build():
            try:
                nb['exe'] = native.build_harness(scratch, prop.native)
            except Exception as e:
                nb['err'] = str(e)
        th = None
        if prop.native:
            th = threading.Thread(target=build)
            th.start()
        try:
            tus = sorted({t for m in mods for t in m.TU})
            PROG = ir.extract(tus, scratch) if tus else None
        except ir.ExtractError as e:
            print('ERROR: extraction failed: %s' % str(e)[-1500:])
            return 2
        tasks = [t for m in mods for t in m.tasks(PROG, tier) if pid in t.props or t.safety == pid]
        from . import lemmas
        tasks.append(Task('theory: rules of byte strings', lemmas.verify, (), props=(pid,), safety=pid, funcs=[]))
        if th:
            th.join()
        if 'err' in nb:
            print('ERROR: native build failed: %s' % nb['err'][-1500:])
            return 2
        # the native stand-in runs beside the proof
        nres = {}

        def runnative():
            nres['r'] = native.run_oracle(nb['exe'], prop.native_args.get(tier, []), seed, scratch, 300 if tier == 'quick' else 1500, pid)
        if prop.native:
            th = threading.Thread(target=runnative)
            th.start()
        results = pool_run(tasks, budget=560 if tier == 'quick' else 5400)
        if prop.native:
            th.join()
        return report(pid, prop, tier, seed, tasks, results, nres.get('r'), t0, evdir, rpdir)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(pid, prop, tier, seed, tasks, results, nat, t0, evdir, rpdir):
    known = known_findings(pid)
    total = proved = 0
    bad, unknown, undecided = [], [], []
    byb = collections.Counter()
    for t, r in zip(tasks, results):
        n = 0
        for o in r['obls']:
            if not relevant(t, pid, o):
                continue
            n += 1
            total += 1
            if o['status'] == 'proved':
                proved += 1
                byb[o['backend']] += 1
            elif o['status'] == 'vacuous':
                undecided.append((t, r, 'vacuous: ' + o['label']))
            elif o['status'] == 'refuted' and not o['havoc']:
                bad.append((t, r, o))
            else:
                unknown.append((t, r, o))
        if r['error']:
            undecided.append((t, r, r['error']))
        elif not r['obls'] and not r['deferred']:
            undecided.append((t, r, 'no obligations generated'))
    unproved = [(t, r) for t, r, _ in undecided] + [(t, r) for t, r, _ in unknown]
    violations = []
    # obligations refuted only below a havocked loop, undecided or out of reach: bounded symbolic execution from the entry
    redo = list({t.name: t for t, r in unproved}.values())
    fallback = []
    known_sigs = [s for s, _ in known]
    if nat is not None and any(not any(s in f['what'] for s in known_sigs) for f in nat['failures']):
        redo = []        # a failing input is at hand
    if redo and PROG is not None:
        rr = pool_run(redo, bounded=3, budget=150 if tier == 'quick' else 900, limit=140 if tier == 'quick' else 800)
        for t, r in zip(redo, rr):
            f = {'task': t.name, 'bounded_unroll': 3, 'error': r['error'], 'obligations': len(r['obls']),
                 'refuted': [o['label'] for o in r['obls'] if relevant(t, pid, o) and o['status'] == 'refuted']}
            fallback.append(f)
            for o in r['obls']:
                if relevant(t, pid, o) and o['status'] == 'refuted':
                    bad.append((t, r, o))
    seen_known = []

    def is_known(text):
        for sig, what in known:
            if sig in text:
                if sig not in seen_known:
                    seen_known.append(sig)
                    print('KNOWN-FINDING: property=%s %s' % (pid, what or sig))
                return True
        return False
    nfail = []
    if nat is not None:
        for f in nat['failures']:
            if not is_known(f['what']):
                nfail.append(f)
        if nat['error'] and not nfail:
            nfail.append({'what': nat['error'], 'input': nat['tail']})
    bad = [b for b in bad if not is_known(b[2]['label'])]
    if nfail:
        # the failing input confirms what was refuted only with the state at a loop head abstracted
        bad += [u for u in unknown if u[2]['status'] == 'refuted']
    rc = 0
    if nfail or bad:
        path = os.path.join(rpdir, '%s.json' % pid)
        rec = {'property': pid,
               'failing_inputs': nfail[:20],
               'failed_obligations': [dict(task=t.name, label=o['label'], kind=o['kind'], line=o['line'], path=o['path'], info=o['info'],
                                           verifier_output=o['model']) for t, r, o in bad[:20]],
               'replay': nat.get('replay') if nat else None}
        json.dump(rec, open(path, 'w'), indent=1)
        for t, r, o in bad[:6]:
            print('failed obligation [%s] %s: %s (%s)' % (o['kind'], t.name, o['label'], o['line']))
        for f in nfail[:6]:
            print('failing input: %s' % f['what'][:400])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if nfail else ' no-failing-input-found'))
        rc = 1
    und = [{'task': t.name, 'why': w[:400]} for t, r, w in undecided] + \
          [{'task': t.name, 'why': '%s: %s' % (o['status'], o['label'])} for t, r, o in unknown]
    models = sorted({m for r in results for m in r['models']})
    contracts = sorted({m for r in results for m in r['contracts']})
    inlined = sorted({m for r in results for m in r['inlined']})
    funcs = sorted({f for t, r in zip(tasks, results) if not r['error'] for f in t.funcs})
    complete = total == proved and not und and total > 0
    cov = {
        'obligations': total, 'discharged': proved,
        'checker_cmd': 'python3-vt -O -m vc.run %s %s' % (pid, tier),
        'trusted_base': ['z3 (python z3-solver), cvc5 as second opinion on unknowns', 'clang-18 -O0 + mem2reg/simplifycfg/loop-simplify',
                         'vc/engine.py, vc/loops.py, vc/theory.py (VC generator, Bytes theory)', 'models of library functions listed under trusted_models'],
        'functions_under_contract': funcs,
        'functions_inlined_from_current_source': inlined[:400],
        'contracts_used_at_calls': contracts,
        'trusted_models': models,
        'backends': dict(byb),
        'queries': sum(r['queries'] for r in results),
        'solver_time_s': round(sum(r['solver_time'] for r in results), 1),
        'tasks': [{'task': t.name, 'obligations': sum(1 for o in r['obls'] if relevant(t, pid, o)), 'wall_s': round(r['wall'], 1),
                   'reachability_checks': len(r['covers']), 'error': r['error']} for t, r in zip(tasks, results)],
        'loop_invariants': [[a, b, c] for r in results for a, b, c in r['loops']][:60],
        'all_obligations_discharged': complete,
        'not_decided_deductively': und[:60],
        'bounded_fallback': fallback,
        'bounded_stand_in': {'what': prop.bounded, 'label': 'bounded', 'result': None if nat is None else {k: nat[k] for k in ('cases', 'wall_s', 'error')}},
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'wall_s': round(time.time() - t0, 1),
          'assumptions': prop.assumptions + ['allocation never fails (std::bad_alloc and malloc failure not modelled)'] +
          ['trusted model of ' + m for m in models], 'violations': len(nfail) + len(bad)}
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d tasks, %d not decided deductively%s; native: %s; %.0f s' % (
        pid, proved, total, len(tasks), len(und), '' if not und else ' (bounded stand-in)',
        'none' if nat is None else '%s cases' % nat['cases'], time.time() - t0))
    for u in und[:8]:
        print('  undecided: %s: %s' % (u['task'], u['why'][:200]))
    if rc == 0 and total == 0 and nat is None:
        print('ERROR: nothing was checked')
        return 2
    return rc


def main():
    os.environ.setdefault('PYTHONHASHSEED', '0')
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        rc = check(pid, tier)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
