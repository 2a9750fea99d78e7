"""Runs the contracts of one property and writes evidence / verdict."""
import os, sys, json, time, signal, traceback, argparse, re, resource
import multiprocessing as mp
from . import contract as CT, ir, engine as EN, fe as FEM, build as BD, terms as T
from .contract import SEED, TIER, VERIF

COMMON = ['configuration of the sandbox build: x86-64, gcc, no OpenMP (single thread), no CUDA',
  'the IR that clang 18 makes of a template instantiation has the meaning of the code gcc compiles; the run-time contract evaluations use gcc\'s code',
  'harness entry points (/verif/harness) only decode arguments, call the repository function and store its result']
EXPL = {'bounded': 'Bounded: contracts of real functions. contracts_bounded_size_all_values were discharged deductively for every value of the operands at the enumerated sizes (paths with symbolic field elements / words); contracts_bounded_only were evaluated at run time on the compiled code over generated inputs. Neither is counted as an unbounded proof; contracts_proved_unbounded (if any) are.',
  'proof': 'obligations/discharged count the contracts proved for all inputs; contracts_bounded_size_all_values and contracts_bounded_only are listed separately and not counted.'}
class Suite:
    def __init__(s, pid, level='proof', assumptions=(), trusted=(), explanation='', handlers=None, notes=None):
        s.pid = pid; s.level = {'bounded': 'other'}.get(level, level); s.assumptions = list(assumptions) + COMMON; s.trusted = list(trusted)
        s.explanation = explanation or EXPL.get(level, '')
        s.harness = {}
        s.contracts = []
        s.default_handlers = handlers
        s.extra = []        # custom jobs: (name, fn(suite) -> dict(status, nob, nok, fails, ...))
        s.notes = notes or []
        s.max_steps = 60_000_000
    def h(s, name, *a, **k):
        s.harness[name] = BD.Harness(name, *a, **k); return s
    def c(s, name, harness, fn, args, post, **k):
        c = CT.Contract(name, harness, fn, args, post, **k)
        if c.thorough and TIER != 'thorough': return c
        s.contracts.append(c); return c
    def engine(s, hname):
        return s.engines[hname]
    def mk_engine(s, ll):
        m = ir.Module(ll)
        hs = s.default_handlers() if s.default_handlers else [FEM.fe_handler()]
        e = EN.Engine(m, hs, max_steps=s.max_steps)
        e.prefix = []; e.work = []
        run_ctors(e)
        if '@tvc_init' in m.funcs: e.call('@tvc_init', [])
        e.executed = {}; e.used = {}; e.steps = 0
        return e

def run_ctors(e):
    g = e.mod.globals.get('@llvm.global_ctors')
    if not g: return
    t, init, const = g
    try: ents = init[1]
    except Exception: return
    for en in ents:
        try:
            fn = en[1][1][1]
            s0 = e.snapshot() if False else None
            e.call(fn, [])
        except Exception as ex:
            if os.environ.get('TVC_V'): print('ctor', en, type(ex), str(ex)[:200])

def task(suite, kind, con, conn, nat, eng):
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    try:
        if kind == 'sym':
            e = eng
            e.hcache = {}
            if con.handlers is not None: e.handlers = list(con.handlers())
            if con.run: r = con.run(suite, con, e)
            else: r = CT.prove(con, e)
        elif kind == 'nat':
            n = con.n if TIER == 'quick' else (con.nt or con.n * 8)
            r = CT.native(con, nat, n, SEED)
        elif kind == 'extra':
            r = con[1](suite)
            r.setdefault('name', con[0])
        conn.send(('ok', r))
    except MemoryError:
        conn.send(('err', 'out of memory'))
    except Exception as ex:
        conn.send(('err', traceback.format_exc()[-1800:]))
    finally:
        conn.close()
        os._exit(0)

def pool(suite, tasks, deadline, jobs=8):
    """tasks: (key, kind, con, nat, eng, timeout)"""
    ctx = mp.get_context('fork')
    pend = list(tasks); run = []; out = {}
    while pend or run:
        while pend and len(run) < jobs:
            key, kind, con, nat, eng, tmo = pend.pop(0)
            if time.time() > deadline: out[key] = ('timeout', 'overall time limit'); continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=task, args=(suite, kind, con, b, nat, eng)); p.daemon = False
            p.start(); b.close()
            run.append((key, p, a, time.time() + tmo))
        time.sleep(0.005)
        nxt = []
        for key, p, a, dl in run:
            if a.poll():
                try: out[key] = a.recv()
                except EOFError: out[key] = ('err', 'worker died (exit %s)' % p.exitcode)
                p.join()
            elif not p.is_alive():
                if a.poll(): nxt.append((key, p, a, dl)); continue
                out[key] = ('err', 'worker died (exit %s)' % p.exitcode)
            elif time.time() > dl or time.time() > deadline + 30:
                p.kill(); p.join()
                out[key] = ('timeout', 'time limit')
            else: nxt.append((key, p, a, dl))
        run = nxt
    return out

def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('status') != 'fixed']

def known_match(known, pid, cname, fail):
    for k in known:
        if k['property'] != pid or not re.fullmatch(k['contract'], cname): continue
        if k.get('labels') and not all(any(f[0].startswith(l) for l in k['labels']) for f in fail): continue
        if k.get('labels_any') and not all(any(f[0].startswith(l) for l in k['labels_any']) for f in fail): continue
        return k
    return None

def main(suite, argv=None):
    t0 = time.time()
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay'); ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--nosym', action='store_true'); ap.add_argument('--nonat', action='store_true')
    ap.add_argument('--budget', type=float, default=780 if TIER == 'quick' else 7200)
    a = ap.parse_args(argv)
    if a.replay: return replay(suite, a.replay)
    sys.stdout.reconfigure(line_buffering=True)
    cons = [c for c in suite.contracts if not a.only or re.search(a.only, c.name)]
    hn = {c.harness for c in cons} | {x[2] for x in suite.extra if len(x) > 2}
    hs = [h for n, h in suite.harness.items() if n in hn]
    try: built = BD.build(hs) if hs else {}
    except BD.BuildError as ex:
        print('ERROR build: %s' % ex); return 2
    tb = time.time() - t0
    suite.built = built
    suite.engines = {}
    nats = {}
    herr = {}
    for n, (ll, exe, err) in built.items():
        if exe: nats[n] = CT.Native(exe)
        elif suite.harness[n].native: herr[n] = err
    if herr:
        for n, e in herr.items(): print('ERROR harness %s does not build against the current tree:\n%s' % (n, e and e[-3000:]))
        write_evidence(suite, t0, {}, {}, {}, 0, error='harness build failure')
        return 2
    engerr = {}
    if not a.nosym:
        need = {c.harness for c in cons if c.sym}
        for n in need:
            ll = built[n][0]
            if not ll: engerr[n] = 'no IR: %s' % (built[n][2] or '')[-600:]; continue
            try: suite.engines[n] = suite.mk_engine(ll)
            except Exception as ex:
                engerr[n] = 'initialisation not executable symbolically: %s: %s' % (type(ex).__name__, str(ex)[:300])
                if a.v: traceback.print_exc(limit=-3)
    te = time.time() - t0 - tb
    deadline = t0 + a.budget
    tasks = []
    sym = {}
    for i, c in enumerate(cons):
        if c.sym and not a.nosym:
            if c.harness in suite.engines: tasks.append((('sym', i), 'sym', c, nats.get(c.harness), suite.engines[c.harness], c.timeout if TIER == 'quick' else 6*c.timeout))
            else: sym[i] = dict(status='undecided', reason=engerr.get(c.harness, '?'), nob=0, nok=0, fails=[], paths=0)
    tasks.sort(key=lambda t: -t[5])
    if not a.nonat:
        for i, c in enumerate(cons):
            if c.nat and c.harness in nats: tasks.append((('nat', i), 'nat', c, nats[c.harness], None, 300))
    for j, x in enumerate(suite.extra):
        if a.only and not re.search(a.only, x[0]): continue
        tasks.insert(0, (('extra', j), 'extra', x, None, None, 700))
    out = pool(suite, tasks, deadline)
    nat = {}; extra = {}
    errors = []
    for (k, i), (st, r) in out.items():
        if k == 'sym':
            sym[i] = r if st == 'ok' else dict(status='undecided', reason=r if st == 'timeout' else 'error: ' + r, nob=0, nok=0, fails=[], paths=0)
        elif k == 'nat':
            if st == 'ok': nat[i] = r
            else: errors.append('native check of %s: %s %s' % (cons[i].name, st, r))
        else:
            if st == 'ok': extra[i] = r
            else: extra[i] = dict(name=suite.extra[i][0], status='undecided', reason=st + ': ' + r, nob=0, nok=0, fails=[])
    # ------------------------------------------------------------------ verdict
    known = load_known()
    viol = []
    kn = []
    for i, c in enumerate(cons):
        natf = nat.get(i, {}).get('fails', [])
        s = sym.get(i)
        done = False
        for f in natf:
            k = known_match(known, suite.pid, c.name, f['fails'])
            if k: kn.append(k); continue
            viol.append((c, dict(kind='native', contract=c.name, function=c.fn, harness=c.harness, inputs={q: [hx(v) for v in w] for q, w in f['inputs'].items()}, failed=f['fails'], reply=f['reply'],
                                 failed_obligations=[x[0] for x in f['fails']], verifier=s and s['fails'][:3]), True)); done = True; break
        if s and s['status'] == 'failed' and not done:
            # replay counterexamples
            rep = None
            for f in s['fails']:
                if len(f) > 2 and isinstance(f[2], dict) and c.harness in nats and c.nat:
                    vals = model_inputs(c, f[2])
                    if vals is None: continue
                    r = nats[c.harness].run([(c.fn, CT.conc_bufs(c, vals))])
                    ok, x = CT.check_concrete(c, vals, r[0])
                    if ok and x.fails:
                        rep = dict(kind='native', contract=c.name, function=c.fn, harness=c.harness, inputs={q: [hx(v) for v in w] for q, w in vals.items()}, failed=[list(map(str, y)) for y in x.fails[:6]],
                                   failed_obligations=[f[0]], verifier=[str(f)[:800]]); break
            k = known_match(known, suite.pid, c.name, s['fails'])
            if k: kn.append(k); continue
            if rep: viol.append((c, rep, True))
            else: viol.append((c, dict(kind='obligation', contract=c.name, function=c.fn, harness=c.harness, failed_obligations=[f[0] for f in s['fails']], verifier=[[str(y)[:1200] for y in f] for f in s['fails']]), False))
    for i, r in extra.items():
        if r['status'] == 'failed':
            k = known_match(known, suite.pid, r['name'], r['fails'])
            if k: kn.append(k); continue
            viol.append((None, dict(kind='extra', contract=r['name'], failed_obligations=[str(f[0]) for f in r['fails']], verifier=[[str(y)[:1200] for y in f] for f in r['fails']], inputs=r.get('inputs')), bool(r.get('inputs'))))
    write_evidence(suite, t0, cons, sym, nat, len(viol), extra=extra, errors=errors, tb=tb, engerr=engerr)
    und = [(cons[i].name, s['reason']) for i, s in sorted(sym.items()) if s['status'] == 'undecided']
    und += [(r['name'], r.get('reason')) for r in extra.values() if r['status'] == 'undecided']
    np_ = sum(s['status'] == 'proved' for s in sym.values())
    print('%s: %d contracts; deductive: %d proved (%d obligations), %d undecided, %d failed; native runs %d; build %.0fs init %.1fs total %.0fs' % (
        suite.pid, len(cons), np_, sum(s['nok'] for s in sym.values()), len(und), sum(s['status'] == 'failed' for s in sym.values()),
        sum(r['runs'] for r in nat.values()), tb, te, time.time() - t0))
    grp = {}
    for n, r in und: grp.setdefault((r or '')[-(2500 if a.v else 300):], []).append(n)
    for r, ns in grp.items(): print('  undecided (%d): %s: %s' % (len(ns), ', '.join(ns[:30]), r))
    if a.v:
        for i, c in enumerate(cons):
            s = sym.get(i); n_ = nat.get(i)
            print('   %-50s %s' % (c.name, ' '.join(filter(None, [s and '%s paths=%d obl=%d/%d %.1fs' % (s['status'], s['paths'], s['nok'], s['nob'], s.get('time', 0)), n_ and 'native=%d(%d) %.1fs' % (n_['runs'], n_['nob'], n_['time'])]))))
        for r in extra.values(): print('   extra', r['name'], r['status'], r.get('nok'), r.get('nob'), '%.1fs' % r.get('time', 0))
        for v in viol: print(json.dumps(v[1], default=str)[:3000])
    for e in errors: print('ERROR ' + e)
    for k in {json.dumps(k, sort_keys=True): k for k in kn}.values():
        print('KNOWN-FINDING: property=%s %s' % (suite.pid, k['what']))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        viol.sort(key=lambda v: not v[2])
        for n, (c, d, found) in enumerate(viol[:20]):
            path = os.path.join(VERIF, 'replay', '%s-%d.json' % (suite.pid, n))
            d['property'] = suite.pid
            d['replay_cmd'] = 'python3-vt /verif/check %s --replay %s' % (suite.pid, path)
            json.dump(d, open(path, 'w'), indent=1, default=str)
            if n == 0 or found:
                print('VIOLATION property=%s replay=%s%s' % (suite.pid, path, '' if found else ' no-failing-input-found'))
                print('  contract: %s; failed obligations: %s' % (d['contract'], ', '.join(d['failed_obligations'][:4])))
        return 1
    if errors: return 2
    vac = [cons[i].name for i, r in nat.items() if r['runs'] == 0]
    if vac: print('ERROR vacuous native check: %s' % vac); return 2
    return 0

def model_inputs(c, mdl):
    vals = {}
    if c.param: return None
    for a in c.ins:
        if a.name in c.fix: vals[a.name] = list(c.fix[a.name]); continue
        if a.model and a.model.ext: return None
        if a.model:
            vals[a.name] = [mdl.get('raw:%s[%d]' % (a.name, i), 0) for i in range(a.n)]
            vals[a.name] = [a.model.dec(v % a.model.p) for v in vals[a.name]]
        else: vals[a.name] = [mdl.get('%s[%d]' % (a.name, i), 0) for i in range(a.n)]
    return vals
hx = CT.hx

def short(names, k):
    """names of functions for the record: those of the project first, clipped (template arguments run to kilobytes)"""
    return sorted({n if len(n) < 160 else n[:156] + ' ...' for n in names}, key=lambda n: ('tachyon' not in n[:60], n))[:k]
def write_evidence(suite, t0, cons, sym, nat, nviol, extra=None, errors=(), tb=0, engerr=None, error=None):
    extra = extra or {}
    cons = cons or []
    ub = [i for i, s in sym.items() if s['status'] == 'proved' and not cons[i].bound]
    bd = [i for i, s in sym.items() if s['status'] == 'proved' and cons[i].bound]
    un = [i for i, s in sym.items() if s['status'] == 'undecided']
    fa = [i for i, s in sym.items() if s['status'] == 'failed']
    unb_all = [i for i in sym if not cons[i].bound]
    ob = sum(sym[i]['nob'] for i in unb_all) + sum(r['nob'] for r in extra.values() if not r.get('bound'))
    ok = sum(sym[i]['nok'] for i in unb_all) + sum(r['nok'] for r in extra.values() if not r.get('bound'))
    under = {}
    used = {}
    for s in sym.values():
        for d in s.get('executed', []): under[d] = under.get(d, 0) + 1
        for d in s.get('used', []): used[d] = 1
    for r in extra.values():
        for d in r.get('executed', []): under[d] = under.get(d, 0) + 1
    samples = []
    for i, r in list(nat.items())[:6]:
        if r.get('sample'): samples.append({'contract': r['name'], 'inputs': r['sample']})
    for r in extra.values():
        for smp in r.get('samples', [])[:2]: samples.append(smp)
    cov = {
        'obligations': ob, 'discharged': ok,
        'checker_cmd': 'python3-vt /verif/check %s (VERIF_TIER=%s): symbolic execution of clang-18 IR of the working tree; back ends: polynomial identity / Groebner normal forms over F_p (tvc/poly.py), exact-integer decomposition (tvc/zpoly.py), z3 %s' % (suite.pid, TIER, z3v()),
        'trusted_base': ['clang 18 front end at -O1 -disable-llvm-passes + opt always-inline,sroa', 'tvc engine, term and polynomial libraries (/verif/tvc)', 'z3', 'machine-code generation by the project compiler (covered only by the run-time contract checks)'] + suite.trusted,
        'explanation': suite.explanation,
        'contracts_total': len(cons),
        'contracts_proved_unbounded': [cons[i].name for i in ub],
        'contracts_bounded_size_all_values': [{'name': cons[i].name, 'bound': cons[i].bound, 'obligations': sym[i]['nob'], 'paths': sym[i]['paths']} for i in bd],
        'bounded_obligations': sum(sym[i]['nob'] for i in bd) + sum(r['nob'] for r in extra.values() if r.get('bound')),
        'contracts_undecided_now_bounded_only': [{'name': cons[i].name, 'reason': (sym[i]['reason'] or '')[-300:]} for i in un],
        'contracts_failed': [cons[i].name for i in fa],
        'contracts_bounded_only': [{'name': c.name, 'reason': c.whynot or 'outside the reach of the deductive engine; contract evaluated at run time on the natively compiled code'} for c in cons if not c.sym],
        'extra_jobs': [{k: v for k, v in r.items() if k in ('name', 'status', 'nob', 'nok', 'bound', 'what', 'reason', 'backend', 'time')} for r in extra.values()],
        'paths': sum(s.get('paths', 0) for s in sym.values()),
        'ir_instructions_executed': sum(s.get('steps', 0) for s in sym.values()),
        'solver_time_s': round(sum(s.get('solver_time', 0) for s in list(sym.values()) + list(extra.values())), 2),
        'solver_queries': sum(s.get('solver_queries', 0) for s in list(sym.values()) + list(extra.values())),
        'functions_verified_by_body': short(under, 300), 'functions_verified_by_body_count': len(under),
        'functions_used_by_contract': short(used, 200),
        'evaluations': sum(r['runs'] for r in nat.values()) + sum(r.get('runs', 0) for r in extra.values()),
        'distinct_nontrivial': sum(r['distinct'] for r in nat.values()) + sum(r.get('distinct', 0) for r in extra.values()),
        'rule': 'run-time contract evaluations on the natively compiled code: inputs drawn by seed from edge values (0, 1, p-1, limb patterns, structured cases) and uniformly; distinct by full input tuple',
        'samples': samples[:10] or [{'contract': c.name, 'fn': c.fn} for c in cons[:3]],
        'bounded_runtime_obligations': sum(r['nob'] for r in nat.values()),
        'build_s': round(tb, 1),
    }
    if error: cov['error'] = error
    if errors: cov['errors'] = list(errors)
    ev = {'property': suite.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': suite.level, 'coverage': cov,
          'assumptions': suite.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', suite.pid + '.json'), 'w'), indent=1, default=str)

def z3v():
    import z3
    return z3.get_version_string()

def unhx(x):
    if not isinstance(x, str): return x
    if x.startswith('('): return tuple(int(y, 16) for y in re.findall(r'0x[0-9a-f]+', x))
    return int(x, 16)
def replay(suite, path):
    d = json.load(open(path))
    if d.get('kind') != 'native':
        print(json.dumps(d, indent=1)); print('the replay file names the failed obligation; no failing input'); return 1
    c = next(c for c in suite.contracts if c.name == d['contract'])
    b = BD.build([suite.harness[c.harness]])
    n = CT.Native(b[c.harness][1])
    vals = {k: [unhx(x) for x in v] for k, v in d['inputs'].items()}
    r = n.run([(c.fn, CT.conc_bufs(c, vals))])
    ok, x = CT.check_concrete(c, vals, r[0])
    print('inputs', d['inputs']); print('failed', x.fails)
    return 1 if x.fails else 0
