"""Runner: /verif/bin/check <property> [--tier quick|thorough] [--only NAME]"""
import argparse, collections, hashlib, importlib, json, multiprocessing as mp, multiprocessing.connection, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
EVID = os.path.join(VERIF, 'evidence')
ASSUMPTIONS = json.load(open(os.path.join(VERIF, 'tools', 'assume.json')))


def run_task(arg):
    """One verification task in its own process: returns a dict."""
    prop, name = arg
    from pyvc import lib
    from pyvc.vals import Unsupported
    mod = importlib.import_module('contracts.' + prop.lower())
    fn = lib.TASKS[prop][name]['fn']
    E = lib.new_engine()
    out = dict(name=name, unsupported=None, error=None)
    t0 = time.time()
    try:
        fn(E)
    except Unsupported as e:
        out['unsupported'] = str(e)[:500]
        if os.environ.get('PYVC_TRACE'): traceback.print_exc()
    except Exception:
        out['error'] = traceback.format_exc()[-2500:]
    out.update(obligations=[(o.name, o.ok, o.how, round(o.secs, 3), o.detail[:3000]) for o in E.obligations],
               covers=E.covers, functions=sorted(E.functions), contracts=sorted(E.used_contracts),
               trusted=sorted(E.trusted), nsolver=E.nsolver, tsolver=E.tsolver, assumptions=list(getattr(E, 'assumptions', [])),
               wall=time.time() - t0)
    return out


def run_native(arg):
    prop, name, seed, k = arg
    from native import base
    t0 = time.time()
    st, d = base.run_case(prop, name, seed, k)
    return (name, k, st, d, time.time() - t0)


def one(kind, arg, conn):
    try:
        conn.send((run_task if kind == 'task' else run_batch)(arg))
    except BaseException:
        conn.send(traceback.format_exc())
    conn.close()


class Pool:
    """Each job in a forked process with its own time limit."""
    def __init__(self, jobs, n, done):
        ctx = mp.get_context('fork')
        todo = collections.deque(jobs)
        live = []
        while todo or live:
            while todo and len(live) < n:
                kind, arg, limit = todo.popleft()
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=one, args=(kind, arg, b)); p.start(); b.close()
                live.append((p, a, kind, arg, time.time() + limit))
            rest = []
            mp.connection.wait([x[1] for x in live], timeout=1.0)
            for p, a, kind, arg, dl in live:
                if a.poll():
                    try: r = a.recv()
                    except EOFError: r = 'process died'
                    p.join(); done(kind, arg, r)
                elif not p.is_alive():
                    r = a.recv() if a.poll() else 'process died'
                    done(kind, arg, r)
                elif time.time() > dl:
                    p.terminate(); p.join(); done(kind, arg, 'time limit')
                else: rest.append((p, a, kind, arg, dl))
            live = rest


def run_batch(arg):
    prop, name, seed, ks = arg[:4]
    end = time.time() + arg[4] if len(arg) > 4 else None
    out = []
    for k in ks:
        if end is not None and time.time() > end: break
        out.append(run_native((prop, name, seed, k)))
        if end is not None and out[-1][2] in ('fail', 'finding'): break
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError: seed = 1
    t0 = time.time()
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    violations, notes = [], []
    errors = []
    TASKS, CH = {}, []
    try:
        from pyvc import lib
        importlib.import_module('contracts.' + prop.lower())
        TASKS = lib.TASKS.get(prop, {})
    except ModuleNotFoundError as e:
        if 'contracts.' not in str(e): errors.append(('contracts', traceback.format_exc()))
    except Exception:
        errors.append(('contracts', traceback.format_exc()))
    try:
        from native import base
        importlib.import_module('native.' + prop.lower())
        CH = base.CHECKS.get(prop, [])
    except ModuleNotFoundError as e:
        if 'native.' not in str(e): errors.append(('native', traceback.format_exc()))
    except Exception:
        errors.append(('native', traceback.format_exc()))
    for w, e in errors:
        print(f'note: {w} module did not load:\n{e}')
    jobs = []
    if not a.no_proof:
        for n, t in TASKS.items():
            if a.only and a.only not in n: continue
            jobs.append(('task', (prop, n), t.get('limit', 240) * (3 if tier == 'thorough' else 1)))
    if not a.no_native:
        for c in CH:
            if a.only and a.only not in c['name']: continue
            cnt = c['thorough'] if tier == 'thorough' else c['n']
            step = max(1, (cnt + 15) // 16)
            for k in range(0, cnt, step):
                jobs.append(('native', (prop, c['name'], seed, list(range(k, min(k + step, cnt)))), 420 if tier == 'quick' else 1800))
    res, nat = {}, []
    def done(kind, arg, r):
        if kind == 'task':
            if isinstance(r, str):
                r = dict(name=arg[1], unsupported=None, error=r, obligations=[], covers={}, functions=[], contracts=[], trusted=[], nsolver=0, tsolver=0, assumptions=[], wall=0)
            res[arg[1]] = r
        else:
            if isinstance(r, str): notes.append(f'native batch {arg[1]} {arg[3][:1]}: {r[-300:]}'); return
            nat.extend(r)
    Pool([(k, x, l) for k, x, l in jobs], 8, done)
    # An obligation that failed or could not be decided: look longer for a failing input on the real code.
    unclear = [n for n, r in res.items() if r['unsupported'] or r['error'] or any(not o[1] for o in r['obligations'])]
    deepened = 0
    if unclear and not a.no_native and not any(x[2] == 'fail' for x in nat):
        jobs, budget = [], (90.0 if tier == 'quick' else 600.0) / max(1, len(CH))
        for c in CH:
            if a.only and a.only not in c['name']: continue
            start = c['thorough'] if tier == 'thorough' else c['n']
            for w in range(8):
                jobs.append(('native', (prop, c['name'], seed, list(range(start + w, start + 12 * c['n'], 8)), budget), budget + c['limit'] + 30))
        before = len(nat)
        Pool(jobs, 8, done)
        deepened = len(nat) - before

    # ---- known findings
    known = {}
    kf = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'open': known[d['key']] = d
    hit_known = {}

    # ---- native outcome
    fails, findings, okc, skips, timeouts, samples, tcase = [], {}, 0, 0, 0, [], 0.0
    distinct = set()
    per = collections.Counter()
    for name, k, st, d, w in sorted(nat, key=lambda x: (x[0], x[1])):
        tcase += w
        if st == 'ok':
            okc += 1; distinct.add((name, d or k)); per[name] += 1
            if len([s for s in samples if s['check'] == name]) < 1: samples.append(dict(check=name, case=k, input=d))
        elif st == 'skip': skips += 1
        elif st == 'timeout': timeouts += 1
        elif st == 'finding':
            key, msg = d
            if key in known: hit_known.setdefault(key, msg)
            else: findings.setdefault(key, (name, k, msg))
        else: fails.append((name, k, d))

    def replay_file(tag, content):
        p = os.path.join(EVID, 'replay', f'{prop}-{tag}.json')
        json.dump(content, open(p, 'w'), indent=1, default=str)
        return p

    nfail = collections.Counter(n for n, _, _ in fails)
    for n in nfail:
        name, k, d = next(f for f in fails if f[0] == n)
        p = replay_file('native-' + n, dict(property=prop, check=n, seed=seed, case=k, tier=tier, failure=d,
                                           how=f'VERIF_SEED={seed} /verif/bin/replay {prop} {n} {k}'))
        violations.append((p, f'{n} case {k}: ' + d.strip().splitlines()[-1][:300], True))
    for key, (n, k, msg) in findings.items():
        p = replay_file('finding-' + key, dict(property=prop, check=n, seed=seed, case=k, failure=msg, how=f'VERIF_SEED={seed} /verif/bin/replay {prop} {n} {k}'))
        violations.append((p, f'{n} case {k}: {key}: {msg[:300]}', True))

    # ---- proof outcome
    obl, bad, uns = [], [], []
    for n, r in res.items():
        for o in r['obligations']:
            obl.append((n,) + tuple(o))
            if not o[1]: bad.append((n,) + tuple(o))
        if r['unsupported']: uns.append((n, 'out of reach: ' + r['unsupported']))
        elif r['error']: uns.append((n, 'verifier error: ' + r['error'][-600:]))
        elif not r['obligations']: uns.append((n, 'no obligation generated'))
        for c, ok in r['covers'].items():
            if not ok: uns.append((n, f'cover {c} unreachable'))
    # an obligation is identified by task and name; several paths may raise it
    if bad:
        known_bad = [b for b in bad if any(kf.get('obligation') and kf['obligation'] in f'{b[0]}: {b[1]}' for kf in known.values())]
        bad = [b for b in bad if b not in known_bad]
        for b in known_bad:
            for key, kfd in known.items():
                if kfd.get('obligation') and kfd['obligation'] in f'{b[0]}: {b[1]}': hit_known.setdefault(key, 'obligation ' + b[1])
    undecided_tasks = {n for n, _ in uns}
    if bad and not violations:
        groups = collections.OrderedDict()
        for b in bad: groups.setdefault((b[0], b[1]), b)
        for (n, on), b in list(groups.items())[:5]:
            p = replay_file('obligation-' + hashlib.md5((n + on).encode()).hexdigest()[:8],
                            dict(property=prop, task=n, obligation=on, backend=b[3], verifier_output=b[5], how=f'/verif/bin/check {prop} --only {n}'))
            violations.append((p, f'obligation failed: {n}: {on}: {b[5][:300]}', False))
    elif bad:
        groups = collections.OrderedDict()
        for b in bad: groups.setdefault((b[0], b[1]), b)
        for (n, on), b in list(groups.items())[:5]:
            print(f'failed obligation (confirmed by a failing input below): {n}: {on}: {b[5][:300]}')

    funcs = sorted({f for r in res.values() for f in r['functions']})
    trusted = sorted({f for r in res.values() for f in r['trusted']})
    contracts = sorted({f for r in res.values() for f in r['contracts']})
    how = collections.Counter(o[3] for o in obl if o[2])
    ndis = sum(1 for o in obl if o[2])
    wall = time.time() - t0
    names = collections.Counter((o[0], o[1]) for o in obl)
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if TASKS else 'exploration', wall_s=round(wall, 2), violations=len(violations),
              assumptions=ASSUMPTIONS['*'] + ASSUMPTIONS.get(prop, []) + sorted({x for r in res.values() for x in r['assumptions']}),
              coverage=dict(
                  obligations=len(obl), discharged=ndis,
                  checker_cmd=f'/verif/bin/check {prop}',
                  trusted_base=['pyvc: parser-to-VC translation (/verif/pyvc)', 'z3 4.x / cvc5'] + ['model of ' + t for t in trusted] + ['contract of ' + c for c in contracts],
                  functions_under_contract=funcs,
                  obligations_by_backend=dict(how), solver_calls=sum(r['nsolver'] for r in res.values()),
                  solver_s=round(sum(r['tsolver'] for r in res.values()), 2),
                  obligation_names=[f'{t}: {n}' + (f' x{c}' if c > 1 else '') for (t, n), c in names.items()][:400],
                  undecided=[dict(task=n, reason=why) for n, why in uns],
                  fully_proved=bool(TASKS) and not uns and not bad and len(obl) > 0,
                  covers={f'{n}: {c}': ok for n, r in res.items() for c, ok in r['covers'].items()},
                  bounded_runtime_checks=dict(note='bounded: random inputs against the real code; never counted as proved', cases=dict(per), timeouts=timeouts, extra_cases_after_unclear_obligations=deepened),
                  evaluations=okc + len(fails), distinct_nontrivial=len(distinct),
                  rule='a case is one call history of the real code on a drawn input, checked against an independent oracle; distinct by its description',
                  samples=samples, notes=notes[:10]))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)

    if a.v:
        for o in obl: print('  ', 'ok ' if o[2] else 'BAD', o[0], '|', o[1], '|', o[3], o[4], '' if o[2] else o[5])
        for n, r in res.items(): print(f'   task {n}: {r["wall"]:.1f}s, {len(r["obligations"])} obligations, {r["nsolver"]} solver calls')
        tm = collections.Counter()
        for name, k, st, d, w in nat: tm[name] += w
        for n in per: print(f'   native {n}: {per[n]} ok, {tm[n]:.1f}s')
    for n, why in uns: print(f'undecided: {n}: {why}')
    for n in notes: print('note:', n)
    print(f'{prop}: {ndis}/{len(obl)} obligations discharged over {len(funcs)} functions; '
          f'{okc} run-time cases passed, {len(fails)} failed, {skips} skipped, {timeouts} timed out; {wall:.1f}s')
    for key, msg in hit_known.items():
        print(f'KNOWN-FINDING: property={prop} {key}: {known[key].get("what", msg)}')
    for p, msg, replayed in violations:
        print(msg)
        print(f'VIOLATION property={prop} replay={p}' + ('' if replayed else ' no-failing-input-found'))
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
