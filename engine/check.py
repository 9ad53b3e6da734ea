"""check.py <property> : decides one property on /repo's current tree."""
import argparse
import fcntl
import importlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs'))
import mir
import vc
from vc import *
import sym as S
import registry

VERIF = mir.VERIF
START = time.time()
LIMIT = float(os.environ.get('VERIF_LIMIT', '840'))     # the whole check, seconds


# ------------------------------------------------------------------ replay on the real contract
def replay_bin(crate):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('CARGO_') or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'LD_LIBRARY_PATH'):
            del env[k]
    tgt = os.path.join(env.get('VERIF_TARGET') or os.path.join(VERIF, 'target'), 'replay')
    env['CARGO_TARGET_DIR'] = tgt
    env['CARGO_NET_OFFLINE'] = 'true'
    os.makedirs(tgt, exist_ok=True)
    with open(os.path.join(tgt, 'lock.' + crate), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['cargo', 'build', '--offline', '--locked', '-q', '--features', crate], env=env,
                           cwd=os.path.join(VERIF, 'replay'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Unsupported('replay harness does not build: ' + r.stdout[-1500:])
        b = os.path.join(tgt, 'debug', 'verif_replay')
        b2 = b + '.' + crate
        if not os.path.exists(b2) or os.path.getmtime(b2) < os.path.getmtime(b):
            import shutil
            shutil.copy2(b, b2 + '.tmp')
            os.replace(b2 + '.tmp', b2)
    return b2


def replay(crate, scs):
    b = replay_bin(crate)
    r = subprocess.run([b], input='\n'.join(json.dumps(x) for x in scs) + '\n', stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=120)
    out = [json.loads(l) for l in r.stdout.splitlines() if l.strip()]
    if len(out) != len(scs):
        raise Unsupported('replay harness: ' + r.stderr[-500:])
    return out


def evaluate(run, sc, res):
    """[(name, holds)] of the specification on a concrete run of the real code"""
    if 'panic' in res:
        return []
    ok = 'ok' in res
    post = run.sc.post if ok else run.sc.err
    if isinstance(post, (list, tuple)):
        ps = post
        post = lambda c: [p(c) for p in ps]
    if post is None:
        return []
    c = CCtx(run, sc, res)
    post(c)
    a = Assign()
    return [(n, g if isinstance(g, bool) else a.z(g)) for n, g, _, _ in c.goals]


def confirm(run, f, budget):
    """look for a concrete input on which the real code breaks the specification"""
    tried = []
    t0 = time.time()
    for asg in run.falsify(f['st'], f['g'], budget):
        try:
            sc = run.scenario_json(f['st'], asg)
        except (Unsupported, KeyError, OverflowError, TypeError, AttributeError) as e:
            tried.append(f'cannot make the scenario concrete: {e!r}')
            if len(tried) > 3:
                break
            continue
        res, = replay(run.sc.crate, [sc])
        try:
            ev = evaluate(run, sc, res)
        except (SpecError, Unsupported, Fork, KeyError, TypeError, AttributeError, ValueError) as e:
            tried.append(f'specification not evaluable on the concrete run: {e!r}')
            if len(tried) > 6:
                break
            continue
        bad = [n for n, h in ev if not h]
        if bad:
            return dict(scenario=sc, result=res, broken=bad), tried
        tried.append(dict(note='real code keeps the specification on this input', err=res.get('err') or res.get('panic'),
                          unanswered=res.get('unanswered')))
        if time.time() - t0 > budget or len(tried) > 8:
            break
    return None, tried


# ------------------------------------------------------------------ one task in one process
def task(args, sc, extra, tier, seed, deadline, want_ce, q, i, validate):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sess = mir.Session(args)
        run = Run(sess, sc, extra, tier, seed, deadline)
        out = dict(status='ok')
        try:
            out.update(run.run())
        except (Unsupported, SpecError, Fork, IndexError, AttributeError, TypeError, KeyError, AssertionError,
                RecursionError, ValueError, z3.Z3Exception) as e:
            out = dict(status='unsupported', why=f'{type(e).__name__}: {e}'[:600],
                       where=' > '.join((getattr(e, 'mirstack', None) or [])[-4:]),
                       tb=traceback.format_exc(limit=-4)[-1500:])
            if run.ex is not None:
                out.update(run.report())
        fl = []
        if run.failures and want_ce:
            b = 25.0
            names = {}
            for f in run.failures:
                names.setdefault(f['name'], []).append(f)
            for n, l in list(names.items())[:8]:
                rec = dict(name=n, goal=l[0]['goal'], note=l[0]['note'], count=len(l), ce=None, tried=[])
                for f in l[:3]:
                    if f['st'] is None or time.time() - START > LIMIT - 60:
                        continue
                    try:
                        ce, tried = confirm(run, f, b)
                    except (Unsupported, subprocess.SubprocessError, OSError, z3.Z3Exception, KeyError, ValueError, TypeError, AttributeError, Fork) as e:
                        ce, tried = None, [f'{type(e).__name__}: {e}'[:400]]
                    rec['tried'] += tried
                    if ce:
                        rec['ce'] = ce
                        break
                rec['path'] = [str(x)[:300] for x in l[0]['st'].pc[-40:]] if l[0]['st'] is not None else []
                fl.append(rec)
                if rec['ce']:
                    break
            for n in list(names)[len(fl):]:
                fl.append(dict(name=n, goal=names[n][0]['goal'], note=names[n][0]['note'], count=len(names[n]), ce=None, tried=[], path=[]))
        elif run.failures:
            for f in run.failures:
                fl.append(dict(name=f['name'], goal=f['goal'], note=f['note'], count=1, ce=None, tried=[], path=[str(x)[:200] for x in (f['st'].pc[-30:] if f['st'] else [])]))
        out['failures'] = fl
        out['scenario'] = sc.name
        out['extra'] = extra
        sess.close()
        q.put((i, out))
    except mir.BuildError as e:
        q.put((i, dict(status='build', why=str(e)[-1500:], failures=[], scenario=sc.name, extra=extra)))
    except BaseException as e:
        q.put((i, dict(status='crash', why=f'{type(e).__name__}: {e}'[:500] + traceback.format_exc()[-1500:], failures=[], scenario=sc.name, extra=extra)))


def run_tasks(args, tasks, tier, seed, want_ce=True, jobs=8):
    q = mp.Queue()
    pend = list(enumerate(tasks))
    live, res = {}, {}
    ctx = mp.get_context('fork')
    deadline = START + LIMIT - 200
    while pend or live:
        while pend and len(live) < jobs:
            i, (sc, extra) = pend.pop(0)
            p = ctx.Process(target=task, args=(args[sc.crate], sc, extra, tier, seed, deadline, want_ce, q, i, False))
            p.start()
            live[i] = p
        try:
            i, out = q.get(timeout=1)
            res[i] = out
            live.pop(i).join(30)
        except Exception:
            pass
        for i, p in list(live.items()):
            if not p.is_alive() and i not in res:
                # give the queue a moment
                try:
                    j, out = q.get(timeout=1)
                    res[j] = out
                    live.pop(j, None)
                except Exception:
                    if i in live:
                        res[i] = dict(status='crash', why=f'worker ended with {p.exitcode}', failures=[],
                                      scenario=tasks[i][0].name, extra=tasks[i][1])
                        live.pop(i)
    return [res[i] for i in range(len(tasks))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--no-ce', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    o = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if o.setup:
        mir.build_driver()
        print('driver built')
        return
    p = registry.load(o.prop)
    scs = [s for s in p.scenarios if (tier == 'thorough' or not s.thorough_only) and (not o.only or o.only in s.name)]
    mir.build_driver()
    crates = sorted({s.crate for s in scs})
    args, prep = mir.prepare(crates)
    argd = {c: args for c in crates}
    tasks = [(s, e) for s in scs for e in s.tasks()]
    res = run_tasks(argd, tasks, tier, seed, not o.no_ce, o.j)
    finish(p, scs, tasks, res, tier, seed, prep, o)


def finish(p, scs, tasks, res, tier, seed, prep, o):
    known = registry.known(p.id)
    stats = {}
    covered, by_name, samples, inlined, used = {}, {}, [], set(), set()
    bounded, policies, problems, fails = {}, {}, [], []
    for (sc, extra), r in zip(tasks, res):
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
        for k, v in (r.get('covered') or {}).items():
            covered[(sc.name, k)] = covered.get((sc.name, k), 0) + v
        for k, v in (r.get('by_name') or {}).items():
            by_name[k] = by_name.get(k, 0) + v
        samples += r.get('samples') or []
        inlined |= set(r.get('inlined') or [])
        used |= set(r.get('models') or [])
        for a, b in r.get('bounded') or []:
            bounded[a] = b
        if r['status'] != 'ok':
            problems.append(r)
        fails += [dict(f, scenario_name=sc.name, extra=extra, crate=sc.crate) for f in r['failures']]
        if o.v:
            print(f"-- {sc.name} {extra}: {r['status']} {r.get('stats')} {r.get('why', '')} {r.get('where', '')} merged={r.get('merged')} checks={r.get('feas')}")
            if r['status'] != 'ok':
                print(r.get('tb', ''))
            for f in r['failures']:
                print('   FAIL', f['name'], '|', f['goal'][:300], '|', f['note'], '| CE' if f['ce'] else '| no CE', str(f.get('tried'))[:700])
                if not f['ce']:
                    print('      path:', f.get('path'))
    if o.v:
        print('prep', round(prep, 1), 'bounded', bounded)
        print('covered', {f'{a}/{b}': n for (a, b), n in covered.items()})
    missing = []
    for s in scs:
        bad = [r for (sc, _), r in zip(tasks, res) if sc is s and r['status'] != 'ok']
        for cname in s.covers:
            if not covered.get((s.name, cname)) and not bad:
                missing.append(f'{s.name}: {cname}')
    viol = []
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    lines = []
    for f in fails:
        k = next((x for x in known if x['obligation'] == f['name']), None)
        if k is not None:
            lines.append(f"KNOWN-FINDING: property={p.id} {k['what']}")
            continue
        viol.append(f)
    # a confirmed counterexample first
    viol.sort(key=lambda f: f['ce'] is None)
    rc = 0
    if problems and not any(f['ce'] for f in viol):
        # the executor could not finish: concrete fallback on the real code
        import corpus
        extra_v = corpus.fallback(p, [t for t, r in zip(tasks, res) if r['status'] != 'ok'], seed, tier)
        viol = extra_v + viol
    for l in sorted(set(lines)):
        print(l)
    if viol:
        os.makedirs(rdir, exist_ok=True)
        f = viol[0]
        path = os.path.join(rdir, p.id + '.json')
        with open(path, 'w') as h:
            json.dump(dict(property=p.id, obligation=f['name'], goal=f['goal'], note=f['note'], scenario=f['scenario_name'],
                           counterexample=f['ce'], verifier=dict(result='not discharged', path_condition=f.get('path'),
                                                                 attempts=f.get('tried')),
                           all_failed=sorted({x['name'] for x in viol})), h, indent=1, default=str)
        rc = 1
        tail = '' if f['ce'] else ' no-failing-input-found'
        print(f"failed obligation: {f['name']}")
        print(f'VIOLATION property={p.id} replay={path}{tail}')
    elif missing:
        print('incomplete: cases no longer reached: ' + '; '.join(missing))
    for r in problems:
        print(f"incomplete: {r['scenario']} {r['extra']}: {r['why'][:300]} {r.get('where', '')}")
    level = 'proof'
    try:
        level = next(x['level'] for x in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks'] if x['property'] == p.id)
    except (OSError, StopIteration, KeyError):
        pass
    ev = dict(property=p.id, tier=tier, seed=seed, level=level, wall_s=round(time.time() - START, 1),
              violations=len(viol), assumptions=p.assumptions + registry.COMMON_ASSUMPTIONS,
              coverage=dict(
                  obligations=stats.get('obligations', 0) - stats.get('bounded', 0),
                  discharged=stats.get('discharged', 0) - stats.get('bounded', 0),
                  explanation='"discharged" counts obligations discharged for all inputs; "discharged_within_bounds" counts those '
                              'discharged for all inputs whose lists have the lengths under "bounded"',
                  discharged_within_bounds=stats.get('bounded', 0),
                  checker_cmd=f'python3-vt engine/check.py {p.id}',
                  trusted_base=registry.TRUSTED,
                  backends=dict(normal_form=stats.get('syntactic', 0), z3_linear_over_monomials=stats.get('linear', 0),
                                z3_nonlinear=stats.get('nonlinear', 0)),
                  solver_s=round(stats.get('solver_s', 0), 1), exec_s=round(stats.get('exec_s', 0), 1),
                  paths=stats.get('paths', 0), ok_paths=stats.get('ok_paths', 0), err_paths=stats.get('err_paths', 0),
                  entry_points=sorted({f'{s.crate}::{s.fn}' for s in scs}),
                  obligations_by_name=by_name,
                  functions_under_contract=sorted(n for n in inlined if 'astro' in n),
                  library_functions_executed=len([n for n in inlined if 'astro' not in n]),
                  library_contracts_assumed=sorted(used),
                  bounded={a: b for a, b in bounded.items()},
                  cases_reached={f'{a}: {b}': n for (a, b), n in covered.items()},
                  cases_missing=missing,
                  incomplete=[dict(scenario=r['scenario'], extra=r['extra'], why=r['why'], where=r.get('where')) for r in problems],
                  mir_build_s=round(prep, 1),
                  samples=samples[:8]))
    with open(os.path.join(VERIF, 'evidence', p.id + '.json'), 'w') as h:
        json.dump(ev, h, indent=1, default=str)
    print(f"{p.id}: {stats.get('obligations', 0)} obligations, {stats.get('discharged', 0)} discharged ({stats.get('bounded', 0)} of them for lists of bounded length), "
          f"{len(viol)} violated, {len(problems)} incomplete, {time.time() - START:.1f} s")
    sys.exit(rc)


if __name__ == '__main__':
    main()
