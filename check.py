#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property by symbolic execution of the real code.

1. compiles /repo's working tree together with the harness to LLVM IR, and to a native replay binary;
2. runs the symbolic executor (engine/) over the entry points that bear on the property: every path
   within the bounds, every branch and every assertion decided by an SMT solver;
3. replays a sample of the explored paths natively and compares what they reach (translator validation);
4. replays every counterexample natively before reporting it;
5. writes evidence/<PROPERTY>.json.

Exit 0: held on everything explored; 1: VIOLATION; 2: no answer (build failure, solver gave up,
bounds not exhausted, native run disagrees, an entry did not reach what it must reach).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'driver'))
import plan

BUILD = os.path.join(V, 'build')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
ENV.pop('RUSTFLAGS', None)


class NoAnswer(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, errors='replace')
    return p.returncode, p.stdout


def cargo(cmd, crate, target):
    rc, out = sh(cmd, cwd=os.path.join(V, crate), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, target)))
    if rc:
        raise NoAnswer('%s does not build:\n%s' % (crate, out[-4000:]))


def build_engine():
    cargo(['cargo', 'build', '--release', '--offline', '-q'], 'engine', 'engine')


def build_replay():
    cargo(['cargo', 'build', '--release', '--offline', '-q'], 'replay', 'replay')


def entry_names():
    out = []
    for f in ('entries.rs',):
        out += re.findall(r'^ *([hk]_[a-z0-9_]+) =>', open(os.path.join(V, 'harness', 'src', f)).read(), re.M)
    return out


def build_ir():
    # the crate under test is always translated anew
    deps = os.path.join(BUILD, 'ir/release/deps')
    for f in glob.glob(deps + '/*.bc'):
        os.remove(f)
    try:
        os.utime(os.path.join(V, 'harness/src/lib.rs'))
    except OSError:
        pass
    rc, root = sh(['rustc', '--print', 'sysroot'])
    opt = os.path.join(root.strip(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin/opt')
    ll = os.path.join(BUILD, 'h.ll')
    cmd = [opt, '--strip-debug', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,dce),globaldce',
           '-internalize-public-api-list=' + ','.join(entry_names()), '-S', '-o', ll]
    log = open(os.path.join(BUILD, 'ir.log'), 'w+')
    p = subprocess.Popen(['cargo', 'rustc', '--release', '--offline', '-q', '--', '-C', 'save-temps'], cwd=os.path.join(V, 'harness'),
                         env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, 'ir')), stdout=log, stderr=log, start_new_session=True)
    t, size = time.time(), {}
    try:
        # the optimised module is written before machine code is made of it, which nobody needs
        while True:
            rc = p.poll()
            for f in glob.glob(deps + '/rgbsym*cgu.0.rcgu.bc'):
                n = os.path.getsize(f)
                if (rc is not None or (n and size.get(f) == n)) and not sh([opt, f] + cmd[1:])[0]:
                    return ll
                size[f] = n
            if rc is not None:
                log.seek(0)
                raise NoAnswer('harness does not build:\n' + log.read()[-4000:])
            if time.time() - t > 800:
                raise NoAnswer('harness: build takes too long')
            time.sleep(0.15)
    finally:
        if p.poll() is None:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        log.close()


def build():
    os.makedirs(BUILD, exist_ok=True)
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(build_ir), ex.submit(build_replay), ex.submit(build_engine)]
        return [f.result() for f in fs][0]


def replay(entry, inputs, path=None):
    p = path or os.path.join(BUILD, 'in-%d-%s.txt' % (os.getpid(), hashlib.sha1(repr((entry, inputs)).encode()).hexdigest()[:12]))
    with open(p, 'w') as f:
        f.write('# rgbreplay %s <this file>\n' % entry if path else '')
        for n, h in inputs:
            f.write('%s %s\n' % (n, h))
    try:
        rc, out = sh([os.path.join(BUILD, 'replay/release/rgbreplay'), entry, p], timeout=60)
    except subprocess.TimeoutExpired:
        rc, out = 124, 'PANIC no end after 60 s'
    if not path:
        os.remove(p)
    return rc, out.splitlines()


def known_findings():
    """Lines `known: property=Pxx entry=<entry> check=<check text> inputs=<name:hex,...> # what fails`."""
    r = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) check="([^"]*)" inputs=(\S+)\s*(?:# *(.*))?$', l.strip())
            if m:
                r.append(m.groups())
    return r


def max_steps(e):
    return plan.ENTRIES[e].get('max_steps', plan.MAX_STEPS)


def run_entry(ll, prop, e, solver, budget):
    out = os.path.join(BUILD, 'out-%s-%s.json' % (prop, e))
    cmd = [os.path.join(BUILD, 'engine/release/rsx'), ll, '--entry', e, '--prop', prop, '--jobs', str(os.cpu_count() or 8),
           '--max-steps', str(max_steps(e)), '--solver', solver, '--budget', str(int(budget)), '--max-viol', '4', '--out', out]
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, start_new_session=True)
    try:
        txt, _ = p.communicate(timeout=budget + 100)
    except subprocess.TimeoutExpired:
        txt = 'no end'
    finally:
        try:
            os.killpg(p.pid, 9)  # it and whatever processes it started
        except OSError:
            pass
        p.wait()
    rc = p.returncode
    if rc not in (0, 1) or not os.path.exists(out):
        d = None
        if os.path.exists(out):
            d = json.load(open(out))
            if d.get('violations'):
                return d  # something definite was found before it stopped
        raise NoAnswer('%s: executor: %s' % (e, txt.strip()[-1500:]))
    return json.load(open(out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--solver', default=None)
    ap.add_argument('--entry', action='append')
    ap.add_argument('--no-build', action='store_true')
    a = ap.parse_args()
    if a.setup:
        build()
        return 0
    t0 = time.time()
    prop, tier = a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = plan.PLAN[prop]
    entries = a.entry or (P['quick'] if tier == 'quick' else P['quick'] + [x for x in P.get('thorough', []) if x not in P['quick']])
    limit = 820 if tier == 'quick' else 6 * 3600
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = os.path.join(V, 'evidence', prop + '.json')
    if os.path.exists(ev):
        os.remove(ev)
    ll = os.path.join(BUILD, 'h.ll') if a.no_build else build()
    tb = time.time() - t0
    solvers = [a.solver] if a.solver else (['z3 -in'] if tier == 'quick' else ['z3 -in', 'cvc5 --incremental --produce-models'])
    tot = dict(paths=0, forks=0, queries=0, unsat=0, sat=0, cached=0, solver_s=0.0, checks=0, solver_checks=0, steps=0)
    funcs, covers, samples, per, mine = set(), {}, [], [], {}
    validated = compared = 0
    viols, notes, errors = [], [], []
    for si, solver in enumerate(solvers):
        for e in entries:
            if si and e in P.get('thorough', []):
                continue  # the second solver re-decides the quick entries
            left = limit - (time.time() - t0)
            if left < 5:
                raise NoAnswer('out of time before ' + e)
            d = run_entry(ll, prop, e, solver, left)
            for k in ('paths', 'forks', 'queries', 'unsat', 'sat', 'cached', 'solver_s', 'checks', 'steps'):
                tot[k] += d[k]
            tot['solver_checks'] += d['checks_solver']
            funcs |= set(d['funcs'])
            for k, n in d['covers'].items():
                covers[k] = covers.get(k, 0) + n
            for k, n in d['checks_by_id'].items():
                if k.split('|')[0] == prop:
                    m = mine.setdefault(k, [0, 0])
                    m[0] += n[0]
                    m[1] += n[1]
            per.append(dict(entry=e, solver=solver, what=plan.ENTRIES[e]['what'], paths=d['paths'], forks=d['forks'],
                            queries=d['queries'], unsat=d['unsat'], sat=d['sat'], answered_from_cache=d['cached'],
                            solver_s=round(d['solver_s'], 2), checks=d['checks'], checks_needing_solver=d['checks_solver'],
                            max_steps_on_a_path=d['max_path_steps'], wall_s=d['wall_s']))
            # counterexamples
            for v in d['violations']:
                rc, out = replay(e, v['inputs'])
                fails = [l for l in out if l.startswith('FAIL ' + prop + '|') or l.startswith('PANIC')]
                mism = [l for l in out if l.startswith('MISMATCH')]
                if v['kind'] == 'steps' and rc == 124:
                    fails = fails or ['PANIC no end']
                if fails:
                    viols.append((e, v, fails))
                else:
                    notes.append('%s: %s (%s) not confirmed natively: rc %d %s' % (e, v['id'], v['kind'], rc, (mism or out[-3:])))
            if d['violations']:
                if not viols:
                    errors.append('\n'.join(notes))
                break
            # every path class must have been reached
            miss = [c for c in plan.ENTRIES[e].get('covers', []) if c not in d['covers']]
            if miss:
                notes.append('%s no longer reaches: %s' % (e, ', '.join(miss)))
                if plan.ENTRIES[e].get('strict', True):
                    errors.append('%s: not reached: %s' % (e, ', '.join(miss)))
            # translator validation: native runs of explored paths reach the same points and break nothing
            if si == 0:
                byc = {}
                for s in sorted(d['samples'], key=lambda s: (s['covers'], s['inputs'])):
                    byc.setdefault(tuple(s['covers']), []).append(s)
                todo, k = [], 0
                while len(todo) < plan.SAMPLES and any(len(x) > k for x in byc.values()):
                    todo += [x[k] for x in byc.values() if len(x) > k]
                    k += 1
                todo = todo[:plan.SAMPLES]
                with cf.ThreadPoolExecutor(8) as ex:
                    res = list(ex.map(lambda s: replay(e, s['inputs']), todo))
                for s, (rc, out) in zip(todo, res):
                    compared += 1
                    got = sorted(set(l[6:] for l in out if l.startswith('COVER ')))
                    bad = [l for l in out if l.startswith('FAIL ' + prop + '|') or l.startswith('PANIC') or l.startswith('MISMATCH')]
                    if got == sorted(set(s['covers'])) and not bad:
                        validated += 1
                    elif not (plan.ENTRIES[e].get('ghost_hashes') and any(x.startswith('MISMATCH') for x in bad)):
                        errors.append('%s: native run differs: %s vs %s %s; inputs %s' % (e, s['covers'], got, bad, s['inputs']))
                    else:
                        notes.append('%s: path depends on a modelled hash value, not replayable' % e)
                samples += [dict(entry=e, reaches=s['covers'], inputs={'%02d %s' % (i, n): h for i, (n, h) in enumerate(s['inputs'])}) for s in todo[:3]]
        if viols or errors:
            break
    if not viols and not errors and not any(n[0] for n in mine.values()) and not P.get('panics_only'):
        errors.append('no assertion of %s was evaluated' % prop)
    known = known_findings()
    fresh = []
    for e, v, fails in viols:
        k = ','.join('%s:%s' % (n, h) for n, h in v['inputs'])
        hit = [x for x in known if x[0] == prop and x[1] == e and x[2] == v['id'] and x[3] == k]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][4]))
        else:
            fresh.append((e, v, fails))
    cov = dict(
        states=tot['paths'], transitions=tot['forks'], traces_validated_against_impl=validated, samples=samples[:12],
        exhaustive=not fresh and not errors,
        explanation='states = program paths explored to their end, each standing for every input satisfying its path '
                    'condition; transitions = branches at which the solver found both outcomes feasible. Every check on '
                    'every path was either constant or decided by the solver (unsat = holds).',
        assertions={k: dict(evaluated=n[0], decided_by_solver=n[1]) for k, n in sorted(mine.items())},
        panics_and_nontermination='every path was also checked to end without a panic within %d instructions' % max(map(max_steps, entries)),
        queries=tot['queries'], queries_unsat=tot['unsat'], queries_sat=tot['sat'], queries_answered_from_cache=tot['cached'],
        solver_s=round(tot['solver_s'], 2), solvers=solvers, instructions_executed=tot['steps'],
        functions_encoded=sorted(funcs), entries=per, reached=covers, native_replays=compared,
        bounds=[plan.ENTRIES[e]['what'] for e in entries], outside_bounds=plan.OUTSIDE, notes=notes, build_s=round(tb, 1))
    doc = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=plan.ASSUMPTIONS,
               wall_s=round(time.time() - t0, 1), violations=len(fresh))
    with open(ev, 'w') as f:
        json.dump(doc, f, indent=1)
    if fresh:
        e, v, fails = fresh[0]
        path = os.path.join(V, 'evidence', 'replay-%s-%s.txt' % (prop, e))
        replay(e, v['inputs'], path)
        with open(path, 'a') as f:
            f.write('# %s\n# %s\n' % (v['id'], ' ; '.join(fails)[:500]))
        print('counterexample (%s): %s %s' % (e, v['id'], ' '.join('%s=%s' % (n, h) for n, h in v['inputs'])[:1500]))
        print('native run: ' + ' ; '.join(fails)[:800])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('NO ANSWER: ' + '\n'.join(errors)[:4000])
        return 2
    print('%s holds: %d paths, %d assertions (%d by solver), %d queries, %d/%d native replays agree, %.0f s' % (
        prop, tot['paths'], tot['checks'], tot['solver_checks'], tot['queries'], validated, compared, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except NoAnswer as x:
        print('NO ANSWER: %s' % x)
        sys.exit(2)
