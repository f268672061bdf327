#!/usr/bin/env python3-vt
"""Decide one property: compile its contract harness against /repo's current tree, generate and discharge every
verification condition, replay refutations natively, write evidence.

usage: run.py PXX [--tier quick|thorough] [--only contract]
"""
import argparse
import json
import multiprocessing as mp
import multiprocessing.pool
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from engine import build  # noqa: E402
from checks import props  # noqa: E402

ENG = {}


def worker(job):
    ll, name, seed, opts = job
    if name.startswith('contract_bounded_'):
        return dict(contract=name, error='bounded by design', obls=[], refutations=[], funcs=[], ext=[], paths=0, ends={}, time=0,
                    z3_calls=0, z3_time=0, witnessed=0, reached=[])
    from engine import irparse, vcgen
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        e = ENG.get(ll)
        if e is None:
            mod = irparse.Module(open(ll).read())
            e = ENG[ll] = vcgen.Engine(mod, seed=seed, opts=opts)
        left = opts['deadline'] - time.time()
        if left < 5:
            return dict(contract=name, error='time: check deadline reached', obls=[], refutations=[], funcs=[], ext=[], paths=0,
                        ends={}, time=0, z3_calls=0, z3_time=0, witnessed=0, reached=[])
        e.opts['contract_time'] = min(opts['contract_time'], left)
        return e.contract(name)
    except MemoryError:
        ENG.clear()
        return dict(contract=name, error='memory', obls=[], refutations=[], funcs=[], ext=[], paths=0, ends={}, time=0,
                    z3_calls=0, z3_time=0, witnessed=0, reached=[])
    except Exception as ex:  # engine trouble is never a violation
        import traceback
        ENG.pop(ll, None)
        return dict(contract=name, error='engine: %r' % ex, tb=traceback.format_exc()[-1500:], obls=[], refutations=[],
                    funcs=[], ext=[], paths=0, ends={}, time=0, z3_calls=0, z3_time=0, witnessed=0, reached=[])


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return r.stdout.strip('\n').split('\n')
    except Exception:
        return list(names)


def run_native(exe, contract, seed, inputs=None, tolf=None, timeout=120):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_odr_violation=0'
    if tolf:
        env['VC_TOLF'] = str(tolf)
    cmd = [exe, contract, str(seed)]
    if inputs:
        cmd.append(inputs)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    return r.returncode, r.stdout[-20000:] + r.stderr[-4000:]


def native_fails(rc, out):
    """did the real code violate the contract on these inputs?"""
    if rc is None or rc == 3 or rc == 9:
        return False
    return rc != 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep')
    ap.add_argument('-v', action='store_true')
    A = ap.parse_args()
    pid = A.prop
    cfg = props.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    thorough = A.tier == 'thorough'
    t0 = time.time()
    work = A.keep or tempfile.mkdtemp(prefix='vc_%s_' % pid)
    os.makedirs(work, exist_ok=True)
    try:
        return check(pid, cfg, seed, thorough, t0, work, A)
    finally:
        if not A.keep:
            shutil.rmtree(work, ignore_errors=True)


def check(pid, cfg, seed, thorough, t0, work, A):
    evid = os.path.join(VERIF, 'evidence')
    os.makedirs(evid, exist_ok=True)
    srcs = [os.path.join(VERIF, 'contracts', s) for s in cfg.get('sources', [pid + '.cpp'])]
    lls = [os.path.join(work, os.path.basename(s)[:-4] + '.ll') for s in srcs]
    flags = cfg.get('flags', [])
    with mp.pool.ThreadPool(8) as tp:
        try:
            tp.starmap(build.ir, [(s, l, flags) for s, l in zip(srcs, lls)])
        except build.CompileError as e:
            print('ERROR: contract harness does not compile against the current tree')
            print(str(e)[-3000:])
            return 2
    tcompile = time.time() - t0
    jobs = []
    opts = dict(cfg.get('opts', {}))
    budget = cfg.get('budget', 420.0)
    opts.setdefault('contract_time', budget if not thorough else 3 * budget)
    opts['deadline'] = t0 + (cfg.get('deadline', 560.0) if not thorough else 3600.0)
    if thorough:
        opts['smt_ms'] = opts.get('smt_ms', 4000) * 4
        opts['zero_time'] = opts.get('zero_time', 60) * 4
    for s, l in zip(srcs, lls):
        for n in re.findall(r'^define [^\n]*@(contract_\w+)\(', open(l).read(), re.M):
            if A.only and A.only not in n:
                continue
            jobs.append((l, n, seed, opts))
    slow = cfg.get('slow', [])
    jobs.sort(key=lambda j: 0 if any(x in j[1] for x in slow) else 1)
    if not jobs:
        print('ERROR: no contracts')
        return 2
    with mp.Pool(min(8, len(jobs))) as pool:
        results = []
        for r in pool.imap_unordered(worker, jobs, chunksize=1):
            results.append(r)
            if A.v:
                print('%-44s paths=%-4d t=%6.1f %s %s' % (r['contract'], r['paths'], r['time'],
                                                         dict(Counter((o[1], o[2]) for o in r['obls'])), r['error'] or ''), flush=True)
                for x in r['refutations'][:3]:
                    print('    REF', {k: v for k, v in x.items() if k != 'inputs'}, str(x['inputs'])[:600])
                for o in [o for o in r['obls'] if o[1] == 'undecided'][:4]:
                    print('    UND', o)
                if r.get('tb'):
                    print(r['tb'])
    results.sort(key=lambda r: r['contract'])
    src_of = {}
    for l, n, _, _ in jobs:
        src_of[n] = srcs[lls.index(l)]

    # ------------------------------------------------------------ replay and bounded stand-ins
    exes = {}

    def exe_for(contract):
        s = src_of[contract]
        if s not in exes:
            out = os.path.join(work, os.path.basename(s)[:-4] + '.native')
            try:
                build.native(s, out, list(flags) + list(cfg.get('native_flags', [])))
                exes[s] = out
            except Exception as e:
                print('note: native build failed: ' + str(e)[-800:])
                exes[s] = None
        return exes[s]

    violations = []
    notes = []
    bounded = []
    vacuous = []
    repdir = os.path.join(VERIF, 'replay')
    known = load_known(pid)
    known_hit = []

    def report(contract, name, text, found):
        for k in known:
            if k['contract'] == contract and re.fullmatch(k['obligation'], name):
                known_hit.append(k)
                return
        os.makedirs(repdir, exist_ok=True)
        f = os.path.join(repdir, '%s-%s.txt' % (pid, contract))
        with open(f, 'w') as h:
            h.write(text)
        violations.append((contract, name, f, found))

    for r in results:
        c = r['contract']
        und = [o for o in r['obls'] if o[1] == 'undecided']
        und_names = {o[0] for o in und}
        confirmed = False
        unconf = []
        for x in r['refutations']:
            exe = exe_for(c)
            if exe is None:
                unconf.append(x)
                continue
            inp = os.path.join(work, c + '.in')
            with open(inp, 'w') as h:
                for k, (kind, v) in (x['inputs'] or {}).items():
                    h.write('%s %s\n' % (k, repr(v) if kind == 'real' else v))
            rc, out = run_native(exe, c, seed, inp)
            if native_fails(rc, out):
                txt = 'property %s\ncontract %s\nfailed obligation %s (%s)\n%s\ninputs:\n%s\nreplayed against the real code (native build of %s), output:\n%s\n' % (
                    pid, c, x['name'], x['backend'], x['info'], open(inp).read(), os.path.basename(src_of[c]), out[-4000:])
                report(c, x['name'], txt, True)
                confirmed = True
                break
            unconf.append(x)
            x['native'] = (rc, out[-300:])
        if confirmed:
            continue
        need = bool(unconf) or bool(und) or bool(r['error'])
        if need:
            # bounded stand-in: the same contract executed on the real code for random inputs
            exe = exe_for(c)
            n = 0
            fail = None
            nexec = 0
            if exe:
                tend = min(time.time() + (40 if not thorough else 240), t0 + 720 if not thorough else 1e18)
                for k in range(400 if not thorough else 4000):
                    if time.time() > tend:
                        break
                    rc, out = run_native(exe, c, seed * 100000 + k, tolf=cfg.get('tolf', 50))
                    if rc == 3:
                        continue
                    nexec += 1
                    if native_fails(rc, out):
                        fail = (seed * 100000 + k, out)
                        break
            bounded.append(dict(contract=c, why=(r['error'] or ('undecided: ' + ', '.join(sorted(und_names)[:6])) if not unconf
                                                 else 'unconfirmed refutation'), native_runs=nexec))
            if fail:
                txt = 'property %s\ncontract %s\nbounded stand-in (proof undecided): the real code violates the contract\nseed %d\n%s' % (
                    pid, c, fail[0], fail[1][-6000:])
                m = re.search(r'^FAIL (\S+)', fail[1], re.M)
                report(c, m.group(1) if m else 'no-abort', txt, True)
                continue
            strong = [x for x in unconf if x['backend'] in ('concrete', 'undef', 'path')]
            if strong and cfg.get('strong', True):
                x = strong[0]
                txt = 'property %s\ncontract %s\nfailed obligation %s (%s)\n%s\ninputs: %s\nnative replay did not reproduce: %s\n' % (
                    pid, c, x['name'], x['backend'], x['info'], x['inputs'], x.get('native'))
                report(c, x['name'], txt, False)
            elif unconf:
                notes.append('%s: refutation of %s not reproduced natively: %s' % (c, unconf[0]['name'], unconf[0]))
        if not r['error'] and (not r['obls'] or not r['witnessed']):
            vacuous.append(c)
    # thorough: additionally execute every contract natively (floating-point semantics of the real code)
    nat = 0
    if thorough and not violations:
        tend = time.time() + 600
        for r in results:
            exe = exe_for(r['contract'])
            if not exe:
                continue
            for k in range(40):
                if time.time() > tend:
                    break
                rc, out = run_native(exe, r['contract'], seed * 7777 + k, tolf=cfg.get('tolf', 50))
                if rc == 3:
                    continue
                nat += 1
                if native_fails(rc, out):
                    m = re.search(r'^FAIL (\S+)', out, re.M)
                    report(r['contract'], m.group(1) if m else 'no-abort',
                           'native execution of the contract failed (floating point)\nseed %d\n%s' % (seed * 7777 + k, out[-6000:]), True)
                    break

    # ------------------------------------------------------------ evidence
    obls = [o for r in results for o in r['obls']]
    st = Counter(o[1] for o in obls)
    be = Counter(o[2] for o in obls if o[1] == 'proved')
    funcs = sorted(set(f for r in results for f in r['funcs']))
    fd = [f for f in demangle(funcs) if re.search(r'DNDS|Geom|Euler|CFV|Elem', f) and not f.startswith(('contract_', 'Eigen::', 'std::'))]
    ext = sorted(set(demangle(sorted(set(f for r in results for f in r['ext'] if not f.startswith('__vc'))))))
    errs = [(r['contract'], r['error']) for r in results if r['error']]
    proved_all = not errs and st.get('undecided', 0) == 0 and st.get('refuted', 0) == 0
    level = cfg.get('level', 'proof')
    assumptions = list(props.COMMON_ASSUMPTIONS) + list(cfg.get('assumptions', []))
    if bounded:
        assumptions.append('BOUNDED stand-ins (not proved): ' + json.dumps(bounded)[:3000])
    total = len(obls) + len(errs)
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=seed, level=level,
              coverage=dict(obligations=total, discharged=st.get('proved', 0),
                            checker_cmd='checks/run.py %s --tier %s' % (pid, 'thorough' if thorough else 'quick'),
                            trusted_base=props.TRUSTED + ['external contracts used: ' + ', '.join(ext)[:3000]],
                            contracts=len(results), paths=sum(r['paths'] for r in results),
                            obligations_by_backend=dict(be), undecided=st.get('undecided', 0), refuted=st.get('refuted', 0),
                            obligation_names=sorted(set('%s:%s' % (r['contract'][9:], re.sub(r'(_\d+)+$', '', o[0]))
                                                        for r in results for o in r['obls']))[:400],
                            functions_under_contract=fd[:400], n_functions=len(fd),
                            bounded_standins=bounded, native_runs=nat,
                            z3_calls=sum(r['z3_calls'] for r in results), z3_time_s=round(sum(r['z3_time'] for r in results), 2),
                            cpu_time_s=round(sum(r['time'] for r in results), 2), compile_s=round(tcompile, 2),
                            errors=errs, notes=notes[:20]),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2),
              violations=[dict(contract=v[0], obligation=v[1], replay=v[2]) for v in violations])
    with open(os.path.join(evid, pid + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    print('%s: %d contracts, %d paths, %d obligations: %s; back ends %s; bounded stand-ins %d; %.1fs' % (
        pid, len(results), sum(r['paths'] for r in results), total, dict(st), dict(be), len(bounded), time.time() - t0))
    for b in bounded:
        print('note: bounded stand-in', b)
    for n in notes[:10]:
        print('note:', n)
    for k in {json.dumps(k) for k in known_hit}:
        k = json.loads(k)
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if vacuous:
        print('ERROR: vacuous contracts (no witnessed obligation): ' + ', '.join(vacuous))
        if not violations:
            return 2
    for c, n, f, found in violations[:10]:
        print('VIOLATION property=%s replay=%s%s' % (pid, f, '' if found else ' no-failing-input-found'))
        print('  contract %s obligation %s' % (c, n))
    return 1 if violations else 0


def load_known(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == pid]


if __name__ == '__main__':
    sys.exit(main())
