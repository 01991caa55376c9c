#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]      decide one property on the current tree of /repo
   check.py --replay FILE                    run a recorded failing input again"""
import hashlib
import json
import os
import re
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import Proc, Sources, VERIF, REPO, HARNESS, INCS, parallel
from props import P, UNITS

TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
BUDGET = dict(quick=(330, 60), thorough=(3000, 600))


def native(h, scratch):
    """build the harness with the real sources"""
    exe = os.path.join(scratch, 'fz_' + h.name)
    cmd = ['clang', '-g', '-O1', '-w', '-fsanitize=fuzzer' + (',address' if h.asan else ''), '-fno-omit-frame-pointer', '-D_GNU_SOURCE',
           '-I', HARNESS]
    for i in ['lib/src', 'proxy/common/src', 'proxy/http_coap/src'] + INCS:
        cmd += ['-I', os.path.join(REPO, i)]
    cmd += ['-D' + d for d in h.defines] + list(h.cflags) + [os.path.join(HARNESS, h.file)]
    cmd += [os.path.join(REPO, s) for s in h.sources] + ['-o', exe] + list(h.ldflags)
    rc, out = Proc.run(cmd, 120)
    return (exe, '') if rc == 0 else (None, out)


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:symbolize=1:handle_abort=1',
           LC_ALL='C', LANG='C')


def run_input(exe, path):
    """True if the real code fails on this input"""
    rc, out = Proc.run([exe, '-timeout=20', '-rss_limit_mb=4000', path], 60, env=ENV)
    bad = rc == 'timeout' or (rc != 0 and ('VP-FAIL' in out or 'AddressSanitizer' in out or 'deadly signal' in out or 'libFuzzer: timeout' in out))
    return bad, out


def summary(out):
    m = re.search(r'VP-FAIL: (.*)', out)
    if m:
        return m.group(1)
    m = re.search(r'(SUMMARY: .*)', out)
    return m.group(1) if m else 'failure'


def fuzz(h, exe, scratch, seconds, k, stop):
    d = os.path.join(scratch, 'run_%s_%d' % (h.name, k))
    corpus = os.path.join(d, 'corpus')
    os.makedirs(corpus)
    for i, s in enumerate(h.seeds() if h.seeds else []):
        open(os.path.join(corpus, 's%d' % i), 'wb').write(s)
    if stop:
        return None, 0
    rc, out = Proc.run([exe, '-seed=%d' % (SEED * 1000 + k + 1), '-max_total_time=%d' % seconds, '-max_len=%d' % h.max_len,
                        '-use_value_profile=%d' % (k % 2), '-timeout=20', '-rss_limit_mb=4000', '-artifact_prefix=' + d + '/',
                        '-print_final_stats=1', '-len_control=%d' % (0 if k % 3 else 100), corpus], seconds + 60, cwd=d, env=ENV, group='search')
    m = re.search(r'number_of_executed_units: (\d+)', out)
    n = int(m.group(1)) if m else 0
    if n == 0 and not stop:
        print('harness %s did not run: %s' % (h.name, out[-300:]), flush=True)
    for f in sorted(os.listdir(d)):
        if f.startswith(('crash-', 'timeout-')):
            p = os.path.join(d, f)
            bad, o = run_input(exe, p)
            if bad:
                stop.append(1)
                Proc.killall('search')
                return (h, open(p, 'rb').read(), o), n
    return None, n


def bounded(h, scratch, deadline):
    """the harness in the verifier, for every input of at most h.n bytes (loops cut at h.unwind)"""
    d = os.path.join(scratch, 'bnd_' + h.name)
    os.makedirs(d, exist_ok=True)
    gb = os.path.join(d, 'h.gb')
    cmd = ['goto-cc', '-D_GNU_SOURCE', '-DVP_CBMC', '-DVP_N=%d' % h.n, '--function', 'vp_bounded', '-I', HARNESS]
    for i in ['lib/src', 'proxy/common/src', 'proxy/http_coap/src'] + INCS:
        cmd += ['-I', os.path.join(REPO, i)]
    cmd += ['-D' + x for x in h.defines] + [os.path.join(HARNESS, h.file), '-o', gb]
    rc, out = Proc.run(cmd, 60)
    if rc != 0:
        return 'nobuild', out[-2000:], None
    t = max(1, min(240 if TIER == 'quick' else 1500, deadline - time.time()))
    rc, out = Proc.run(['cbmc', gb, '--json-ui', '--trace', '--stop-on-fail', '--unwind', str(h.unwind), '--no-unwinding-assertions',
                        '--drop-unused-functions', '--sat-solver', 'cadical'], t, group='search')
    if rc == 'timeout':
        return 'timeout', '', None
    try:
        js = json.loads(out)
    except ValueError:
        return 'error', out[-2000:], None
    for e in js:
        if e.get('cProverStatus') == 'success':
            return 'held', '', None
        if 'trace' in e or 'result' in e:
            trs = [e] if 'trace' in e else e['result']
            for p in trs:
                if 'trace' not in p or p.get('description', '').startswith('vp_reach'):
                    continue
                data, size = [], None
                for s in p['trace']:
                    if s.get('stepType') == 'input':
                        v = s['values'][0]
                        x = int(v['binary'], 2)
                        if s['inputID'] == 'vp_byte':
                            data.append(x)
                        elif s['inputID'] == 'vp_size':
                            size = x
                return 'failed', p.get('description', ''), bytes(data[:size])
    return 'error', 'no verdict', None


def save_replay(pid, payload):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s.json' % (pid, hashlib.sha256(json.dumps(payload, sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    json.dump(payload, open(path, 'w'), indent=1)
    return path


def known(pid):
    try:
        lines = open(os.path.join(VERIF, 'known-findings.txt')).read().splitlines()
    except OSError:
        lines = []
    return [l for l in lines if l.startswith('finding: property=%s ' % pid)]


def decide(pid):
    t0 = time.time()
    spec = P[pid]
    unit_s, fuzz_s = BUDGET[TIER if TIER in BUDGET else 'quick']
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % pid, dir='/tmp')
    try:
        src = Sources(scratch)
        chosen = [(UNITS[n], c) for n, c in spec['units'] if UNITS[n].tier == 'quick' or TIER == 'thorough']
        chosen.sort(key=lambda x: -getattr(x[0], 'cost', 10))
        dl = t0 + unit_s
        res = parallel([lambda u=u: engine.run_unit(u, src, scratch, dl) for u, _ in chosen], 8)
        failed, undec, ev = [], [], []
        obl = dis = bobl = 0
        solver = 0.0
        for (u, classes), r in zip(chosen, res):
            if isinstance(r, Exception):
                r = engine.Result(u, 'undecided', 'driver: %r' % r)
            fl = [f for f in r.failed if classes is None or f[0] in classes]
            byc = {k: v for k, v in (r.by_class or {}).items() if classes is None or k in classes or k in ('unwind', 'spec')}
            n, ok = sum(v[0] for v in byc.values()), sum(v[1] for v in byc.values())
            if u.bound:
                bobl += n
            elif r.status != 'undecided':
                obl += n
                dis += ok
            else:
                obl += n
            solver += r.solver_s
            st = r.status
            if st == 'failed' and not fl:
                st = 'proved'
            if fl:
                failed.append((u, r, fl))
            elif st == 'undecided':
                undec.append((u, r.reason))
            ev.append(dict(unit=u.name, function=u.enforce or '(lemma) ' + u.name, status=st, reason=r.reason, obligations=n, discharged=ok,
                           by_class={k: v[0] for k, v in byc.items()}, replaced_callees=list(u.replace) + list(u.stubs),
                           loop_contracts=list(u.loops), bounded=u.bound, solver_s=round(r.solver_s, 2), wall_s=round(r.seconds, 1)))
            print('[%s] %-18s %-9s %4d/%-4d obligations %6.1fs %s' % (pid, u.name, st, ok, n, r.seconds, r.reason if st == 'undecided' else ''), flush=True)
            for f in fl[:6]:
                print('      failed: %s %s  %s' % (f[1], f[2], f[3]), flush=True)
        cov = dict(obligations=obl, discharged=dis,
                   checker_cmd='goto-cc; goto-instrument --dfcc vp_harness --enforce-contract F --replace-call-with-contract G.. '
                               '--apply-loop-contracts; cbmc --pointer-overflow-check --unwinding-assertions (CBMC 6.11, CaDiCaL SAT back end)',
                   trusted_base=['CBMC 6.11.0 front end, --dfcc contract instrumentation and VC generator', 'CaDiCaL SAT solver',
                                 'contract files and stub bodies in /verif/contracts',
                                 'vp/inject.py: inserts empty-by-default macros at loops in a scratch copy of the sources; drops nothing'],
                   functions_under_contract=sorted({u.enforce for u, _ in chosen if u.enforce}),
                   units=ev, solver_s=round(solver, 2), bounded_obligations_not_counted=bobl,
                   undecided_units=[dict(unit=u.name, reason=w) for u, w in undec])
        violation = None
        if failed or undec:
            violation = confirm(pid, spec, scratch, failed, undec, fuzz_s, cov, t0)
        elif spec['harness']:
            violation = confirm(pid, spec, scratch, [], [], 12 if TIER == 'quick' else 300, cov, t0, supplementary=True)
        lines = []
        rc = 0
        for k in known(pid):
            lines.append('KNOWN-FINDING: ' + k[len('finding: '):])
        if violation:
            rc = 1
            lines.append('VIOLATION property=%s replay=%s%s' % (pid, violation[0], '' if violation[1] else ' no-failing-input-found'))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        level = spec.get('level', 'proof')
        assume = list(spec['assume']) + ['unit %s is decided within a bound only: %s' % (u.name, u.bound) for u, _ in chosen if u.bound]
        if undec and not failed:
            assume.append('units without a verdict on this tree were replaced by a bounded check (see undecided_units and bounded_fallback); not proved')
        json.dump(dict(property=pid, tier=TIER if TIER in BUDGET else 'quick', seed=SEED, level=level, coverage=cov, assumptions=assume,
                       wall_s=round(time.time() - t0, 1), violations=rc), open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        for l in lines:
            print(l, flush=True)
        if rc == 0:
            print('[%s] %s: %d of %d obligations discharged in %.0fs' % (pid, 'held' if not undec else 'held within bounds (some units undecided)', dis, obl, time.time() - t0))
        return rc
    finally:
        Proc.killall()
        shutil.rmtree(scratch, ignore_errors=True)


def confirm(pid, spec, scratch, failed, undec, fuzz_s, cov, t0, supplementary=False):
    """look for a failing input on the real code; returns (replay, concrete) or None"""
    hs = spec['harness']
    stop, runs = [], []
    builds = parallel([lambda h=h: native(h, scratch) for h in hs], 8)
    jobs, fb = [], []
    per = max(1, 6 // max(1, len(hs)))
    if supplementary:
        per = max(1, 4 // max(1, len(hs)))
    bdl = time.time() + (250 if TIER == 'quick' else 1500)
    for h, b in zip(hs, builds):
        if isinstance(b, Exception) or b[0] is None:
            fb.append(dict(harness=h.name, native='does not build', output=str(b)[-1500:]))
            print('[%s] harness %s does not build' % (pid, h.name), flush=True)
            continue
        for k in range(per):
            jobs.append(('fuzz', h, b[0], lambda h=h, b=b, k=k: fuzz(h, b[0], scratch, fuzz_s, k, stop)))
    for h, b in zip(hs, builds):
        if h.cbmc and not supplementary:
            jobs.append(('bounded', h, None if isinstance(b, Exception) else b[0], lambda h=h: ('timeout', '', None) if stop else bounded(h, scratch, bdl)))
    out = parallel([j[3] for j in jobs], max(8, len(jobs)))
    hit, execs, bfail = None, 0, []
    for (kind, h, exe, _), o in zip(jobs, out):
        if isinstance(o, Exception):
            fb.append(dict(harness=h.name, error=repr(o)))
            print('[%s] harness %s: %r' % (pid, h.name, o), flush=True)
            continue
        if kind == 'fuzz':
            execs += o[1]
            if o[0] and not hit:
                hit = o[0]
        else:
            fb.append(dict(harness=h.name, verifier=o[0], bound='inputs of at most %d bytes, loops cut at %d iterations' % (h.n, h.unwind), detail=o[1][-300:]))
            if o[0] == 'failed' and exe:
                p = os.path.join(scratch, 'cex_' + h.name)
                open(p, 'wb').write(o[2] or b'')
                bad, txt = run_input(exe, p)
                if bad and not hit:
                    hit = (h, o[2] or b'', txt)
                elif not bad:
                    bfail.append((h, o[1], o[2]))
    cov['bounded_fallback'] = dict(harnesses=fb, native_executions=execs, native_seconds_each=fuzz_s,
                                   note='a short search for a failing input although every obligation was discharged: it guards against a fault in the stubs and '
                                        'specifications; bounded, not counted as proof' if supplementary else
                                        'search for a failing input after an obligation failed or could not be decided')
    if supplementary:
        cov['supplementary_search'] = cov.pop('bounded_fallback')
    obl = [dict(unit=u.name, function=u.enforce, obligation=f[1], description=f[2], location=f[3], cls=f[0]) for u, r, fl in failed for f in fl]
    base = dict(property=pid, failed_obligations=obl, undecided=[dict(unit=u.name, reason=w) for u, w in undec])
    if hit:
        h, data, txt = hit
        print('[%s] failing input on the real code: %s' % (pid, summary(txt)), flush=True)
        base.update(harness=h.name, input_hex=data.hex(), what=summary(txt), output=txt[-4000:], replay='python3 vp/check.py --replay <this file>')
        return save_replay(pid, base), True
    if failed:
        u, r, fl = failed[0]
        try:
            tr = engine.trace(u, src=None, scratch=scratch, prop=fl[0][1], deadline=t0 + 820)
        except Exception as e:
            tr = repr(e)
        base.update(verifier_output=(r.output or '') + '\n' + tr)
        return save_replay(pid, base), False
    if bfail:
        h, d, data = bfail[0]
        base.update(harness=h.name, bounded_obligation=d, input_hex=(data or b'').hex(), note='fails in the verifier; the native run does not fail')
        return save_replay(pid, base), False
    return None


def replay(path):
    r = json.load(open(path))
    if 'input_hex' not in r:
        print(json.dumps(r, indent=1))
        return 1
    h = [h for h in P[r['property']]['harness'] if h.name == r['harness']][0]
    scratch = tempfile.mkdtemp(prefix='vp_replay_', dir='/tmp')
    try:
        exe, out = native(h, scratch)
        if not exe:
            print(out)
            return 2
        p = os.path.join(scratch, 'input')
        open(p, 'wb').write(bytes.fromhex(r['input_hex']))
        bad, out = run_input(exe, p)
        print(out)
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if '--tier' in a:
        i = a.index('--tier')
        TIER = a[i + 1]
        del a[i:i + 2]
    if a[0] == '--replay':
        sys.exit(replay(a[1]))
    sys.exit(decide(a[0]))
