"""Runs contract units through CBMC's code-contract pipeline (goto-cc, goto-instrument --dfcc,
cbmc) on the current sources of /repo, and decides properties from the obligations."""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

import inject

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(VERIF, 'contracts')
HARNESS = os.path.join(VERIF, 'harness')
INCS = ['lib/include', 'proxy/common/include', 'proxy/http_coap/include']
MEM = 14 << 30


class Unit:
    """One verification unit: one function of /repo enforced against its contract."""

    def __init__(self, name, tu, files, enforce=None, replace=(), loops=(), pre_unwind=None,
                 unwind=None, defines=(), bound=None, timeout=300, note='', assume=(),
                 solver='cadical', incs=(), checks=(), optional_replace=True, fallback=None,
                 harness='vp_harness', tier='quick', nocontract=False, need=(), stubs=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


class Proc:
    """subprocess with time limit and memory limit, killed as a group"""
    live = set()
    lock = threading.Lock()

    @staticmethod
    def run(cmd, timeout, cwd=None, env=None, group=None):
        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if cmd[0].startswith(('goto', 'cbmc')):
                resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env,
                             stdin=subprocess.DEVNULL, preexec_fn=pre)
        with Proc.lock:
            Proc.live.add(p)
            p.vp_group = group
        try:
            out, _ = p.communicate(timeout=max(1, timeout))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            Proc.kill(p)
            out, _ = p.communicate()
            rc = 'timeout'
        finally:
            with Proc.lock:
                Proc.live.discard(p)
        return rc, out.decode('utf-8', 'replace')

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    @staticmethod
    def killall(group=None):
        with Proc.lock:
            for p in list(Proc.live):
                if group is None or p.vp_group == group:
                    Proc.kill(p)


class Sources:
    """injected copies of the sources a run needs"""

    def __init__(self, scratch):
        self.dir = os.path.join(scratch, 'inj')
        os.makedirs(self.dir, exist_ok=True)
        self.cache = {}
        self.lock = threading.Lock()

    def get(self, rel):
        with self.lock:
            if rel not in self.cache:
                self.cache[rel] = self._make(rel)
            return self.cache[rel]

    def _make(self, rel):
        path = os.path.join(REPO, rel)
        try:
            text = open(path, encoding='latin-1').read()
            out, names, funcs, loops = inject.inject(text)
        except Exception as e:  # unreadable or unparsable source
            return {'error': '%s: %s' % (rel, e)}
        base = os.path.basename(rel)
        with open(os.path.join(self.dir, base), 'w', encoding='latin-1') as f:
            f.write(inject.defaults(names, funcs) + '#line 1 "%s"\n' % path + out)
        return {'names': names, 'funcs': funcs, 'loops': loops}


class Result:
    def __init__(self, unit, status, reason='', obligations=0, failed=(), seconds=0.0, solver_s=0.0,
                 by_class=None, output='', instr=0, names=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


def klass(p):
    """coarse class of an obligation"""
    n, d = p.get('property', ''), p.get('description', '')
    if d.startswith('vp_reach'):
        return 'reach'
    if '.unwind.' in n or 'unwinding assertion' in d or 'recursion' in d:
        return 'unwind'
    if d.startswith('vp_spec') or 'no body for' in d or 'undefined function should be unreachable' in d:
        return 'spec'           # the code uses its environment in a way the contract file does not describe
    if d.startswith('vp_safe'):
        return 'safety'
    if '.postcondition' in n or d.startswith('vp_') or '.assertion' in n:
        return 'functional'
    if 'Check ensures clause' in d:
        return 'functional'
    if 'Check requires clause' in d or '.precondition' in n:
        return 'requires'
    if 'loop_invariant' in n or 'invariant' in d or 'loop_decreases' in n or 'decreases' in n or 'variant' in d or 'loop_step_unwinding' in n:
        return 'loop'
    if 'assigns' in n or 'assignable' in d or 'freeable' in d:
        return 'frame'
    return 'safety'


def run_unit(u, src, scratch, deadline):
    t0 = time.time()
    d = os.path.join(scratch, 'u_' + u.name)
    os.makedirs(d, exist_ok=True)

    def undecided(why, out=''):
        return Result(u, 'undecided', why, seconds=time.time() - t0, output=out[-6000:])

    funcs, names = {}, set()
    for f in u.files:
        r = src.get(f)
        if 'error' in r:
            return undecided('source not readable: ' + r['error'])
        funcs.update(r['funcs'])
        names.update(r['names'])
        for fn in {l.rsplit('_', 1)[0] for l in u.loops}:
            if fn in r['loops']:
                want = len([l for l in u.loops if l.rsplit('_', 1)[0] == fn]) + len([k for k in u.pre_unwind or {} if k.split('.')[0] == fn])
                if r['loops'][fn] != want:
                    return undecided('%s has %d loops, loop contracts are written for %d' % (fn, r['loops'][fn], want))
    missing = [l for l in u.loops if l not in names]
    if missing:
        return undecided('no loop to attach the loop contract of ' + ', '.join(missing))
    need = list(u.need) + ([u.enforce] if u.enforce else [])
    for f in need:
        if f.split('/')[0] not in funcs:
            return undecided('function %s no longer exists' % f)
    a, b = os.path.join(d, 'a.gb'), os.path.join(d, 'b.gb')
    cmd = ['goto-cc', '-D_GNU_SOURCE', '-DVP_CBMC', '-I', src.dir, '-I', CONTRACTS]
    for i in list(u.incs) + INCS:
        cmd += ['-I', os.path.join(REPO, i)]
    cmd += ['-D' + x for x in u.defines] + ['-DVP_D_%s=vp_real_%s' % (x, x) for x in u.stubs]
    cmd += ['--function', u.harness, os.path.join(CONTRACTS, u.tu), '-o', a]
    left = lambda: min(u.timeout, deadline - time.time())
    rc, out = Proc.run(cmd, left())
    if rc != 0:
        return undecided('contracts do not compile against the current source', out)
    if u.pre_unwind:
        us = ','.join('%s:%d' % kv for kv in u.pre_unwind.items())
        a2 = os.path.join(d, 'a2.gb')
        rc, out = Proc.run(['goto-instrument', '--unwindset', us, '--unwinding-assertions', a, a2], left())
        if rc != 0:
            return undecided('pre-unwinding failed', out)
        a = a2
    if not u.nocontract:
        cmd = ['goto-instrument', '--dfcc', u.harness]
        if u.enforce:
            cmd += ['--enforce-contract', u.enforce]
        # which replaced callees still exist as symbols
        rc, out = Proc.run(['goto-instrument', '--list-symbols', a], left())
        syms = set(re.findall(r'^\s*(\S+)', out, re.M))
        used = []
        for c in u.replace:
            if c.split('/')[0] in syms:
                cmd += ['--replace-call-with-contract', c]
                used.append(c)
        cmd += ['--apply-loop-contracts', a, b]
        rc, out = Proc.run(cmd, left())
        if rc != 0:
            return undecided('goto-instrument rejected the unit', out)
    else:
        b = a
    rc, out = Proc.run(['cbmc', '--show-loops', '--json-ui', b], left())
    sets = []
    try:
        for e in json.loads(out):
            for l in e.get('loops', []):
                n = l['name']
                if n.startswith('__CPROVER') or n in (u.unwind or {}):
                    continue
                sets.append('%s:%d' % (n, (u.unwind or {}).get('*', 12)))
    except ValueError:
        return undecided('loops not listed', out)
    for k, v in (u.unwind or {}).items():
        if k != '*':
            sets.append('%s:%d' % (k, v))
    cmd = ['cbmc', b, '--json-ui', '--pointer-overflow-check', '--sat-solver', u.solver] + list(u.checks)
    if sets:
        cmd += ['--unwindset', ','.join(sets), '--unwinding-assertions']
    rc, out = Proc.run(cmd, left())
    if rc == 'timeout':
        return undecided('no verdict within %ds' % left())
    try:
        js = json.loads(out)
    except ValueError:
        return undecided('verifier gave no result (rc %s)' % rc, out)
    res, solver_s, msgs = None, 0.0, []
    for e in js:
        if 'result' in e:
            res = e['result']
        if 'messageText' in e:
            msgs.append(e['messageText'])
            m = re.search(r'Runtime (?:decision procedure|Solver): ([0-9.e+-]+)s', e['messageText'])
            if m:
                solver_s += float(m.group(1))
    if res is None:
        return undecided('verifier gave no result (rc %s)' % rc, '\n'.join(msgs))
    byc, failed, reach_bad, unwind_bad, unknown, reach, spec_bad = {}, [], [], [], [], 0, []
    for p in res:
        k = klass(p)
        st = p['status']
        if k == 'reach':
            reach += 1
            if st != 'FAILURE':
                reach_bad.append(p['description'])
            continue
        c = byc.setdefault(k, [0, 0])
        c[0] += 1
        if st == 'SUCCESS':
            c[1] += 1
        elif k == 'spec':
            spec_bad.append('%s (%s)' % (p['description'], loc(p)))
        elif k == 'unwind':
            unwind_bad.append(p['property'])
        elif st == 'FAILURE':
            failed.append((k, p['property'], p['description'], loc(p)))
        else:
            unknown.append(p['property'])
    n = sum(c[0] for c in byc.values())
    kw = dict(obligations=n, seconds=time.time() - t0, solver_s=solver_s, by_class=byc,
              names=sorted({p['property'].rsplit('.', 2)[0] for p in res}))
    if spec_bad:
        return Result(u, 'undecided', 'outside the contract file: ' + '; '.join(spec_bad[:4]), **kw)
    if failed:
        return Result(u, 'failed', failed=failed, output='\n'.join(msgs)[-4000:], **kw)
    if unwind_bad:
        return Result(u, 'undecided', 'loop not covered by a contract: ' + ', '.join(unwind_bad[:4]), **kw)
    if unknown:
        return Result(u, 'undecided', 'no verdict on ' + ', '.join(unknown[:4]), **kw)
    if reach == 0 or n == 0:
        return Result(u, 'undecided', 'no obligation or no reachability guard', **kw)
    if reach_bad:
        return Result(u, 'undecided', 'vacuous: not reachable: ' + '; '.join(reach_bad), **kw)
    r = Result(u, 'proved', **kw)
    return r


def loc(p):
    s = p.get('sourceLocation', {})
    return '%s:%s (%s)' % (os.path.basename(s.get('file', '?')), s.get('line', '?'), s.get('function', '?'))


def trace(u, src, scratch, prop, deadline):
    """verifier output with a counterexample for one failed obligation"""
    d = os.path.join(scratch, 'u_' + u.name)
    b = os.path.join(d, 'a.gb' if u.nocontract and not u.pre_unwind else 'a2.gb' if u.nocontract else 'b.gb')
    rc, out = Proc.run(['cbmc', b, '--trace', '--compact-trace', '--property', prop, '--pointer-overflow-check',
                        '--sat-solver', u.solver, '--unwind', '20'], min(60, deadline - time.time()))
    return out[-20000:]


def parallel(jobs, workers):
    """jobs: list of thunks"""
    res = [None] * len(jobs)
    it = iter(range(len(jobs)))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                i = next(it, None)
            if i is None:
                return
            try:
                res[i] = jobs[i]()
            except Exception as e:
                res[i] = e
    ts = [threading.Thread(target=work) for _ in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res
