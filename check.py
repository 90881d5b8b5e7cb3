#!/usr/bin/env python3
"""Runner of the checks: python3 check.py <property id>   (VERIF_TIER, VERIF_SEED)

For one property it
  1. model checks the specification (specs/MC_*.tla) with TLC: the laws of the domain hold
     on a small scope, and - for the stateful domains - every reachable state satisfies the
     invariants;
  2. lets TLC write out cases / behaviours of the specification, which the drivers replay
     into the real library (specification -> implementation);
  3. runs the drivers of harness/ against /repo's working tree, recording every observed
     step, and has TLC decide each recorded step with specs/Trace*.tla
     (implementation -> specification).
The verdict is TLC's; this file only starts processes and collects what they print."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from registry import PROPS
from covers import COVERS  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/pypyenv/bin/python'
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPECS = os.path.join(VERIF, 'specs')
HARNESS = os.path.join(VERIF, 'harness')
SHARDS = 8


def tlc_cmd(mod, cfg, meta, extra=(), workers=1, xmx='2g'):
    return ['java', '-Xss128m', '-Xmx' + xmx, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
            '-Djava.awt.headless=true', '-cp', TLA, 'tlc2.TLC', '-workers', str(workers), '-nowarning',
            '-deadlock', '-metadir', meta, '-config', cfg, *extra, mod + '.tla']


def run(cmd, cwd, env, timeout, out):
    """run a command; returns (rc, text of stdout+stderr); rc -1 on timeout"""
    with open(out, 'w') as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except Exception:
                pass
            p.wait()
            rc = -1
    with open(out, errors='replace') as f:
        return rc, f.read()


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.cfg = PROPS[pid]
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.limit = 780 if self.tier == 'quick' else 6 * 3600
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif_' + pid + '_')
        self.repl = os.path.join(VERIF, 'evidence', 'replay', pid)
        shutil.rmtree(self.repl, ignore_errors=True)
        os.makedirs(self.repl, exist_ok=True)
        self.states = self.trans = self.traces = self.events = 0
        self.modelstats = []
        self.ops = {}
        self.samples = []
        self.viol = []       # (reason, event dict or text)
        self.broken = []     # the check itself could not run

    # ------------------------------------------------------------- helpers
    def left(self):
        return max(5, self.limit - (time.time() - self.t0))

    def env(self, **kw):
        e = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME', 'JAVA_TOOL_OPTIONS')}
        e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0',
                 OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VERIF_TMP=self.tmp)
        e.update(kw)
        return e

    # ------------------------------------------------------------- models
    def model(self, m):
        """m: dict(mod, cfg?, workers?, extra?, tiers?, out? (generated cases), expect (min states))"""
        name = m['mod'] + ('-' + m['cfg'] if 'cfg' in m else '')
        meta = os.path.join(self.tmp, 'm_' + name)
        os.makedirs(meta, exist_ok=True)
        cfg = m.get('cfg', m['mod']) + '.cfg'
        out = os.path.join(self.tmp, name + '.out')
        gen = os.path.join(self.tmp, name + '.gen')
        t = time.time()
        extra = list(m.get('extra', ()))
        if m.get('simulate'):
            n = m['simulate'][0 if self.tier == 'quick' else 1]
            depth = m['simulate'][2]
            extra += ['-simulate', 'num=%d' % n, '-depth', str(depth), '-seed', str(self.seed)]
        rc, txt = run(tlc_cmd(m['mod'], cfg, meta, extra, m.get('workers', 1), m.get('xmx', '4g')), SPECS,
                      self.env(OUT=gen, TIER=self.tier, PART=m.get('part', 'all')), self.left(), out)
        st = {'model': name, 'wall_s': round(time.time() - t, 1)}
        mm = re.search(r'(\d+) states generated, (\d+) distinct states found', txt)
        if mm:
            st['transitions'], st['states'] = int(mm.group(1)), int(mm.group(2))
        mm = re.search(r'The number of states generated: (\d+)', txt)
        if mm and 'states' not in st:
            st['transitions'] = st['states'] = int(mm.group(1))
        if m.get('reject'):       # a deliberately broken model: TLC has to find the violation
            if rc not in (12, 13):
                self.broken.append('TLC did not reject the broken model %s (rc %s): %s' % (name, rc, txt[-2000:]))
            st['rejected as expected'] = True
        elif rc != 0:
            self.broken.append('TLC failed on %s (rc %s): %s' % (name, rc, txt[-3000:]))
        self.modelstats.append(st)
        self.states += st.get('states', 0)
        self.trans += st.get('transitions', 0)
        if st.get('states', 0) < m.get('expect', 1) and not m.get('reject'):
            self.broken.append('model %s explored only %s states' % (name, st.get('states', 0)))
        if m.get('printgen'):
            rows = [json.loads(ln)[4:] for ln in txt.splitlines() if ln.startswith('"GEN ')]
            with open(gen, 'w') as f:
                f.write('\n'.join(rows) + ('\n' if rows else ''))
        return gen

    # ------------------------------------------------------------- drivers
    def driver(self, d, shard, nsh, gen):
        name = '%s_%d' % (d['fun'], shard)
        trace = os.path.join(self.tmp, name + '.ndjson')
        out = os.path.join(self.tmp, name + '.drv')
        cmd = [PY, os.path.join(HARNESS, 'drive.py'), d['mod'], d['fun'], str(shard), str(nsh), str(self.seed),
               self.tier, trace] + ([gen] if gen else [])
        rc, txt = run(cmd, os.path.join(REPO, 'products'), self.env(), self.left(), out)
        n = 0
        if os.path.exists(trace):
            with open(trace) as f:
                n = sum(1 for _ in f)
        if rc != 0:
            self.viol.append(('the driver %s could not drive the library (exit %s)' % (name, rc),
                              {'op': 'driver', 'driver': name, 'output': txt[-4000:]}))
        return trace, n

    def validate(self, d, trace, n):
        """let TLC decide every recorded step of one trace file"""
        if n == 0:
            return
        mod = d['trace']
        lines = open(trace).read().split('\n')
        start = 1
        for attempt in range(40):
            meta = tempfile.mkdtemp(dir=self.tmp)
            out = trace + '.tlc%d' % attempt
            rc, txt = run(tlc_cmd(mod, mod + '.cfg', meta, xmx=d.get('xmx', '2g')), SPECS,
                          self.env(TRACE=trace, START=str(start)), self.left(), out)
            for mm in re.finditer(r'<<\s*"VIOL",\s*(\d+),\s*(\{.*?\})\s*>>', txt, re.S):
                i = int(mm.group(1))
                why = '; '.join(re.findall(r'"([^"]*)"', mm.group(2)))
                self.viol.append((why, dict(json.loads(lines[i - 1]), _i=i)))
            mm = re.search(r'(\d+) states generated, (\d+) distinct states found', txt)
            if rc == 0 and mm:
                self.trans += int(mm.group(1))
                self.states += int(mm.group(2))
                self.events += int(mm.group(2)) - 1
                break
            # TLC could not evaluate a step: find it in the error trace
            pos = [int(x) for x in re.findall(r'^(?:/\\ )?i = (\d+)', txt, re.M)]
            if rc == -1:
                self.broken.append('TLC did not finish on ' + os.path.basename(trace))
                break
            if not pos:
                self.viol.append(('the specification could not decide the recorded trace', {'op': 'tlc', 'rc': rc, 'output': txt[-3000:]}))
                break
            i = pos[-1]
            self.viol.append(('the recorded step is malformed', dict(json.loads(lines[i - 1]), _i=i, _tlc=txt[-1500:])))
            self.events += i - start
            start = i + 1
            if start > n:
                break

    # ------------------------------------------------------------- main
    def main(self):
        models = [m for m in self.cfg.get('models', []) if self.tier in m.get('tiers', ('quick', 'thorough'))]
        drivers = [d for d in self.cfg['drivers'] if self.tier in d.get('tiers', ('quick', 'thorough'))]
        with cf.ThreadPoolExecutor(SHARDS) as ex:
            mfut = {}
            for m in models:
                mfut[m.get('id', m['mod'])] = ex.submit(self.model, m)

            def job(d, s, nsh):
                gen = None
                if 'gen' in d:
                    gen = mfut[d['gen']].result()
                    if not os.path.exists(gen):
                        self.broken.append('no cases were generated for ' + d['fun'])
                        return d['fun'], gen, 0
                trace, n = self.driver(d, s, nsh, gen)
                self.validate(d, trace, n)
                return d['fun'], trace, n
            futs = []
            for d in sorted(drivers, key=lambda z: 'gen' in z):
                nsh = d.get('shards', SHARDS)
                futs += [ex.submit(job, d, s, nsh) for s in range(nsh)]
            counts = {}
            for f in futs:
                fun, trace, n = f.result()
                counts[fun] = counts.get(fun, 0) + n
                if os.path.exists(trace):
                    with open(trace) as fh:
                        for k, ln in enumerate(fh):
                            op = json.loads(ln).get('op', '?')
                            self.ops[op] = self.ops.get(op, 0) + 1
                            if k == 3 and len(self.samples) < 3 and len(ln) < 3000:
                                self.samples.append(json.loads(ln))
            for m in mfut.values():
                m.result()
        for d in drivers:
            need = d.get('min', 20)
            if counts.get(d['fun'], 0) < need and not self.viol:
                self.broken.append('driver %s recorded %d steps, expected at least %d'
                                   % (d['fun'], counts.get(d['fun'], 0), need))
        self.traces = sum(counts.values())
        self.counts = counts
        return self.report()

    def known(self):
        path = os.path.join(VERIF, 'known_findings.txt')
        out = []
        if os.path.exists(path):
            for ln in open(path):
                mm = re.match(r'known: property=(\S+) key=(\S+) (.*)', ln)
                if mm and mm.group(1) == self.pid:
                    out.append((mm.group(2), mm.group(3)))
        return out

    def report(self):
        known = self.known()
        fresh = []
        seen = {k: 0 for k, _ in known}
        for why, e in self.viol:
            key = str(e.get('key', ''))
            if key and key in seen:
                seen[key] += 1
            else:
                fresh.append((why, e))
        for k, what in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        cov = {
            'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
            'samples': self.samples or [{'note': 'no short sample'}],
            'models': self.modelstats, 'steps_decided_by_tlc': self.events,
            'steps_by_driver': self.counts, 'steps_by_operation': self.ops,
            'explanation': 'model: %(model)s. bound steps: %(bound)s. oracle: %(oracle)s. limits: %(limits)s.' % COVERS[self.pid],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 1),
              'assumptions': COVERS[self.pid]['assumptions'], 'violations': len(fresh)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if fresh:
            rc = 1
            shown = {}
            for why, e in fresh:
                shown.setdefault(why, []).append(e)
            for n, (why, es) in enumerate(sorted(shown.items(), key=lambda z: -len(z[1]))[:20]):
                path = os.path.join(self.repl, '%02d_%s.json' % (n, hashlib.sha1(why.encode()).hexdigest()[:8]))
                with open(path, 'w') as f:
                    json.dump({'property': self.pid, 'reason': why, 'steps': es[:20], 'seed': self.seed,
                               'tier': self.tier, 'rerun': 'VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s'
                               % (self.seed, self.tier, self.pid)}, f, indent=1)
                print('%s: %d step(s): %s' % (self.pid, len(es), why[:300]))
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
        if self.broken:
            for b in self.broken:
                print('CHECK-ERROR %s: %s' % (self.pid, b))
            if rc == 0:
                rc = 2
        print('%s %s: %d steps of the library decided, %d states, %.1f s, rc %d'
              % (self.pid, self.tier, self.events, self.states, time.time() - self.t0, rc))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc


def setup():
    """nothing to build: make sure the tools are there"""
    for path in [PY] + TLA.split(':'):
        if not os.path.exists(path):
            print('missing', path)
            return 2
    return subprocess.call(['java', '-version'])


if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        sys.exit(setup())
    sys.exit(Check(sys.argv[1]).main())
