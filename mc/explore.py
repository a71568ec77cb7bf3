"""Exhaustive bounded exploration of the real code: the engine shared by all checks.

A check is a list of families.  A family enumerates *scenarios* (JSON-able, simplest first, the
whole bounded space, no sampling) and runs each of them on the code under test, comparing with a
reference model.  Every scenario (or batch of scenarios) runs in a freshly forked process, so no
execution can see what another one left behind; a scenario that kills its process or does not end
is itself an observation.  A violation is only reported after the scenario has been replayed alone
in a fresh process and has failed again in the same way.
"""
import argparse
import hashlib
import json
import os
import select
import signal
import shutil
import sys
import tempfile
import time
import traceback

from .env import VERIF, REPO

SCN_TIMEOUT = 180       # seconds for one scenario before it counts as not terminating
MAX_VIOLATIONS = 5      # stop exploring after that many confirmed ones


def canon(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True, separators=(',', ':'))


def digest(x):
    return hashlib.sha1(canon(x).encode()).hexdigest()[:16]


class Family:
    """One enumerated space.

    name        identifies the family in replay files
    batch       scenarios run per forked process
    scenarios(tier) -> iterable of JSON-able scenarios
    run(scn, tmp)   -> dict(viols=[str], out=<JSON-able outcome>, n=<executions of the real code>,
                            states=..., transitions=... )
    """
    name = '?'
    batch = 1
    bounds = ''

    def scenarios(self, tier):
        raise NotImplementedError

    def run(self, scn, tmp):
        raise NotImplementedError

    def run_many(self, scns, tmp):
        return [self.run(s, tmp) for s in scns]


def raised_by_code(e):
    if isinstance(e, OSError) and e.errno in (12, 28):
        return False
    tb = e.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(os.path.realpath(os.path.join(REPO, 'pdf2docx')) + os.sep):
            return True
        tb = tb.tb_next
    return False


class Fail(Exception):
    """raised inside run(): the property does not hold"""


def res(viols=(), out=None, n=1, transitions=None, states=None):
    return {'viols': list(viols), 'out': out, 'n': n,
            'transitions': n if transitions is None else transitions, 'states': states}


# ---------------------------------------------------------------- running in forked processes
def _child(fam, scns, wfd, tmproot):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    tmp = tempfile.mkdtemp(prefix='s', dir=tmproot)
    os.chdir(tmp)
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        try:
            rs = fam.run_many(scns, tmp)
        except Fail as e:
            rs = [res([str(e)])] if len(scns) == 1 else None
        except MemoryError:
            rs = [{'error': 'out of memory'}] if len(scns) == 1 else None
        except Exception as e:
            tb = traceback.format_exc()
            # an exception of the harness' own making must never pass for a violation; one that
            # passed through the code under test (and no fault was injected here) does
            if raised_by_code(e):
                rs = [res([f'the code raised {type(e).__name__}: {e}'])] if len(scns) == 1 else None
            else:
                rs = [{'error': tb}] if len(scns) == 1 else None
        data = json.dumps(rs).encode()
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os.close(wfd)
    os._exit(0)


class Job:
    def __init__(self, fam, idxs, scns, tmproot, timeout):
        self.fam, self.idxs, self.scns = fam, idxs, scns
        r, w = os.pipe()
        self.t0 = time.time()
        self.deadline = self.t0 + timeout
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            try:
                _child(fam, scns, w, tmproot)
            finally:
                os._exit(9)
        try:
            os.setpgid(self.pid, self.pid)
        except OSError:
            pass
        os.close(w)
        self.fd, self.buf, self.timed_out = r, b'', False

    def kill(self):
        self.timed_out = True
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def finish(self):
        """-> list of results, or a string saying how the process ended"""
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        try:
            os.killpg(self.pid, signal.SIGKILL)   # whatever it left running
        except (ProcessLookupError, PermissionError):
            pass
        if self.timed_out:
            return 'did not terminate'
        if os.WIFSIGNALED(st):
            return f'process killed by signal {os.WTERMSIG(st)}'
        if os.WEXITSTATUS(st) != 0:
            return f'process ended with exit code {os.WEXITSTATUS(st)}'
        try:
            return json.loads(self.buf)
        except ValueError:
            return 'no result'


def run_alone(fam, scn, tmproot, timeout=SCN_TIMEOUT):
    j = Job(fam, [0], [scn], tmproot, timeout)
    while True:
        left = j.deadline - time.time()
        if left <= 0:
            j.kill()
            left = 5
        r, _, _ = select.select([j.fd], [], [], max(left, 0.1))
        if r:
            d = os.read(j.fd, 1 << 16)
            if not d:
                break
            j.buf += d
    out = j.finish()
    if isinstance(out, list) and out:
        return out[0]
    if isinstance(out, str):
        return res([f'the run itself failed: {out}'])
    return {'error': 'no result'}


# ---------------------------------------------------------------- known findings
def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


class Explorer:
    def __init__(self, prop, families, level, tier, seed, budget, jobs=None):
        self.prop, self.families, self.level, self.tier, self.seed = prop, families, level, tier, seed
        self.budget = budget
        self.jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
        self.tmproot = tempfile.mkdtemp(prefix=f'mc-{prop}-')
        self.t0 = time.time()
        self.stats, self.violations, self.known, self.errors = {}, [], [], []
        self.findings = [f for f in load_findings() if f.get('property') == prop and not f.get('fixed')]

    def known_of(self, fam, scn):
        for f in self.findings:
            if f.get('family') == fam.name and canon(f.get('scenario')) == canon(scn):
                return f
        return None

    def explore(self):
        try:
            for fam in self.families:
                if len(self.violations) >= MAX_VIOLATIONS:
                    break
                self._family(fam)
        finally:
            shutil.rmtree(self.tmproot, ignore_errors=True)

    def _family(self, fam):
        st = {'bounds': fam.bounds, 'scenarios': 0, 'executions': 0, 'transitions': 0, 'states': 0,
              'outcomes': set(), 'samples': [], 'capped': False, 'n_known': 0}
        self.stats[fam.name] = st
        it = enumerate(fam.scenarios(self.tier))
        running, exhausted = {}, False
        t_fam = time.time()

        def more():
            idxs, scns = [], []
            for i, s in it:
                idxs.append(i)
                scns.append(s)
                if len(scns) >= fam.batch:
                    break
            return idxs, scns

        while True:
            while not exhausted and len(running) < self.jobs:
                if len(self.violations) >= MAX_VIOLATIONS:
                    exhausted = True
                    st['capped'] = True
                    break
                if time.time() - self.t0 > self.budget:
                    exhausted = True
                    if next(it, None) is not None:
                        st['capped'] = True
                    break
                idxs, scns = more()
                if not scns:
                    exhausted = True
                    break
                j = Job(fam, idxs, scns, self.tmproot, SCN_TIMEOUT)
                running[j.fd] = j
            if not running:
                break
            r, _, _ = select.select(list(running), [], [], 1.0)
            for fd in r:
                j = running[fd]
                d = os.read(fd, 1 << 16)
                if d:
                    j.buf += d
                    continue
                del running[fd]
                self._done(fam, st, j)
            now = time.time()
            for j in running.values():
                if now > j.deadline and not j.timed_out:
                    j.kill()
        st['wall_s'] = round(time.time() - t_fam, 2)

    def _done(self, fam, st, j):
        out = j.finish()
        if not isinstance(out, list) or len(out) != len(j.scns):
            # something went wrong in the process: look at each scenario alone
            out = [run_alone(fam, s, self.tmproot) for s in j.scns]
        for s, r in zip(j.scns, out):
            st['scenarios'] += 1
            if 'error' in r:
                self.errors.append((fam.name, s, r['error']))
                continue
            st['executions'] += r['n']
            st['transitions'] += r['transitions']
            if r.get('states'):
                st['states'] += r['states']
            st['outcomes'].add(digest(r['out']))
            if len(st['samples']) < 2:
                st['samples'].append({'scenario': s, 'outcome': r['out']})
            if r['viols']:
                self._violation(fam, st, s, r)

    def _violation(self, fam, st, scn, r):
        if len(self.violations) >= MAX_VIOLATIONS:
            return
        again = run_alone(fam, scn, self.tmproot)
        if 'error' in again:
            self.errors.append((fam.name, scn, again['error']))
            return
        if not again['viols']:
            again = run_alone(fam, scn, self.tmproot)
        if not again.get('viols'):
            st.setdefault('unstable', []).append(scn)
            print(f'note: {self.prop} {fam.name}: a failure did not repeat when replayed alone, not reported: '
                  f'{canon(scn)[:300]} {r["viols"][:1]}', flush=True)
            return
        f = self.known_of(fam, scn)
        if f and (not f.get('match') or all(f['match'] in v for v in again['viols'])):
            st['n_known'] += 1
            self.known.append((f, scn))
            print(f'KNOWN-FINDING: property={self.prop} {f["what"]}', flush=True)
            return
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.prop}-{fam.name}-{digest(scn)}.json')
        with open(path, 'w') as fh:
            json.dump({'property': self.prop, 'family': fam.name, 'scenario': scn,
                       'violations': again['viols'],
                       'replay': f'/opt/venv/bin/python run.py {self.prop} --replay {path}'}, fh, indent=1)
        self.violations.append((fam.name, scn, again['viols'], path))
        print(f'VIOLATION property={self.prop} replay={path}', flush=True)
        for v in again['viols'][:3]:
            print(f'  {fam.name}: {str(v)[:600]}', flush=True)

    # ------------------------------------------------------------ evidence
    def evidence(self):
        fams, samples = {}, []
        tot = {'scenarios': 0, 'executions': 0, 'transitions': 0, 'states': 0, 'outcomes': 0}
        capped = []
        for n, s in self.stats.items():
            fams[n] = {'bounds': s['bounds'], 'scenarios': s['scenarios'], 'executions': s['executions'],
                       'transitions': s['transitions'], 'distinct_outcomes': len(s['outcomes']),
                       'exhausted': not s['capped'], 'known_findings': s['n_known'], 'wall_s': s.get('wall_s')}
            if s['states']:
                fams[n]['states'] = s['states']
            if s.get('unstable'):
                fams[n]['not_repeatable'] = s['unstable'][:3]
            samples += [{'family': n, **x} for x in s['samples'][:1]]
            tot['scenarios'] += s['scenarios']
            tot['executions'] += s['executions']
            tot['transitions'] += s['transitions']
            tot['states'] += s['states'] or s['scenarios']
            tot['outcomes'] += len(s['outcomes'])
            if s['capped']:
                capped.append(n)
        if self.level == 'model_checking':
            cov = {'states': tot['states'], 'transitions': tot['transitions'],
                   'traces_validated_against_impl': tot['executions'], 'samples': samples[:6]}
        else:
            cov = {'evaluations': tot['executions'], 'distinct_nontrivial': tot['outcomes'],
                   'rule': 'every point of the enumerated space is executed on the real code; distinct_nontrivial '
                           'counts different observed outcomes', 'samples': samples[:6]}
        cov.update({'distinct_outcomes': tot['outcomes'], 'exhaustive_within_bounds': not capped,
                    'capped_families': capped, 'families': fams,
                    'violations': len(self.violations), 'known_findings_seen': len(self.known),
                    'harness_errors': len(self.errors)})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        return ev


def main(registry):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--list', action='store_true', help='only count the scenarios')
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    fams, level = registry(a.prop)
    if a.family:
        fams = [f for f in fams if f.name == a.family]
    if a.list:
        for f in fams:
            print(a.prop, f.name, sum(1 for _ in f.scenarios(tier)))
        return 0
    if a.replay:
        with open(a.replay) as fh:
            d = json.load(fh)
        fam = next(f for f in fams if f.name == d['family'])
        tmp = tempfile.mkdtemp(prefix='mc-replay-')
        try:
            r = run_alone(fam, d['scenario'], tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print(json.dumps(r, indent=1)[:20000])
        if 'error' in r:
            return 2
        if r['viols']:
            print(f'VIOLATION property={a.prop} replay={a.replay}')
            return 1
        return 0
    budget = a.budget or (420.0 if tier == 'quick' else 7200.0)
    ex = Explorer(a.prop, fams, level, tier, seed, budget)
    ex.explore()
    ev = ex.evidence()
    c = ev['coverage']
    for n, f in c['families'].items():
        print(f'{a.prop} {n}: {f["scenarios"]} scenarios, {f["executions"]} executions, '
              f'{f["distinct_outcomes"]} distinct outcomes, exhausted={f["exhausted"]}, {f["wall_s"]} s')
    if ex.violations:
        return 1
    if ex.errors:
        for n, s, e in ex.errors[:3]:
            print(f'HARNESS ERROR in {n}: {canon(s)[:400]}\n{e}', file=sys.stderr)
        print(f'{len(ex.errors)} harness errors', file=sys.stderr)
        return 2
    print(f'{a.prop}: held on everything explored ({ev["wall_s"]} s)')
    return 0
