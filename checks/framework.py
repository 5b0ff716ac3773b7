"""Running a check: cases, findings, known findings, evidence, verdict.

A check module defines
    ID, TITLE, RULE       identification and the rule it applies, in words
    cases(tier)           list of case keys (tuples of strings / numbers)
    run(case, env)        analyses one case, recording obligations and findings in env
    FLOOR                 fewest obligations a complete run generates (confirmed by hand on today's tree)
    self_test(env)        optional: a tiny program on which the rule must fire
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from engine.interp import AnalysisError, Interp
from engine.scen import Driver
from checks.api import Bench, MissingAnchor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VERIF_SRC', '/repo/src')
CASE_SECONDS = int(os.environ.get('VERIF_CASE_SECONDS', '150'))


class Timeout(Exception):
    pass


class Env:
    """what one case may use and what it reports"""

    def __init__(self, D):
        self.D = D
        self.I = D.I
        self.B = Bench(D)
        self.begin(None)

    def begin(self, case):
        self.case = case
        self.obligations = 0
        self.undecided = 0
        self.findings = []
        self.samples = []
        self.counts = {}
        self.I.notes = set()
        self.I.analysed_fns = set()
        self.I.unknown_ext = {}

    def ok(self, n=1, what=None):
        """an obligation was examined (and, unless a finding follows, discharged)"""
        self.obligations += n
        if what:
            self.counts[what] = self.counts.get(what, 0) + n

    def skip(self, why):
        """an obligation could not be decided (never a report)"""
        self.undecided += 1
        self.counts['undecided: ' + why] = self.counts.get('undecided: ' + why, 0) + 1

    def find(self, rule, construct, message, where=None, path=None):
        key = '%s|%s' % (rule, construct)
        for f in self.findings:
            if f['key'] == key:
                return
        self.findings.append({'key': key, 'rule': rule, 'construct': construct, 'message': message,
                              'where': where or '', 'path': list(path or []), 'case': repr(self.case)})

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)


_env = None
_mod = None


def _alarm(sig, frm):
    raise Timeout()


def _work(case):
    env = _env
    env.begin(case)
    t = time.time()
    err = None
    status = 'done'
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        env.B.reset()
        _mod.run(case, env)
    except Timeout:
        status = 'timeout'
    except MissingAnchor as e:
        status = 'anchor'
        err = str(e)
    except AnalysisError as e:
        status = 'budget' if 'budget' in str(e) else 'error'
        err = str(e)
    except Exception:
        status = 'error'
        err = traceback.format_exc()
    finally:
        signal.alarm(0)
    env.I.stack[1:] = []
    return {'case': case, 'status': status, 'err': err, 'obligations': env.obligations, 'undecided': env.undecided,
            'findings': env.findings, 'samples': env.samples, 'counts': env.counts, 'notes': sorted(env.I.notes),
            'fns': env.I.analysed_fns, 'ext': dict(env.I.unknown_ext), 'wall': time.time() - t}


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def run_check(cid, tier='quick', jobs=None, verbose=False, only=None):
    global _env, _mod
    t0 = time.time()
    _mod = importlib.import_module('checks.' + cid)
    try:
        D = Driver(SRC)
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (cid, e))
        return 2
    _env = Env(D)
    broken = []
    if hasattr(_mod, 'self_test'):
        try:
            _env.begin('self test')
            _mod.self_test(_env)
        except Exception:
            broken.append('self test: ' + traceback.format_exc())
    try:
        cases = _mod.cases(tier, _env)
    except MissingAnchor as e:
        print('ANALYSIS-BROKEN property=%s anchor vanished: %s' % (cid, e))
        return 2
    if only:
        cases = [c for c in cases if only in repr(c)]
    cost = getattr(_mod, 'cost', lambda c: 0)
    order = sorted(range(len(cases)), key=lambda i: -cost(cases[i]))
    results = []
    jobs = jobs or min(8, os.cpu_count() or 1)
    if jobs == 1 or len(cases) == 1:
        for i in order:
            results.append(_work(cases[i]))
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(jobs, maxtasksperchild=40) as pool:
            for r in pool.imap_unordered(_work, [cases[i] for i in order], chunksize=1):
                results.append(r)
    results.sort(key=lambda r: repr(r['case']))

    findings = {}
    for r in results:
        for f in r['findings']:
            findings.setdefault(f['key'], f)
        if r['status'] == 'anchor':
            broken.append('%s: %s: %s' % (r['case'], r['status'], r['err']))
    errors = ['%s: %s' % (r['case'], r['err']) for r in results if r['status'] == 'error']
    if len(errors) * 5 > len(results):
        broken.extend(errors)
    if hasattr(_mod, 'post'):
        for f in _mod.post(results, _env):
            findings.setdefault(f['key'], f)
    obligations = sum(r['obligations'] for r in results)
    timeouts = [repr(r['case']) for r in results if r['status'] in ('timeout', 'budget')]
    floor = getattr(_mod, 'FLOOR', 1)
    if not only and obligations < floor and not timeouts:
        broken.append('only %d obligations were generated, expected at least %d' % (obligations, floor))

    known = {k['key']: k for k in load_known() if k['property'] == cid and k.get('status') == 'known'}
    new = [f for k, f in sorted(findings.items()) if k not in known]
    seen = [k for k in sorted(known) if k in findings]

    counts, fns, notes, ext, samples = {}, set(), set(), {}, []
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        fns |= r['fns']
        notes |= set(r['notes'])
        ext.update(r['ext'])
        samples.extend(r['samples'])
    step = max(1, len(samples) // 6)
    wall = time.time() - t0
    ev = {
        'property': cid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source under %s by abstract interpretation (the program '
                           'is parsed, never executed). Rule: %s Each case fixes an entry point and a region of '
                           'arguments; an obligation is one rule instance examined on every abstract path of the '
                           'case.' % (SRC, _mod.RULE),
            'cases': len(results), 'obligations': obligations,
            'discharged': obligations - sum(len(r['findings']) for r in results),
            'undecided': sum(r['undecided'] for r in results),
            'findings': len(findings), 'known_findings': len(seen),
            'modules_analysed': len(D.I.trees), 'functions_interpreted': len(fns),
            'obligation_kinds': counts, 'samples': samples[::step][:6],
            'functions': sorted(fns)[:400],
            'not_followed': sorted(notes)[:40], 'unmodelled_library_symbols': ext,
            'cases_cut_by_time': timeouts, 'cases_not_analysed': errors[:20],
        },
        'assumptions': getattr(_mod, 'ASSUMPTIONS', []) + [
            'library routines (numpy, scipy, sklearn) behave as their models in engine/lib.py and engine/npmodel.py '
            'state: which arguments they read, whether they write or alias them, and the shape of their result',
            'constructs the analysis cannot follow make the values they produce unknown, and unknown values are '
            'never reported'],
        'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', cid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')

    print('%s: %s' % (cid, _mod.TITLE))
    print('  cases %d, obligations %d, undecided %d, functions interpreted %d, modules %d, %.1f s' % (
        len(results), obligations, ev['coverage']['undecided'], len(fns), len(D.I.trees), wall))
    for k, v in sorted(counts.items()):
        print('    %-60s %d' % (k, v))
    if verbose:
        for n in sorted(notes):
            print('  note:', n)
        for r in sorted(results, key=lambda r: -r['wall'])[:5]:
            print('  slow: %s %.1f s' % (r['case'], r['wall']))
    for e in errors[:5]:
        print('  not analysed: %s' % e)
    if timeouts:
        print('  not completed in time: %s' % ', '.join(timeouts[:5]))
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (cid, known[k]['what']))
    if new:
        for f in new:
            h = hashlib.sha1(f['key'].encode()).hexdigest()[:10]
            path = os.path.join(HERE, 'evidence', 'replay', '%s-%s.json' % (cid, h))
            with open(path, 'w') as fh:
                json.dump(dict(f, property=cid, rerun='python3 check.py %s' % cid), fh, indent=1, sort_keys=True)
            print('  %s\n    rule: %s\n    construct: %s\n    at: %s\n    path: %s\n    case: %s' % (
                f['message'], f['rule'], f['construct'], f['where'], ' > '.join(f['path']), f['case']))
            print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    if broken:
        for b in broken[:10]:
            print('ANALYSIS-BROKEN property=%s %s' % (cid, b))
        return 2
    return 0
