#!/usr/bin/env python3
"""
run.py <ID> [--tier quick|thorough] [--replay FILE] [--sub NAME] [--jobs N]

Decides one property by generated-input search against the code in /repo (working tree).
Exit 0: held on everything explored.  Exit 1: "VIOLATION property=<id> replay=<path>".
Exit 2: the check itself failed (never a statement about /repo).
"""
import argparse
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = '/repo/src'
PYTHON = '/opt/venv/bin/python'
PYVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
ENV = dict(OPENBLAS_CORETYPE='Haswell', NPY_DISABLE_CPU_FEATURES='X86_V4 AVX512_ICL AVX512_SPR',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0',
           LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1')


def reexec():
    """Re-runs this script under the repository's interpreter with a pinned environment."""
    if os.environ.get('VP_STAGE') == '1':
        return
    cache = tempfile.mkdtemp(prefix='vp-pyc-')
    env = dict(os.environ, **ENV)
    env.pop('PYTHONPATH', None)
    env.update(VP_STAGE='1', PYTHONPYCACHEPREFIX=cache, VP_SCRATCH=cache)
    import subprocess
    try:
        p = subprocess.Popen([PYTHON, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env=env)
        try:
            rc = p.wait()
        except KeyboardInterrupt:
            p.kill()
            rc = 2
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)


def load(prop):
    sys.path.insert(0, REPO_SRC)
    sys.path.insert(0, HERE)
    if PYVENV not in sys.path:
        sys.path.append(PYVENV)     # last: only what the repository's interpreter lacks (hypothesis)
    import wai.ma
    where = os.path.realpath(wai.ma.__file__)
    if not where.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError('wai.ma is imported from %s instead of %s' % (where, REPO_SRC))
    from vp import engine
    import vp.props
    vp.props.load(prop)
    return engine


def known_findings(prop):
    out = {}
    with open(os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')) as f:
        for line in f:
            if line.strip():
                d = json.loads(line)
                if d['status'] == 'known' and prop in d['properties']:
                    out[d['key']] = d['what']
    return out


def corpus(prop):
    path = os.path.join(HERE, 'corpus', prop + '.jsonl')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(line) for line in f if line.strip()]


def work(args):
    from vp import engine
    prop, name, tier, seed, shard, shards = args
    s = next(x for x in engine.REGISTRY[prop] if x.name == name)
    try:
        return engine.run_sub(s, tier, seed, shard, shards)
    except BaseException as e:
        return dict(sub=name, shard=shard, evaluations=0, nontrivial=[], trivial={}, labels={}, samples=[],
                    findings={}, failure=None, error='%r\n%s' % (e, traceback.format_exc()), wall=0.0)


def save_replay(prop, name, failure):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, name))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, sub=name, **failure), f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--factor', type=float, default=1.0, help='multiplies the number of cases')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    prop = a.property
    engine = load(prop)
    if prop not in engine.REGISTRY:
        print('unknown property %s' % prop)
        return 2
    subs = [s for s in engine.REGISTRY[prop] if a.sub in (None, s.name)]
    by_name = {s.name: s for s in subs}

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        ctx, msg = engine.run_case(by_name[rep['sub']], rep['case'])
        if msg is None:
            print('replay of %s/%s: holds' % (prop, rep['sub']))
            return 0
        print('replay of %s/%s: %s' % (prop, rep['sub'], msg))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(a.replay)))
        return 1

    if a.factor != 1.0:
        for s in subs:
            s.quick = max(1, int(s.quick * a.factor))
            s.thorough = max(1, int(s.thorough * a.factor))

    results = []
    # 1. Regression corpus: plain replays of shrunk failures, no search
    ncorpus = 0
    for item in corpus(prop):
        s = by_name.get(item['sub'])
        if s is None:
            continue
        ctx, msg = engine.run_case(s, item['case'])
        ncorpus += 1
        r = dict(sub=s.name, evaluations=1, nontrivial=[engine.case_hash(item['case'])], trivial={}, labels={},
                 samples=[], findings={k: 1 for k in ctx.findings}, failure=None, error=None, wall=0.0)
        if msg is not None:
            r['failure'] = dict(case=item['case'], message=msg, replays='case')
        results.append(r)

    # 2. Generated-input search
    tasks = []
    for s in subs:
        shards = max(1, min(8, (s.quick if a.tier == 'quick' else s.thorough) // 20))
        tasks += [(prop, s.name, a.tier, seed, i, shards) for i in range(shards)]
    if a.jobs <= 1:
        results += [work(t) for t in tasks]
    else:
        import multiprocessing
        from concurrent.futures import ProcessPoolExecutor, as_completed
        with ProcessPoolExecutor(min(a.jobs, len(tasks)), mp_context=multiprocessing.get_context('fork')) as ex:
            futs = {ex.submit(work, t): t for t in tasks}
            for f in as_completed(futs):
                try:
                    results.append(f.result())
                except BaseException as e:
                    results.append(dict(sub=futs[f][1], shard=futs[f][4], evaluations=0, nontrivial=[], trivial={},
                                        labels={}, samples=[], findings={}, failure=None,
                                        error='worker died: %r' % e, wall=0.0))
    results.sort(key=lambda r: (r['sub'], r.get('shard', -1)))

    # 3. Report
    errors, failures, findings = [], {}, {}
    per = {s.name: dict(what=s.doc, evaluations=0, distinct_nontrivial=0, trivial={}, labels={}, skipped=0, wall=0.0)
           for s in subs}
    hashes = {s.name: set() for s in subs}
    samples = []
    for r in results:
        p = per[r['sub']]
        p['evaluations'] += r['evaluations']
        p['skipped'] += r.get('skipped', 0)
        p['wall'] = round(max(p['wall'], r['wall']), 2)
        hashes[r['sub']].update(r['nontrivial'])
        for k, d in (('trivial', r['trivial']), ('labels', r['labels'])):
            for n, c in d.items():
                p[k][n] = p[k].get(n, 0) + c
        for k, c in r['findings'].items():
            findings[k] = findings.get(k, 0) + c
        if r['error']:
            errors.append('%s: %s' % (r['sub'], r['error']))
        if r['failure']:
            old = failures.get(r['sub'])
            if old is None or len(json.dumps(r['failure']['case'])) < len(json.dumps(old['case'])):
                failures[r['sub']] = r['failure']
        if r['samples'] and sum(1 for x in samples if x['sub'] == r['sub']) < 2:
            samples.append(dict(sub=r['sub'], case=r['samples'][-1]))
    for n in per:
        per[n]['distinct_nontrivial'] = len(hashes[n])
    known = known_findings(prop)
    for k in list(findings):
        if k not in known:
            errors.append('check accepted finding %r which KNOWN_FINDINGS.jsonl does not list for %s' % (k, prop))
    for k in sorted(known):
        if findings.get(k):
            print('KNOWN-FINDING: property=%s %s: %s (seen on %d generated cases)' % (prop, k, known[k], findings[k]))

    evid = dict(property=prop, tier=a.tier, seed=seed, level='exploration',
                coverage=dict(
                    evaluations=sum(p['evaluations'] for p in per.values()),
                    distinct_nontrivial=sum(p['distinct_nontrivial'] for p in per.values()),
                    rule='Hypothesis draws JSON cases per sub-check (seeded by VERIF_SEED, property, sub-check and '
                         'shard). A case is trivial when the sub-check found nothing to decide on it (reason counted '
                         'under "trivial", e.g. ill-conditioned or degenerate data); distinct by SHA-1 of the case.',
                    samples=samples, sub_checks=per, corpus_replays=ncorpus,
                    known_findings_seen=findings),
                assumptions=['numpy, scipy and scikit-learn as installed are correct where they serve as oracle',
                             'floating-point comparisons use the tolerances stated in DESIGN.md'],
                wall_s=round(time.time() - t0, 2), violations=len(failures))
    if a.sub is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evid, f, indent=1)
    for n in sorted(per):
        p = per[n]
        print('%s/%s: %d cases, %d distinct non-trivial%s%s%s %.1fs' % (
            prop, n, p['evaluations'], p['distinct_nontrivial'],
            ', trivial %r' % p['trivial'] if p['trivial'] else '',
            ', labels %r' % dict(sorted(p['labels'].items())) if p['labels'] else '',
            ', %d skipped' % p['skipped'] if p['skipped'] else '', p['wall']))
    for n in sorted(failures):
        path = save_replay(prop, n, failures[n])
        print('%s/%s violated by %s\n%s' % (prop, n, json.dumps(failures[n]['case'])[:1500], failures[n]['message']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for e in errors:
        print('CHECK ERROR ' + e[:4000])
    print('%s %s: %s in %.1fs' % (prop, a.tier, 'VIOLATED' if failures else 'held' if not errors else 'ERROR',
                                 time.time() - t0))
    return 1 if failures else 2 if errors else 0


if __name__ == '__main__':
    reexec()
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
