#!/usr/bin/env python3
"""Run one runtime-monitoring check:  python3 run.py C05 [--tier quick|thorough] [--seed N] [--replay FILE] [--only MONITOR]

The parent (this file, stdlib only) prepares the environment and a scratch directory, starts shard workers
under the interpreter acoular is installed for, merges what their monitors observed, applies the list of known
findings, rewrites evidence/<id>.json and decides the exit code:
0 held on everything observed / 1 violation (line VIOLATION ...) / 3 inconclusive / 2 harness error.
"""
import argparse
import fcntl
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
VENV = '/opt/venv/bin/python'


def source_key(repo):
    h = hashlib.sha256()
    for f in sorted((repo / 'acoular').rglob('*.py')):
        h.update(str(f.relative_to(repo)).encode())
        h.update(f.read_bytes())
    return h.hexdigest()


def vp_cache_key(repo):
    """The key /opt/vp/env.sh stores for the compiled functions it keeps (only usable when it matches)."""
    try:
        return subprocess.run(
            ['bash', '-c',
             f"{{ find {repo}/acoular -name '*.py' -print0 | sort -z | xargs -0 sha256sum; "
             'ls /opt/venv/lib/python3.12/site-packages; } | sha256sum | cut -d" " -f1'],
            capture_output=True, text=True, timeout=60).stdout.strip()
    except Exception:
        return ''


def numba_cache():
    """A directory of compiled functions private to exactly this source tree, compiled by one process.

    (Numba's cache is not safe against several processes compiling the same functions, so the shards
    only ever get private copies of it.)
    """
    base = HERE / '.cache'
    base.mkdir(exist_ok=True)
    d = base / ('numba-' + source_key(REPO)[:24])
    with open(base / 'lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (d / '.ready').exists():
            for old in sorted(base.glob('numba-*'), key=lambda p: p.stat().st_mtime)[:-6]:
                shutil.rmtree(old, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            d.mkdir()
            vp = Path('/opt/vp/numba-cache')
            try:
                if str(REPO) == '/repo' and (vp / '.sources').read_text().strip() == vp_cache_key(REPO):
                    shutil.copytree(vp, d, dirs_exist_ok=True)
            except OSError:
                pass
            scr = Path(tempfile.mkdtemp(prefix='vf-warm-'))
            try:
                r = subprocess.run([VENV, str(HERE / 'lib' / 'warm.py')], cwd=scr, env=worker_env(scr, d),
                                   capture_output=True, text=True, timeout=400)
                if r.returncode == 0:
                    (d / '.ready').write_text('')
            except subprocess.TimeoutExpired:
                pass
            finally:
                shutil.rmtree(scr, ignore_errors=True)
    os.utime(d)
    return d


def worker_env(scratch, cache, extra=None):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', LC_ALL='C.UTF-8', HOME=str(scratch),
               NUMBA_CACHE_DIR=str(cache), PYTHONPATH=f'{REPO}:{HERE}/lib:{HERE}/checks', VERIF_REPO=str(REPO),
               TMPDIR=str(scratch), NUMBA_NUM_THREADS=os.environ.get('VERIF_NUMBA_THREADS', '2'))
    env.pop('NUMBA_DISABLE_JIT', None)
    env.pop('NUMBA_BOUNDSCHECK', None)
    env.update(extra or {})
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--shards', type=int, default=int(os.environ.get('VERIF_SHARDS', '8')))
    ap.add_argument('--limit', type=float, default=None, help='wall limit in s')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    limit = a.limit or (780 if tier == 'quick' else 6 * 3600)
    scratch = Path(tempfile.mkdtemp(prefix=f'vf-{a.prop}-'))
    cache = numba_cache()
    procs = []
    rc = 2
    try:
        spec = HERE / 'checks' / f'{a.prop.lower()}.py'
        if not spec.exists():
            print('no such check', spec)
            return 2
        nsh = 1 if a.replay else a.shards
        for k in range(nsh):
            wd = scratch / f's{k}'
            wd.mkdir()
            cfg = dict(prop=a.prop, tier=tier, seed=a.seed, shard=k, shards=nsh, replay=a.replay and os.path.abspath(a.replay),
                       only=a.only, out=str(wd / 'out.json'), verbose=a.v)
            (wd / 'cfg.json').write_text(json.dumps(cfg))
            nc = wd / 'nc'
            shutil.copytree(cache, nc)
            env = worker_env(wd, nc)
            procs.append((k, wd, subprocess.Popen(
                [VENV, str(HERE / 'lib' / 'worker.py'), str(wd / 'cfg.json')], cwd=wd, env=env,
                stdout=open(wd / 'stdout', 'w'), stderr=open(wd / 'stderr', 'w'), start_new_session=True)))
        dead = t0 + limit
        res, errs = [], []
        for k, wd, p in procs:
            try:
                p.wait(max(1, dead - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                errs.append(f'shard {k}: wall-clock watchdog')
            f = wd / 'out.json'
            if f.exists():
                res.append(json.loads(f.read_text()))
            if p.returncode != 0:
                cur = (wd / 'current').read_text() if (wd / 'current').exists() else '?'
                tail = (wd / "stderr").read_text()[:1500]
                if p.returncode < 0 and p.returncode != -signal.SIGKILL:
                    # native crash inside the code under test
                    res.append(dict(violations=[dict(mech=f'native-crash:signal{-p.returncode}', msg=cur + '\n' + tail,
                                                     monitor=cur.split('#')[0], index=int((cur.split('#') + ['0'])[1] or 0))],
                                    monitors={}, sigs=[], samples=[], known=[]))
                else:
                    errs.append(f'shard {k}: exit {p.returncode} at {cur}\n{tail}')
            if a.v:
                sys.stdout.write((wd / 'stdout').read_text())
                sys.stderr.write((wd / 'stderr').read_text())
        rc = decide(a, tier, res, errs, t0)
        return rc
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, tier, res, errs, t0):
    known = json.loads((HERE / 'known_findings.json').read_text())['findings']
    known = {k['mechanism']: k for k in known if k['property'] == a.prop and k.get('status') == 'open'}
    mons, sigs, samples, viol = {}, set(), [], []
    rule, assumptions, level = '', [], 'exploration'
    for r in res:
        for m, d in r['monitors'].items():
            t = mons.setdefault(m, dict(cases=0, checks=0, skipped=0, events=0, floor=0, wall_s=0))
            for f in ('cases', 'checks', 'skipped', 'events', 'wall_s'):
                t[f] += d.get(f, 0)
            t['wall_s'] = round(t['wall_s'], 1)
            t['floor'] = max(t['floor'], d.get('floor', 0))
        sigs.update(r['sigs'])
        samples += r['samples']
        viol += r['violations']
        rule = r.get('rule', rule)
        assumptions = r.get('assumptions', assumptions)
    seen_known, new = {}, []
    for v in viol:
        (seen_known.setdefault(v['mech'], v) if v['mech'] in known else new.append(v))
    for m, v in seen_known.items():
        print(f"KNOWN-FINDING: property={a.prop} {known[m]['what']} [{m}]")
    replay_paths = []
    if new:
        rd = HERE / 'evidence' / 'replay'
        rd.mkdir(parents=True, exist_ok=True)
        uniq = {}
        for v in new:
            uniq.setdefault(v['mech'], v)
        for n, (m, v) in enumerate(uniq.items()):
            p = rd / f'{a.prop}-{n}.json'
            p.write_text(json.dumps(dict(prop=a.prop, tier=tier, seed=a.seed, **v), indent=1, default=str))
            replay_paths.append(p)
            print(f'VIOLATION property={a.prop} replay={p}')
            print('   ', v['mech'], '| monitor', v.get('monitor'), 'case', v.get('index'))
            print('   ', str(v['msg'])[:1500].replace('\n', '\n    '))
    starving = [m for m, d in mons.items() if d['checks'] < max(1, d['floor'])] if not (a.replay or a.only) else []
    if not a.replay and not a.only:
        nmon = sum(d['checks'] for d in mons.values())
        step = max(1, len(samples) // 6)
        ev = dict(property=a.prop, tier=tier, seed=a.seed, level=level,
                  coverage=dict(evaluations=sum(d['cases'] for d in mons.values()), distinct_nontrivial=len(sigs), rule=rule,
                                samples=samples[::step][:8], assertions_evaluated=nmon, monitors=mons,
                                known_findings_seen=sorted(seen_known)),
                  assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
        (HERE / 'evidence').mkdir(exist_ok=True)
        (HERE / 'evidence' / f'{a.prop}.json').write_text(json.dumps(ev, indent=1, default=str))
    tot = sum(d['cases'] for d in mons.values())
    print(f'{a.prop} tier={tier} seed={a.seed}: {tot} cases, {sum(d["checks"] for d in mons.values())} assertions, '
          f'{len(sigs)} distinct non-trivial, {len(new)} violations, {len(seen_known)} known, {time.time() - t0:.1f} s')
    if a.v:
        for m, d in mons.items():
            print('   ', m, d)
    if new:
        return 1
    for e in errs:
        print('ERROR', e)
    if errs:
        return 2
    if starving:
        print('INCONCLUSIVE: monitors that observed too little:', starving)
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
