"""C27: what hyperbee does must not depend on the build profile or on which cargo features are enabled.

1. One program (plain/) runs the same seeded histories in builds that differ only in profile and features; what each case
   did and saw (every result, every error text, every block of the log) is compared as a digest per case.
2. The other monitors run again, scaled down, against a release build: their oracles are independent of any build.
usage: configs.py C27 [quick|thorough] [--replay SEED:CASE | --replay CHECK:SEED:CASE]
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILDS = [('dev', ''), ('dev', 'clib,debug'), ('dev', 'ffi'), ('release', ''), ('release', 'ffi,debug')]
# check: percentage of its quick cases
MONITORS = {'C01': 4, 'C02': 5, 'C03': 6, 'C04': 7, 'C05': 8, 'C06': 5, 'C07': 15, 'C09': 8, 'C10': 6, 'C11': 12, 'C12': 10, 'C13': 5,
            'C14': 5, 'C16': 10, 'C17': 10, 'C21': 20, 'C22': 20, 'C26': 10}


class Broken(Exception):
    pass


def sh(cmd):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, check=True).stdout.decode()


def build(base, crate, profile, features):
    """Builds into a directory of its own; goes by /repo's content, not by modification times."""
    target = os.path.join(base, 'cfg-' + '-'.join([crate, profile, features.replace(',', '+') or 'none']))
    os.makedirs(target, exist_ok=True)
    now = sh("cd /repo && find src build.rs Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum")
    stamp = os.path.join(target, 'hyperbee.sha256')
    if not os.path.exists(stamp) or open(stamp).read() != now:
        for d, dirs, _ in os.walk(target):
            if os.path.basename(d) == '.fingerprint':
                for x in dirs:
                    if x.startswith('hyperbee-'):
                        shutil.rmtree(os.path.join(d, x))
                dirs.clear()
    cmd = ['cargo', 'build', '--quiet', '--locked', '--offline', '--manifest-path', os.path.join(ROOT, crate, 'Cargo.toml')]
    cmd += ['--release'] if profile == 'release' else []
    cmd += ['--features', features] if features else []
    p = subprocess.run(cmd, env=dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Broken(f'{crate} does not build ({profile}, features [{features}]):\n{p.stdout.decode(errors="replace")[-3000:]}')
    open(stamp, 'w').write(now)
    return os.path.join(target, 'release' if profile == 'release' else 'debug', 'hbplain' if crate == 'plain' else 'hbmon')


def name(b):
    return f'{b[0]}[{b[1]}]'


def plain(exe, seed, n, case=None):
    """A line per case, or every result of one case."""
    with tempfile.TemporaryDirectory(prefix='hbmon-c27-') as d:
        cmd = [exe, str(seed), str(n), d] + ([] if case is None else [str(case)])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b'').decode(errors='replace').splitlines()
            return lines + ['does not end']
    lines = p.stdout.decode(errors='replace').splitlines()
    if p.returncode != 0:
        lines.append(f'died with {p.returncode}: {p.stderr.decode(errors="replace")[-300:]}')
    return lines


def main():
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    only = which = None
    monitors = dict(MONITORS)
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ('quick', 'thorough'):
            tier = x
        elif x == 'build':
            tier = x
        elif x == '--replay':
            *which, s, c = a.pop(0).split(':')
            which = which[0] if which else None
            seed, only = int(s), int(c)
        else:
            raise Broken(f'unknown argument {x}')
    base = os.environ.get('HBMON_TARGET') or os.path.join(ROOT, 'target')
    ev = os.environ.get('HBMON_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(ev, 'replays'), exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        jobs = [ex.submit(build, base, 'plain', *b) for b in BUILDS] + [ex.submit(build, base, 'harness', 'release', '')]
        exes = [j.result() for j in jobs]
    hbmon = exes.pop()
    if tier == 'build':
        return 0
    bad = None  # (what, replay argument)
    results = cases = 0
    samples = []
    per = 250
    runs = {'quick': 8, 'thorough': 160}[tier]
    if only is not None:
        runs = 1
    if which is None:
        todo = [seed * 1000003 + i for i in range(runs)] if only is None else [seed]
        with ThreadPoolExecutor(8) as ex:
            got = list(ex.map(lambda j: plain(exes[j[1]], j[0], per, only), [(s, b) for s in todo for b in range(len(BUILDS))]))
        for i, s in enumerate(todo):
            outs = got[i * len(BUILDS):(i + 1) * len(BUILDS)]
            for k, o in enumerate(outs[1:], 1):
                if o != outs[0] and bad is None:
                    at = next((j for j, (x, y) in enumerate(zip(o, outs[0])) if x != y), min(len(o), len(outs[0])))
                    line = (o + outs[0])[at] if at < len(o) + len(outs[0]) else ''
                    c = at if only is None else only
                    x, y = (plain(exes[j], s, per, c) for j in (0, k))
                    j = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    show = lambda z: z[j][:300] if j < len(z) else 'nothing more'
                    bad = (f'seed {s}, case {c}, result {j}: {name(BUILDS[0])} gave {show(x)!r}, {name(BUILDS[k])} gave {show(y)!r}', f'{s}:{c}')
            for l in outs[0]:
                m = re.match(r'\d+ [0-9a-f]{16} (\d+)$', l)
                if m:
                    cases += 1
                    results += int(m.group(1))
        samples.append(f'seed {todo[0]}: ' + '; '.join(got[0][:4]))
    ran = {}
    if bad is None and (only is None or which):
        scale = 4 if tier == 'thorough' else 1
        for c, pct in monitors.items():
            if which not in (None, c):
                continue
            with tempfile.TemporaryDirectory(prefix='hbmon-c27-') as d:
                env = dict(os.environ, HBMON_EVIDENCE=d, HBMON_SCALE=str(pct * scale), HBMON_CAP_S='60' if tier == 'quick' else '600', VERIF_SEED=str(seed), VERIF_TIER='quick')
                cmd = [hbmon, c, 'quick'] + (['--replay', f'{seed}:{only}'] if which else [])
                p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            out = p.stdout.decode(errors='replace')
            if p.returncode == 1 or p.returncode < 0:
                m = re.search(r'^VIOLATION .*\n(.*)', out, re.M)
                what = m.group(1).strip() if m else f'the process died with {p.returncode}: {p.stderr.decode(errors="replace")[-300:]}'
                n = re.search(r'case (\d+)', what)
                bad = (f'in a release build the monitor of {c} reports: {what}', f'{c}:{seed}:{n.group(1) if n else 0}')
                break
            m = re.search(r'held on (\d+) cases', out)
            ran[c] = int(m.group(1)) if m else 0
            if p.returncode != 0 and only is None:
                raise Broken(f'{c} in a release build: {out[-500:]}')
    if bad:
        p = os.path.join(ev, 'replays', f'C27-{bad[1].replace(":", "-")}.json')
        with open(p, 'w') as f:
            json.dump({'property': 'C27', 'what': bad[0], 'replay_cmd': f'tools/check.sh C27 --replay {bad[1]}'}, f, indent=1)
        print(f'VIOLATION property=C27 replay={p}')
        print('  ' + bad[0][:1500])
    if only is None:
        with open(os.path.join(ev, 'C27.json'), 'w') as f:
            json.dump({'property': 'C27', 'tier': tier, 'seed': seed, 'level': 'exploration',
                       'coverage': {'evaluations': cases * len(BUILDS) + sum(ran.values()), 'distinct_nontrivial': cases + sum(ran.values()),
                                    'rule': 'a case is a seeded history (puts, deletes, predicates, gets, traversals, sub-trees, failing storage, reopening) run '
                                            'in every build and compared with the first; or a case of another monitor run in a release build. Non-trivial if it '
                                            'compared at least ten results; counted by seed and case',
                                    'samples': samples, 'observed': {'builds': [name(b) for b in BUILDS], 'histories per build': cases,
                                                                     'results compared per build': results, 'cases of other monitors in a release build': ran}},
                       'assumptions': ['hypercore and three small crates are stand-ins, built with the same profile as hyperbee (see DESIGN.md)',
                                       'of the features, every combination that changes what the crate contains is built in one profile or the other, not all in both'],
                       'wall_s': round(time.time() - t0, 1), 'violations': int(bad is not None)}, f, indent=1)
    if bad:
        return 1
    if only is None and (cases < runs * per or results < 100 * cases or min(ran.values()) < 50):
        raise Broken(f'observed too little: {cases} cases, {results} results, {ran}')
    print(f'C27: held on {cases} histories, {results} results in each of {len(BUILDS)} builds; monitors in a release build: {ran}' if only is None else 'held')
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print(f'C27: no answer: {e}')
        sys.exit(2)
