"""C19: the C interface under a checking allocator, AddressSanitizer, ThreadSanitizer and Miri.

The driver (capi/) uses only the exported symbols. It runs as four builds; each must be silent, and the driver's own oracle
(what every callback was given, how often, what is held at the end) must hold in each.
usage: capi.py C19 [quick|thorough] [--replay SEED:CASE]
"""
import json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(ROOT, 'capi')
TRIPLE = 'x86_64-unknown-linux-gnu'


class Broken(Exception):
    pass


def content():
    return subprocess.run("cd /repo && find src build.rs Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum", shell=True, stdout=subprocess.PIPE, check=True).stdout.decode()


class Mode:
    """name; cases per run of the driver; runs, in the quick and the thorough tier"""
    def __init__(self, name, scale, quick, thorough):
        self.name, self.scale, self.n = name, scale, {'quick': quick, 'thorough': thorough}
        self.env = dict(os.environ, CARGO_NET_OFFLINE='true')

    def fresh(self, base):
        self.target = os.path.join(base, 'capi-' + self.name)
        os.makedirs(self.target, exist_ok=True)
        self.env['CARGO_TARGET_DIR'] = self.target
        self.stamp = os.path.join(self.target, 'hyperbee.sha256')
        h = content()
        if not os.path.exists(self.stamp) or open(self.stamp).read() != h:
            for d, dirs, _ in os.walk(self.target):
                if os.path.basename(d) == '.fingerprint':
                    for x in dirs:
                        if x.startswith('hyperbee-'):
                            shutil.rmtree(os.path.join(d, x))
                    dirs.clear()
        return h

    def cargo(self, *args):
        p = subprocess.run(['cargo', *args], cwd=CRATE, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode(errors='replace')

    def build(self, base):
        h = self.fresh(base)
        if self.name == 'native':
            args, self.bin = ['build'], 'debug/hbcapi'
        elif self.name == 'asan':
            self.env['RUSTFLAGS'] = '-Zsanitizer=address --cfg plain_alloc'
            self.env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99'
            args, self.bin = ['+nightly', 'build', '--target', TRIPLE], f'{TRIPLE}/debug/hbcapi'
        elif self.name == 'tsan':
            self.env['RUSTFLAGS'] = '-Zsanitizer=thread --cfg plain_alloc'
            self.env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=99'
            args, self.bin = ['+nightly', 'build', '-Zbuild-std', '--target', TRIPLE], f'{TRIPLE}/debug/hbcapi'
        else:
            self.env['XDG_CACHE_HOME'] = os.path.join(self.target, 'cache')
            self.env['MIRIFLAGS'] = '-Zmiri-tree-borrows -Zmiri-disable-isolation'
            rc, out = self.cargo('+nightly', 'miri', 'setup')
            if rc != 0:
                raise Broken(f'no sysroot for Miri:\n{out[-1500:]}')
            # compiles and runs nothing
            rc, out = self.cargo('+nightly', 'miri', 'run', '--quiet', '--locked', '--offline', '--', '1', '0', '0', 'miri')
            if rc != 0:
                raise Broken(f'the driver does not start under Miri:\n{out[-3000:]}')
            open(self.stamp, 'w').write(h)
            return
        rc, out = self.cargo(*args, '--quiet', '--locked', '--offline')
        if rc != 0:
            raise Broken(f'the driver does not build ({self.name}):\n{out[-3000:]}')
        open(self.stamp, 'w').write(h)

    def run(self, seed, start, n):
        """returns (violation or None, counters, last case)"""
        if self.name == 'miri':
            cmd = ['cargo', '+nightly', 'miri', 'run', '--quiet', '--locked', '--offline', '--']
        else:
            cmd = [os.path.join(self.target, self.bin)]
        cmd += [str(seed), str(start), str(n), self.scale]
        try:
            p = subprocess.run(cmd, cwd=CRATE, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=3600)
        except subprocess.TimeoutExpired:
            raise Broken(f'{self.name}: no end within an hour')
        out, err = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
        cases = re.findall(r'^case (\d+)$', out, re.M)
        last = int(cases[-1]) if cases else start
        obs = {}
        m = re.search(r'^summary (\{.*\})$', out, re.M)
        if m:
            obs = json.loads(m.group(1))
        if p.returncode == 0 and m:
            return None, obs, last
        m = re.search(r'^VIOLATED (.*)$', out, re.M)
        if m and 'HARNESS' not in m.group(1):
            why = re.search(r'^panic .*', out, re.M)
            return f'{m.group(1)}{" after " + why.group(0) if why else ""} ({self.name})', obs, last
        if 'HARNESS' in out:
            raise Broken(f'{self.name}: the driver failed: {out[-800:]}')
        if re.search(r'(ERROR|WARNING): (Address|Thread)Sanitizer(?!: (failed to|out of memory|allocator is out))|==ThreadSanitizer:DEADLYSIGNAL|AddressSanitizer:DEADLYSIGNAL', err):
            return f'{self.name}: ' + tidy(err), obs, last
        if self.name == 'miri':
            if 'Undefined Behavior' in err or 'memory leaked' in err or 'deadlock' in err or 'Data race' in err:
                i = err.find('error')
                return 'Miri: ' + tidy(err[max(i, 0):]), obs, last
            # an operation Miri does not know, or no room: says nothing about the code
            raise Broken(f'Miri gave no answer: {err[-1500:]}')
        if p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGILL, -signal.SIGTRAP, -signal.SIGFPE):
            return f'{self.name}: the process died of signal {-p.returncode}: {tidy(err[-1200:])}', obs, last
        raise Broken(f'{self.name}: ended with {p.returncode}: {out[-500:]} {err[-800:]}')


def tidy(s):
    return s[:1800]


MODES = [
    Mode('native', 'full', (4, 60), (8, 2000)),
    Mode('asan', 'asan', (2, 30), (6, 400)),
    Mode('tsan', 'asan', (2, 20), (6, 300)),
    Mode('miri', 'miri', (6, 3), (8, 60)),
]
RULE = ("a case is a seeded session through the exported C symbols only: a runtime, refused paths, one or two trees (with failing or slow "
        "storage or damaged blocks), batches of gets in flight at once from one or more threads, buffers given back in the callback, later, "
        "or after closing; run natively under a checking allocator and under AddressSanitizer, ThreadSanitizer (with an instrumented "
        "standard library) and Miri; the same session is repeated to see that nothing stays held. Non-trivial if its gets called back; "
        "counted by seed, case and build")
REQUIRE = {'native': {'values': 500, 'absent keys': 200, 'empty or absent values': 50, 'errors': 100, 'refused paths': 100,
                      'batches from several threads': 20, 'sessions balanced for memory and files': 50, 'buffers given back after closing': 100, 'gets from within callbacks': 500, 'paths that look alike opened': 10},
           'asan': {'gets': 500, 'errors': 50}, 'tsan': {'gets': 500, 'batches from several threads': 5}, 'miri': {'gets': 15}}


def main():
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    only, want = None, None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ('quick', 'thorough'):
            tier = x
        elif x == '--replay':
            want, s, c = a.pop(0).split(':')
            seed, only = int(s), int(c)
        else:
            raise Broken(f'unknown argument {x}')
    base = os.environ.get('HBMON_TARGET') or os.path.join(ROOT, 'target')
    ev = os.environ.get('HBMON_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(ev, 'replays'), exist_ok=True)
    modes = [m for m in MODES if want in (None, m.name)]
    with ThreadPoolExecutor(4) as ex:
        errs = []
        def build(m):
            try:
                m.build(base)
            except Broken as e:
                errs.append((m, str(e)))
        list(ex.map(build, modes))
    lacking = {}
    for m, e in errs:
        # without Miri or a sanitizer the others still answer; what is missing goes into the evidence
        if m.name == 'native':
            raise Broken(e)
        lacking[m.name] = e[-600:]
    modes = [m for m in modes if m.name not in lacking]
    jobs = []
    for m in modes:
        runs, n = m.n[tier]
        jobs += [(m, i * n, n) for i in range(runs)] if only is None else [(m, only, 1)]
    obs = {m.name: {} for m in modes}
    bad, broken, ran = [], [], {m.name: 0 for m in modes}
    def job(j):
        m, start, n = j
        if bad or broken:
            return
        try:
            v, o, last = m.run(seed, start, n)
        except Broken as e:
            if m.name == 'miri':
                lacking[m.name] = str(e)[-600:]
            else:
                broken.append(e)
            return
        for k, x in o.items():
            obs[m.name][k] = max(obs[m.name].get(k, 0), x) if k.startswith('max') else obs[m.name].get(k, 0) + x
        if v:
            bad.append((m, last, v))
        else:
            ran[m.name] += n
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(job, sorted(jobs, key=lambda j: j[0].name != 'miri')))
    if broken and not bad:
        raise broken[0]
    for m, case, v in bad[:1]:
        p = os.path.join(ev, 'replays', f'C19-{seed}-{m.name}-{case}.json')
        with open(p, 'w') as f:
            json.dump({'property': 'C19', 'seed': seed, 'case': case, 'build': m.name, 'what': v,
                       'replay_cmd': f'tools/check.sh C19 --replay {m.name}:{seed}:{case}'}, f, indent=1)
        print(f'VIOLATION property=C19 replay={p}')
        print('  ' + v)
    total = sum(ran.values())
    if only is None:
        with open(os.path.join(ev, 'C19.json'), 'w') as f:
            json.dump({'property': 'C19', 'tier': tier, 'seed': seed, 'level': 'exploration',
                       'coverage': {'evaluations': total + len(bad), 'distinct_nontrivial': total, 'rule': RULE,
                                    'samples': [f'{m.name}: seed {seed}, cases {list(range(2))}: {json.dumps(obs[m.name])}'[:600] for m in modes],
                                    'observed': obs, 'cases per build': ran, 'without': lacking},
                       'assumptions': ['hypercore and three small crates are stand-ins (see DESIGN.md)',
                                       'Miri judges by tree borrows; the dependencies of hyperbee are taken as they are'],
                       'wall_s': round(time.time() - t0, 1), 'violations': len(bad)}, f, indent=1)
    if bad:
        return 1
    if only is None:
        for m in modes:
            for k, x in REQUIRE[m.name].items():
                if m.name not in lacking and obs[m.name].get(k, 0) < x:
                    raise Broken(f'observed too little: {m.name}: {k}: {obs[m.name].get(k, 0)} < {x}')
    for k, e in lacking.items():
        print(f'C19: without {k}: {e.splitlines()[-1] if e.splitlines() else e}')
    print(f'C19: held on {total} cases, {json.dumps(ran)}')
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print(f'C19: no answer: {e}')
        sys.exit(2)
