"""C20: the generated Python bindings against the Rust interface.

Each case is a seeded file of operations, run once through the Python module that uniffi generates from /repo and once
through the Rust interface (ffi/src/apply.rs); printed results and the log on disk must be equal. Concurrent cases record
the history of many Python tasks (and threads) on one tree and check it against the log that is left.
usage: bindings.py C20 [quick|thorough] [--replay SEED:CASE]
"""
import asyncio, concurrent.futures, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


# ---------------------------------------------------------------- the Python side (runs in its own process)
def data(s):
    if s.startswith('@'):
        n, b = s[1:].split(':')
        return bytes([int(b, 16)]) * int(n)
    assert s.startswith('x')
    return bytes.fromhex(s[1:])


def opt(x):
    return '-' if x is None else str(x)


class Stuck(threading.Thread):
    """Ends the process with code 77 when, for 60 seconds in which this thread does run, the process uses no CPU."""
    def __init__(self):
        super().__init__(daemon=True)
        self.start()

    def run(self):
        idle, last = 0, time.process_time()
        while True:
            time.sleep(1)
            now = time.process_time()
            idle = idle + 1 if now - last < 0.01 else 0
            last = now
            if idle >= 60:
                os._exit(77)


def driver(mod, ops, where):
    sys.path.insert(0, mod)
    import hyperbee as m
    Stuck()
    errors = m.HyperbeeError.HypercoreError.__mro__[1]
    s = {'hb': None, 'subs': {}}

    async def one(w, l):
        if w[0] == 'open':
            s['subs'] = {}
            s['hb'] = None
            if where == 'ram':
                s['hb'] = await m.hyperbee_from_ram()
            else:
                s['hb'] = await m.hyperbee_from_storage_dir(where + '/' + data(w[1]).decode() if len(w) > 1 else where)
            return 'ok'
        if w[0] == 'faults':
            with open(os.path.join(where, 'faults'), 'w') as f:
                f.write(l[7:].replace(';', '\n'))
            return 'ok'
        if w[0] == 'flip':
            s['subs'] = {}
            s['hb'] = None
            p = os.path.join(where, 'data')
            d = bytearray(open(p, 'rb').read())
            if d:
                d[int(w[1]) % len(d)] ^= int(w[2])
            with open(p, 'wb') as f:
                f.write(d)
            return 'ok'
        if s['hb'] is None:
            return 'no tree'
        if w[0] == 'sub':
            c = m.default_sub_config() if w[3] == 'default' else m.PrefixedConfig(data(w[3]))
            s['subs'][w[1]] = await s['hb'].sub(data(w[2]), c)
            return 'ok'
        if w[0] == 'version':
            return f"ok {await s['hb'].version()}"
        if w[0] == 'forget':
            # the tree object goes away and comes back as a second handle later; sub-trees stay
            return 'ok'
        t = s['subs'].get(w[1], s['hb'])
        k = data(w[2])
        if w[0] == 'put':
            v = None if w[3] == '-' else data(w[3])
            r = await t.put(k, v)
            return f'ok {opt(r.old_seq)} {r.new_seq}'
        if w[0] == 'del':
            return f'ok {opt(await t.delete(k))}'
        if w[0] == 'get':
            r = await t.get(k)
            if r is None:
                return 'ok absent'
            return f"ok {r.seq} {'-' if r.value is None else 'x' + bytes(r.value).hex()}"
        raise SystemExit(f'unknown operation {w[0]}')

    async def main():
        for l in open(ops).read().split('\n'):
            if not l:
                continue
            try:
                r = await one(l.split(' '), l)
            except errors as e:
                r = 'error'
            except m.InternalError as e:
                r = 'panic'
            except Exception as e:
                r = f'exception {type(e).__name__}: {e}'
            print(r)
        s.clear()

    print('separator', bytes(list(vars(m.default_sub_config()).values())[0]).hex())
    asyncio.run(main())
    sys.stdout.flush()


def fds():
    return len(os.listdir('/proc/self/fd'))


def conc(mod, seed, where):
    """Many tasks, some in other threads, some cancelled, on one tree and its sub-trees; prints the history."""
    sys.path.insert(0, mod)
    import hyperbee as m
    Stuck()
    rng = random.Random(seed)
    threads = rng.choice([1, 1, 2, 3])
    tasks = rng.choice([2, 4, 8, 16])
    cancel = rng.random() < 0.3
    with open(os.path.join(where, 'faults'), 'w') as f:
        f.write(f'suspend {rng.choice([0, 1, 2])}\n')
    hist, lock = [], threading.Lock()
    errors = m.HyperbeeError.HypercoreError.__mro__[1]
    small = rng.random() < 0.5
    keys = [f'{i:02}'.encode() for i in range(5 if small else 60)]

    async def task(hb, sub, rng, name):
        for i in range(12):
            k = rng.choice(keys)
            t, full = (hb, k) if rng.random() < 0.7 else (sub, b's\0' + k)
            what = rng.choice(['put', 'put', 'get', 'del'])
            v = rng.choice([None, b'', b'v']) if rng.random() < 0.2 else f'{name}.{i}'.encode()
            e = {'op': what, 'key': full.hex(), 'value': None if v is None else v.hex(), 'end': 'open'}
            with lock:
                hist.append(e)
            try:
                if what == 'put':
                    r = await t.put(k, v)
                    e.update(end='ok', old=r.old_seq, new=r.new_seq)
                elif what == 'del':
                    e.update(end='ok', old=await t.delete(k))
                else:
                    r = await t.get(k)
                    e.update(end='ok', got=None if r is None else [r.seq, None if r.value is None else bytes(r.value).hex()])
            except errors as x:
                e.update(end='error', what=str(x))
            except m.InternalError as x:
                e.update(end='panic', what=str(x))

    async def loop(hb, sub, rng, name):
        ts = [asyncio.ensure_future(task(hb, sub, random.Random(rng.random()), f'{name}.{i}')) for i in range(tasks)]
        if cancel:
            for t in ts:
                if rng.random() < 0.5:
                    for _ in range(rng.randrange(6)):
                        await asyncio.sleep(0)
                    t.cancel()
        await asyncio.gather(*ts, return_exceptions=True)

    async def main():
        hb = await m.hyperbee_from_storage_dir(where)
        sub = await hb.sub(b's', m.default_sub_config())
        ths = [threading.Thread(target=lambda n=n, s=rng.random(): asyncio.run(loop(hb, sub, random.Random(s), f't{n}'))) for n in range(1, threads)]
        for t in ths:
            t.start()
        await loop(hb, sub, rng, 't0')
        while any(t.is_alive() for t in ths):
            await asyncio.sleep(0.005)
        final = {}
        for k in keys:
            for t, full in ((hb, k), (sub, b's\0' + k)):
                r = await t.get(k)
                final[full.hex()] = None if r is None else [r.seq, None if r.value is None else bytes(r.value).hex()]
        return final, await hb.version()

    final, version = asyncio.run(main())

    # opening and closing releases the storage
    async def cycle(n):
        for i in range(n):
            hb = await m.hyperbee_from_storage_dir(where)
            s = await hb.sub(b's', m.default_sub_config())
            await s.get(b'1')
            await hb.get(b'1')
    import gc
    asyncio.run(cycle(3)); gc.collect()
    a = fds()
    asyncio.run(cycle(40)); gc.collect()
    print(json.dumps({'history': hist, 'final': final, 'version': version, 'fds': [a, fds()], 'threads': threads, 'tasks': tasks, 'cancel': cancel}))
    sys.stdout.flush()


# ---------------------------------------------------------------- cases
def blob(rng, long):
    k = rng.randrange(10)
    if k < 5:
        return 'x' + bytes(rng.choice([0, 1, 0x61, 0x62, 0x7f, 0x80, 0xfe, 0xff]) for _ in range(rng.randrange(4))).hex()
    if k < 8:
        return 'x' + f'{rng.randrange(200):03}'.encode().hex()
    if k < 9:
        return 'x' + rng.randbytes(rng.randrange(40)).hex()
    return f'@{rng.choice(long)}:{rng.randrange(256):02x}'


NAMES = [' t', 't ', 't', ' ', 'T', 't/', './t', 't//u', 't/../u', '~', '$HOME', '%74', 't\n', '\tt', 'caf\u00e9', 'cafe\u0301', '\U0001f41d', 'a\\b',
         't\0', 'file:t', 'none/of/these', "'t'", '"t"', 'x' * 255, 'x' * 256]


def make_ops(rng):
    """returns operations and whether they can run in memory"""
    ops = ['open']
    ram = rng.random() < 0.2
    pool = [blob(rng, [254, 255, 256, 5000]) for _ in range(rng.choice([4, 15, 60]))]
    subs = []
    n = rng.choice([10, 40, 120])
    for i in range(n):
        r = rng.random()
        if r < 0.06:
            name = f's{rng.randrange(4)}'
            ops.append(f"sub {name} {blob(rng, [300])} {rng.choice(['default', 'default', 'x', 'x00', 'xff', 'x6162'])}")
            subs.append(name)
        elif r < 0.10:
            ops.append('version')
        elif r < 0.12 and not ram:
            ops.append('open')
        elif r < 0.14 and not ram:
            fs = [f'get {rng.randrange(i + 2)}' for _ in range(rng.randrange(4))] + [f'append {rng.randrange(i + 2)}' for _ in range(rng.randrange(3))]
            if rng.random() < 0.3:
                fs.append(f'suspend {rng.randrange(1, 4)}')
            ops.append('faults ' + ';'.join(fs))
        elif r < 0.145 and not ram:
            ops += [f'flip {rng.randrange(100000)} {rng.randrange(1, 256)}', 'open']
        elif r < 0.15 and not ram:
            ops += [f"open x{b'data'.hex()}", 'version', 'open']
        elif r < 0.17 and not ram:
            # every name is its own directory, as it is
            ops.append(f'open x{rng.choice(NAMES).encode().hex()}')
        else:
            t = rng.choice(subs + ['w', 'w']) if subs else 'w'
            k = rng.choice(pool) if rng.random() < 0.9 else blob(rng, [254, 300])
            q = rng.random()
            if q < 0.5:
                v = '-' if rng.random() < 0.15 else 'x' if rng.random() < 0.15 else blob(rng, [1000, 70000, 1000000] if rng.random() < 0.05 else [200, 256, 3000])
                ops.append(f'put {t} {k} {v}')
            else:
                ops.append(f"{'get' if q < 0.8 else 'del'} {t} {k}")
    ops += [f'get w {k}' for k in pool] + ['version']
    return ops, ram


def late_log(rng, pool):
    """A log of one node whose blocks come after very many absent ones, so its sequence numbers are huge: (data, gap file)."""
    def varint(x):
        out = bytearray()
        while x >= 0x80:
            out.append(x & 0x7f | 0x80)
            x >>= 7
        return bytes(out) + bytes([x])

    def field(n, b):
        return bytes([n << 3 | 2]) + varint(len(b)) + b

    gap = rng.choice([1 << 7, 1 << 16, (1 << 31) - 2, 1 << 31, (1 << 32) - 2, 1 << 32, 1 << 40, (1 << 53) - 1, 1 << 62])
    keys = sorted({data(x) for x in rng.choices(pool, k=8)})
    index = field(1, field(1, b''.join(varint(gap + 1 + i) for i in range(len(keys)))))
    blocks = [field(1, b'hyperbee')]
    for i, k in enumerate(keys):
        b = field(1, index if i + 1 == len(keys) else b'') + field(2, k)
        if rng.random() < 0.8:
            b += field(3, bytes([i]) * rng.randrange(3))
        blocks.append(b)
    return b''.join(len(b).to_bytes(8, 'little') + b for b in blocks), f'1 {gap}'


class Broken(Exception):
    pass


class Bad(Exception):
    pass


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if p.returncode in (-signal.SIGKILL, -signal.SIGTERM):
        raise Broken(f'{what} was killed')
    return p.returncode, p.stdout.decode(), p.stderr.decode(errors='replace')


def short(s):
    return s if len(s) < 200 else f'{s[:120]}..({len(s)})'


class Case:
    def __init__(self, env, seed, n):
        self.env, self.seed, self.n = env, seed, n
        self.rng = random.Random(f'C20 {seed} {n}')
        self.obs = {}
        self.trace = []
        self.shape = None

    def add(self, k, n=1):
        self.obs[k] = self.obs.get(k, 0) + n

    def go(self):
        d = tempfile.mkdtemp(prefix='hbmon-c20-')
        try:
            self.concurrent(d) if self.n % 4 == 3 else self.differential(d)
            return None
        except Bad as e:
            return str(e)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def python(self, *a):
        rc, out, err = run([sys.executable, os.path.abspath(__file__), *a], 'the Python side')
        if rc == 77:
            raise Bad('the bindings stopped: operations outstanding, no activity for a minute')
        if rc < 0:
            raise Bad(f'the process using the bindings died of signal {-rc}: {short(err[-500:])}')
        if rc != 0:
            if 'hyperbee.py' in err:
                raise Bad(f'the bindings failed: {err[-600:]}')
            raise Broken(f'the Python driver failed ({rc}): {err[-800:]}')
        return out

    def differential(self, d):
        ops, ram = make_ops(self.rng)
        self.shape = '\n'.join(ops)
        f = os.path.join(d, 'ops')
        with open(f, 'w') as o:
            o.write('\n'.join(ops) + '\n')
        r, p = os.path.join(d, 'r'), os.path.join(d, 'p')
        os.mkdir(r), os.mkdir(p)
        if not ram and self.rng.random() < 0.1:
            log, gap = late_log(self.rng, [o.split(' ')[2] for o in ops if o.startswith('get w ')])
            for q in (r, p):
                with open(os.path.join(q, 'data'), 'wb') as o:
                    o.write(log)
                with open(os.path.join(q, 'gap'), 'w') as o:
                    o.write(gap)
            self.add('logs with huge sequence numbers')
        rc, rust, err = run([self.env['apply'], f, r], 'the Rust side')
        if rc != 0:
            raise Broken(f'the Rust side failed ({rc}): {err[-800:]}')
        out = self.python('--driver', self.env['mod'], f, 'ram' if ram else p).split('\n')
        if out[0] != 'separator 00':
            raise Bad(f'the default configuration of a sub-tree is not one zero byte: {out[0]}')
        out, rust = out[1:], rust.split('\n')
        for i, o in enumerate(ops):
            a, b = rust[i] if i < len(rust) else 'nothing', out[i] if i < len(out) else 'nothing'
            self.trace.append(f'{short(o)}: rust {short(a)}; python {short(b)}')
            if a != b:
                raise Bad(f'operation {i} ({short(o)}): Rust says {short(a)}, Python says {short(b)}{" (in memory)" if ram else ""}')
            self.add('operations compared')
            w = o.split(' ')[0]
            if o.startswith('open x') and a == 'ok':
                self.add('trees opened by name')
            if a == 'error':
                self.add('errors raised on both sides')
            elif w == 'get' and a.startswith('ok') and a != 'ok absent':
                self.add('values read')
                if a.endswith(' -'):
                    self.add('absent values read')
                elif a.endswith(' x'):
                    self.add('empty values read')
            elif w == 'del' and a.startswith('ok') and a != 'ok -':
                self.add('deletes that hit')
            if len(o.split(' ')) > 2 and o.split(' ')[1].startswith('s') and w != 'sub':
                self.add('operations on sub-trees')
        if not ram:
            x, y = files(r), files(p)
            if x != y:
                raise Bad(f'the files differ: {sizes(x)} from Rust, {sizes(y)} from Python')
            self.add('logs compared', len(x))

    def concurrent(self, d):
        p = os.path.join(d, 'p')
        os.mkdir(p)
        j = json.loads(self.python('--conc', self.env['mod'], f'{self.seed} {self.n}', p))
        h = j['history']
        self.shape = json.dumps([h, j['threads']])
        self.trace = [json.dumps(e) for e in h]
        self.add('concurrent operations', len(h))
        if j['threads'] > 1:
            self.add('histories from several threads')
        for e in h:
            if e['end'] in ('error', 'panic'):
                raise Bad(f'a concurrent operation failed: {e}')
        if any(e['end'] == 'open' for e in h) and not j['cancel']:
            raise Broken('an operation did not end')
        # what the log says happened, in order: replayed by the Rust side, one version at a time, is too slow; the log
        # is a list of records whose key, value and kind the results must agree with
        log = records(os.path.join(p, 'data'))
        if j['version'] != len(log):
            raise Bad(f"version says {j['version']}, the log has {len(log)} blocks")
        if len(log) > 0 and log[0] is not None:
            raise Bad('block 0 is not a header')
        puts, dels = {}, {}
        seen = {}
        for seq, (key, value) in [(i, r) for i, r in enumerate(log) if i > 0]:
            seen.setdefault(key, []).append((seq, value))
        written = {}
        for e in h:
            if e['op'] == 'put' and e['end'] == 'ok':
                if e['new'] in written:
                    raise Bad(f"two puts report sequence number {e['new']}: {e} and {written[e['new']]}")
                written[e['new']] = e
                if e['new'] >= len(log) or e['new'] < 1:
                    raise Bad(f'an acknowledged put is not in the log: {e}')
                if log[e['new']] != (e['key'], e['value'] or ''):
                    raise Bad(f"block {e['new']} holds {log[e['new']]}, the put that reports it is {e}")
        # each entry is replaced by the next put of the key, or removed by a delete, exactly once
        used = {}
        for e in h:
            if e['end'] == 'ok' and e.get('old') is not None:
                if e['old'] in used:
                    raise Bad(f"entry {e['old']} is reported replaced or removed twice: {e} and {used[e['old']]}")
                used[e['old']] = e
                if e['old'] >= len(log) or log[e['old']][0] != e['key']:
                    raise Bad(f"{e} reports an entry of another key as the old one")
        lost = sum(e['end'] == 'open' for e in h)
        n = sum(e['end'] == 'ok' and (e['op'] == 'put' or (e['op'] == 'del' and e['old'] is not None)) for e in h)
        if not (n <= max(len(log) - 1, 0) <= n + lost):
            raise Bad(f'{n} acknowledged and {lost} cancelled mutations, {len(log)} blocks')
        for key, fin in j['final'].items():
            last = seen.get(key, [])
            if fin is not None:
                if not last or last[-1] != (fin[0], fin[1] or ''):
                    raise Bad(f'key {key}: reads {fin} in the end, the last record is {last[-1:]}')
                e = written.get(fin[0])
                if e is not None and e['value'] != fin[1]:
                    raise Bad(f'key {key}: reads {fin} in the end, what was put is {e}')
                if fin[0] in used:
                    raise Bad(f'key {key}: reads {fin} in the end, which was removed by {used[fin[0]]}')
            elif last and lost == 0:
                s = last[-1][0]
                if s in written:
                    raise Bad(f'key {key}: gone in the end, the last record is the put {written[s]}')
        for e in h:
            if e['op'] == 'get' and e['end'] == 'ok' and e['got'] is not None:
                s, v = e['got']
                self.add('concurrent reads that hit')
                if s >= len(log) or log[s] != (e['key'], v or '') or (s in written and written[s]['value'] != v):
                    raise Bad(f'{e} read what nobody wrote')
        if j['fds'][1] > j['fds'][0]:
            raise Bad(f"open files grew from {j['fds'][0]} to {j['fds'][1]} over 40 openings")
        self.add('trees opened and dropped', 43)
        self.add('cancelled operations', lost)


def files(d):
    return {os.path.relpath(os.path.join(at, f), d): open(os.path.join(at, f), 'rb').read() for at, _, fs in os.walk(d) for f in fs}


def sizes(x):
    return {k: len(v) for k, v in x.items()}


def varint(b, i):
    n = s = 0
    while True:
        n |= (b[i] & 127) << s
        i += 1
        if b[i - 1] < 128:
            return n, i
        s += 7


def records(path):
    """None for the header, (key, value) in hex for the others (an absent value reads as empty here)"""
    raw = open(path, 'rb').read()
    out, at = [], 0
    while at < len(raw):
        n = int.from_bytes(raw[at:at + 8], 'little')
        b = raw[at + 8:at + 8 + n]
        at += 8 + n
        f, i = {}, 0
        while i < len(b):
            t, i = varint(b, i)
            if t & 7 == 2:
                l, i = varint(b, i)
                f[t >> 3] = b[i:i + l]
                i += l
            else:
                f[t >> 3], i = varint(b, i)
        out.append(None if not out else (f.get(2, b'').hex(), f.get(3, b'').hex()))
    return out


# ---------------------------------------------------------------- building, verdict, evidence
def build(target):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    os.makedirs(target, exist_ok=True)
    h = subprocess.run("cd /repo && find src build.rs Cargo.toml uniffi.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum", shell=True, stdout=subprocess.PIPE, check=True).stdout.decode()
    stamp = os.path.join(target, 'hyperbee.sha256')
    out = os.path.join(target, 'bindings')
    if not os.path.exists(stamp) or open(stamp).read() != h:
        fp = os.path.join(target, 'debug/.fingerprint')
        for x in os.listdir(fp) if os.path.isdir(fp) else []:
            if x.startswith('hyperbee-'):
                shutil.rmtree(os.path.join(fp, x))
        shutil.rmtree(out, ignore_errors=True)
    ffi = os.path.join(ROOT, 'ffi')
    for args in (['--bins'], ['-p', 'hyperbee', '--lib']):
        p = subprocess.run(['cargo', 'build', '--quiet', '--locked', '--offline', *args], cwd=ffi, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise Broken('the bindings do not build against /repo:\n' + p.stdout.decode()[-3000:])
    so = os.path.join(target, 'debug/libhyperbee.so')
    if not os.path.exists(os.path.join(out, 'hyperbee.py')) or os.path.getmtime(so) > os.path.getmtime(os.path.join(out, 'hyperbee.py')):
        shutil.rmtree(out, ignore_errors=True)
        p = subprocess.run([os.path.join(target, 'debug/bindgen'), 'generate', '--library', so, '--language', 'python', '--no-format', '--out-dir', out], cwd=ffi, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0 or not os.path.exists(os.path.join(out, 'hyperbee.py')):
            raise Broken('the bindings cannot be generated:\n' + p.stdout.decode()[-3000:])
        shutil.copy(so, out)
    with open(stamp, 'w') as f:
        f.write(h)
    return {'apply': os.path.join(target, 'debug/apply'), 'mod': out}


RULE = ("three of four cases are a seeded file of operations (put, get, delete, version, sub-trees, reopening, failing storage, damaged "
        "data files, hostile bytes) run through the generated Python module and through the Rust interface, results, errors and logs on "
        "disk compared; the fourth kind is a recorded history of concurrent Python tasks and threads, some cancelled, checked against the "
        "log; each case is non-trivial if it compared results; counted by the operations or history")
REQUIRE = {'operations compared': 3000, 'trees opened by name': 100, 'errors raised on both sides': 20, 'absent values read': 20, 'empty values read': 20,
           'deletes that hit': 100, 'operations on sub-trees': 300, 'logs compared': 20, 'concurrent operations': 1000,
           'concurrent reads that hit': 50, 'histories from several threads': 3}


def main():
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    only = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ('quick', 'thorough'):
            tier = x
        elif x == '--replay':
            s, c = a.pop(0).split(':')
            seed, only = int(s), int(c)
        else:
            raise Broken(f'unknown argument {x}')
    base = os.environ.get('HBMON_TARGET') or os.path.join(ROOT, 'target')
    env = build(os.path.join(base, 'ffi'))
    ev = os.environ.get('HBMON_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(ev, 'replays'), exist_ok=True)
    cases = [only] if only is not None else range({'quick': 800, 'thorough': 40000}[tier])
    cap = 3000 if tier == 'thorough' else 500
    obs, shapes, samples, bad, done = {}, set(), [], [], 0

    def one(n):
        if time.time() - t0 > cap or bad:
            return None
        c = Case(env, seed, n)
        return c, c.go()

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, cases):
            if r is None:
                continue
            c, verdict = r
            done += 1
            for k, v in c.obs.items():
                obs[k] = obs.get(k, 0) + v
            if c.shape is not None:
                shapes.add(hash(c.shape))
            if c.n in (0, 3):
                samples.append(f'case {c.n}: ' + '; '.join(c.trace[:8])[:600])
            if verdict:
                bad.append((c, verdict))
            if only is not None:
                print('\n'.join(c.trace))
    for c, verdict in bad[:1]:
        p = os.path.join(ev, 'replays', f'C20-{seed}-{c.n}.json')
        with open(p, 'w') as f:
            json.dump({'property': 'C20', 'seed': seed, 'case': c.n, 'tier': tier, 'what': verdict,
                       'replay_cmd': f'tools/check.sh C20 --replay {seed}:{c.n}', 'trace': c.trace, 'input': c.shape}, f, indent=1)
        print(f'VIOLATION property=C20 replay={p}')
        print('  ' + verdict[:1500])
    if only is None:
        with open(os.path.join(ev, 'C20.json'), 'w') as f:
            json.dump({'property': 'C20', 'tier': tier, 'seed': seed, 'level': 'exploration',
                       'coverage': {'evaluations': done, 'distinct_nontrivial': len(shapes), 'rule': RULE, 'samples': samples, 'observed': obs},
                       'assumptions': ['hypercore, replicator, derive_builder and futures-lite are stand-ins (see DESIGN.md)',
                                       'Python stands for the foreign languages: the only one whose generated code can run here'],
                       'wall_s': round(time.time() - t0, 1), 'violations': len(bad)}, f, indent=1)
    if bad:
        return 1
    if only is None:
        for k, v in REQUIRE.items():
            if obs.get(k, 0) < v:
                raise Broken(f'observed too little: {k}: {obs.get(k, 0)} < {v}')
    print(f'C20: held on {done} cases, {json.dumps(obs)}')
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--driver':
        driver(*sys.argv[2:])
    elif sys.argv[1] == '--conc':
        conc(*sys.argv[2:])
    else:
        try:
            sys.exit(main())
        except Broken as e:
            print(f'C20: no answer: {e}')
            sys.exit(2)
