"""Makes /verif/seeded/ID from planting/bugs.py: a patch, a demonstration crate with the stand-ins, meta.json.
usage: plant.py ID... | all      (verifies each: patch touches original lines, demo 0 without, nonzero with)"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
sys.path.insert(0, here)
from bugs import BUGS

DEMO = '''#!/bin/bash
# builds the demonstration beside this script against the hyperbee in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
cp -r "$here/demo" "$here/standins" "$w" || exit 2
sed -i "s|path = \\"/repo\\"|path = \\"$PWD\\"|" "$w/demo/Cargo.toml"
export RUST_BACKTRACE=0 CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true TMPDIR="$w"
cargo build --quiet --locked --offline --manifest-path "$w/demo/Cargo.toml" || exit 2
%s
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)

def make(b):
    try:
        return make_(b)
    except AssertionError as e:
        print(b['id'], 'BAD', e)
        return False

def errors(t):
    ls = [l for l in t.splitlines() if l.strip()]
    return '\n'.join(l for j, l in enumerate(ls) if any(x.startswith('error') or 'panicked' in x for x in ls[max(0, j - 3):j + 1]))[-700:]

def make_(b):
    i = b['id']
    d = f'{verif}/seeded/{i}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    try:
        r = sh(f'git -C /repo archive HEAD | tar x -C {wt} && cd {wt} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x')
        assert r.returncode == 0, r.stderr
        for f, old, new in b['edits']:
            p = f'{wt}/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(f'git -C {wt} diff').stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        # which removed lines are the original repository's
        orig = 0
        for f in {e[0] for e in b['edits']}:
            bl = sh(f'git -C /repo blame -s --abbrev=8 {f}').stdout.splitlines()
            ln = 0
            for l in sh(f'git -C {wt} diff -U0 {f}').stdout.splitlines():
                if l.startswith('@@'):
                    ln = int(l.split()[1].split(',')[0][1:])
                elif l.startswith('-') and not l.startswith('---'):
                    if bl[ln - 1].startswith('^'):
                        orig += 1
                    ln += 1
        assert orig, f'{i}: changes no line of the original repository'
        if b.get('kind', 'harness') == 'harness':
            os.makedirs(f'{d}/demo/src')
            shutil.copytree(f'{verif}/standins', f'{d}/standins')
            shutil.copy(f'{verif}/{b.get("crate", "harness")}/Cargo.toml', f'{d}/demo/Cargo.toml')
            shutil.copy(f'{verif}/{b.get("crate", "harness")}/Cargo.lock', f'{d}/demo/Cargo.lock')
            shutil.copy(f'{here}/kit.rs', f'{d}/demo/src/kit.rs')
            open(f'{d}/demo/src/main.rs', 'w').write('mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n' + b['main'])
            demo = DEMO % 'timeout 120 "$w/target/debug/hbmon"'
            if b.get('crate'):
                demo = demo.replace('debug/hbmon', 'debug/hb' + b['crate'])
            if b.get('profile') == 'release':
                demo = demo.replace('cargo build ', 'cargo build --release ').replace('target/debug', 'target/release')
            open(f'{d}/demo.sh', 'w').write(demo)
        else:
            b['files'](d, verif)
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        # verify
        sh(f'git -C {wt} checkout -q -- .')
        r0 = sh(f'bash {d}/demo.sh', cwd=wt)
        r = sh(f'git -C {wt} apply {d}/patch.diff'); assert r.returncode == 0, r.stderr
        r1 = sh(f'bash {d}/demo.sh', cwd=wt)
        bad1 = 'error: could not compile' in r1.stderr
        ok = r0.returncode == 0 and r1.returncode not in (0, 2) and not bad1
        print(i, 'ok' if ok else 'BAD', r0.returncode, r1.returncode, flush=True)
        if not ok:
            print(errors(r0.stderr), '-----', errors(r1.stderr))
        else:
            print('   ', ' '.join(errors(r1.stderr).split())[-200:])
        return ok
    finally:
        shutil.rmtree(wt, ignore_errors=True)

ids = sys.argv[1:]
todo = [b for b in BUGS if ids == ['all'] or b['id'] in ids]
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    sys.exit(0 if all(list(ex.map(make, todo))) else 1)
