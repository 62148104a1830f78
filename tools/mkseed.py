#!/usr/bin/env python3
"""mkseed.py FILE.seed... : builds /verif/seeded/<id>/ from a small description and confirms it.

FILE.seed: sections introduced by lines '@@ name [arg]':
  @@ id X / @@ prop C01 / @@ needs text / @@ breaks text   (one line each)
  @@ edit src/file.rs   followed by OLD, a line '=====', NEW   (several allowed)
  @@ demo               followed by Rust source (main.rs)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# Builds the program beside this script against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/bcdemo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bytecodec = { path = "$repo", features = [FEATURES] }
DEPS
[workspace]
EOF
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2> "$t/log" || { cat "$t/log"; exit 4; }
timeout 60 "$t/target/debug/demo"
'''


def parse(p):
    d = dict(edits=[], features='"json_codec", "bincode_codec"', deps='')
    cur = None
    buf = []

    def flush():
        if cur is None:
            return
        text = ''.join(buf)
        if cur[0] == 'edit':
            o, n = text.split('=====\n')
            d['edits'].append((cur[1], o, n))
        elif cur[0] == 'demo':
            d['demo'] = text
    for ln in open(p):
        if ln.startswith('@@ '):
            flush()
            buf = []
            k, _, a = ln[3:].strip().partition(' ')
            cur = (k, a)
            if k not in ('edit', 'demo'):
                d[k] = a
                cur = None
        elif cur is not None:
            buf.append(ln)
    flush()
    return d


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    wt = '/tmp/seedwt'
    if not os.path.isdir(wt):
        sh('cp -a /repo %s' % wt)
    for p in sys.argv[1:]:
        d = parse(p)
        sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q FETCH_HEAD' % (wt, wt, wt))
        bad = None
        for f, o, n in d['edits']:
            s = open(os.path.join(wt, f)).read()
            if s.count(o) < 1:
                bad = 'edit not found in %s: %r' % (f, o[:60])
                break
            if s.count(o) > 1 and 'anywhere' not in d:
                bad = 'edit ambiguous in %s (%d): %r' % (f, s.count(o), o[:60])
                break
            s = s.replace(o, n, 1)
            open(os.path.join(wt, f), 'w').write(s)
        if bad:
            print(d['id'], 'FAILED', bad)
            continue
        diff = sh('git -C %s diff' % wt).stdout
        dst = os.path.join(V, 'seeded', d['id'])
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(diff)
        open(dst + '/demo.rs', 'w').write(d['demo'])
        open(dst + '/demo.sh', 'w').write(DEMO_SH.replace('FEATURES', d['features']).replace('DEPS', d['deps']))
        os.chmod(dst + '/demo.sh', 0o755)
        json.dump(dict(property=d['prop'], needs=d['needs'], what_it_breaks=d['breaks']), open(dst + '/meta.json', 'w'), indent=1)
        t = sh('cd %s && timeout -k 5 120 cargo test --workspace --all-features --no-fail-fast --offline 2>&1' % wt)
        ok = t.returncode == 0 and t.stdout.count('test result: ok') >= 2
        a = sh('cd /repo && bash %s/demo.sh' % dst)
        b = sh('cd %s && bash %s/demo.sh' % (wt, dst))
        good = ok and a.returncode == 0 and b.returncode not in (0, 3, 4)
        print(d['id'], d['prop'], 'OK' if good else 'BAD', 'tests', ok, 'clean', a.returncode, 'patched', b.returncode)
        if not good:
            print([x for x in t.stdout.split('\n') if 'FAILED' in x or 'panicked' in x or x.startswith('error')][:8] if not ok else '', a.stdout[-300:] if a.returncode else '', b.stdout[:300])
            if os.environ.get('KEEP') is None:
                shutil.move(dst, tempfile.mkdtemp(prefix='badseed') + '/x')
    sh('git -C %s checkout -q -- .' % wt)


main()
