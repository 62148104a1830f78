#!/usr/bin/env python3
"""trials.py [-p C01,C02|own|all] [-d dir] [ids...]: applies each planted change to a scratch copy and runs the checks on it."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/trialwt'


def sh(c, env=None):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)


def main():
    a = sys.argv[1:]
    props, d = 'own', os.path.join(V, 'seeded')
    ids = []
    while a:
        x = a.pop(0)
        if x == '-p':
            props = a.pop(0)
        elif x == '-d':
            d = a.pop(0)
        else:
            ids.append(x)
    man = json.load(open(V + '/MANIFEST.json'))
    claimed = [c['property'] for c in man['checks']]
    if not os.path.isdir(WT):
        sh('cp -a /repo %s' % WT)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q FETCH_HEAD' % (WT, WT, WT))
    for i in ids or sorted(os.listdir(d)):
        patch = os.path.join(d, i, 'patch.diff')
        if not os.path.exists(patch):
            patch = os.path.join(d, i)
        mp = os.path.join(d, i, 'meta.json')
        own = json.load(open(mp))['property'] if os.path.exists(mp) else None
        ps = [own] if props == 'own' else claimed if props == 'all' else props.split(',')
        r = sh('git -C %s apply %s' % (WT, patch))
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout)
            continue
        out = []
        env = dict(os.environ, VERIF_REPO=WT)
        for p in ps:
            r = sh('timeout 900 python3 %s/bin/check %s' % (V, p), env)
            out.append('%s=%s' % (p, {0: '-', 1: 'CAUGHT'}.get(r.returncode, 'ERR%d' % r.returncode)))
            if r.returncode == 1:
                ln = [x for x in r.stdout.split('\n') if ': ' in x and not x.startswith(('KNOWN', 'VIOL', ' '))]
                out.append('   [' + (ln[0][:150] if ln else '') + ']')
            elif r.returncode:
                out.append(r.stdout[-300:])
        print(i, own, ' '.join(out), flush=True)
        sh('git -C %s checkout -q -- .' % WT)


main()
