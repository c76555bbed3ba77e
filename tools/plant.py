#!/usr/bin/env python3
"""Confirm planted bugs: python3 tools/plant.py DEFS.py [id...]
DEFS.py holds BUGS, a list of dicts: id, prop, edits [(file, old, new)], needs, breaks, demo (C++ source) and
optionally libs (extra sources/flags), shims (list of files below /verif/shims that the demo needs beside it).
Writes seeded/<id>/, applies the patch to a scratch copy of /repo, builds, runs the stable tests and the demo both
ways, then applies it to /repo itself, runs the check of its property and undoes it."""
import json, os, shutil, subprocess, sys, runpy
V = '/verif'; S = '/tmp/plantscratch'
def sh(cmd, cwd=None, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
SH = '''#!/bin/bash
# exit 0: the guarantee holds; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -w -O1 -DFMT_HEADER_ONLY %(flags)s -I"$here" -I"$here/shims" -I"$PWD/include" -I"$PWD/vendors/combinations" \\
    -I"$PWD/vendors/undirected_graph/source" -I"$PWD/vendors/graph-coloring/Header" \\
    "$here/demo.cpp" %(libs)s -o "$tmp/demo" -ltbb -pthread || exit 2
cd "$tmp" && timeout 60 ./demo
'''
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']; only = sys.argv[2:]
    if not os.path.isdir(S):
        sh(f'cp -a /repo {S}')
    for b in bugs:
        if only and b['id'] not in only: continue
        d = f'{V}/seeded/{b["id"]}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', S)
        for f, old, new in b['edits']:
            t = open(f'{S}/{f}').read()
            if t.count(old) != 1: print(b['id'], 'EDIT MATCHES', t.count(old), f); break
            open(f'{S}/{f}', 'w').write(t.replace(old, new))
        else:
            rc, diff = sh('git diff', S)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.cpp', 'w').write(b['demo'])
            for s in b.get('shims', []):
                src = f'{V}/shims/{s}'; dst = f'{d}/shims/{s}'
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, dst)
            open(d + '/demo.sh', 'w').write(SH % dict(flags=b.get('flags', ''), libs=b.get('libs', '')))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            res = []
            rc, out = sh(f'bash {d}/demo.sh', '/repo'); res.append(('clean-demo', rc == 0, out[-300:]))
            rc, out = sh(f'bash {d}/demo.sh', S); res.append(('demo', rc not in (0, 2), out[-300:]))
            rc, out = sh('/opt/vp/build.sh', S) if False else (0, '')
            rc, out = sh(f'git -C /repo apply --check {d}/patch.diff'); res.append(('applies', rc == 0, out))
            sh(f'git -C /repo apply {d}/patch.diff')
            try:
                rc, out = sh('bash /opt/vp/test.sh /tmp/plant.json')
                o = json.load(open('/tmp/plant.json')); res.append(('tests', len(o['passed']) == 36, str(len(o['passed'])) + out[-300:]))
                rc, out = sh(f'VERIF_SEED=1 VERIF_TIER=quick python3 run.py {b["prop"]}', V)
                hit = rc == 1 and f'VIOLATION property={b["prop"]}' in out
                res.append(('check', hit, out[-300:]))
            finally:
                sh('git -C /repo checkout -q -- .')
            print(b['id'], b['prop'], ' '.join(f'{n}={"ok" if k else "NO"}' for n, k, _ in res), flush=True)
            for n, k, o in res:
                if not k: print('    ', n, o.strip().replace('\n', '\n      '), flush=True)
if __name__ == "__main__":
    main()
