#!/usr/bin/env python3
"""Self test of the rules: apply textual edits to a scratch copy of the sources and look at the verdicts.

usage: run.py [PROPERTY|edit-name ...]
Each selftest/*.edits file holds entries
    @@ name property catch|quiet file
    <<<<
    old text
    ====
    new text
    >>>>
(several <<<< ==== >>>> blocks per entry are applied together; `file` may be changed by a line `@file path`).
"""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def parse():
    out = []
    for f in sorted(glob.glob(HERE + '/*.edits')):
        cur = None
        lines = open(f).read().split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('@@ '):
                n, props, exp, file = l[3:].split()
                cur = dict(name=n, props=props.split(','), exp=exp, edits=[])
                curfile = file
                out.append(cur)
            elif l.startswith('@file '):
                curfile = l[6:].strip()
            elif l == '<<<<':
                j = lines.index('====', i)
                k = lines.index('>>>>', j)
                cur['edits'].append((curfile, '\n'.join(lines[i + 1:j]), '\n'.join(lines[j + 1:k])))
                i = k
            i += 1
    return out


def one(e):
    d = tempfile.mkdtemp(prefix='vself')
    try:
        for s in ('src', 'icp'):
            shutil.copytree('/repo/' + s, d + '/' + s)
        for file, old, new in e['edits']:
            p = d + '/' + file
            t = open(p, errors='surrogateescape').read()
            if t.count(old) < 1:
                return e, 'EDIT-FAILED ' + repr(old[:60]), ''
            t = t.replace(old, new, 1)
            open(p, 'w', errors='surrogateescape').write(t)
        res, txt = [], ''
        for p in e['props']:
            r = subprocess.run([sys.executable, ROOT + '/check.py', p, 'quick'], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE_DIR=d + '/ev'))
            res.append(r.returncode)
            txt += r.stdout + r.stderr
        if e['exp'] == 'catch':
            ok = 1 in res
        else:
            ok = all(r == 0 for r in res)
        return e, ('ok' if ok else 'MISS' if e['exp'] == 'catch' else 'ALARM') + ' ' + str(res), txt
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sel = [a for a in sys.argv[1:] if a[0] != '-']
    es = [e for e in parse() if not sel or e['name'] in sel or set(e['props']) & set(sel) or any(e['name'].startswith(s) for s in sel)]
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for e, r, txt in ex.map(one, es):
            print(e['name'], ','.join(e['props']), e['exp'], r)
            if not r.startswith('ok'):
                bad += 1
            if '-v' in sys.argv or not r.startswith('ok'):
                print('   ' + '\n   '.join([l[:300] for l in txt.split('\n') if l.strip()][:14]))
            elif e['exp'] == 'quiet' and 'UNDECIDED' in txt:
                print('   ' + '\n   '.join([l[:200] for l in txt.split('\n') if 'UNDECIDED' in l][:6]))
    print(len(es), 'edits', bad, 'unexpected')
    sys.exit(1 if bad else 0)
