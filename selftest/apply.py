"""apply.py EDIT DIR: a scratch copy of the sources with one selftest edit applied (for debugging)"""
import sys, os, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
name, d = sys.argv[1:3]
shutil.rmtree(d, ignore_errors=True)
for s in ('src', 'icp'):
    shutil.copytree('/repo/' + s, d + '/' + s)
for e in run.parse():
    if e['name'] == name:
        for f, o, n in e['edits']:
            t = open(d + '/' + f).read()
            open(d + '/' + f, 'w').write(t.replace(o, n, 1))
