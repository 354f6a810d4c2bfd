"""checks that the tools are there and the specification parses; builds nothing"""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check                 # noqa: E402

ok = True
for m in sorted(x for x in os.listdir(check.SPEC) if x.endswith('.tla')):
    p = subprocess.run(['java', '-cp', check.TLA, 'tla2sany.SANY', m], cwd=check.SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    good = p.returncode == 0 and 'rror' not in p.stdout
    print(m, 'parsed' if good else p.stdout[-2000:])
    ok = ok and good
p = subprocess.run([check.PY, '-W', 'ignore', '-c', 'import timeboard; print(timeboard.__file__)'],
                   env=check.env(), cwd='/', universal_newlines=True, stdout=subprocess.PIPE)
print(p.stdout)
sys.exit(0 if ok and p.returncode == 0 else 2)
