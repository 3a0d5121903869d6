"""Usage: seedmk.py ID PROP FILE 'needs' 'breaks' < edits.
stdin: blocks separated by lines '@@@@': OLD / '====' / NEW.  Writes the seeded
folder (patch.diff, meta.json); demo files are written separately."""
import json, os, subprocess, sys, tempfile, shutil
i, prop, f, needs, breaks = sys.argv[1:6]
D = '/verif/seeded/' + i
os.makedirs(D, exist_ok=True)
w = tempfile.mkdtemp()
subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
p = os.path.join(w, 'r', f)
s = open(p, newline='').read()
for b in sys.stdin.read().split('\n@@@@\n'):
    old, new = b.split('\n====\n')
    old, new = old.strip('\n'), new.strip('\n')
    if '\r\n' in s:
        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
    n = os.environ.get('OCC')
    if n is None:
        assert s.count(old) == 1, (s.count(old), old)
        s = s.replace(old, new)
    else:
        x = s.split(old)
        j = int(n) + 1
        s = old.join(x[:j]) + new + old.join(x[j:])
open(p, 'w', newline='').write(s)
d = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
old = open(D + '/patch.diff', 'rb').read() if os.path.exists(D + '/patch.diff') and os.environ.get('APPEND') else b''
open(D + '/patch.diff', 'wb').write(old + d)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + '/meta.json', 'w'), indent=1)
shutil.rmtree(w)
