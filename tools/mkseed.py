"""Write seeded/<id>/ from a list of textual edits: python3 tools/mkseed.py specs.py"""
import sys, os, json, subprocess, tempfile, shutil, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs in the root of a symfit checkout; exits 0 when the property holds there.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export PYTHONPATH=$PWD MPLBACKEND=Agg MPLCONFIGDIR=$T PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore "$D/demo.py"
'''
def main(path):
    for s in runpy.run_path(path)['SEEDS']:
        d = os.path.join(HERE, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix='mkseed')
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, old, new in s['edits']:
            p = t + '/r/' + f; src = open(p).read()
            assert src.count(old) == 1, (s['id'], f, src.count(old), old)
            open(p, 'w').write(src.replace(old, new))
        diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff); shutil.rmtree(t)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip())
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(s['id'])
main(sys.argv[1])
