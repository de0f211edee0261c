"""Run the check of every planted bug (or of those named) against a scratch copy of /repo that carries it.

  python3 tools/seedtest.py [id ...]        prints one line per bug and writes out/seedtest.json
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(ids):
    seeded = os.path.join(HERE, 'seeded')
    res = {}
    for sid in ids or sorted(os.listdir(seeded)):
        d = os.path.join(seeded, sid)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        top = tempfile.mkdtemp(prefix='seed_')
        try:
            tree = os.path.join(top, 'repo')
            shutil.copytree('/repo', tree, symlinks=True)
            subprocess.run(['git', '-C', tree, 'apply', os.path.join(d, 'patch.diff')], check=True)
            p = subprocess.run([os.path.join(HERE, 'check'), prop, 'quick'], env=dict(os.environ, VERIF_REPO=tree),
                               capture_output=True, text=True, timeout=1800)
            ok = p.returncode == 1 and 'VIOLATION property=' + prop in p.stdout
            res[sid] = [prop, ok]
            print(sid, prop, 'caught' if ok else 'MISSED (exit %d)' % p.returncode, flush=True)
        finally:
            shutil.rmtree(top)
    os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
    json.dump(res, open(os.path.join(HERE, 'out', 'seedtest.json'), 'w'), indent=1)
    bad = [k for k, v in res.items() if not v[1]]
    print('%d of %d caught' % (len(res) - len(bad), len(res)), 'missed: ' + ' '.join(bad) if bad else '')


main(sys.argv[1:])
