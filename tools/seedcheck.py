"""Apply each seeded change to a scratch copy of /repo's package and run its property's check there.

    python3 tools/seedcheck.py [id-substr ...]

Prints CAUGHT / MISSED per change.  A development aid: no registered check reads seeded/.
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = os.path.join(V, 'seeded', sid)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='sc_')
    try:
        shutil.copytree('/repo/skops', os.path.join(tmp, 'skops'))
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            return sid, prop, 'NOAPPLY ' + r.stderr[:200], ''
        r = subprocess.run([sys.executable, '-m', 'sa.run', prop, '--root', tmp], cwd=V, capture_output=True, text=True)
        viol = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        st = 'CAUGHT' if r.returncode == 1 and viol else 'MISSED(rc=%d)' % r.returncode
        why = [l for l in (r.stdout + r.stderr).splitlines() if l.strip() and 'KNOWN' not in l]
        return sid, prop, st, ' | '.join(why)[:260]
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    ids = sorted(os.listdir(os.path.join(V, 'seeded')))
    if sys.argv[1:]:
        ids = [i for i in ids if any(a in i for a in sys.argv[1:])]
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, ids):
            print('%-28s %s %s %s' % r)
