"""matrix.py [-j N] [--own] [BUG...]: runs every quick check (--own: that of its property) (seed 1) against a copy of /repo with each planted bug and writes
tools/caught.json. Each run binds the copy over /repo in a mount namespace of its own, so /repo is not touched."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
jobs = 4
if args[:1] == ['-j']:
    jobs, args = int(args[1]), args[2:]
only_own = args[:1] == ['--own']
args = args[only_own:]
bugs = args or sorted(os.path.basename(d) for d in glob.glob(f'{V}/seeded/*'))
checks = [c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]
out = f'{V}/tools/caught.json'
caught = json.load(open(out)) if os.path.exists(out) else {}
tmp = tempfile.mkdtemp(prefix='matrix')
def one(job):
    copy, c = job
    ev = tempfile.mkdtemp(dir=tmp)
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {copy} /repo && mount --bind {ev} {V}/evidence && '
                        f'VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash {V}/run.sh {c}'], capture_output=True).returncode
    shutil.rmtree(ev, ignore_errors=True)
    return c, r
try:
    for b in bugs:
        copy = f'{tmp}/repo'
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        subprocess.run(['git', '-C', copy, 'apply', f'{V}/seeded/{b}/patch.diff'], check=True)
        own = json.load(open(f'{V}/seeded/{b}/meta.json'))['property']
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(one, [(copy, c) for c in ([own] if only_own else checks)]))
        shutil.rmtree(copy)
        caught[b] = [c for c in caught.get(b, []) if only_own and c[:3] != own] + [c for c, r in res if r == 1] + [f'{c}(rc{r})' for c, r in res if r not in (0, 1)]
        print(b, '' if own in caught[b] else 'MISSED', *caught[b], flush=True)
        json.dump(caught, open(out, 'w'), indent=0, sort_keys=True)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
