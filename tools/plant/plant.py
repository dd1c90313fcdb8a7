#!/usr/bin/env python3
"""plant.py SPEC [ID...]: for every bug of SPEC (a python file with a list BUGS) apply it to /repo, build, run the stable
tests and the demonstration, run the check of its property (and, with ALL=1, every check), undo it, and write seeded/<id>.
A bug: dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust source of main)."""
import json, os, shutil, subprocess, sys
V = '/verif'; R = '/repo'; H = os.path.dirname(os.path.abspath(__file__))
base = '5977e04'
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def undo():
    sh('git -C /repo checkout -- .')
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    undo()
    # without a demonstration it is only tried
    d = f"{V}/seeded/{b['id']}" if 'fn main() {}' not in b['demo'] else f"/tmp/plant-x/{b['id']}"
    os.makedirs(d, exist_ok=True)
    shutil.copy(f'{H}/demo.sh', f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/main.rs', 'w').write(open(f'{H}/pre.rs').read() + '\n' + b['demo'].strip() + '\n')
    json.dump({"property": b['property'], "needs": b['needs'], "what_it_breaks": b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    ok = True
    try:
        r = sh(f'{d}/demo.sh', cwd=R, timeout=300)
        if r.returncode != 0:
            print(b['id'], 'demo FAILS on the unchanged tree:', r.stdout[-1500:]); ok = False; continue
        foreign = []
        for f, old, new in b['edits']:
            s = open(f'{R}/{f}').read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), 'times:', old[:60]); ok = False; break
            open(f'{R}/{f}', 'w').write(s.replace(old, new))
        if not ok: continue
        diff = sh('git -C /repo diff').stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        # removed lines must be original
        for f in set(e[0] for e in b['edits']):
            names = set()
            out = sh(f'git -C /repo diff -U0 {f}').stdout
            for l in out.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(','); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
                    if n:
                        bl = sh(f'git -C /repo blame -s -L {st},{st+n-1} HEAD -- {f}').stdout
                        foreign += [x for x in bl.splitlines() if base not in x[:10]]
        r = sh('bash /opt/vp/build.sh')
        if r.returncode != 0:
            print(b['id'], 'does not BUILD', r.stdout[-1500:]); ok = False; continue
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        res = json.load(open('/tmp/plant.json'))
        p = set(res.get('passed', [])) if isinstance(res.get('passed'), list) else set(k for k, v in res.items() if v == 'passed')
        bad = [t for t in stable if t not in p]
        if bad:
            print(b['id'], 'FAILS TESTS', bad[:5]); ok = False; continue
        r = sh(f'{d}/demo.sh', cwd=R, timeout=300)
        if 'fn main() {}' in b['demo']: pass
        elif r.returncode in (0, 3):
            print(b['id'], 'demo does not show it, rc', r.returncode, r.stdout[-500:]); ok = False; continue
        demo = r.stdout.strip().splitlines()[-1:] 
        checks = open(f'{V}/tools/done.txt').read().split() if os.environ.get('ALL') else [b['property']]
        caught = []
        for c in checks:
            r = sh(f'VERIF_TIER=quick VERIF_SEED={os.environ.get("SEED","1")} timeout 890 {V}/check.sh {c}', cwd=V)
            hit = r.returncode == 1 and f'VIOLATION property={c}' in r.stdout
            if hit: caught.append(c)
            elif r.returncode != 0: caught.append(f'{c}:rc{r.returncode}')
        print(b['id'], b['property'], 'CAUGHT by ' + ' '.join(caught) if caught else 'MISSED', '| foreign lines: %d' % len(foreign), foreign[:3] if foreign else '', '|', demo)
    except Exception as e:
        print(b['id'], 'EXC', e); ok = False
    finally:
        undo()
        if not ok: shutil.rmtree(d, ignore_errors=True)
        sys.stdout.flush()
sh(f'{V}/check.sh --build')
