"""Development aid: plants one-line bugs in a copy of /repo and reports whether the property's check
notices (python3 tools/mutants.py FILE [name-regex]). FILE lists (name, property, file, old, new)."""
import os, re, runpy, shutil, subprocess, sys, tempfile
ms = runpy.run_path(sys.argv[1])['M']
rx = re.compile(sys.argv[2] if len(sys.argv) > 2 else '.')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for name, prop, f, old, new in ms:
    if not rx.search(name): continue
    t = tempfile.mkdtemp(prefix='mut.')
    shutil.copytree('/repo', t + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git'))
    p = f'{t}/repo/{f}'
    s = open(p).read()
    reps = old if isinstance(old, list) else [(old, new)]
    if any(s.count(o) != 1 for o, _ in reps):
        print(name, 'PATTERN', [s.count(o) for o, _ in reps]); shutil.rmtree(t); continue
    for o, n in reps: s = s.replace(o, n)
    open(p, 'w').write(s)
    for q in prop.split():
        r = subprocess.run([V + '/check.sh', q, 'quick'], cwd=V, env=dict(os.environ, VERIF_REPO=t + '/repo'), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        o = [l[:150] for l in r.stdout.splitlines() if l.startswith(('undecided', 'not proved'))]
        last = r.stdout.strip().splitlines()[-1][-12:] if r.stdout.strip() else r.stderr[-300:]
        print(f"{name:28} {q} exit={r.returncode} {last} confirmed={sum('no-failing' not in l for l in v)} noinput={sum('no-failing' in l for l in v)}", v[0].split('replays/')[1][:110] if v else o[:2], flush=True)
    shutil.rmtree(t)
