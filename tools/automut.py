"""Development aid: automatic mutants of /repo. Stage 1 (tests): python3 tools/automut.py tests OUT.jsonl FILE...
keeps the mutants that build and pass the existing tests (go test -overlay; /repo untouched).
Stage 2 (units): python3 tools/automut.py units IN.jsonl UNIT-REGEX: runs the verifier on each and prints the survivors."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = '/opt/veriftools/go1.27.3/bin/go'
R = os.environ.get('AM_GOPATH', '/opt/vp/gopath')  # a copy of it keeps /repo free for other work
ENV = dict(os.environ, GOVER_FAILFAST='1', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], HOME='/root', GOENV='off', GO111MODULE='off', GOFLAGS='', GOTOOLCHAIN='local',
  GOPROXY='off', GOWORK='off', GOPATH=R, GOCACHE='/tmp/automut.cache', CGO_ENABLED='0', PWD=R + '/src/github.com/qbeon/webwire-go')
W = R + '/src/github.com/qbeon/webwire-go'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def apply(m):
    s = open(W + '/' + m['file']).read().encode()
    return s[:m['Start']] + m['New'].encode() + s[m['End']:]
def tests(m):
    with tempfile.TemporaryDirectory(prefix='am.') as t:
        open(t + '/f.go', 'wb').write(apply(m))
        json.dump({'Replace': {W + '/' + m['file']: t + '/f.go'}}, open(t + '/o.json', 'w'))
        r = subprocess.run([G, 'build', '-overlay', t + '/o.json', '.', './message', './requestManager', './payload', './transport/memchan'], cwd=W, env=ENV, capture_output=True, text=True)
        if r.returncode: return 'nobuild'
        for attempt in range(1):
            try:
                r = subprocess.run([G, 'test', '-vet=off', '-count=1', '-failfast', '-timeout', '25s', '-overlay', t + '/o.json', '.', './message', './requestManager', './payload', './transport/memchan', './test', '-cpu', '1'], cwd=W, env=ENV, capture_output=True, text=True)
            except Exception as e:
                return 'err'
            if r.returncode == 0: return 'pass'
        return 'fail'
def load(files):
    out = subprocess.run(['/tmp/automut'] + files, cwd=W, capture_output=True, text=True, check=True).stdout
    return [json.loads(l) for l in out.splitlines()]
def unit(m, rx):
    t = tempfile.mkdtemp(prefix='am.')
    try:
        shutil.copytree(W, t + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git'))
        open(f"{t}/repo/{m['file']}", 'wb').write(apply(m))
        try:
            r = subprocess.run([os.environ.get('AM_GOVER', '/tmp/gover'), '-unit', rx, '-repo', t + '/repo', '-spec', os.environ.get('AM_SPEC', V + '/spec')], cwd=V, env=dict(os.environ, GOVER_FAILFAST='1', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH']), capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return 'timeout'
        bad = [l for l in r.stdout.splitlines() if ' ok ' not in l and l.strip() and not l.startswith(('==', 'total', 'loaded', '   bounded'))]
        return bad
    finally:
        shutil.rmtree(t)
if sys.argv[1] == 'tests':
    subprocess.run([G, 'build', '-o', '/tmp/automut', 'main.go'], cwd=V + '/tools/automut', env=ENV, check=True)
    ms = load(sys.argv[3:])
    print(len(ms), 'mutants', flush=True)
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex, open(sys.argv[2], 'w') as o:
        for m, r in zip(ms, ex.map(tests, ms)):
            cnt[r] = cnt.get(r, 0) + 1
            if r == 'pass':
                o.write(json.dumps(m) + '\n'); o.flush()
    print(cnt)
else:
    ms = [json.loads(l) for l in open(sys.argv[2])]
    with ThreadPoolExecutor(int(os.environ.get('J', '1'))) as ex:
        for m, r in zip(ms, ex.map(lambda m: unit(m, sys.argv[3]), ms)):
            print(m['Desc'], '\n      ', r if isinstance(r, str) else ([l[:160] for l in r[:2]] or 'SURVIVED'), flush=True)
