#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the entries of seeds_*.py and tries them out.

usage: gen.py write [ids]    write patch.diff, demo.sh, meta.json, expected.txt (uses a scratch worktree)
       gen.py try [ids]      apply each in /repo, build, test, demo, run the property's quick check, undo
"""
import sys, os, json, subprocess, tempfile, shutil, glob, importlib.util, re
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = '/verif/seeded'
ENV = dict(os.environ)

DEMO_SH = r'''#!/bin/bash
# Run with the working directory at the repository. Builds the program beside this file against it and
# compares what it prints with what the unchanged tree prints.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false
unset GOWORK GOOS GOARCH GOROOT
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/demo" "$tmp/run"
[ -f "$here/main.go" ] && cp "$here/main.go" "$tmp/demo/main.go"
printf 'module demo\n\ngo 1.20\n' >"$tmp/demo/go.mod"
{
  echo 'go 1.20'
  echo 'use ('
  echo './demo'
  for m in . writer/compressed writer/file writer/standard writer/terminal cmd/qrcode example .issues; do
    [ -f "$repo/$m/go.mod" ] && echo "\"$repo/$m\""
  done
  echo ')'
} >"$tmp/go.work"
cp "$repo/go.work.sum" "$tmp/go.work.sum"
export GOWORK="$tmp/go.work"
%(body)s
'''
BODY_GO = r'''(cd "$tmp/demo" && go build %(race)s -o "$tmp/prog" .) || exit 3
for round in %(rounds)s; do
  (cd "$tmp/run" && timeout 80 "$tmp/prog" >"$tmp/out.txt" 2>"$tmp/err.txt")
  rc=$?
  [ $rc -ne 0 ] && break
done
if [ $rc -ne 0 ]; then echo "program ended with status $rc"; tail -n 20 "$tmp/err.txt"; exit 1; fi
if [ "$GEN_EXPECTED" ]; then cp "$tmp/out.txt" "$GEN_EXPECTED"; exit 0; fi
diff "$here/expected.txt" "$tmp/out.txt" || exit 1
exit 0'''

COMMON = r'''
type capture struct{ m qrcode.Matrix; n int }

func (c *capture) Write(m qrcode.Matrix) error { c.m = m; c.n++; return nil }
func (c *capture) Close() error                { return nil }

func show(label string, q *qrcode.QRCode, err error) {
	if err != nil {
		fmt.Println(label, "error")
		return
	}
	c := &capture{}
	if err := q.Save(c); err != nil {
		fmt.Println(label, "save error")
		return
	}
	h := sha256.New()
	c.m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) { fmt.Fprint(h, x, y, v.IsSet(), v.Type()) })
	fmt.Printf("%s dim=%d %x\n", label, q.Dimension(), h.Sum(nil)[:8])
}
'''

def load():
    out = []
    for f in sorted(glob.glob(HERE + '/seeds_*.py')):
        spec = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.SEEDS
    ids = [s['id'] for s in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out

def mainsrc(s):
    src = s['demo']
    if 'package main' in src: return src
    imports = set(s.get('imports', []))
    common = s.get('common', True)
    if common: imports |= {'fmt', 'crypto/sha256', 'github.com/yeqown/go-qrcode/v2'}
    imps = ''
    for i in sorted(imports):
        if i == 'github.com/yeqown/go-qrcode/v2': imps += '\tqrcode "github.com/yeqown/go-qrcode/v2"\n'
        else: imps += '\t"%s"\n' % i
    return 'package main\n\nimport (\n' + imps + ')\n' + (COMMON if common else '') + '\n' + src + '\n'

def apply(s, root):
    for f, old, new in s['edits']:
        p = os.path.join(root, f); t = open(p).read()
        n = t.count(old)
        assert n == 1, (s['id'], f, n, old)
        open(p, 'w').write(t.replace(old, new))

def run(cmd, cwd, env=None, timeout=1200):
    e = dict(ENV); e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')

def write(s):
    d = os.path.join(SEEDED, s['id'])
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d): os.unlink(os.path.join(d, f))
    wt = tempfile.mkdtemp(prefix='seedwt')
    try:
        run('git -C /repo archive HEAD | tar x -C ' + wt, '/')
        run('git init -q . && git add -A -f && git -c user.name=a -c user.email=a@b commit -qm x', wt)
        if s.get('demo'): open(d + '/main.go', 'w').write(mainsrc(s))
        for n, txt in s.get('files', {}).items(): open(d + '/' + n, 'w').write(txt)
        if s.get('demo'):
            run('gofmt -w main.go', d, {'PATH': '/opt/veriftools/go1.27.3/bin:' + ENV['PATH']})
        body = s.get('body') or BODY_GO % {'race': '-race' if s.get('race') else '', 'rounds': ' '.join(str(k) for k in range(s.get('rounds', 5 if s.get('race') else 1)))}
        open(d + '/demo.sh', 'w').write(DEMO_SH % {'body': body}); os.chmod(d + '/demo.sh', 0o755)
        rc, o = run(d + '/demo.sh', wt, {'GEN_EXPECTED': d + '/expected.txt'})
        if rc: return 'clean demo (gen) failed: ' + o[-2000:]
        for _ in range(s.get('repeat', 2)):
            rc, o = run(d + '/demo.sh', wt)
            if rc: return 'clean demo failed: ' + o[-2000:]
        apply(s, wt)
        run('gofmt -l .', wt)
        rc, o = run('git diff --no-color', wt)
        open(d + '/patch.diff', 'w').write(o)
        for _ in range(s.get('repeat', 2)):
            rc, o2 = run(d + '/demo.sh', wt)
            if rc == 0: return 'demo passes with the patch'
            if rc == 3: return 'patched build failed: ' + o2[-2000:]
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/meta.json', 'a').write('\n')
    finally:
        shutil.rmtree(wt)
    return None

def tryit(s):
    d = os.path.join(SEEDED, s['id'])
    rc, o = run('git status --porcelain', '/repo'); assert not o.strip(), o
    rc, o = run('git apply %s/patch.diff' % d, '/repo'); assert rc == 0, o
    try:
        rc, o = run('bash /tmp/rt.sh', '/repo')
        if 'missing [] 214 214' not in o: return 'TESTS ' + o[-600:]
        rc, o = run('/verif/bin/check %s quick' % s['property'], '/verif')
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        if rc == 1 and any('property=' + s['property'] in l for l in v): return 'caught: ' + v[0][:200]
        return 'MISSED rc=%d %s' % (rc, o[-300:])
    finally:
        run('git checkout -- .', '/repo')

if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    for s in load():
        if ids and s['id'] not in ids and not any(i.endswith('*') and s['id'].startswith(i[:-1]) for i in ids): continue
        if cmd in ('write', 'all'):
            if cmd == 'all' and not ids and os.path.exists(os.path.join(SEEDED, s['id'], 'meta.json')): continue
            e = write(s)
            print(s['id'], 'written' if not e else 'FAILED ' + e, flush=True)
            if e: shutil.rmtree(os.path.join(SEEDED, s['id'])); continue
        if cmd in ('try', 'all'):
            print(s['id'], tryit(s), flush=True)
