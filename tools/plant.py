#!/usr/bin/env python3
"""plant.py SPEC.py...: each spec calls bug(id, property, edits, demo, needs, breaks).
Writes seeded/<id>/ and confirms it in a scratch copy of /repo: applies, builds, the stable
tests pass, the demo passes without and fails with the change. --check also runs the
property's own quick check against the change in /repo (and undoes it)."""
import os, sys, json, subprocess, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/plant-scratch'
BASE = json.load(open('/opt/vp/BASELINE.json'))
bugs = []
def bug(id, property, edits, demo, needs, breaks):
    bugs.append((id, property, edits, demo, needs, breaks))
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
check = '--check' in sys.argv
force = '--force' in sys.argv
only = [a[7:] for a in sys.argv if a.startswith('--only=')]
for f in sys.argv[1:]:
    if not f.startswith('--'): exec(open(f).read())
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_HUSKY_DONT_INSTALL_HOOKS='true')
def sync():
    sh(f"mkdir -p {SC} && rsync -a --delete --exclude target --exclude .git /repo/ {SC}/ && cd {SC} && (git init -q . 2>/dev/null; true)") if shutil.which('rsync') else \
    sh(f"mkdir -p {SC} && cd {SC} && find . -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {{}} + && cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C {SC} && cd {SC} && git init -q .")
for id, prop, edits, demo, needs, breaks in bugs:
    if only and id not in only: continue
    d = f'{ROOT}/seeded/{id}'
    if os.path.exists(d + '/patch.diff') and not force and not check: continue
    ok = True
    if not os.path.exists(d + '/patch.diff') or force:
        assert sh('git -C /repo status --porcelain').stdout == '', '/repo dirty'
        sync()
        os.makedirs(d, exist_ok=True)
        sh(f'cd {SC} && git add -A . && git -c user.name=x -c user.email=x@x commit -qm base')
        try:
            for fn, a, b in edits:
                p = f'{SC}/{fn}'; s = open(p).read()
                assert s.count(a) == 1, (id, fn, s.count(a), a)
                open(p, 'w').write(s.replace(a, b))
            patch = sh(f'git -C {SC} diff').stdout
        finally:
            sh(f'git -C {SC} checkout -- .')
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.rs', 'w').write(demo)
        shutil.copy(f'{ROOT}/tools/demo.sh.tmpl', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(f'cd {SC} && bash {d}/demo.sh', env=env)
        if r0.returncode != 0: print(id, 'DEMO FAILS UNCHANGED', r0.stdout[-1500:]); ok = False
        a = sh(f'cd {SC} && git apply --verbose {d}/patch.diff')
        if a.returncode: print(id, 'PATCH', a.stdout); ok = False
        if ok:
            t = sh(f"cd {SC} && cargo test --offline --lib 2>&1", env=env)
            bad = [l for l in t.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
            if bad: print(id, 'TESTS', bad[:8]); ok = False
        if ok:
            r1 = sh(f'cd {SC} && bash {d}/demo.sh', env=env)
            if r1.returncode == 0 or 'could not compile' in r1.stdout: print(id, 'DEMO PASSES WITH BUG' if r1.returncode==0 else r1.stdout[-800:]); ok = False
        if not ok:
            shutil.move(d, f'/tmp/plant-rejected-{id}-{int(time.time())}')
            continue
        print(id, 'confirmed', flush=True)
    if check:
        # the explorer, built against a patched copy, so that /repo stays free
        sync()
        a = sh(f'cd {SC} && git apply {d}/patch.diff')
        assert a.returncode == 0, a.stdout
        R = '/tmp/plant-root'
        sh(f"mkdir -p {R} && rsync -a --delete --exclude target --exclude evidence --exclude .git {ROOT}/ {R}/ && mkdir -p {R}/evidence && sed -i 's#path = \"/repo\"#path = \"{SC}\"#' {R}/harness/Cargo.toml")
        t0 = time.time()
        r = sh(f'cd {R} && bash run.sh {prop} quick')
        line = next((l for l in r.stdout.splitlines() if l.startswith('VIOLATION')), '')
        print(id, prop, 'CAUGHT' if r.returncode == 1 and line else f'MISSED rc={r.returncode} {r.stdout[-300:]}', f'{time.time()-t0:.0f}s', flush=True)
        sh(f'cd {SC} && git apply -R {d}/patch.diff')
