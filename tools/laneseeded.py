#!/usr/bin/env python3
"""laneseeded.py LANES [ids]: like runseeded.sh, but in scratch copies under /tmp/lanes, several at a time, so that
/repo and /verif stay untouched. An id may also be a .diff file, which is run against all checks. Removes its copies."""
import os, re, subprocess, sys, json, shutil, threading, queue, glob
LANES = int(sys.argv[1]); ROOT = os.environ.get('LANES', '/tmp/lanes')
def sh(cmd, cwd, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, 'timeout'
def setup(k):
    d = f'{ROOT}/lane{k}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(f'git -C /repo worktree prune; mkdir {d}/repo && git -C /repo archive HEAD | tar x -C {d}/repo && mkdir -p {d}/verif/evidence {d}/verif/replays && cp -a /verif/harness {d}/verif/harness && cp /verif/*.json* {d}/verif/ && mkdir {d}/verif/target && cp -a /verif/target/release {d}/verif/target/release && cp /repo/Cargo.lock {d}/repo/ 2>/dev/null; cd {d}/repo && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, check=True)
    for root, _, fs in os.walk(f'{d}/verif/harness'):
        for f in fs:
            if f.endswith(('.rs', '.toml', '.sh')):
                p = os.path.join(root, f); s = open(p).read()
                s2 = s.replace('"/verif"', f'"{d}/verif"').replace('"/repo', f'"{d}/repo').replace('/verif/harness', f'{d}/verif/harness').replace('SHRINK_S: i64 = 15', 'SHRINK_S: i64 = 0')
                if s2 != s: open(p, 'w').write(s2)
    return d
lock = threading.Lock()
def run(k, q):
    d = setup(k)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER=f'{d}/verif/harness/rustc-wrapper.sh', CARGO_TARGET_DIR=f'{d}/verif/target', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER=os.environ.get('VERIF_TIER', 'quick'))
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        patch = i if i.endswith('.diff') else f'/verif/seeded/{i}/patch.diff'
        props = [json.load(open(f'/verif/seeded/{i}/meta.json'))['property']] if not i.endswith('.diff') else ['C%02d' % c for c in range(1, 33)]
        m = re.match(r'(C\d\d)-', os.path.basename(i))
        if m: props = [m[1]]
        if i != 'none.diff':
            rc, o = sh(f'git apply {patch}', f'{d}/repo')
            if rc != 0:
                with lock: print(i, 'DOES NOT APPLY', flush=True)
                continue
        sh('rm -rf target/release/.fingerprint/nmea-parser-* target/release/.fingerprint/nmea-harness-*', f'{d}/verif')
        rc, o = sh('cargo build --release --offline --locked -q', f'{d}/verif/harness', env=env)
        if rc != 0:
            with lock: print(i, 'BUILD', o[-400:], flush=True)
        else:
            for p in props:
                rc, o = sh(f'timeout 1000 {d}/verif/target/release/nmea-harness check {p}', f'{d}/verif', env=env)
                v = f'VIOLATION property={p} ' in o
                with lock:
                    if rc == 1 and v: print(i, 'CAUGHT by', p, flush=True)
                    elif rc == 0: print(i, 'QUIET' if i.endswith('.diff') else 'MISSED', p, flush=True)
                    else: print(i, 'ODD', p, rc, o[-300:], flush=True)
        sh('git checkout -q -- . && git clean -fdq src', f'{d}/repo')
q = queue.Queue()
for i in sys.argv[2:] or sorted(os.listdir('/verif/seeded')): q.put(i)
ts = [threading.Thread(target=run, args=(k, q)) for k in range(LANES)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(ROOT, ignore_errors=True)
