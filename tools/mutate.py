#!/usr/bin/env python3
"""mutate.py [lanes] [filter]: mechanical mutants of /repo/src in scratch copies; those that compile and pass the
repository's tests go through the checks of the properties their file is about. Results in /tmp/mut/results.jsonl."""
import os, re, subprocess, sys, json, shutil, random, threading, queue
LANES = int(sys.argv[1]) if len(sys.argv) > 1 else 3
FILT = sys.argv[2] if len(sys.argv) > 2 else ''
ROOT = '/tmp/mut'
SEED = int(os.environ.get('MUTSEED', '1'))
CAP = int(os.environ.get('MUTCAP', '100000'))
MAP = {
 'ais/vdm_t1t2t3.rs': 'C10 C20 C01 C22', 'ais/vdm_t4.rs': 'C12 C20 C01 C22', 'ais/vdm_t5.rs': 'C13 C19 C20 C01 C22',
 'ais/vdm_t6.rs': 'C14 C01', 'ais/vdm_t9.rs': 'C15 C01', 'ais/vdm_t10.rs': 'C14 C01', 'ais/vdm_t18.rs': 'C11 C01',
 'ais/vdm_t21.rs': 'C16 C19 C20 C01 C22', 'ais/vdm_t24.rs': 'C17 C08 C19 C02 C09 C01 C22', 'ais/vdm_t27.rs': 'C18 C20 C01',
 'ais/vdm_t19.rs': 'C05', 'ais/mod.rs': 'C20 C21 C28 C04 C10 C18 C26',
 'gnss/gga.rs': 'C25 C23 C24 C27 C01', 'gnss/gll.rs': 'C25 C23 C24 C27 C01', 'gnss/rmc.rs': 'C25 C23 C24 C27 C01',
 'gnss/gsa.rs': 'C26 C27 C01', 'gnss/vtg.rs': 'C26 C27 C01', 'gnss/gsv.rs': 'C07 C27 C02 C01 C09', 'gnss/mod.rs': 'C25 C04 C26 C28',
 'util.rs': 'C23 C24 C27 C25 C10 C19 C13 C12 C05 C22 C02 C01', 'lib.rs': 'C05 C03 C04 C06 C08 C09 C07 C02 C01 C22', 'error.rs': 'C05',
}
def code_lines(src):
    out = []; com = False
    for i, l in enumerate(src):
        if l.startswith('/*'): com = True
        if com:
            com = '*/' not in l
            continue
        if l.startswith('#[cfg(test)]') or l.startswith('mod test'): break
        s = l.strip()
        if s.startswith('//') or s.startswith('#'): continue
        out.append(i)
    return out
def mutants(src):
    r = []
    def add(i, a, b, new, what): r.append((i, src[i][:a] + new + src[i][b:], what))
    for i in code_lines(src):
        l = src[i]; code = l.split('//')[0]
        instr = [False]*(len(code)+1); q = False
        for k, c in enumerate(code):
            if c == '"' and (k == 0 or code[k-1] != '\\'): q = not q
            instr[k] = q
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.]|\.\d)', code):
            if instr[m.start()]: continue
            v = int(m.group(1))
            for n in ([v+1, v-1] if v > 0 else [1]): add(i, m.start(), m.end(), str(n), f'{v}->{n}')
        for m in re.finditer(r'(?<![\w.])(\d+\.\d+)', code):
            if instr[m.start()]: continue
            add(i, m.start(), m.end(), str(float(m.group(1))*1.5+ (1.0 if float(m.group(1))==0 else 0)), 'float*1.5')
        for a, bs in {'==':['!='], '!=':['=='], '<=':['<'], '>=':['>'], '&&':['||'], '||':['&&']}.items():
            for m in re.finditer(re.escape(a), code):
                if instr[m.start()]: continue
                for b in bs: add(i, m.start(), m.end(), b, a+'->'+b)
        for a, bs in {' < ':[' <= ',' > '], ' > ':[' >= ',' < '], ' + ':[' - '], ' - ':[' + '], ' * ':[' / '], ' / ':[' * '], ' % ':[' / '], ' & ':[' | '], ' << ':[' >> ']}.items():
            for m in re.finditer(re.escape(a), code):
                if instr[m.start()]: continue
                for b in bs: add(i, m.start(), m.end(), b, a+'->'+b)
        for a, b in (('true','false'),('false','true')):
            for m in re.finditer(r'\b'+a+r'\b', code):
                if not instr[m.start()]: add(i, m.start(), m.end(), b, a+'->'+b)
        for m in re.finditer(r'(?<![\w\)])!(?=[\w\(])', code):
            if not instr[m.start()]: add(i, m.start(), m.end(), '', 'drop !')
        for m in re.finditer(r"'([^'\\])'", code):
            add(i, m.start(), m.end(), "'" + ('Z' if m.group(1) != 'Z' else 'Y') + "'", 'char')
        for m in re.finditer(r'"([^"]+)"', code):
            if 'error' in code.lower() or 'write!' in code or 'format!' in code or '#' in code: 
                pass
            add(i, m.start(), m.end(), '"' + m.group(1)[:-1] + ('Z' if m.group(1)[-1] != 'Z' else 'Y') + '"', 'string')
        m = re.match(r'^(\s*)(?:\} else )?if (?!let)(.*) \{$', code.rstrip())
        if m:
            p = code.index('if ') + 3; e = code.rstrip().rindex(' {')
            add(i, p, e, 'true', 'if true'); add(i, p, e, 'false', 'if false')
        m = re.match(r'^(\s*)(?!let |use |pub |return|type |fn |mod |\})(\S.*;)\s*$', code)
        if m and code.count('(') == code.count(')') and '{' not in code: add(i, len(m.group(1)), len(code.rstrip()), '', 'delete statement')
        for m in re.finditer(r'\.(trim|trim_end|trim_start|rev|abs|to_uppercase|to_lowercase|ok)\(\)', code):
            add(i, m.start(), m.end(), '', 'drop '+m.group(0))
        for m in re.finditer(r'\bSome\(', code):
            d = 0
            for k in range(m.end()-1, len(code)):
                d += code[k] == '('; d -= code[k] == ')'
                if d == 0:
                    if '=>' not in code[k:]: add(i, m.start(), k+1, 'None', 'Some->None')
                    break
        for m in re.finditer(r'^\s+(\w+): (.*),$', code):
            pass
    return r
def sh(cmd, cwd, timeout=1200, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
def lane_setup(k):
    d = f'{ROOT}/lane{k}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(f'cp -a /repo {d}/repo && mkdir -p {d}/verif/evidence {d}/verif/replays && cp -a /verif/harness {d}/verif/harness && cp /verif/*.json* {d}/verif/ && mkdir {d}/verif/target && cp -a /verif/target/release {d}/verif/target/release', shell=True, check=True)
    for root, _, fs in os.walk(f'{d}/verif/harness'):
        for f in fs:
            if f.endswith(('.rs', '.toml', '.sh')):
                p = os.path.join(root, f); s = open(p).read()
                s2 = s.replace('"/verif"', f'"{d}/verif"').replace('"/repo', f'"{d}/repo').replace('/verif/harness', f'{d}/verif/harness').replace('SHRINK_S: i64 = 15', 'SHRINK_S: i64 = 0').replace('Some(now + 20.0)', 'Some(now)')
                s2 = re.sub(r'path = "/repo"', f'path = "{d}/repo"', s2)
                if s2 != s: open(p, 'w').write(s2)
    return d
lock = threading.Lock()
def run(d, q, out):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable')
    henv = dict(env, RUSTC_WRAPPER=f'{d}/verif/harness/rustc-wrapper.sh', CARGO_TARGET_DIR=f'{d}/verif/target', VERIF_SEED='1', VERIF_TIER='quick')
    while True:
        try: f, i, new, what, old = q.get_nowait()
        except queue.Empty: return
        path = f'{d}/repo/src/{f}'
        orig = open(path).read()
        lines = orig.split('\n'); lines[i] = new
        open(path, 'w').write('\n'.join(lines))
        rec = dict(file=f, line=i+1, what=what, old=old.strip(), new=new.strip())
        try:
            rc, o = sh('timeout 300 cargo test --offline -q', f'{d}/repo', env=env)
            if rc != 0: rec['status'] = 'nocompile' if 'could not compile' in o else 'tests'
            else:
                sh('rm -rf target/release/.fingerprint/nmea-parser-* target/release/.fingerprint/nmea-harness-*', f'{d}/verif')
                rc, o = sh('cargo build --release --offline --locked -q', f'{d}/verif/harness', env=henv)
                if rc != 0: rec['status'] = 'harness-build'; rec['o'] = o[-500:]
                else:
                    rec['status'] = 'SURVIVED'; rec['bad'] = []
                    for p in MAP[f].split():
                        rc, o = sh(f'timeout 800 {d}/verif/target/release/nmea-harness check {p}', f'{d}/verif', env=henv)
                        if rc == 1 and 'VIOLATION' in o: rec['status'] = 'caught'; rec['by'] = p; break
                        if rc != 0: rec['bad'].append([p, rc, o[-300:]])
        finally:
            open(path, 'w').write(orig)
        with lock:
            out.write(json.dumps(rec) + '\n'); out.flush()
def main():
    os.makedirs(ROOT, exist_ok=True)
    work = []
    for f in MAP:
        if FILT and not re.search(FILT, f): continue
        src = open('/repo/src/'+f).read().split('\n')
        ms = mutants(src)
        # long tables: a sample
        for (i, new, what) in ms: work.append((f, i, new, what, src[i]))
    rng = random.Random(SEED); rng.shuffle(work)
    # at most 40 country table mutants
    n = 0; w2 = []
    for w in work:
        if w[0] == 'ais/mod.rs' and re.match(r'^\s*\d+.*=> "?(Some\()?"', w[4]):
            n += 1
            if n > 5: continue
        if 'write!' in w[4] and w[3] == 'string' : continue
        w2.append(w)
    work = w2[:CAP]
    if len(sys.argv) > 3 and sys.argv[3] == 'list':
        from collections import Counter
        print(len(work), Counter(w[0] for w in work)); return
    q = queue.Queue()
    for w in work: q.put(w)
    print(len(work), 'mutants', flush=True)
    dirs = [lane_setup(k) for k in range(LANES)]
    with open(f'{ROOT}/results.jsonl', 'a') as out:
        ts = [threading.Thread(target=run, args=(d, q, out)) for d in dirs]
        [t.start() for t in ts]; [t.join() for t in ts]
main()
