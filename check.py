#!/usr/bin/env python3
"""Decides one property: check.py PROP [--tier quick|thorough].

1. vx extracts /repo's current source together with the contracts into one
   Verus file; Verus discharges every obligation (T1, deciding).
2. The oracle looks for an input on which the real code and the reference
   disagree (T2): it supplies the failing input for a failed obligation, and it
   is the bounded stand-in for functions which T1 does not decide.
"""
import sys, os, re, json, time, subprocess, hashlib, fcntl, shutil, signal, threading, resource

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
SRC = REPO + '/src'
T0 = time.time()

PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--tier' in sys.argv:
    TIER = sys.argv[sys.argv.index('--tier') + 1]
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
OUT = f'{ROOT}/build/{PROP}'
os.makedirs(OUT, exist_ok=True)
os.makedirs(f'{ROOT}/evidence', exist_ok=True)
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
ENV.pop('RUSTFLAGS', None)


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout, **k):
    """Runs a command in a process group of its own, with a time limit."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                         start_new_session=True, env=ENV, **k)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


# ---------------------------------------------------------------- building

def lock(name):
    os.makedirs(f'{ROOT}/build', exist_ok=True)
    f = open(f'{ROOT}/build/{name}.lock', 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_vx():
    with lock('vx'):
        r, o, e = sh(['cargo', 'build', '--offline', '--release', '-q'], 600, cwd=f'{ROOT}/vx')
    return r == 0, e


def repo_hash():
    h = hashlib.sha256()
    fs = [f'{REPO}/Cargo.toml']
    for d, _, f in os.walk(SRC):
        fs += [f'{d}/{x}' for x in f]
    for f in sorted(fs):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def build_oracle():
    with lock('oracle'):
        t = f'{ROOT}/oracle/target'
        mark, now = f'{t}/src.sha256', repo_hash()
        old = open(mark).read() if os.path.exists(mark) else ''
        if old and old != now:
            # never trust time stamps of the checked code
            sh(['cargo', 'clean', '--offline', '--release', '-p', 'aseprite-loader', '-p', 'oracle'], 60, cwd=f'{ROOT}/oracle')
        if os.path.exists(mark):
            os.remove(mark)
        r, o, e = sh(['cargo', 'build', '--offline', '--release', '-q'], 600, cwd=f'{ROOT}/oracle')
        if r == 0:
            open(mark, 'w').write(now)
            shutil.copy(f'{t}/release/oracle', f'{OUT}/oracle')
    return r == 0, e


# ---------------------------------------------------------------- T1

VERDICT = [
    ('postcondition not satisfied', 'post'),
    ('precondition not satisfied', 'safety'),
    ('assertion failed', 'proof'),
    ('assertion failure', 'proof'),
    ('possible arithmetic underflow/overflow', 'safety'),
    ('possible division by zero', 'safety'),
    ('possible bit shift underflow/overflow', 'safety'),
    ('invariant not satisfied', 'inv'),
    ('loop invariant not', 'inv'),
    ('loop ensures not satisfied', 'inv'),
    ('decreases not satisfied', 'safety'),
    ('could not prove termination', 'safety'),
    ('unable to prove assertion safety condition', 'safety'),
    ('split', 'post'),
    ('requires not satisfied', 'safety'),
    ('Call to non-static function fails to satisfy', 'safety'),
    ('unable to prove post-condition of closure', 'post'),
]


def skeleton(t):
    """The places which the annotations of a function are attached to."""
    t = re.sub(r'//[^\n]*', '', t)
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    t = re.sub(r'"(\\.|[^"\\])*"', '""', t)
    out = []
    for m in re.finditer(r'\b(?:for\s+(.+?)\s+in\b|(while)\s+let\b|(while)\b|(loop)\s*\{)|\|([^|{};=<>]*)\|', t):
        if m.group(1):
            out.append('for ' + re.sub(r'\s+', '', m.group(1)))
        elif m.group(2):
            out.append('while let')
        elif m.group(3):
            out.append('while')
        elif m.group(4):
            out.append('loop')
    return out


class T1:
    def __init__(self):
        self.inlined = []
        self.ok = False          # the verifier gave an answer
        self.why = ''
        self.undecided = {}      # fn -> reason
        self.failed = []         # (fn, kind, label, message)
        self.success = set()     # functions all of whose obligations hold
        self.obl = {}            # fn -> number of obligations
        self.fns = {}
        self.dropped = []
        self.verified = 0
        self.smt_ms = 0
        self.cmd = ''
        self.rounds = 0
        self.retried = []
        self.lines = []
        self.out = ''

    def regions(self, path):
        self.lines = open(path).read().split('\n')
        reg, cur = [], None
        for i, l in enumerate(self.lines, 1):
            m = re.match(r'\s*/\*VXFN (.*?)\*/', l)
            if m:
                cur = (m.group(1), i)
            elif '/*VXEND*/' in l and cur:
                reg.append((cur[0], cur[1], i))
                cur = None
        return reg

    @staticmethod
    def find(reg, line):
        for k, a, b in reg:
            if a <= line <= b:
                return k
        return None

    def in_proof(self, s):
        """Does the span lie in a proof block?"""
        depth = 0
        n, col = s['line_start'] - 1, s['column_start'] - 1
        for i in range(n, max(n - 60, -1), -1):
            l = self.lines[i][:col] if i == n else self.lines[i]
            for j in range(len(l) - 1, -1, -1):
                if l[j] == '}':
                    depth += 1
                elif l[j] == '{':
                    if depth:
                        depth -= 1
                    elif re.search(r'\bproof\s*$', l[:j]):
                        return True
        return False

    def classify(self, o, e, reg):
        """Reads Verus' output: failed obligations and functions without a verdict."""
        diags = []
        for l in e.splitlines():
            if l.startswith('{'):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            res = json.loads(o[o.index('{'):])
        except ValueError:
            res = {}
        vr = res.get('verification-results', {})
        errs = [d for d in diags if d.get('level') == 'error' and not d['message'].startswith('aborting due to')]
        bad = {}     # fn -> reason: not a verdict
        fails = []
        glob = []
        for d in errs:
            kind = next((k for p, k in VERDICT if d['message'].startswith(p)), None)
            spans = d.get('spans', [])
            prim = [s for s in spans if s['is_primary']]
            order = [s for s in prim if s.get('label') not in ('failed precondition',)] + [s for s in spans if s not in prim] + prim
            fn = None
            for s in order:
                if os.path.basename(s['file_name']) == 'aseprite.rs':
                    fn = self.find(reg, s['line_start'])
                    if fn:
                        break
            if kind is None or vr.get('encountered-vir-error') or not vr or 'verified' not in vr:
                if fn:
                    bad.setdefault(fn, d['message'][:200])
                else:
                    glob.append(d['message'][:200])
            else:
                label = ''
                for s in prim:
                    m = re.search(r'/\*VXC (.*?)\*/', self.lines[s['line_start'] - 1])
                    if m and m.group(1).strip():
                        label = m.group(1).strip()
                if kind == 'safety' and any(self.in_proof(s) for s in prim):
                    kind = 'proof'     # a step of an argument, no execution depends on it
                text = ' '.join(t['text'].strip() for s in prim[:1] for t in s.get('text', [])[:2])
                fails.append((fn, kind, label, d['message'] + ': ' + text[:300], d.get('rendered', '')))
        for d in diags:
            if 'Resource limit' in d['message'] or 'rlimit' in d['message']:
                for s in d.get('spans', []):
                    fn = self.find(reg, s['line_start'])
                    if fn:
                        bad[fn] = 'resource limit'
        return vr, res.get('times-ms', {}).get('smt', {}).get('smt-run', 0), bad, fails, glob

    def retry(self, fails, bad, reg, limit):
        """Proof search is incomplete: functions with failed or undecided
        obligations are tried again with another random seed and more
        resources. A function is proved if one of the runs proves it."""
        again = {f[0] for f in fails if f[0]} | {k for k, v in bad.items() if v == 'resource limit'}
        if not again or limit < 20:
            return fails, bad
        mods = set()
        for k in again:
            m = []
            for s in k.split('::')[:-1]:
                if not re.match(r'[a-z_0-9]+$', s):
                    break
                m.append(s)
            mods.add('::'.join(m))
        cmd = 'verus aseprite.rs --output-json --multiple-errors 4 --error-format=json --rlimit 40 --smt-option smt.random_seed=7 --num-threads 8'.split()
        for m in sorted(mods):
            cmd += ['--verify-only-module', m]
        r, o, e = sh(cmd, limit, cwd=OUT)
        if r is None:
            return fails, bad
        vr, ms, bad2, fails2, glob = self.classify(o, e, reg)
        if not vr.get('verified') or vr.get('encountered-vir-error') or glob:
            return fails, bad
        self.retried = sorted(again)
        f1, f2 = {f[0] for f in fails}, {f[0] for f in fails2}
        keep = [f for f in fails if f[0] not in again]
        bad = {k: v for k, v in bad.items() if k not in again}
        for k in sorted(again):
            if k in f2:
                keep += [f for f in fails2 if f[0] == k]
            elif k in bad2:
                # no answer this time; a failure of the first run stands
                if k in f1:
                    keep += [f for f in fails if f[0] == k]
                else:
                    bad[k] = bad2[k]
        return keep, bad

    def run(self, limit):
        end = time.time() + limit
        base = {}
        bp = f'{ROOT}/contracts/baseline.json'
        if os.path.exists(bp):
            base = json.load(open(bp))
        rs = f'{OUT}/aseprite.rs'
        und = {}
        for rnd in range(14):
            self.rounds = rnd + 1
            left = end - time.time()
            if left < 15:
                self.why = 'time limit'
                return
            cmd = [f'{ROOT}/vx/target/release/vx', '--src', SRC, '--contracts', f'{ROOT}/contracts', '--out', rs]
            if und:
                cmd += ['--undecided', '|'.join(sorted(und))]
            r, o, e = sh(cmd, 60)
            if r != 0:
                self.why = 'extraction failed: ' + (e or o).strip()[-400:]
                return
            meta = json.load(open(rs + '.json'))
            self.fns, self.dropped = meta['fns'], meta['dropped']
            self.inlined = meta['inlined']
            lost = meta.get('lost') or {}
            if meta.get('missing'):
                for k in meta['missing']:
                    und.setdefault(k, 'function not found in the source')
            reg = self.regions(rs)
            self.cmd = 'verus aseprite.rs --output-json --time-expanded --multiple-errors 4 --error-format=json --log air --log-dir air --num-threads 8'
            air = f'{OUT}/air'
            shutil.rmtree(air, ignore_errors=True)
            r, o, e = sh(self.cmd.split(), min(left, 400), cwd=OUT)
            self.out = e
            if r is None:
                self.why = 'verifier time limit'
                return
            vr, smt, bad, fails, glob = self.classify(o, e, reg)
            new = {k: v for k, v in bad.items() if k not in und}
            compile_error = 'verified' not in vr or vr.get('encountered-vir-error') or not any(
                x for x in [vr.get('verified')] if x)
            if compile_error:
                if new:
                    for k, v in new.items():
                        und[k] = 'outside the verifier\'s subset: ' + v
                    continue
                self.why = 'no verdict: ' + '; '.join(glob or list(bad.values()) or [e[-300:]])
                return
            # a verdict
            self.ok = True
            for f in fails:
                if f[0] in lost:
                    und.setdefault(f[0], f'annotations do not fit any more: {lost[f[0]]}; {f[3]}')
            for k in bad:
                if k in lost:
                    und.setdefault(k, f'annotations do not fit any more: {lost[k]}; {bad[k]}')
            fails = [f for f in fails if f[0] not in und or f[0] is None]
            bad = {k: v for k, v in bad.items() if k not in und}
            fails, bad = self.retry(fails, bad, reg, min(150, end - time.time()))
            new = {k: v for k, v in bad.items() if k not in und}
            for k, v in new.items():
                und[k] = v
            self.verified = vr.get('verified', 0)
            self.smt_ms = smt
            self.count(air, reg)
            shutil.rmtree(air, ignore_errors=True)
            failing = set()
            for f in fails:
                failing.add(f[0])
            for k, v in self.fns.items():
                if v['external'] or k in und:
                    und.setdefault(k, 'no contract yet' if not v['lost'] else f'annotations do not fit any more: {v["lost"]}')
                    continue
                if v['undecided']:
                    und.setdefault(k, 'undecided')
                    continue
                if k not in failing:
                    self.success.add(k)
            for fn, kind, label, msg, rend in fails:
                if fn is None:
                    und['?'] = msg
                    continue
                v = self.fns.get(fn)
                if fn in und:
                    continue
                if not v or not v['contract']:
                    und[fn] = 'new or uncontracted function: ' + msg
                    continue
                b = base.get(fn)
                callees = [c for c in v['calls'] if c in self.fns and (not self.fns[c]['contract'] or c in und)]
                # methods are known by name only
                meth = {c[1:] for c in v['calls'] if c.startswith('.')}
                callees += [c for c, w in self.fns.items() if not w['contract'] and c.split('::')[-1] in meth]
                if b and skeleton(v['text']) != b['skeleton'] or b and v['closures'] != b['closures']:
                    und[fn] = 'control structure changed, the annotations may not fit: ' + msg
                elif re.search(r'\bvx[irs]\d', v['text']):
                    und[fn] = 'a helper was extracted from it and inlined again, the annotations may not fit: ' + msg
                elif callees and set(callees) - set((b or {}).get('open', [])):
                    und[fn] = f'calls functions without contract ({", ".join(callees)}): ' + msg
                else:
                    self.failed.append((fn, kind, label, msg, rend))
            self.success -= set(und)
            self.undecided = und
            return
        self.why = 'too many rounds'
        self.undecided = und

    def canary(self, limit):
        """Reachability: with a postcondition about a symbol of which nothing
        is known, every function has to fail. A function which does not has
        contradictory preconditions, invariants or assumed contracts."""
        d = f'{OUT}/canary'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cmd = [f'{ROOT}/vx/target/release/vx', '--src', SRC, '--contracts', f'{ROOT}/contracts', '--out', f'{d}/aseprite.rs', '--canary']
        und = [k for k in self.undecided if k != '?']
        if und:
            cmd += ['--undecided', '|'.join(sorted(und))]
        r, o, e = sh(cmd, 60)
        if r != 0:
            return None
        keep = self.lines
        reg = self.regions(f'{d}/aseprite.rs')
        has = {k for k, a, b in reg if any('/*VXC canary*/' in x for x in self.lines[a:b])}
        self.lines = keep
        r, o, e = sh('verus aseprite.rs --output-json --rlimit 3 --multiple-errors 1 --error-format=json --num-threads 8'.split(), limit, cwd=d)
        if r is None or '"verification-results"' not in o or '"encountered-vir-error": true' in o:
            return None
        hit = set()
        for l in e.splitlines():
            if l.startswith('{'):
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get('level') == 'error' or 'esource limit' in m.get('message', ''):
                    for s in m.get('spans', []):
                        hit.add(self.find(reg, s['line_start']))
        shutil.rmtree(d, ignore_errors=True)
        return {'functions': len(has), 'unreachable': sorted(has - hit)}

    def count(self, air, reg):
        """Obligations per function, from the queries Verus sends to the solver."""
        names = {}
        for k in self.fns:
            names.setdefault(re.sub(r'<.*', '', k), k)
        self.obl_total = 0
        by = {}
        if not os.path.isdir(air):
            return
        for f in os.listdir(air):
            if not f.endswith('.air'):
                continue
            cur, inq = '', False
            for l in open(f'{air}/{f}', errors='replace'):
                if l.startswith(';; Function-Def ') or l.startswith(';; Function-Termination '):
                    cur = l.split()[-1].split('::', 1)[-1]
                elif l.startswith('(check-valid'):
                    inq = True
                elif l.startswith('('):
                    inq = False
                elif l.startswith(';;'):
                    inq = False
                if inq:
                    n = l.count('(assert')
                    if n:
                        by[cur] = by.get(cur, 0) + n
        self.by = by
        self.obl_total = sum(by.values())
        for n, c in by.items():
            if n in names:
                self.obl[names[n]] = self.obl.get(names[n], 0) + c


# ---------------------------------------------------------------- T2

class T2:
    def __init__(self):
        self.ran = False
        self.why = ''
        self.stats = {}
        self.replay = None
        self.msg = ''

    def search(self, secs, seed, count=0, mult=1):
        d = f'{OUT}/search'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)

        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        cmd = [f'{OUT}/oracle', 'search', PROP, '--tier', TIER, '--seed', str(seed), '--out', d, '--secs', str(secs), '--src', SRC]
        if count:
            cmd += ['--count', str(count)]
        r, o, e = sh(cmd, secs + 90, preexec_fn=lim)
        self.ran = True
        st = [l for l in o.splitlines() if l.startswith('{')]
        if st:
            try:
                s = json.loads(st[0])
                for k in ('evaluations', 'distinct_nontrivial'):
                    s[k] += self.stats.get(k, 0)
                self.stats = s
            except ValueError:
                pass
        if r == 0:
            return False
        m = re.search(r'^FAILURE (.*)\n(.*)', o, re.M)
        if m:
            self.take(m.group(1), m.group(2))
            return True
        # the process died: find the case which kills it
        found = self.recover(d)
        if not found:
            self.why = f'oracle ended with {r}: {(e or o)[-300:]}'
            self.ran = bool(st)
        return found

    def take(self, path, msg):
        os.makedirs(f'{ROOT}/build/replay', exist_ok=True)
        self.replay = f'{ROOT}/build/replay/{PROP}.replay'
        shutil.copy(path, self.replay)
        self.msg = msg

    def recover(self, d):
        for f in sorted(os.listdir(d)):
            if not f.startswith('cur.'):
                continue
            b = open(f'{d}/{f}', 'rb').read()
            try:
                head = b.split(b'\n', 3)
                kind, params, n = head[0], head[1], int(head[2].split()[1])
                data = head[3][:n]
                if len(data) < n:
                    continue
            except (IndexError, ValueError):
                continue
            p = f'{d}/crash.replay'
            open(p, 'w').write(f'property {PROP}\nfailure the process is killed\n{kind.decode()}\n{params.decode()}\ndata {data.hex()}\n')
            r, o, e = sh([f'{OUT}/oracle', 'replay', p, PROP], 60)
            if r is not None and r < 0 and r != -signal.SIGKILL or r == 1:
                self.take(p, f'the process is killed by signal {-r}: {e.strip()[-200:]}' if r < 0 else o.strip()[:300])
                return True
        return False


# ---------------------------------------------------------------- verdict

def known():
    out = []
    p = f'{ROOT}/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (\S+)=(\S+) (.*)', l)
            if m and m.group(1) == PROP:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def assumed_contracts():
    """Everything the verified text assumes, scanned from it."""
    p = f'{OUT}/aseprite.rs'
    if not os.path.exists(p):
        return []
    t = open(p).read()
    out = {}
    for m in re.finditer(r'#\[verifier::external_body\]|\baxiom fn (\w+)|assume_specification(?:<[^\[]*)?\s*\[([^\n]*?)\] \(|uninterp spec fn (\w+)|\b(?:assume|admit)\(', t):
        ls = t.rfind('\n', 0, m.start()) + 1
        if t[ls:m.start()].strip().startswith('//'):
            continue
        if m.group(0).startswith('#['):
            n = re.search(r'\b(?:fn|struct|enum|type)\s+\w+', t[m.end():m.end() + 400])
            w = 'external_body ' + n.group(0)
        else:
            w = m.group(0).rstrip(' (')
        if re.search(r'fn clone$', w):
            w += ' (derived Clone returns an equal value)'
        out[w] = out.get(w, 0) + 1
    return [w if n == 1 else f'{w} ({n} times)' for w, n in out.items()]


def nom_bounded():
    """The contracts assumed for nom and std, bounded-checked by Kani on the
    source of nom. Says nothing about /repo and decides nothing."""
    with lock('kani'):
        r, o, e = sh(['cargo', 'kani', '--target-dir', f'{ROOT}/build/kani', '--output-format', 'terse', '-j', '4'],
                     900, cwd=f'{ROOT}/kani')
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', o or '')
    if not m:
        return 'no answer: ' + ((e or '') + (o or ''))[-300:]
    bad = re.findall(r'Verification failed for - (\S+)', o)
    for b in bad:
        log('note: an assumed contract does not describe the dependency (bounded model checking): ' + b)
    return {'back_end': 'Kani/CBMC', 'harnesses': int(m[3]), 'verified': int(m[1]), 'failed': bad,
            'bounds': 'inputs of 1 to 18 bytes per parser of a number, 6 bytes for take and tag, 3 bytes and 3 rounds for '
                      'count and many1; every table-defined parser as argument'}


def float_laws():
    """The laws of f64 assumed in shim.rs, discharged as theorems of the
    SMT-LIB theory of IEEE 754 numbers by two solvers."""
    out = {}
    ax = set(re.findall(r'axiom fn (ax_(?:add_comm|mul_comm|cmp_flip|cmp_num|num_\w+))', open(f'{ROOT}/contracts/shim.rs').read()))
    for name, cmd in (('cvc5', ['cvc5', '--incremental', '--tlimit=60000']), ('z3', ['z3-new', '-T:60'])):
        t = time.time()
        r, o, e = sh(cmd + [f'{ROOT}/contracts/f64_laws.smt2'], 70)
        got = dict(re.findall(r'^"?(ax_\w+)"?\n(\w+)', o or '', re.M))
        for a in sorted(ax):
            if got.get(a) != 'unsat':
                log(f'note: the law {a} of f64 is not discharged by {name}: {got.get(a)}')
        out[name] = {'laws': len(ax), 'discharged': sum(got.get(a) == 'unsat' for a in ax), 'seconds': round(time.time() - t, 2)}
    return out


def scope(fns):
    """The functions of this property, and those it relies upon: what they
    call, transitively, and those marked with ~ in the contracts."""
    direct = {k for k, v in fns.items() if PROP in v['props']}
    methods = {}
    for k in fns:
        methods.setdefault('.' + k.split('::')[-1].split('<')[0], set()).add(k)
    soft = {k for k, v in fns.items() if '~' + PROP in v['props']}
    todo = list(direct | soft)
    seen = set(todo)
    while todo:
        for c in fns[todo.pop()]['calls']:
            for k in {c} & fns.keys() | methods.get(c, set()):
                if k not in seen:
                    seen.add(k)
                    todo.append(k)
    return direct, {k for k in seen - direct if fns[k]['props']}


def main():
    t1, t2 = T1(), T2()
    okv, ev = build_vx()
    oko, eo = build_oracle()
    thorough = TIER == 'thorough'
    reach = []

    def prove():
        if not okv:
            t1.why = 'the extractor does not build: ' + ev[-300:]
            return
        try:
            t1.run(1200 if thorough else 420)
            if thorough and t1.ok:
                reach.append(t1.canary(600))
                for k in (reach[0] or {}).get('unreachable', []):
                    t1.success.discard(k)
                    t1.undecided.setdefault(k, 'vacuous: its end is not reachable under the contracts')
        except Exception as x:      # an unexpected output of the tools is not a verdict
            t1.ok = False
            t1.why = f'{type(x).__name__}: {x}'
    th = threading.Thread(target=prove)
    th.start()
    if oko:
        t2.search(600 if thorough else 60, SEED)
    else:
        t2.why = 'the oracle does not build against this tree: ' + eo[-600:]
    th.join()

    mine = []
    direct, soft = scope(t1.fns)
    if t1.ok:
        for fn, kind, label, msg, rend in t1.failed:
            ps = [p for p in t1.fns[fn]['props'] if p[0] != '~']
            safe = [p for p in ps if p in ('C01', 'C02')]
            func = [p for p in ps if p not in ('C01', 'C02')]
            want = safe or func if kind == 'safety' else func or safe
            if PROP in want:
                mine.append((fn, kind, label, msg, rend))
            elif fn in direct or fn in soft:
                # the failed obligation is about another property, but what
                # this one needs of the function may rest on it
                t1.undecided.setdefault(fn, f'an obligation of {"/".join(want)} fails: {msg}')
    kn = known()
    left = []
    for f in mine:
        hit = next((k for k in kn if k[0] == 'obligation' and k[1] in (f[0], f'{f[0]}/{f[2]}')), None)
        if hit:
            log(f'KNOWN-FINDING: property={PROP} {hit[2]}')
        else:
            left.append(f)
    mine = left
    rest = [k for k in t1.undecided if k in direct] if t1.ok else [t1.why]
    if (mine or rest) and not t2.replay and oko:
        # look longer for a failing input
        t2.search(300 if thorough else 75, SEED + 7919, count=(t2.stats.get('planned') or 100000) * 20)

    viol = 0
    mode = 'decided by the verifier'
    if t2.replay:
        viol = 1
        log(f'failing input: {t2.msg}')
        for f in mine:
            log(f'failed obligation: {f[0]} [{f[1]}{" " + f[2] if f[2] else ""}] {f[3]}')
        log(f'VIOLATION property={PROP} replay={t2.replay}')
    elif mine:
        viol = len(mine)
        os.makedirs(f'{ROOT}/build/replay', exist_ok=True)
        p = f'{ROOT}/build/replay/{PROP}.obligation.txt'
        with open(p, 'w') as o:
            for f in mine:
                o.write(f'failed obligation of {f[0]} ({f[1]}, clause {f[2] or "-"})\n{f[3]}\n{f[4]}\n')
        for f in mine:
            log(f'failed obligation: {f[0]} [{f[1]}{" " + f[2] if f[2] else ""}] {f[3]}')
        log(f'VIOLATION property={PROP} replay={p} no-failing-input-found')

    fns = {k: t1.fns[k] for k in direct | soft}
    contracted = sorted(k for k in direct if k in t1.success)
    relied = sorted(k for k in soft if k in t1.success)
    bounded = {k: t1.undecided[k] for k in sorted(fns) if k in t1.undecided}
    if not t1.ok:
        bounded = {'*': t1.why}
    elif '?' in t1.undecided:
        bounded['?'] = t1.undecided['?']
    if bounded:
        log('bounded stand-in (not proved) for: ' + '; '.join(f'{k} ({v[:160]})' for k, v in bounded.items()))
    if t2.why:
        log('note: ' + t2.why[:600])
    n = sum(t1.obl.get(k, 0) for k in fns if k not in bounded)
    d = sum(t1.obl.get(k, 0) for k in contracted + relied)
    if t1.ok:
        log(f'{PROP}: {len(contracted)} functions under contract and {len(relied)} relied upon, {d} of {n} obligations discharged by Verus/Z3 '
            f'(whole crate: {t1.obl_total} obligations, {t1.verified} queries, solver {t1.smt_ms} ms)')
    if t2.stats:
        log(f'{PROP}: oracle {t2.stats.get("evaluations")} cases, {t2.stats.get("distinct_nontrivial")} distinct and non-trivial')
    assumed = assumed_contracts()
    tested = {}
    if oko:
        r, o, e = sh([f'{OUT}/oracle', 'shims', str(SEED), '600000' if thorough else '15000'], 120)
        try:
            tested = json.loads(o.splitlines()[0])
        except (ValueError, IndexError):
            pass
        for l in (o or '').splitlines():
            if l.startswith('DIFFERENT'):
                log('note: an assumed contract does not describe the dependency: ' + l)
                tested.setdefault('different', []).append(l)
    nom = nom_bounded() if thorough else 'runs in the thorough tier'
    trusted = json.load(open(f'{ROOT}/contracts/trusted.json')) if os.path.exists(f'{ROOT}/contracts/trusted.json') else {}
    tb = trusted.get('base', [])
    ev = {
        'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'proof',
        'coverage': {
            'obligations': n, 'discharged': d,
            'checker_cmd': f'vx --src /repo/src --contracts /verif/contracts --out aseprite.rs && {t1.cmd}',
            'trusted_base': tb,
            'assumed_contracts': assumed,
            'assumed_contracts_tested_not_proved': tested,
            'assumed_contracts_model_checked_bounded_not_proved': nom,
            'assumed_laws_of_f64_discharged_in_the_theory_of_floating_point': float_laws() if PROP in ('C02', 'C13') else 'see C13',
            'reverified_after_solver_instability': sorted(t1.retried),
            'functions_under_contract': contracted,
            'functions_relied_upon_proved': relied,
            'reachability': reach[0] if reach and reach[0] else 'checked in the thorough tier',
            'bounded_not_proved': bounded,
            'whole_crate': {'obligations': getattr(t1, 'obl_total', 0), 'verified_queries': t1.verified,
                            'functions_under_contract': len(t1.success), 'solver_ms': t1.smt_ms, 'backend': 'Verus 0.2026.09.13 / Z3'},
            'dropped_by_extraction': t1.dropped,
            'helpers_inlined': t1.inlined,
            'extraction_notes': sorted({x for k in fns for x in fns[k]['notes']}),
            'evaluations': t2.stats.get('evaluations', 0),
            'distinct_nontrivial': t2.stats.get('distinct_nontrivial', 0),
            'rule': t2.stats.get('rule', ''),
            'samples': t2.stats.get('samples', []),
        },
        'assumptions': trusted.get(PROP, []) + trusted.get('all', []),
        'wall_s': round(time.time() - T0, 1), 'violations': viol,
    }
    json.dump(ev, open(f'{ROOT}/evidence/{PROP}.json', 'w'), indent=1)
    sys.exit(1 if viol else 0)


def baseline():
    """Records the control structure the annotations were written for."""
    build_vx()
    t = T1()
    bp = f'{ROOT}/contracts/baseline.json'
    if os.path.exists(bp):
        os.remove(bp)
    t.run(600)
    assert t.ok, t.why
    b = {}
    for k, v in sorted(t.fns.items()):
        if v['contract'] and k in t.success:
            b[k] = {'skeleton': skeleton(v['text']), 'closures': v['closures'],
                    'open': sorted(c for c in v['calls'] if c in t.fns and (not t.fns[c]['contract'] or c in t.undecided))}
    json.dump(b, open(bp, 'w'), indent=0, sort_keys=True)
    print(len(b), 'functions;', len(t.undecided), 'undecided;', t.failed)
    for k, v in t.undecided.items():
        print('  undecided', k, v[:200])


if __name__ == '__main__':
    baseline() if PROP == 'baseline' else main()
