#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property: extracts the functions under contract from /repo's working tree (go2verus), has Verus
discharge every obligation, and runs the failing-input search against the real code.  Exit 0: all obligations
discharged, no failing input.  Exit 1: a VIOLATION line.  See DESIGN.md.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DAWG_REPO', '/repo')
sys.path.insert(0, V)
from props import PROPS, ASSUMPTIONS

T0 = time.time()
PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
P = PROPS[PID]
DEADLINE = T0 + (800 if TIER == 'quick' else 3300)

env = dict(os.environ)
env.update(PATH='/opt/veriftools/go1.27.3/bin:' + env.get('PATH', '/usr/bin:/bin'), GOFLAGS='-mod=mod', GOTOOLCHAIN='local',
           GOPROXY='off', GOWORK='off', CGO_ENABLED='0', GOCACHE=os.path.join(V, 'build', 'gocache'), GORACE='halt_on_error=1 exitcode=66')
env.setdefault('HOME', '/root')


def die(msg):
    print('check error:', msg, file=sys.stderr)
    sys.exit(2)


def run(cmd, timeout=None, cwd=None):
    """Runs cmd; returns (rc, stdout, stderr); rc is None on a timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


# ---------------------------------------------------------------- the failing-input search

class Search:
    def __init__(self, scratch):
        self.bin = os.path.join(scratch, 'harness')
        self.scratch = scratch
        src = os.path.join(scratch, 'hsrc')
        shutil.copytree(os.path.join(V, 'harness'), src)
        with open(os.path.join(src, 'go.mod')) as f:
            s = f.read()
        with open(os.path.join(src, 'go.mod'), 'w') as f:
            f.write(re.sub(r'=> \S+', '=> ' + REPO, s))
        rc, o, e = run(['go', 'build', '-o', self.bin, '.'], cwd=src, timeout=300)
        if rc != 0:
            die('the repository does not build with the search: ' + e[-2000:])
        self.runs = []
        self.race = None
        if P.get('race'):
            b = os.path.join(scratch, 'harness-race')
            e2 = dict(env, CGO_ENABLED='1', CGO_CFLAGS='-O1')
            p = subprocess.run(['go', 'build', '-race', '-o', b, '.'], cwd=src, env=e2, capture_output=True, text=True)
            if p.returncode == 0 and subprocess.run([b, '-prop', PID, '-time', '1s', '-rounds', '1', '-j', '1', '-repo', '/nonexistent'], capture_output=True).returncode in (0, 1, 66):
                self.race = b

    def search(self, seconds, rounds=0, heavy=False, seed=None, prop=None, race=False):
        if race and not self.race:
            return None
        bin_ = self.race if race else self.bin
        prop = prop or PID
        out = os.path.join(self.scratch, 'res.json')
        cur = os.path.join(self.scratch, 'cur')
        shutil.rmtree(cur, ignore_errors=True)
        os.mkdir(cur)
        if os.path.exists(out):
            os.unlink(out)
        j = '1' if prop in ('C08', 'C09') or race else '8'
        cmd = [bin_, '-prop', prop, '-time', '%ds' % seconds, '-rounds', str(rounds), '-seed', str(SEED if seed is None else seed), '-j', j,
               '-repo', REPO, '-cur', cur, '-o', out]
        if heavy:
            cmd.append('-heavy')
        rc, o, e = run(cmd, timeout=seconds + 120)
        if rc in (0, 1) and os.path.exists(out):
            r = json.load(open(out))
            r['race'] = race
            self.runs.append(r)
            return r if r['violation'] else None
        # the process died (stack overflow, out of memory, ...): find the case that does it
        for f in sorted(os.listdir(cur)):
            rc2, o2, e2 = run([bin_, '-prop', prop, '-repo', REPO, '-replay', os.path.join(cur, f)], timeout=90)
            if rc2 != 0:
                r = {'violation': True, 'property': prop, 'case': json.load(open(os.path.join(cur, f)))['case'],
                     'detail': ('the race detector stops it: ' if 'DATA RACE' in e2 else 'the process crashes or hangs: ') + (e2 or o2)[:1500], 'evaluations': 0, 'distinct_nontrivial': 0, 'checks': 0, 'samples': [], 'per_gen': {}, 'seconds': 0}
                self.runs.append(r)
                return r
        die('the search ended abnormally (rc=%s): %s' % (rc, e[-1500:]))


# ---------------------------------------------------------------- extraction and proof

def build_extractor():
    os.makedirs(os.path.join(V, 'build'), exist_ok=True)
    b = os.path.join(V, 'build', 'go2verus')
    rc, o, e = run(['go', 'build', '-o', b, '.'], cwd=os.path.join(V, 'go2verus'), timeout=300)
    if rc != 0:
        die('go2verus does not build: ' + e[-2000:])
    return b


class Unextractable(Exception):
    pass


class Proof:
    """One run of extraction + Verus over a set of contract files."""

    def __init__(self, extractor, scratch, specs):
        self.specs, self.scratch, self.extractor = specs, scratch, extractor
        self.failed = {}      # obligation (function) -> reason
        self.fns = []
        self.items = {}       # verus function -> (ok, micros)
        self.rep = {}
        self.text = ''
        self.out = ''
        self.wall = 0.0
        self.cmd = ''

    def extract(self, name, extra=()):
        rs = os.path.join(self.scratch, name + '.rs')
        files = [os.path.join(V, 'specs', 'common.vs')] + [os.path.join(V, 'specs', s + '.vs') for s in self.specs]
        rc, o, e = run([self.extractor, '-repo', REPO, '-specs', ','.join(files), '-prelude', os.path.join(V, 'specs', 'prelude.rs'), '-base', os.path.join(V, 'specs', 'base.json'),
                        '-o', rs, '-report', os.path.join(self.scratch, name + '.json')] + list(extra), timeout=120)
        if rc != 0:
            if rc == 3:
                die('the repository does not type-check: ' + e[-1500:])
            raise Unextractable(e[-2000:])
        return rs, json.load(open(os.path.join(self.scratch, name + '.json')))

    def region(self, line):
        for r in self.rep['regions']:
            if r['from'] <= line <= r['to']:
                return r
        return None

    def raw_name(self, line):
        for i in range(min(line, len(self.lines)), 0, -1):
            m = re.search(r'\b(?:proof |spec |open spec |broadcast proof )?fn (\w+)', self.lines[i - 1])
            if m:
                return m.group(1)
        return '?'

    def verus(self, rs, rlimit, timeout, extra=()):
        cmd = ['verus', rs, '--output-json', '--time-expanded', '--rlimit', str(rlimit), '--multiple-errors', '3', '--triggers-mode', 'silent', '--num-threads', '8'] + list(extra)
        self.cmd = 'go2verus -repo /repo -specs %s && %s' % (','.join(['common'] + self.specs), ' '.join(os.path.basename(c) if c == rs else c for c in cmd))
        t = time.time()
        rc, o, e = run(cmd, timeout=timeout, cwd=self.scratch)
        self.wall += time.time() - t
        return rc, o, e

    def attempt(self, rs, rlimit, timeout, extra=()):
        """Returns (failed: fn -> reason, items: verus fn -> (ok, micros), frontend_error)."""
        rc, o, e = self.verus(rs, rlimit, timeout, extra)
        self.out = e[-20000:]
        failed, items = {}, {}
        if rc is None:
            return {'(time limit)': 'the verifier did not finish within %d s' % timeout}, {}
        try:
            js = json.loads(o[o.index('{'):])
        except ValueError:
            js = {}
        for blk in re.split(r'\n(?=error)', '\n' + e):
            m = re.match(r'\n?error[^:\n]*: (.*)', blk)
            if not m:
                continue
            loc = re.search(r'--> \S+?:(\d+):\d+', blk)
            msg = m.group(1)
            if msg.startswith('aborting due to') or 'verification results' in msg:
                continue
            name = '(crate)'
            if loc:
                ln = int(loc.group(1))
                r = self.region(ln)
                if r is None:
                    name = 'prelude:' + self.raw_name(ln)
                elif r['fn']:
                    name = r['fn']
                else:
                    name = r['module'] + '::' + self.raw_name(ln)
            src = re.findall(r'^\s*\d+ \|\s*(.*)$', blk, re.M)
            failed.setdefault(name, msg + (' -- ' + src[0].strip()[:160] if src else ''))
        mods = js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', [])
        for md in mods:
            for f in md.get('function-breakdown', []):
                ok, us = items.get(f['function'], (True, 0))
                items[f['function']] = (ok and f['success'], us + f['time-micros'])
        res = js.get('verification-results', {})
        self.verified, self.errors = res.get('verified', 0), res.get('errors', 0)
        if not failed and not res.get('success'):
            failed['(crate)'] = 'verus reports no success: ' + e[-600:]
        if not failed and self.verified == 0:
            failed['(crate)'] = 'no obligations were generated'
        return failed, items

    def go(self):
        try:
            rs, self.rep = self.extract('crate')
        except Unextractable as x:
            self.rep = {'functions': [], 'errors': {}, 'trusted': {}, 'regions': [], 'inlined': [], 'shared': []}
            self.failed = {'(extraction)': 'the extraction does not cope with the source: ' + str(x)}
            self.out = str(x)
            return self
        self.text = open(rs).read()
        self.lines = self.text.split('\n')
        self.fns = self.rep['functions'] or []
        pre = {}
        for k, v in (self.rep['errors'] or {}).items():
            if not k.startswith('type '):
                pre[k] = 'outside the extractable subset: ' + v
        left = lambda: max(30, min(420 if TIER == 'quick' else 1500, DEADLINE - 300 - time.time()))
        rl = P.get('rlimit', 60)
        failed, items = self.attempt(rs, rl, left())
        if failed and not pre and items and '(time limit)' not in failed and DEADLINE - 330 - time.time() > 120:
            # a solver may give up for no semantic reason: once more, with more effort and another seed
            f2, i2 = self.attempt(rs, rl * 3, left(), ['--smt-option', 'smt.random_seed=%d' % (SEED + 7)])
            if len(f2) == 0:
                failed, items = f2, i2
            else:
                failed = {k: v for k, v in failed.items() if k in f2} or f2
                for k, (ok, us) in i2.items():
                    o2, u2 = items.get(k, (False, 0))
                    items[k] = (ok or o2, us + u2)
        self.failed = dict(pre)
        self.failed.update(failed)
        self.items = items
        return self

    def probe(self):
        """Vacuity: with assert(false) at the entry of every function under contract, every one must fail."""
        rs, rep = self.extract('probe', ['-probe'])
        save = self.rep, self.lines, self.out, self.cmd, self.verified
        self.rep, self.lines = rep, open(rs).read().split('\n')
        failed, _ = self.attempt(rs, 20, 300)
        self.rep, self.lines, self.out, self.cmd, self.verified = save
        skip = set(rep['trusted'] or {})
        return [f for f in (rep['functions'] or []) if f not in failed and f not in skip]


def scan_trusted(specs):
    """Every unchecked item in the contract files and the prelude."""
    out = []
    for f in ['prelude.rs', 'common.vs'] + [s + '.vs' for s in specs]:
        txt = open(os.path.join(V, 'specs', f)).read().split('\n')
        for i, l in enumerate(txt):
            if re.search(r'\b(assume|admit)\s*\(', l) and not l.strip().startswith('//'):
                out.append('%s: %s' % (f, l.strip()[:120]))
            if 'external_body' in l or re.search(r'\buninterp\b', l):
                for j in range(i, min(i + 4, len(txt))):
                    m = re.search(r'\bfn (\w+)', txt[j])
                    if m:
                        out.append('%s: %s (%s)' % (f, m.group(1), 'assumed contract' if 'external_body' in l else 'uninterpreted'))
                        break
            m = re.match(r'\s*@trusted (.*)', l)
            if m:
                out.append('%s: @trusted %s' % (f, m.group(1)))
    return out


def main():
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='dawgcheck.')
    try:
        return decide(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(scratch):
    ex = build_extractor()
    se = Search(scratch)
    first = {}

    def background():
        try:
            q = TIER == 'quick'
            if se.race:
                first['r'] = se.search(20 if q else 200, rounds=3 if q else 0, race=True)
                if first['r']:
                    return
            first['r'] = se.search(P.get('quick_s', 25) if q else P.get('thorough_s', 600), rounds=P.get('quick_rounds', 2) if q else 0, heavy=P.get('heavy', True))
        except SystemExit:
            first['err'] = True

    proof = Proof(ex, scratch, P['specs'] if TIER == 'quick' else P.get('whole', P['specs'])) if P['specs'] else None
    if proof and TIER == 'quick':
        th = threading.Thread(target=background)
        th.start()
        proof.go()
        th.join()
    elif proof:
        proof.go()
        background()
    else:
        background()
    if first.get('err'):
        sys.exit(2)
    viol = first.get('r')
    vac = None
    if proof and not proof.failed:
        vac = proof.probe()
        for f in vac:
            proof.failed[f] = 'vacuity probe: the precondition of %s is contradictory' % f
    if proof and proof.failed and not viol:
        budget = min(330 if TIER == 'quick' else 1200, DEADLINE - time.time() - 40)
        if budget > 10:
            viol = se.search(int(budget), heavy=True, seed=SEED + 1000)
    # ---- report
    wall = time.time() - T0
    cov = {}
    ev = {'property': PID, 'tier': TIER, 'seed': SEED, 'level': P['level'], 'coverage': cov, 'assumptions': list(ASSUMPTIONS) + P.get('assumptions', []),
          'wall_s': round(wall, 2), 'violations': 0}
    srch = {'role': P.get('search_role', 'cross-check of the extraction and source of failing inputs; not the deciding step'),
            'evaluations': sum(r['evaluations'] for r in se.runs), 'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in se.runs),
            'comparisons': sum(r['checks'] for r in se.runs), 'samples': (se.runs[0]['samples'] if se.runs else [])[:3],
            'race_detector': any(r.get('race') for r in se.runs), 'per_generator': (se.runs[0]['per_gen'] if se.runs else {}), 'seconds': round(sum(r['seconds'] for r in se.runs), 2)}
    rule = 'cases are key/value sets (or strings) drawn by generator and seed, run through the public API and compared with a sorted map; non-trivial: at least two keys (or two code points), distinct by content'
    if proof:
        n = len(proof.items)
        d = sum(1 for ok, _ in proof.items.values() if ok)
        cov.update(obligations=max(n, len(proof.failed)), discharged=d, checker_cmd=proof.cmd, trusted_base=scan_trusted(proof.specs),
                   back_end='Verus 0.2026.09.13 / Z3', functions_under_contract=[f for f in proof.fns if f not in (proof.rep['trusted'] or {})],
                   functions_inlined=proof.rep.get('inlined') or [], shared_references=proof.rep.get('shared') or [],
                   solver_seconds=round(sum(us for _, us in proof.items.values()) / 1e6, 2), verifier_wall_s=round(proof.wall, 2),
                   lemmas=sorted(k.split('::', 1)[-1] for k in proof.items if '::prop_' in k), vacuity_probe='every precondition reachable' if vac == [] else str(vac),
                   failed={k: v for k, v in proof.failed.items()}, search=srch)
        if P.get('whole'):
            cov['composition'] = 'quick: proved for every dictionary that holds an automaton (lays), which C01 proves of every built one; thorough: the whole chain from insertion (%s)' % ', '.join(P['whole'])
        if P.get('bounded'):
            cov['bounded_parts'] = P['bounded']
        if P['level'] != 'proof':
            cov.update(evaluations=srch['evaluations'], distinct_nontrivial=srch['distinct_nontrivial'], rule=rule, samples=srch['samples'],
                       explanation=P.get('explanation', ''))
    else:
        cov.update(evaluations=srch['evaluations'], distinct_nontrivial=srch['distinct_nontrivial'], rule=rule, samples=srch['samples'],
                   explanation=P.get('explanation', ''), search=srch)
    rc = 0
    if viol or (proof and proof.failed):
        rc = 1
        ev['violations'] = 1
        os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
        body = {'property': PID, 'failed_obligations': proof.failed if proof else {}, 'failing_input': None, 'case': None,
                'replay_cmd': None, 'verifier_output': proof.out if proof and proof.failed else ''}
        if viol:
            body.update(failing_input=viol['detail'], case=viol['case'],
                        replay_cmd='cd /verif/harness && go run . -prop %s -replay <this file>' % PID)
        s = json.dumps(body, indent=1)
        path = os.path.join(V, 'replay', '%s-%s.json' % (PID, hashlib.sha256(s.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(s)
        if proof:
            for k, v in proof.failed.items():
                print('failed obligation: %s: %s' % (k, v))
        if viol:
            print('failing input: %s' % viol['detail'][:600])
        print('VIOLATION property=%s replay=%s%s' % (PID, path, '' if viol else ' no-failing-input-found'))
    else:
        for l in open(os.path.join(V, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) (.*)', l)
            if m and m.group(1) == PID:
                print('KNOWN-FINDING: property=%s %s' % (PID, m.group(2)))
        what = ('%d obligations discharged over %d functions under contract (%.1f s solver); ' % (cov['discharged'], len(cov['functions_under_contract']), cov['solver_seconds'])) if proof else ''
        print('%s holds: %s%d cases searched, %.0f s' % (PID, what, srch['evaluations'], wall))
    with open(os.path.join(V, 'evidence', PID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return rc


sys.exit(main())
