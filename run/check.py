#!/usr/bin/env python3
"""Decides one property of /repo.

  check.py CXX           quick run (VERIF_TIER=thorough for the thorough one)
  check.py --setup       builds the extractor and the harness

1. extracts the functions under contract from /repo's working tree (extractor/) and joins them with
   the contracts (proof/contracts/*.vc), the library contracts (proof/prelude.rs) and the
   specification functions and lemmas (proof/specs.rs) into one Verus file;
2. has Verus discharge every obligation; functions the extractor or Verus' front end cannot take are
   set aside ("degraded") and only covered by the bounded check;
3. runs the bounded check of the same property on the real crates (harness/).

exit 0: all obligations of the property discharged (or set aside) and no failing input found
exit 1: VIOLATION line
"""
import fcntl, json, os, re, resource, subprocess, sys, threading, time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import model

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
EXTRACTOR = VERIF + '/extractor/target/release/extractor'
HARNESS = VERIF + '/harness/target/release/harness'
T0 = time.time()
# seconds after which no new attempt at a proof starts: what is open then is decided by the bounded check
LIMIT = 3000 if os.environ.get('VERIF_TIER') == 'thorough' else 450
HEADER = '''#![verifier::allow(autoderive_clone_without_spec)]
#![verifier::loop_isolation(false)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case)]
use vstd::prelude::*;
use std::rc::Rc;
use std::marker::PhantomData;
verus!{
'''
FOOTER = '\n}\nfn main(){}\n'
VERUS = ['verus', '--triggers-mode', 'silent', '--no-trait-conflicts', '--output-json', '--time-expanded', '--error-format=json']
# messages of Verus that mean: this obligation was not proved
PROOF = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'possible arithmetic',
         'possible division', 'invariant not satisfied', 'loop invariant', 'decreases not satisfied', 'could not prove',
         'not satisfied', 'possible bit shift', 'unable to prove', 'must have a decreases', 'cannot prove', 'unreachable',
         'split assertion failure', 'split precondition failure', 'split postcondition failure', 'could not be proved')
NOANSWER = ('rlimit', 'Resource limit', 'spinning', 'timed out', 'timeout', 'canceled')


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def left(limit):
    """seconds until the limit, but always a little"""
    return max(15, limit - (time.time() - T0))


def sh(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    def lim():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=lim, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return -1000, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


def cargo(crate, locked=True):
    env = dict(os.environ)
    env.pop('RUSTFLAGS', None)
    env['CARGO_NET_OFFLINE'] = 'true'
    for _ in range(2):
        rc, o, e = sh(['cargo', 'build', '--release', '--offline'], timeout=600, cwd=VERIF + '/' + crate, env=env)
        if rc == 0:
            return True, ''
    return False, e


def prepare():
    """extractor and harness, built from the committed sources and /repo's working tree"""
    os.makedirs(VERIF + '/build', exist_ok=True)
    res = {}
    with open(VERIF + '/build/lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        ts = [threading.Thread(target=lambda c=c: res.__setitem__(c, cargo(c))) for c in ('extractor', 'harness')]
        [t.start() for t in ts]
        [t.join() for t in ts]
    return res


class Proof:
    """one Verus run over the extracted text"""

    def __init__(self, work, prop=None):
        self.work, self.prop = work, prop
        self.degraded = {}      # key -> reason
        self.report = []
        self.failures = []      # {key, props, message, clause, rendered}
        self.undecided = {}     # key -> reason
        self.fatal = None
        self.verified = 0
        self.smt_ms = 0
        self.solver_ms = 0
        self.cmd = ''
        self.vacuous = None

    def extract(self):
        ex, rep = self.work + '/ex.rs', self.work + '/report.json'
        for f in (ex, rep):
            if os.path.exists(f):
                os.remove(f)
        cmd = [EXTRACTOR, '--repo', REPO, '--contracts', VERIF + '/proof/contracts', '--out', ex, '--report', rep]
        for k in self.degraded:
            cmd += ['--degrade', k]
        rc, o, e = sh(cmd, timeout=120)
        if rc != 0 or not os.path.exists(rep):
            self.fatal = 'the extractor failed: ' + (e or o)[-2000:]
            return False
        self.report = [r for r in json.load(open(rep)) if 'key' in r]
        p = VERIF + '/proof/'
        self.text = HEADER + open(p + 'prelude.rs').read() + open(p + 'specs.rs').read() + open(ex).read() + FOOTER
        self.file = self.work + '/all.rs'
        open(self.file, 'w').write(self.text)
        self.where(self.text)
        return True

    def where(self, text):
        """line -> function key, line -> labels of the clause"""
        self.fn_at, self.label_at, self.clauses = {}, {}, {}
        key = None
        for i, l in enumerate(text.split('\n'), 1):
            if l.startswith('//@@FN '):
                key = l[7:].strip()
            if key:
                self.fn_at[i] = key
                m = re.search(r'//@P:(.*)$', l)
                if m:
                    self.label_at[i] = m.group(1).split()
                    self.clauses.setdefault(key, []).append(i)
            if l.startswith('//@@END'):
                key = None

    def verus(self, extra, file=None, timeout=700):
        timeout = min(timeout, left(LIMIT))
        cmd = VERUS + extra + ['--rlimit', '60', file or self.file]
        if not file:
            self.cmd = ' '.join(cmd)
        rc, o, e = sh(cmd, timeout=timeout, cwd=self.work)
        errs = []
        for l in e.split('\n'):
            if l.startswith('{'):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get('level') == 'error' and not d['message'].startswith('aborting due to'):
                    errs.append(d)
        try:
            out = json.loads(o[o.index('{'):])
        except ValueError:
            out = {}
        return rc, out, errs, e

    def props_of(self, key):
        for r in self.report:
            if r['key'] == key:
                return r.get('props', '').split()
        return []

    def weakened(self, key):
        return next((r['weakened'] for r in self.report if r['key'] == key and r.get('weakened')), None)

    def classify(self, d):
        m = d['message']
        if any(x in m for x in NOANSWER):
            return 'noanswer'
        if d.get('code'):
            return 'compile'
        if any(x in m for x in PROOF):
            return 'proof'
        return 'compile'

    def keys(self, d):
        lines = []
        for s in d.get('spans', []):
            if s['file_name'].endswith('.rs') and os.path.basename(s['file_name']) in ('all.rs', 'vac.rs'):
                lines.append((not s['is_primary'], s['line_start'], s.get('label') or ''))
        lines.sort()
        return [(self.fn_at.get(l), l, lab) for _, l, lab in lines]

    def run(self):
        if not self.extract():
            return
        for attempt in range(40):
            rc, out, errs, raw = self.verus(['--multiple-errors', '4'])
            if rc == -1000:
                self.fatal = 'Verus gave no answer within its time limit'
                return
            vr = out.get('verification-results', {})
            kinds = [self.classify(d) for d in errs]
            if 'compile' in kinds or (rc != 0 and not errs):
                # the verifier's front end does not accept the extracted text of some function
                bad = {}
                for d, k in zip(errs, kinds):
                    if k != 'compile':
                        continue
                    for key, line, _ in self.keys(d):
                        if key and key not in self.degraded:
                            bad[key] = d['message']
                            break
                if not bad:
                    self.fatal = 'Verus rejects the extracted text: ' + (errs[0].get('rendered', '') if errs else raw)[:3000]
                    return
                log('set aside, not accepted by the verifier:', bad)
                self.degraded.update(bad)
                if not self.extract():
                    return
                continue
            if errs:
                # what one search of the solver does not find another may: a function is proved if any
                # of a few runs with other random seeds proves it
                ok = self.portfolio(self.unproved(out))
                keep = [(d, k) for d, k in zip(errs, kinds) if self.name_of(d) not in ok]
                vr['verified'] = vr.get('verified', 0) + len(ok)
                errs, kinds = [d for d, _ in keep], [k for _, k in keep]
            for d, k in zip(errs, kinds):
                ks = self.keys(d)
                gone = self.weakened(self.owner(d, ks))
                if k != 'noanswer' and gone:
                    # the contract's invariants speak of a variable the function no longer has
                    self.undecided[self.owner(d, ks)] = gone
                    continue
                if k == 'noanswer':
                    for key, line, _ in ks:
                        if key:
                            self.undecided[key] = d['message']
                            break
                    else:
                        self.undecided['(lemma)'] = d['message']
                    continue
                self.failure(d, ks)
            self.verified = vr.get('verified', 0)
            tm = out.get('times-ms', {})
            smt = tm.get('smt', {})
            self.smt_ms = smt.get('smt-run', smt.get('total', 0)) if isinstance(smt, dict) else 0
            self.total_ms = tm.get('total', 0)
            return
        self.fatal = 'too many functions had to be set aside'

    def unproved(self, out):
        names = []
        for m in out.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for x in m.get('function-breakdown', []):
                if not x.get('success', True):
                    names.append(re.sub(r'^all::', '', x['function']))
        return names

    def name_of(self, d):
        """the verifier's name of the function an error is in"""
        ks = self.keys(d)
        owner = self.owner(d, ks)
        if owner:
            return owner.split(' for ')[-1]
        lines = self.text.split('\n')
        for _, l, _ in ks:
            for j in range(l - 1, max(0, l - 60), -1):
                m = re.match(r'\s*pub (?:broadcast )?proof fn (\w+)', lines[j])
                if m:
                    return m.group(1)
        return None

    def portfolio(self, names):
        # a function that carries other properties only is the business of their checks
        names = [n for n in names if not self.prop or not [k for k in self.clauses if k.split(' for ')[-1] == n]
                 or any(self.prop in self.props_of(k) for k in self.clauses if k.split(' for ')[-1] == n)]
        ok, todo = set(), [(n, sd) for sd in (1, 2, 3, 4) for n in names[:8]]
        lock = threading.Lock()

        def work():
            while True:
                with lock:
                    while todo and todo[0][0] in ok:
                        todo.pop(0)
                    if not todo or time.time() - T0 > LIMIT:
                        return
                    n, sd = todo.pop(0)
                cmd = VERUS + ['--rlimit', '80', '--num-threads', '1', '--verify-root', '--verify-function', n,
                               '--smt-option', 'smt.random_seed=%d' % sd, self.file]
                rc, o, e = sh(cmd, timeout=min(200, left(LIMIT)), cwd=self.work)
                if rc == 0:
                    with lock:
                        ok.add(n)
        ts = [threading.Thread(target=work) for _ in range(6)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if names:
            log('not proved at first:', names, 'proved with another seed:', sorted(ok))
        return ok

    def owner(self, d, ks):
        clause = None
        if 'postcondition' in d['message']:
            for key, line, lab in ks:
                if 'failed this postcondition' in lab:
                    clause = line
            for key, line, lab in ks:
                if key and ('at the end' in lab or 'this exit' in lab or 'return' in lab):
                    return key
            return next((k for k, l, lab in ks if k and l != clause), None) or next((k for k, _, _ in ks if k), None)
        return next((k for k, l, lab in ks if k), None)

    def failure(self, d, ks):
        m = d['message']
        owner, clause, labels = self.owner(d, ks), None, []
        if 'postcondition' in m:
            for key, line, lab in ks:
                if 'failed this postcondition' in lab:
                    clause = line
                    labels = self.label_at.get(line, [])
        props = self.props_of(owner) if owner else []
        hit = [p for p in labels if p in props] or props
        # a function of the prelude or a lemma fails only if the machinery itself is broken
        self.failures.append({'function': owner or '(lemma)', 'properties': hit, 'message': m,
                              'clause': self.text.split('\n')[clause - 1].strip() if clause else None,
                              'rendered': d.get('rendered', '')})

    def vacuity(self):
        """every function under contract must be reachable: an added assert(false) has to fail"""
        lines, want, key = self.text.split('\n'), set(), None
        skip = set(self.degraded) | {r['key'] for r in self.report if r['status'] not in ('contract',)}
        out, ext = [], False
        for l in lines:
            out.append(l)
            if l.startswith('//@@FN '):
                key, ext = l[7:].strip(), False
            if l.startswith('//@@END'):
                key = None
            if 'external_body' in l:
                ext = True
            if key and not ext and key not in skip and l.startswith('broadcast use {'):
                out[-1] = l + ' proof { assert(false); }'
                want.add(key)
        f = self.work + '/vac.rs'
        open(f, 'w').write('\n'.join(out))
        rc, o, errs, raw = self.verus(['--multiple-errors', '0'], file=f)
        if rc == -1000:
            return
        got = set()
        for d in errs:
            for key, line, _ in self.keys(d):
                if key:
                    got.add(key)
        self.vacuous = sorted(want - got)
        self.reachable = len(want & got)


def new_literals(work):
    """literals of /repo's code that the code the harness was written for does not have: values a
    changed condition may depend on, which the harness then mixes into its inputs"""
    if not os.path.exists(EXTRACTOR):
        return None
    now, out = work + '/literals.txt', work + '/dict.txt'
    rc, o, e = sh([EXTRACTOR, '--repo', REPO, '--contracts', VERIF + '/proof/contracts', '--literals-out', now], timeout=60)
    if rc != 0 or not os.path.exists(now):
        return None
    old = set(open(VERIF + '/harness/literals.txt').read().split('\n'))
    new = [l for l in open(now).read().split('\n') if l and l not in old]
    open(out, 'w').write('\n'.join(new) + '\n')
    return out if new else None


def harness(prop, seed, tier, seconds, dic=None):
    tag = '%s/build/%s-h-%d.json' % (VERIF, prop, os.getpid())
    cmd = [HARNESS, prop, '--seed', str(seed), '--tier', tier, '--seconds', str(seconds)]
    cmd += ['--dict', dic] if dic else []
    cmd += ['--out', tag]
    rc, o, e = sh(cmd, timeout=seconds + 90, mem_gb=20)
    res = None
    if os.path.exists(tag):
        try:
            res = json.load(open(tag))
        except ValueError:
            pass
        os.remove(tag)
    if res is None:
        # it died (out of memory, stack overflow, abort): one case after the other, each written down first
        tr = '%s/build/%s-t-%d.txt' % (VERIF, prop, os.getpid())
        rc, o, e = sh(cmd + ['--trace', tr], timeout=seconds + 90, mem_gb=8)
        if os.path.exists(tag):
            try:
                res = json.load(open(tag))
            except ValueError:
                pass
            os.remove(tag)
        last = open(tr).read() if os.path.exists(tr) else ''
        if os.path.exists(tr):
            os.remove(tr)
        if res is None and last:
            res = {'property': prop, 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'sections': {},
                   'failure': {'case': last[:4000], 'what': 'the process dies (%s) on this case' % rc}}
    if res is not None:
        res['command'] = ' '.join(cmd[:-2])
    return res


def assumption_checks(seed):
    """the axioms about dependencies, tried on the real dependencies; says how, decides nothing"""
    rc, o, e = sh([HARNESS, 'assume', '--seed', str(seed)], timeout=120, mem_gb=20)
    res = []
    for l in o.split('\n'):
        f = l.split('\t')
        if len(f) == 4:
            res.append({'axiom': f[0], 'domain': f[1], 'cases': int(f[2]), 'broken_by': None if f[3] == '-' else f[3]})
    return res


def library_proof(proof):
    """the contracts of proof/prelude.rs that the main proof assumes, proved with the bodies of proof/model.rs"""
    p = VERIF + '/proof/'
    h = HEADER.replace('verus!{', 'use vstd::slice::*;\nuse vstd::string::*;\nverus!{')
    text, used, unused = model.model(open(p + 'prelude.rs').read(), open(p + 'model.rs').read(), h, FOOTER)
    f = proof.work + '/model.rs'
    open(f, 'w').write(text)
    rc, out, errs, raw = proof.verus(['--multiple-errors', '0'], file=f, timeout=300)
    vr = out.get('verification-results', {})
    ok = rc == 0 and vr.get('errors') == 0 and not unused
    return {'ok': ok, 'contracts': len([u for u in used if not u.startswith(('struct ', 'spec '))]), 'verified': vr.get('verified', 0), 'errors': vr.get('errors'), 'text': text,
            'messages': [d['message'] for d in errs] + ['body without place: ' + u for u in unused]}


def scan_assumptions(text):
    """every assumption in the verified text, found mechanically"""
    out, ext = [], 0
    ls = text.split('\n')
    for i, l in enumerate(ls):
        if re.search(r'\bassume\s*\(|\badmit\s*\(', l):
            out.append('assume: ' + l.strip()[:160])
    names, cur = [], ''
    for i, l in enumerate(ls):
        if l.strip().startswith('//'):
            continue
        if not l.startswith(' ') and l.strip():
            m = model.IMPL.match(l)
            cur = re.sub(r'^(impl(<[^>]*>)?|pub trait) ', '', m.group(1)).strip() if m else (cur if l.startswith('}') else '')
        if 'external_body' in l or 'verifier::external' in l or l.strip().startswith('pub broadcast axiom') or re.match(r'\s*(pub )?(broadcast )?axiom fn', l) or 'assume_specification' in l:
            at = max(l.find('external_body'), 0)
            for j in range(i, min(i + 4, len(ls))):
                m = re.search(r'\b(?:fn|struct|enum)\s+(\w+)', ls[j][at if j == i else 0:])
                if 'assume_specification' in ls[j]:
                    m = re.search(r'\[ *(.*?) *\]', ls[j])
                if m:
                    names.append((cur + '::' if cur and (l.startswith(' ') or model.IMPL.match(l)) else '') + m.group(1))
                    break
    if names:
        out.append('assumed without proof (library contracts and axioms of proof/prelude.rs and proof/specs.rs): ' + ', '.join(sorted(set(names))))
    return out


def main():
    if sys.argv[1:] == ['--setup']:
        r = prepare()
        for k, (ok, e) in r.items():
            print(k, 'built' if ok else 'FAILED\n' + e[-3000:])
        sys.exit(0 if all(ok for ok, _ in r.values()) else 1)
    prop = sys.argv[1]
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    work = '%s/build/%s' % (VERIF, prop)
    os.makedirs(work, exist_ok=True)
    built = prepare()
    log('built', {k: v[0] for k, v in built.items()})
    proof = Proof(work, prop)
    hres = {}

    facts, lib = [], {}
    dic = new_literals(work)

    def bounded():
        if built['harness'][0]:
            facts.extend(assumption_checks(seed))
            hres['r'] = harness(prop, seed, tier, 30 if tier == 'quick' else 420, dic)
    th = threading.Thread(target=bounded)
    th.start()
    if built['extractor'][0]:
        proof.run()
        log('verus: %d verified, %d failed' % (proof.verified, len(proof.failures)))
        if not proof.fatal:
            tl = threading.Thread(target=lambda: lib.update(library_proof(proof)))
            tl.start()
            proof.vacuity()
            tl.join()
    else:
        proof.fatal = 'the extractor does not build: ' + built['extractor'][1][-1500:]
    th.join()
    h = hres.get('r')
    log('harness', h and (h['evaluations'], h['failure']))
    fails = [f for f in proof.failures if prop in f['properties']]
    lemma_fail = [f for f in proof.failures if f['function'] == '(lemma)']
    mine = [r for r in proof.report if prop in r.get('props', '').split()]
    setaside = {k: v for k, v in list(proof.degraded.items()) + list(proof.undecided.items()) if prop in proof.props_of(k)}
    for r in mine:
        if r['status'] in ('unsupported', 'missing', 'trusted'):
            setaside[r['key']] = r['status'] + (': ' + r['reason'] if r.get('reason') else '')
    if (fails or setaside or proof.fatal) and not (h and h['failure']) and built['harness'][0]:
        log('an obligation failed or is open; looking deeper for a failing input')
        for s in (seed, seed + 1000):
            if time.time() - T0 > LIMIT + 150:
                break
            h2 = harness(prop, s, 'thorough', 100 if fails else 60, dic)
            if h2 and h2['failure']:
                h = h2
                break
    under = [r['key'] for r in mine if r['status'] == 'contract' and r['key'] not in setaside and not proof.fatal]
    vac = [k for k in (proof.vacuous or []) if k in under]
    # obligations: every clause of a function that carries this property, and the body of every such
    # function (preconditions of callees, loop invariants, arithmetic, termination)
    obl = 0
    bad = set()
    for k in under:
        cl = list(proof.clauses.get(k, []))
        if ' for ' in k:        # the clauses a trait's contract gives to its implementations
            cl += proof.clauses.get(k.split(' for ')[0] + '::' + k.rsplit('::', 1)[1], [])
        n = len([l for l in cl if not proof.label_at[l] or prop in proof.label_at[l]])
        obl += n + 1
        bad |= {(f['function'], f['clause'] or f['message']) for f in fails if f['function'] == k}
    obl += len(setaside)
    violation = None
    if h and h['failure']:
        violation = 'input'
    elif fails:
        violation = 'obligation'
    known = known_findings(prop)
    if violation:
        rep = '%s/evidence/%s.replay.json' % (VERIF, prop)
        json.dump({'property': prop,
                   'failing_input': h['failure'] if h and h['failure'] else None,
                   'reproduce': h['command'] if h and h['failure'] else None,
                   'failed_obligations': fails,
                   'verifier': proof.cmd}, open(rep, 'w'), indent=1, ensure_ascii=False)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if level(prop) == 'proof' else level(prop),
        'coverage': {
            'obligations': obl,
            'discharged': obl - len(bad) - len(setaside) - len(vac),
            'checker_cmd': proof.cmd,
            'trusted_base': ['Verus and Z3', 'rustc', 'extractor/ (rewritings listed in DESIGN.md)', 'what proof/prelude.rs assumes of the standard library and the dependencies (listed under assumptions; the others are proved, library_contracts_proved)'],
            'functions_under_contract': under,
            'bounded_only': setaside,
            'back_end': 'Verus (Z3)',
            'verified_items_whole_run': proof.verified,
            'solver_ms': proof.smt_ms,
            'reachable_functions': getattr(proof, 'reachable', 0),
            'vacuous': proof.vacuous,
            'failed_obligations': [(f['function'], f['message'], f['clause']) for f in fails],
            'bounded_check': {k: h[k] for k in ('evaluations', 'distinct_nontrivial', 'samples', 'sections', 'command')} if h else None,
            'library_contracts_proved': {k: v for k, v in lib.items() if k != 'text'},
            'assumptions_tried': facts,
            'evaluations': h['evaluations'] if h else 0,
            'distinct_nontrivial': h['distinct_nontrivial'] if h else 0,
            'rule': 'bounded check on the real crates: all small lines and random ones; non-trivial: the property was exercised by the case; distinct by the printed case',
            'samples': h['samples'] if h else [],
        },
        'assumptions': (scan_assumptions(proof.text if not lib.get('ok') else lib['text'] + proof.text[len(HEADER + open(VERIF + '/proof/prelude.rs').read()):]) if not proof.fatal else ['no proof in this run: ' + proof.fatal]) + [
            'coherence of trait implementations is checked by rustc, not by Verus (--no-trait-conflicts)',
            'machine arithmetic is checked for overflow; the sum of all token sizes is assumed to fit usize'],
        'wall_s': round(time.time() - T0, 1),
        'violations': 1 if violation else 0,
    }
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1, ensure_ascii=False)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s: %d of %d obligations discharged, %d functions under contract, %d only bounded; bounded check: %s cases%s'
          % (prop, ev['coverage']['discharged'], obl, len(under), len(setaside), h['evaluations'] if h else 'no',
             '; no proof: ' + proof.fatal[:200] if proof.fatal else ''))
    for k, v in setaside.items():
        print('  bounded only: %s (%s)' % (k, v[:150]))
    for f in facts:
        if f['broken_by']:
            print('  assumption of the proofs does not hold here: %s: %s' % (f['axiom'], f['broken_by']))
    if lib and not lib['ok']:
        print('  machinery: library contracts not proved: %s' % lib['messages'][:3])
    for f in lemma_fail:
        print('  machinery: %s' % f['rendered'][:400])
    if violation == 'input':
        print('failing input: %s\n  %s' % (h['failure']['case'], h['failure']['what']))
        for f in fails:
            print('failed obligation: %s: %s %s' % (f['function'], f['message'], f['clause'] or ''))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        sys.exit(1)
    if violation == 'obligation':
        for f in fails:
            print('failed obligation: %s: %s %s' % (f['function'], f['message'], f['clause'] or ''))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep))
        sys.exit(1)
    sys.exit(0)


def known_findings(prop):
    out = []
    try:
        for l in open(VERIF + '/known-findings.txt'):
            m = re.match(r'finding: property=(\w+) (.*)', l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    except OSError:
        pass
    return out


def level(prop):
    try:
        for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']:
            if c['property'] == prop:
                return c['level']
    except (OSError, ValueError):
        pass
    return 'proof'


if __name__ == '__main__':
    main()
