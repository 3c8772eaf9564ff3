#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property for /repo's current working tree.

1. /repo/src is macro-expanded by rustc, and vx extracts it into a Verus crate in which every function
   keeps its body and gets its contract from contracts/*.vc (see DESIGN.md).
2. Verus discharges, function by function, the obligations of the property.
3. If an obligation is rejected, the harness (which links /repo's crate) looks for an input on which
   the property fails on the real code; the violation is reported either way.
4. Functions which cannot be extracted or whose contract no longer fits their shape are undecided:
   the harness's bounded search stands in for them. The search also runs, shortly, on every check.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CONCH_REPO', '/repo')
CONTRACTS = os.path.join(HERE, 'contracts')
RUST = '1.77.2-x86_64-unknown-linux-gnu'
NCPU = os.cpu_count() or 4

SHIM = '''
macro_rules! debug_assert { ($e:expr $(, $($t:tt)*)?) => { crate::vf::vf_assert($e) }; }
macro_rules! debug_assert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { crate::vf::vf_assert_eq(&($a), &($b)) }; }
macro_rules! debug_assert_ne { ($a:expr, $b:expr $(, $($t:tt)*)?) => { crate::vf::vf_assert_ne(&($a), &($b)) }; }
macro_rules! assert { ($e:expr $(, $($t:tt)*)?) => { crate::vf::vf_assert($e) }; }
macro_rules! assert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { crate::vf::vf_assert_eq(&($a), &($b)) }; }
macro_rules! assert_ne { ($a:expr, $b:expr $(, $($t:tt)*)?) => { crate::vf::vf_assert_ne(&($a), &($b)) }; }
macro_rules! unreachable { ($($t:tt)*) => { crate::vf::vf_unreachable() }; }
macro_rules! panic { ($($t:tt)*) => { crate::vf::vf_unreachable() }; }
macro_rules! todo { ($($t:tt)*) => { crate::vf::vf_unreachable() }; }
macro_rules! unimplemented { ($($t:tt)*) => { crate::vf::vf_unreachable() }; }
macro_rules! vec { ($($e:expr),* $(,)?) => { crate::vf::vf_vec([$($e),*]) }; }
macro_rules! write { ($f:expr, $($t:tt)*) => { crate::vf::vf_write($f, format_args!($($t)*)) }; }
'''

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def run(cmd, timeout=None, env=None, cwd=None, mem_gb=None, procs=None):
    e = dict(os.environ)
    if env: e.update(env)
    if mem_gb:
        cmd = ['bash', '-c', f'ulimit -v {int(mem_gb * 1024 * 1024)}; exec "$@"', 'x'] + cmd
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
    if procs is not None: procs.append(p)
    try:
        o, r = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, r = p.communicate()
        rc = None
    return rc, o.decode('utf8', 'replace'), r.decode('utf8', 'replace'), time.time() - t

def target(name):
    """Where to build: inside /verif if possible, else in the scratch directory."""
    d = os.path.join(HERE, name, 'target')
    try:
        os.makedirs(d, exist_ok=True)
        return d
    except OSError:
        return os.path.join(SCRATCH, name + '-target')

def build_vx():
    t = target('vx')
    env = {'CARGO_TARGET_DIR': t, 'RUSTFLAGS': '', 'CARGO_NET_OFFLINE': 'true'}
    os.environ.pop('RUSTUP_TOOLCHAIN', None)
    rc, o, e, _ = run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(HERE, 'vx', 'Cargo.toml')], env=env)
    if rc != 0:
        log(e); raise SystemExit(2)
    return os.path.join(t, 'debug', 'vx')

def build_harness():
    """The harness linked with the crate in /repo; without the hooks if those no longer compile."""
    t = target('harness')
    env = {'CARGO_TARGET_DIR': t, 'RUSTFLAGS': '--cfg conch_verif --cap-lints allow', 'CARGO_NET_OFFLINE': 'true',
           'RUSTUP_TOOLCHAIN': RUST, 'RUSTC_WRAPPER': '', 'CARGO_INCREMENTAL': '0'}
    m = os.path.join(HERE, 'harness', 'Cargo.toml')
    if REPO != '/repo':
        # development only: the same sources against another tree
        d = os.path.join(SCRATCH, 'harness'); shutil.copytree(os.path.join(HERE, 'harness'), d, ignore=shutil.ignore_patterns('target'))
        m = os.path.join(d, 'Cargo.toml'); s = open(m).read().replace('"/repo"', json.dumps(REPO)); open(m, 'w').write(s)
    for extra in ([], ['--no-default-features']):
        rc, o, e, _ = run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', m] + extra, env=env)
        if rc == 0:
            b = os.path.join(SCRATCH, 'harness-bin'); shutil.copy(os.path.join(t, 'debug', 'harness'), b)
            return b, not extra, ''
    return None, False, e

def expand():
    s = os.path.join(SCRATCH, 'crate')
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(s, 'src'))
    p = os.path.join(s, 'src', 'lib.rs')
    t = open(p).read()
    m = re.search(r'^(pub )?mod ', t, re.M)
    t = t[:m.start()] + SHIM + t[m.start():]
    open(p, 'w').write(t)
    open(os.path.join(s, 'void.rs'), 'w').write(
        '#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub enum Void {}\n'
        'impl std::fmt::Display for Void { fn fmt(&self, _: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }\n'
        'impl std::error::Error for Void {}\n'
        'pub fn unreachable(x: Void) -> ! { match x {} }\n')
    env = {'RUSTC_BOOTSTRAP': '1', 'RUSTUP_TOOLCHAIN': ''}
    env = {'RUSTC_BOOTSTRAP': '1'}
    rc, o, e, _ = run(['rustc', '+nightly', '--edition', '2018', '--crate-type', 'rlib', '--crate-name', 'void', '-o', 'libvoid.rlib', 'void.rs'], env=env, cwd=s)
    if rc != 0: return None, e
    rc, o, e, _ = run(['rustc', '+nightly', '--edition', '2018', '-Zunpretty=expanded', '--crate-type', 'lib', '--crate-name', 'conch_parser',
                       '--extern', 'void=libvoid.rlib', '--cap-lints', 'allow', 'src/lib.rs'], env=env, cwd=s)
    # later phases may complain about the shims; what counts is that everything was expanded
    if 'fn ' not in o: return None, e
    out = os.path.join(SCRATCH, 'expanded.rs')
    open(out, 'w').write(o)
    return out, ''

# Messages with which Verus rejects an obligation; everything else is an error of the front end.
REJECT = re.compile(r'postcondition not satisfied|precondition not satisfied|precondition of .*not satisfied|assertion failed|invariant not satisfied|'
                    r'loop ensures not satisfied|decreases not satisfied|could not prove termination|possible arithmetic|possible division|'
                    r'possible bit shift|requires not satisfied|failed to|cannot show|unable to prove|loop invariant|might fail|may fail|not satisfied')
RLIMIT = re.compile(r'[Rr]esource limit|rlimit|timed out|solver')

def concerns(prop, message, clause, tags):
    """Does this rejected obligation mean that `prop` is violated? (Otherwise it leaves `prop` undecided.)"""
    if tags: return prop in tags
    # panics: what std and core require of their callers, machine arithmetic, assert! and unreachable!
    if prop == 'C07': return clause is None and bool(re.search('precondition|arithmetic|division|bit shift', message))
    if prop == 'C08': return bool(re.search('decreases|termination', message))
    # every obligation of these is tagged; they list all functions, so the others say nothing about them
    if prop in ('C14', 'C23'): return False
    return True

class Proof:
    def __init__(self):
        self.ok = False          # a verification run completed
        self.error = ''
        self.failed = []         # {fn, clause, message, where}
        self.undecided = {}      # function -> reason
        self.map = None
        self.verified = self.errors = 0
        self.smt_s = self.total_s = 0.0
        self.cmd = ''
        self.raw = ''
        self.gen = ''

def contracts(prop):
    """The contract files. A first line `### not for C07 ...` names properties whose proof does without the file."""
    out = []
    for f in sorted(os.listdir(CONTRACTS)):
        if not f.endswith('.vc'): continue
        m = re.match(r'### not for ((?:C\d\d ?)+)', open(os.path.join(CONTRACTS, f)).readline())
        if not (m and prop in m.group(1).split()): out.append(f)
    return out

def prove(vx, src, prop, tier, only=None):
    pr = Proof()
    known = set(open(os.path.join(CONTRACTS, 'known_functions.txt')).read().split('\n'))
    gen, mp = os.path.join(SCRATCH, 'gen.rs'), os.path.join(SCRATCH, 'map.json')
    for attempt in range(12):
        cmd = [vx, src, '--prelude', os.path.join(CONTRACTS, 'prelude.rs'), '--out', gen, '--map', mp]
        for f in contracts(prop): cmd += ['--contracts', os.path.join(CONTRACTS, f)]
        if prop != 'ALL': cmd += ['--prop', prop]
        for k, v in pr.undecided.items(): cmd += ['--undecided', f'{k}={v}']
        rc, o, e, _ = run(cmd, timeout=120)
        if rc != 0:
            pr.error = 'extraction failed: ' + (e or o)[-2000:]
            return pr
        m = json.load(open(mp)); pr.map = m
        for f in m['functions']:
            if f['status'] == 'undecided': pr.undecided.setdefault(f['key'], f['reason'])
        # new functions have no contract: their callers are undecided
        news = {f['key'].rsplit('::', 1)[-1] for f in m['functions'] if f['key'] not in known and f['status'] != 'declaration'
                and not f['key'].endswith('vx_drop')}
        more = {}
        for f in m['functions']:
            hit = news & set(f.get('calls', []))
            if f['status'] == 'verified' and hit and f['key'] not in pr.undecided:
                more[f['key']] = 'calls a function without a contract: ' + ', '.join(sorted(hit))
        if more:
            pr.undecided.update(more); continue
        text = open(gen).read(); pr.gen = text
        pr.cmd = 'verus --edition 2021 --num-threads %d --multiple-errors 8 --output-json gen.rs' % NCPU
        rc, o, e, dt = run(['verus', '--edition', '2021', '--num-threads', str(NCPU), '--multiple-errors', '8', '--output-json', '--time',
                            'gen.rs', '--error-format=json'], timeout=560 if tier == 'quick' else 3000, cwd=SCRATCH)
        pr.total_s = dt; pr.raw = e
        if rc is None:
            pr.error = 'the verifier did not finish'; return pr
        try: res = json.loads(o[o.index('{'):])
        except Exception: res = {}
        vr = res.get('verification-results', {})
        fns = sorted((f['start'], f['end'], f) for f in m['functions'])
        def at(line):
            for s, t, f in fns:
                if s <= line < t: return f
        msgs = []
        for l in e.split('\n'):
            if l.startswith('{'):
                try: d = json.loads(l)
                except Exception: continue
                if d.get('level') == 'error' and d.get('spans') is not None: msgs.append(d)
        msgs = [d for d in msgs if not re.match(r'aborting due to|could not compile', d['message'])]
        front = 'verified' not in vr or vr.get('encountered-vir-error') or any(
            (d.get('code') or not REJECT.search(d['message'])) and not RLIMIT.search(d['message']) for d in msgs)
        bad = {}
        if front:
            for d in msgs:
                if not (d.get('code') or not REJECT.search(d['message'])): continue
                spans = sorted(d['spans'], key=lambda s: not s['is_primary'])
                hit = None
                for s in spans:
                    f = at(s['line_start'])
                    if f and f['status'] == 'verified': hit = f; break
                if hit: bad[hit['key']] = 'outside the verifier\'s reach: ' + d['message'][:200]
            new = {k: v for k, v in bad.items() if k not in pr.undecided}
            if not new:
                pr.error = 'the verifier\'s front end rejects the extracted text: ' + '; '.join(
                    '%s (line %s)' % (d['message'][:300], [s['line_start'] for s in d['spans']][:2]) for d in msgs[:5])
                return pr
            pr.undecided.update(new)
            continue
        pr.ok = True
        pr.verified, pr.errors = vr.get('verified', 0), vr.get('errors', 0)
        pr.smt_s = res.get('times-ms', {}).get('smt', {}).get('total', 0) / 1000.0
        for d in msgs:
            spans = sorted(d['spans'], key=lambda s: not s['is_primary'])
            f = next((x for x in (at(s['line_start']) for s in spans) if x and x['status'] == 'verified'), None)
            clause = None
            for s in spans:
                for c in m['clauses']:
                    if c['start'] <= s['line_start'] < c['end']: clause = c
            if RLIMIT.search(d['message']) and not REJECT.search(d['message']):
                if f: pr.undecided[f['key']] = 'solver gave up'
                else: pr.undecided['lemma'] = 'solver gave up'
                continue
            # an obligation of other properties only: proved (or rejected) when those are checked; what this
            # property rests on it is left undecided here
            tags = (clause or {}).get('tags') or []
            if prop != 'ALL' and not concerns(prop, d['message'], clause, tags):
                pr.undecided.setdefault(f['key'] if f else clause['fn'] if clause else 'lemma', 'an obligation which is not one of %s alone is rejected here: %s' % (
                    prop, ('[%s] ' % ' '.join(tags) if tags else '') + (clause['text'] if clause else d['message'])[:120]))
                continue
            where = [s for s in spans if s['is_primary']] or spans
            lines = text.split('\n')
            src_line = lines[where[0]['line_start'] - 1].strip() if where else ''
            pr.failed.append({'function': f['key'] if f else '(lemma)', 'message': d['message'],
                              'clause': clause and {'kind': clause['kind'], 'text': clause['text'], 'file': clause.get('file'), 'line': clause.get('line'), 'fn': clause['fn']},
                              'at': src_line, 'labels': [s.get('label') for s in spans]})
        return pr
    pr.error = 'too many functions outside the verifier\'s reach'
    return pr

def vacuity(vx, src, prop, pr):
    """Contracts which contradict themselves prove everything: with `assert(false)` as the last statement
    every function must be rejected. Returns what was probed, and the functions which were not rejected."""
    keys = [f['key'] for f in pr.map['functions'] if f['status'] == 'verified' and f['key'] not in pr.undecided]
    vc, gen, mp = (os.path.join(SCRATCH, n) for n in ('vacuity.vc', 'vacuity.rs', 'vacuity.json'))
    open(vc, 'w').write(''.join('@fn %s\n@proof end\nproof { assert(false); }\n' % k for k in keys))
    cmd = [vx, src, '--prelude', os.path.join(CONTRACTS, 'prelude.rs'), '--out', gen, '--map', mp]
    for f in contracts(prop): cmd += ['--contracts', os.path.join(CONTRACTS, f)]
    cmd += ['--contracts', vc, '--prop', prop]
    for k, v in pr.undecided.items(): cmd += ['--undecided', f'{k}={v}']
    rc, o, e, _ = run(cmd, timeout=120)
    if rc != 0: return {'error': (e or o)[-500:]}
    rc, o, e, dt = run(['verus', '--edition', '2021', '--num-threads', str(NCPU), '--multiple-errors', '50', 'vacuity.rs'], timeout=1500, cwd=SCRATCH)
    if rc is None: return {'error': 'the verifier did not finish'}
    lines = open(gen).read().split('\n')
    hit = {int(n) for n in re.findall(r'--> vacuity\.rs:(\d+)', e)}
    left, probed = [], 0
    for f in json.load(open(mp))['functions']:
        if f['key'] not in keys or f['status'] != 'verified': continue
        ls = [i for i in range(f['start'], f['end'] + 1) if i <= len(lines) and 'assert(false)' in lines[i - 1]]
        if not ls: continue
        probed += 1
        # (where the solver gives up it did not find a contradiction either)
        if not hit & set(range(f['start'], f['end'] + 1)): left.append(f['key'])
    return {'functions_probed': probed, 'not_rejected': left, 'verifier_seconds': round(dt, 1)}

def search(binary, prop, seed, secs, tag, procs):
    out = os.path.join(SCRATCH, f'replay-{tag}'); st = os.path.join(SCRATCH, f'stats-{tag}')
    rc, o, e, dt = run([binary, 'search', prop, str(seed), str(secs), out, st], timeout=secs + 90, mem_gb=12, procs=procs)
    if rc == 1 and os.path.exists(out) and open(out).read(8) == 'property':
        # a failing input is enough: end the other searches
        procs.append(None)
        for p in [p for p in procs if p and p.returncode is None]:
            try: os.killpg(p.pid, 9)
            except OSError: pass
    elif None in procs:
        rc = 0
    stats = {'evaluations': 0, 'distinct': 0, 'exhaustive_len': 0, 'samples': []}
    if os.path.exists(st):
        for l in open(st):
            k, _, v = l.rstrip('\n').partition(' ')
            if k == 'sample': stats['samples'].append(v)
            elif k and v.isdigit(): stats[k] = int(v)
    return rc, (open(out).read() if os.path.exists(out) else o), stats, e

def searches(binary, prop, seed, secs, n):
    """n searches in parallel with different seeds."""
    from concurrent.futures import ThreadPoolExecutor
    procs = []
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda k: search(binary, prop, seed * 100 + k, secs, k, procs), range(n)))
    tot = {'evaluations': sum(r[2]['evaluations'] for r in rs), 'distinct_nontrivial': sum(r[2]['distinct'] for r in rs),
           'exhaustive_len': min(r[2]['exhaustive_len'] for r in rs), 'samples': [s for r in rs for s in r[2]['samples']][:5]}
    hit = next((r[1] for r in rs if r[0] == 1 and r[1].startswith('property')), None)
    died = next((f'search process ended with {r[0]}: {r[3][-300:]}' for r in rs if r[0] not in (0, 1)), None)
    return hit, tot, died

def assumptions_of(prelude):
    names = []
    t = open(prelude).read()
    for m in re.finditer(r'external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:fn|struct)\s+(\w+)', t): names.append(m.group(1))
    ax = re.findall(r'axiom fn (\w+)', t)
    return sorted(set(names)), sorted(set(ax))

def main():
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-search', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, ('thorough' if a.tier == 'thorough' else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    SCRATCH = tempfile.mkdtemp(prefix='conch-verif-')
    try:
        return decide(prop, tier, seed, t0, a)
    finally:
        if a.keep: log('kept', SCRATCH)
        else: shutil.rmtree(SCRATCH, ignore_errors=True)

def decide(prop, tier, seed, t0, a):
    os.environ.pop('RUSTUP_TOOLCHAIN', None)
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(2)
    hb = ex.submit(build_harness)
    vx = build_vx()
    src, err = expand()
    if src is None:
        pr = Proof(); pr.error = 'the sources do not expand: ' + err[-2000:]
    else:
        pr = prove(vx, src, prop, tier)
    binary, hooks, berr = hb.result()
    if pr.error: log('UNDECIDED (whole property):', pr.error)
    for k, v in pr.undecided.items(): log('UNDECIDED', k, '--', v)
    for f in pr.failed: log('REJECTED', f['function'], f['message'], '|', f['clause'] and f['clause']['text'] or f['at'])
    relevant = {f['key'] for f in (pr.map or {'functions': []})['functions'] if f['status'] in ('verified', 'undecided')}
    weak = bool(pr.error or pr.undecided)
    hit, tot, died = None, {'evaluations': 0, 'distinct_nontrivial': 0, 'exhaustive_len': 0, 'samples': []}, None
    if binary is None:
        log('the harness does not build against /repo:', berr[-3000:])
        if pr.error: return 2
    elif not a.no_search:
        left = 860 - (time.time() - t0)
        secs = (90 if (pr.failed or weak) else 12) if tier == 'quick' else 240
        secs = max(5, min(secs, left - 120))
        hit, tot, died = searches(binary, prop, seed, secs, NCPU if (pr.failed or weak or tier == 'thorough') else 3)
        if died: log(died)
    known = [l for l in open(os.path.join(HERE, 'known_findings.txt')) if l.startswith('finding:') and f'property={prop} ' in l]
    violations = 0
    rep_dir = os.path.join(HERE, 'work', 'replay'); os.makedirs(rep_dir, exist_ok=True)
    rep = os.path.join(rep_dir, f'{prop}.txt')
    if pr.failed or hit:
        with open(rep, 'w') as f:
            if hit: f.write(hit + '\nreplay with: harness/target/debug/harness replay ' + rep + '\n')
            if pr.failed:
                f.write('\nrejected obligations of property %s\n' % prop)
                for x in pr.failed:
                    f.write(json.dumps(x, indent=1) + '\n')
                f.write('\nverifier: %s\n' % pr.cmd)
                for l in pr.raw.split('\n'):
                    try: f.write(json.loads(l).get('rendered') or '')
                    except Exception: pass
        violations = 1
        print(f'VIOLATION property={prop} replay={rep}' + ('' if hit else ' no-failing-input-found'))
        if hit: log(hit)
    vac = vacuity(vx, src, prop, pr) if tier == 'thorough' and pr.ok and not pr.failed else None
    if vac: log('VACUITY', json.dumps(vac))
    stubs = None
    if tier == 'thorough' and binary:
        rc, o, e, _ = run([binary, 'stubs', str(seed), '20'], timeout=120)
        stubs = {'label': 'bounded test of the assumed contracts of std functions (every char; random texts, numbers, vectors, options and iterators)',
                 'comparisons': int(o) if rc == 0 else 0, 'mismatch': None if rc == 0 else (o or e)[-500:]}
        log('STD STUBS', json.dumps(stubs))
    evidence(prop, tier, seed, t0, pr, tot, hooks, violations, vac, stubs)
    return 1 if violations else 0

def evidence(prop, tier, seed, t0, pr, tot, hooks, violations, vac=None, stub_test=None):
    m = pr.map or {'functions': [], 'clauses': []}
    ver = [f['key'] for f in m['functions'] if f['status'] == 'verified' and f['key'] not in pr.undecided]
    vset = set(ver)
    full = {}
    try: full = json.load(open(os.path.join(CONTRACTS, 'status.json')))
    except Exception: pass
    called = set()
    for f in m['functions']:
        if f['key'] in vset: called |= set(f.get('calls', []))
    assumed = []
    for f in m['functions']:
        if f['key'] in vset or f['status'] == 'declaration': continue
        if f['key'].rsplit('::', 1)[-1] not in called: continue
        s = full.get(f['key'])
        if not s or s['status'] not in ('verified', 'trusted'): continue
        assumed.append(f['key'] + (': proved under ' + ' '.join(s['props']) if s['status'] == 'verified' else ': assumed (%s)' % s['reason']))
    stubs, axioms = assumptions_of(os.path.join(CONTRACTS, 'prelude.rs'))
    clauses = [c for c in m['clauses'] if c['fn'] in vset]
    cov = {
        'obligations': pr.verified + pr.errors,
        'discharged': pr.verified,
        'checker_cmd': pr.cmd or 'verus',
        'trusted_base': ['Verus 0.2026.09.13 and its Z3', 'vx, the extraction tool of this directory (what it rewrites and drops is listed in DESIGN.md)',
                         'rustc macro expansion', 'std stubs assumed in contracts/prelude.rs: ' + ', '.join(stubs), 'axioms: ' + ', '.join(axioms)],
        'back_end': 'Verus (Z3)',
        'functions_under_contract': ver,
        'contract_clauses': {k: sum(1 for c in clauses if c['kind'] == k) for k in sorted({c['kind'] for c in clauses})},
        'contract_clauses_of_this_property': sum(1 for c in clauses if prop in c['tags']),
        'undecided_functions': pr.undecided,
        'callee_contracts_assumed_here': assumed,
        'rejected': [x['function'] + ': ' + x['message'] for x in pr.failed],
        'smt_seconds': pr.smt_s, 'verifier_seconds': round(pr.total_s, 1),
        'bounded_search': {'label': 'bounded: runs of the real code, not counted as proved', 'evaluations': tot['evaluations'],
                           'distinct_nontrivial': tot['distinct_nontrivial'],
                           'every_sequence_of_alphabet_snippets_up_to_length': tot['exhaustive_len'], 'samples': tot['samples'], 'hooks': hooks},
    }
    if pr.error: cov['undecided_property'] = pr.error
    if vac: cov['vacuity_probe'] = vac
    if stub_test: cov['std_contracts_tested'] = stub_test
    meta = json.load(open(os.path.join(HERE, 'contracts', 'properties.json'))).get(prop, {})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'proof'), 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': violations}
    if ev['level'] != 'proof':
        cov['evaluations'] = tot['evaluations']; cov['distinct_nontrivial'] = tot['distinct_nontrivial']
        cov['rule'] = 'every sequence of the property\'s source snippets up to a length, then random scripts; non-trivial: distinct and longer than one byte'
        cov['samples'] = tot['samples']
        cov['explanation'] = meta.get('note', '')
    d = os.path.join(HERE, 'evidence'); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    sys.exit(main())
