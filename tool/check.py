#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]
Decides one property on /repo's current working tree. See DESIGN.md."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import crosscheck
import gen
from gen import Gen, Lost
from desugar import Unsupported, RULES
from rustlex import LexError
from props import PROPS, TRUSTED

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FXD_REPO', '/repo')
BUILD = os.environ.get('FXD_BUILD', os.path.join(HERE, '.build'))
VERUS_FLAGS = ['--triggers-mode', 'silent', '--output-json', '--time-expanded', '--multiple-errors', '4']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_replay():
    env = dict(os.environ)
    env['RUSTFLAGS'] = '--cfg fxd_verif'
    env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'replay')
    env['CARGO_NET_OFFLINE'] = 'true'
    src = os.path.join(HERE, 'replay')
    if REPO != '/repo':  # development runs on a copy of the repository
        src = os.path.join(BUILD, 'replay_src')
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, 'replay'), src, ignore=shutil.ignore_patterns('target'))
        c = open(os.path.join(src, 'Cargo.toml')).read()
        open(os.path.join(src, 'Cargo.toml'), 'w').write(re.sub(r'path = "[^"]*repo"', 'path = "%s"' % REPO, c))
    r = sh(['cargo', 'build', '--offline', '--release', '--quiet'], cwd=src, env=env)
    exe = os.path.join(BUILD, 'replay', 'release', 'fxdreplay')
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    return exe, ''


def literals():
    """integer literals of the source under test: values its branches may depend on"""
    res = set()
    old = set()
    try:
        for m in re.finditer(r'(?<![\w.])(\d[\d_]*)', open(os.path.join(HERE, 'verus', 'pinned.json')).read()):
            old.add(int(m.group(1).replace('_', '')))
    except OSError:
        pass
    new, wide = set(), set()
    for root, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.rs') and f != 'verif.rs':
                s = open(os.path.join(root, f), errors='replace').read().split('#[cfg(test)]')[0]
                s = re.sub(r'//[^\n]*', '', s)
                for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.])', s):
                    v = int(m.group(1).replace('_', ''))
                    if v > 999 and v not in old:
                        new.add(v % 10**9)
                        if 10**9 <= v < 2**64:
                            wide.add(v)
                    while 0 < v:
                        if 10 < v % 10**9:
                            res.add(v % 10**9)
                        v //= 10**9
    res = sorted(res)[:4000]
    new = sorted(new - {0})[:500]
    return res + new * (len(res) // len(new) if new else 0), sorted(wide)[:500]


def search(exe, prop, seconds, seed, out):
    if os.path.exists(out):
        os.remove(out)
    lits, wide = literals()
    env = dict(os.environ, FXD_DICT=','.join(map(str, lits)), FXD_WIDE=','.join(map(str, wide)))
    try:
        r = sh([exe, 'search', '--prop', prop, '--seconds', str(int(seconds)), '--seed', str(seed), '--threads', '8', '--out', out],
               timeout=seconds + 60, env=env)
    except subprocess.TimeoutExpired:
        return {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'found': False, 'error': 'timeout'}
    try:
        j = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'found': False, 'error': r.stderr[-500:]}
    if j['found']:
        # only an input that fails again on its own counts
        c = sh([exe, 'replay', out])
        j['replay'] = c.stdout.strip()
        if c.returncode != 1:
            j['found'] = False
            j['unconfirmed'] = True
    return j


def impl_guard(items, spec):
    """functions of the trait impls a property is about, beyond those under contract"""
    want = set(spec['roots'] or ())
    for k, f in items.fns.items():
        if f.trait and f.owner == 'FixedDecimal' and f.trait.split('<')[0] in spec.get('impls', []) and k not in want:
            raise Lost('impl %s has a further function %s' % (f.trait, k))


def surface_guard(items, contracts):
    """every function of the crate is under contract, and decimals are made by them only"""
    of = {c.of for c in contracts.values()}
    for k, f in items.fns.items():
        # private helpers are put back into their callers; a call that could not be is found later
        if k not in of and (f.vis == 'pub' or f.trait):
            raise Lost('function %s has no contract' % k)
    for t, (attrs, toks, _f) in items.types.items():
        for a in attrs:
            for d in re.findall(r'\w+', a):
                if d not in ('derive', 'Debug', 'Clone', 'Error', 'doc', 'repr', 'inline', 'allow'):
                    raise Lost('type %s has %s' % (t, a))
        if t == 'FixedDecimal' and re.search(r'\bpub\b(?! ?\( ?crate ?\)) (?!struct)', ' '.join(map(str, toks))):
            raise Lost('FixedDecimal has public fields')


def source_guard(items):
    for o in items.others:
        if o.startswith('duplicate') or o == 'macro':
            raise Lost('source has %s' % o)
    for k, f in items.fns.items():
        for a in f.attrs:
            if 'cfg' in a:
                raise Lost('function %s is conditional: %s' % (k, a))


def parse_errors(stderr, text):
    """[(function, message, source line)] from the verifier's diagnostics"""
    lines = text.split('\n')
    owner = []
    mods = []
    cur = None
    mod = ''
    for l in lines:
        m = re.match(r'//@fn (.*)', l)
        if m:
            cur = m.group(1)
        owner.append(cur if cur else mod)
        mods.append(mod[7:])
        if l.startswith('//@end'):
            cur = None
        m = re.match(r'pub mod (\w+)', l)
        if m:
            mod = 'module ' + m.group(1)
    res = []
    for blk in re.split(r'\n(?=error|warning|note)', '\n' + stderr):
        m = re.match(r'\s*(error(?:\[E\d+\])?|note): (.*)', blk)
        if not m:
            continue
        p = re.search(r'--> [^\n]*?:(\d+):(\d+)', blk)
        if not p:
            continue
        ln = int(p.group(1))
        # the first position is where the failure is reported; the obligation is what is underlined
        src = lines[ln - 1].strip() if ln <= len(lines) else ''
        res.append(dict(kind=m.group(1), msg=m.group(2).strip(), fn=owner[ln - 1] if ln <= len(owner) else '', line=ln, src=src, text=blk.strip()[:1500], mod=mods[ln - 1] if ln <= len(mods) else ''))
    return res


START = time.time()


def left(tier, reserve):
    """seconds this run may still take, `reserve` kept for what comes after"""
    return max(5, (820 if tier == 'quick' else 7200) - (time.time() - START) - reserve)


def run_verus(path, extra=(), timeout=600):
    cmd = ['verus', path] + VERUS_FLAGS + list(extra)
    t = time.time()
    try:
        r = sh(cmd, cwd=os.path.dirname(path), timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(ok=False, timeout=True, json=None, stderr='timeout', wall=time.time() - t, cmd=' '.join(cmd))
    j = None
    m = re.search(r'^\{.*^\}', r.stdout, re.S | re.M)
    if m:
        try:
            j = json.loads(m.group(0))
        except Exception:
            j = None
    return dict(ok=r.returncode == 0, timeout=False, json=j, stderr=r.stderr, wall=time.time() - t, cmd=' '.join(cmd))


SCAN = re.compile(r'\b(assume|admit|external_body|assume_specification|external_fn_specification|external_type_specification|axiom|no_decreases|exec_allows_no_decreases_clause|truncate)\b')


def scan(text):
    res = []
    for l in text.split('\n'):
        l = l.split('//')[0]
        if SCAN.search(l):
            res.append(l.strip()[:160])
    return res


def retry(path, mods, budget):
    """another try at the modules with failures, with other solver seeds: any success is a proof. -> modules proved"""
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(m, s) for s in (1, 2, 3, 4) for m in mods]
    done = {}
    end = time.time() + budget

    def one(js):
        m, s = js
        if m in done or end - time.time() < 5:
            return
        r = run_verus(path, ['--verify-only-module', m, '--smt-option', 'smt.random_seed=%d' % s], end - time.time())
        vr = (r['json'] or {}).get('verification-results', {})
        if r['ok'] and vr.get('success') and vr.get('errors') == 0 and vr.get('verified', 0) > 0:
            done[m] = s
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, jobs))
    return done


def section(text, line):
    """number of the piece of proof text a line lies in"""
    lines = text.split('\n')
    for i in range(line - 1, -1, -1):
        if lines[i].startswith('//@/h') and i != line - 1:
            return None
        m = re.match(r'.*//@h (\d+)$', lines[i])
        if m:
            return int(m.group(1))
        if lines[i].startswith('//@fn'):
            return None
    return None


def generate(spec, drops=None):
    g = Gen(REPO, drops=drops)
    source_guard(g.items)
    impl_guard(g.items, spec)
    thm = ''
    for t in spec.get('thm', []):
        thm += open(os.path.join(HERE, 'verus', t + '.rs')).read()
    if spec.get('surface'):
        surface_guard(g.items, g.contracts)
    roots = spec['roots']
    if roots is None:
        roots = [k for k, c in g.contracts.items() if not k.startswith('const:') and c.of in g.items.fns]
    return g, g.build(roots, spec.get('lemmas', ()), thm)


def verify(prop, spec, tier, early=lambda: False):
    """-> dict(status= proved|failed|undecided, ...)"""
    out = dict(status='undecided', why='', fns=[], obligations=0, discharged=0, failed=[])
    d = os.path.join(BUILD, 'verus')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop.lower() + '.rs')
    drops = {}
    for attempt in range(25):
        try:
            g, text = generate(spec, drops)
        except (Lost, Unsupported, LexError, KeyError, IndexError, ValueError) as e:
            out['why'] = 'the source is outside what the contracts can be placed on: %s: %s' % (type(e).__name__, e)
            return out
        open(path, 'w').write(text)
        r = run_verus(path, timeout=min(600, left(tier, 330)))
        errs = parse_errors(r['stderr'], text)
        # proof text naming variables that are gone is left out; contracts stay
        gone = False
        for e in errs:
            m = re.match(r'cannot find (?:value|function) `(\w+)` in this scope', e['msg'])
            if m and e['kind'].startswith('error[') and e['fn'] in g.contracts:
                q = section(text, e['line'])
                if q is not None and (q, m.group(1)) not in drops.get(e['fn'], ()):
                    drops.setdefault(e['fn'], set()).add((q, m.group(1)))
                    gone = True
        if not gone:
            break
    out['text'] = text
    out['drops'] = drops
    out.update(fns=g.fns, rules=sorted(g.rules), lemmas=g.lemmods, cmd=r['cmd'], verus_wall=round(r['wall'], 2),
               trusted_scan=scan(text), sha=hashlib.sha256(text.encode()).hexdigest()[:16])
    j = r['json']
    vr = (j or {}).get('verification-results', {})
    hard = [e for e in errs if e['kind'].startswith('error') and not e['msg'].startswith('aborting')]
    out['lost'] = g.missing
    if r['timeout']:
        out['why'] = 'the verifier did not finish in time'
        return out
    out['obligations'] = vr.get('verified', 0) + vr.get('errors', 0)
    out['discharged'] = vr.get('verified', 0)
    times = ((j or {}).get('times-ms') or {})
    try:
        mods = times['smt']['smt-run-module-times']
        fb = {}
        for m in mods:
            for f in m.get('function-breakdown', []):
                fb[f['function'].replace('crate::', '')] = dict(ms=round(f.get('time-micros', f.get('time', 0) * 1000) / 1000.0, 1), rlimit=f.get('rlimit'))
        out['per_function'] = fb
        out['solver_ms'] = times['smt'].get('smt-run', None)
    except Exception:
        pass
    if r['ok'] and vr.get('success') and vr.get('errors') == 0:
        if vr.get('verified', 0) < len(g.fns):
            out['why'] = 'fewer obligations than functions'
            return out
        out['status'] = 'proved'
        return out
    # proofs that ran out of resources, or failed, are tried again before they count
    bad = sorted({e['mod'] for e in hard})
    if hard and all(bad) and len(bad) <= 6 and vr.get('errors', 0) > 0 and not any(e['kind'].startswith('error[') for e in hard) and vr.get('encountered-vir-error') is not True and all(e['fn'] for e in hard):
        if early():
            out['why'] = 'not accepted: ' + '; '.join('%s (%s)' % (e['msg'][:120], e['fn']) for e in hard[:3])
            out['status'] = 'failed'
            out['failed'] = hard
            return out
        done = retry(path, bad, min(left(tier, 260), 240 if tier == 'quick' else 1200))
        out['retried'] = done
        hard = [e for e in hard if e['mod'] not in done]
        if not hard:
            out['status'] = 'proved'
            out['discharged'] = out['obligations']
            return out
    # obligations the solver answered on (not resource limits, not compile errors)
    DEF = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'possible arithmetic',
           'decreases not satisfied', 'possible division by zero', 'recommendation not met', 'loop invariant not', 'failed simplif', 'expression simplifies to false', 'possible bit shift',
           'assert_by_compute')
    definite = [e for e in hard if any(x in e['msg'] for x in DEF)]
    other = [e for e in hard if e not in definite]
    if definite and not any(e['kind'].startswith('error[') for e in hard) and (j is None or vr.get('encountered-vir-error') is not True or all('simplif' in e['msg'] for e in definite)):
        # a function whose proof text is incomplete says nothing; the others are verified against contracts, not against it
        lost = {m.split(': ')[0] for m in g.missing}
        placed = [e for e in definite if e['fn'] not in lost and e['fn'] in g.contracts]
        if g.missing and not placed:
            out['why'] = 'proof text has lost its place (%s) and the proof does not go through without it: %s (%s)' % ('; '.join(g.missing)[:200], definite[0]['msg'], definite[0]['fn'])
            return out
        if g.missing:
            definite = placed
        if spec.get('own') and not any(e['fn'] in spec['own'] for e in definite):
            out['why'] = 'the contracts this property is stated over are not met on this tree: %s (%s)' % (definite[0]['msg'], definite[0]['fn'])
            return out
        built = [e for e in definite if (g.contracts[e['fn']].of if e['fn'] in g.contracts else None) not in g.restructured]
        if not built:
            out['why'] = 'the statements of %s are arranged differently and the proof does not go through: %s' % (definite[0]['fn'], definite[0]['msg'])
            out['restructured'] = True
            return out
        if all(e['fn'] in spec.get('stronger', ()) for e in definite):
            out['why'] = 'a contract that asks for more than the property does is not met: %s (%s)' % (definite[0]['msg'], definite[0]['fn'])
            return out
        # functions that also ran out of resources are still reported through their definite failures
        out['status'] = 'failed'
        out['failed'] = definite
        return out
    out['why'] = 'the verifier gave no answer: ' + '; '.join('%s (%s)' % (e['msg'][:120], e['fn']) for e in hard[:3])
    out['detail'] = r['stderr'][-3000:]
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[prop]
    t0 = time.time()
    rdir = os.path.join(BUILD, 'found')
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, prop + '.txt')
    import threading
    built = {}

    def cross(drops=None):
        try:
            g = Gen(REPO, drops=drops)
            full = g.build([k for k, c in g.contracts.items() if not k.startswith('const:') and c.of in g.items.fns], (), '')
            built['x'] = crosscheck.run(HERE, BUILD, full, None, built['r'][0], prop, 100000 if tier == 'quick' else 3000000, seed,
                                        200 if tier == 'quick' else 900) if built['r'][0] else dict(ran=False, why='no build')
            built['full'] = full
        except Exception as e:
            built['x'] = dict(ran=False, why='%s: %s' % (type(e).__name__, e))

    def side():
        built.update(r=build_replay())
        cross()
    th = threading.Thread(target=side, daemon=True)
    th.start()
    found = {}

    def early():
        """a failing input settles the matter: looked for before proofs are tried again"""
        while 'r' not in built and th.is_alive():
            time.sleep(0.1)
        exe = built.get('r', (None, ''))[0]
        if exe:
            found.update(search(exe, prop, 40 if tier == 'quick' else 120, seed, rfile))
        return bool(found.get('found'))
    v = verify(prop, spec, tier, early)
    th.join(left(tier, 200))
    if v.get('drops') and v['status'] == 'proved':
        cross(v['drops'])
    exe, berr = built.get('r', (None, 'no build'))
    x = built.get('x', dict(ran=False, why='not run'))
    if x.get('ran') and v.get('text'):
        have = set(crosscheck.chunks(built['full']))
        if any(c not in have for c in crosscheck.chunks(v['text'])):
            x = dict(ran=False, why='the compared text is not the verified text')
    # a crate that panics where the text does not: its assertions and overflow checks are obligations in the text
    if x.get('ran') and x['differ'] and (x['hard'] or v['status'] == 'proved'):
        print(x['text'])
        v['status'] = 'undecided'
        v['why'] = 'the extracted text does not do what the crate does: %d of %d cases differ' % (x['differ'], x['compared'])
        v['failed'] = []
    if exe is None:
        print('replay crate does not build against this tree: ' + berr[-400:])
    secs = {'proved': 4, 'failed': 60 if found else 100, 'undecided': 60}[v['status']]
    if v.get('restructured'):
        secs = 180
    if tier == 'thorough':
        secs = {'proved': 120, 'failed': 300, 'undecided': 300}[v['status']]
    secs = min(secs, left(tier, 60))
    s = found if found.get('found') else search(exe, prop, secs, seed + 1 if found else seed, rfile) if exe else dict(evaluations=0, distinct_nontrivial=0, samples=[], found=False)
    why = elsewhere(prop, v, exe, seed + 2, tier) if exe and v['status'] == 'failed' and not s['found'] else None
    if why:
        v['status'] = 'undecided'
        v['why'] = why
    known = load_known()
    ev = dict(property=prop, tier=tier, seed=seed,
              level='proof' if v['status'] == 'proved' else 'exploration',
              coverage=dict(
                  explanation={'proved': 'every obligation generated from the current source was accepted by the verifier',
                               'failed': 'the verifier rejected obligations; a failing input was searched for',
                               'undecided': 'bounded: the proof could not be run on this source (%s); inputs were tried instead, nothing is proved' % v['why']}[v['status']],
                  obligations=v['obligations'], discharged=v['discharged'],
                  checker_cmd=v.get('cmd', ''), trusted_base=TRUSTED + v.get('trusted_scan', []),
                  functions_under_contract=v['fns'], rules_applied=v.get('rules', []), lemma_modules=v.get('lemmas', []),
                  retried_with_other_seeds=v.get('retried', {}), solver_ms=v.get('solver_ms'), verifier_wall_s=v.get('verus_wall'), per_function=v.get('per_function', {}),
                  generated_sha=v.get('sha'), extraction_crosscheck={k: x[k] for k in ('ran', 'why', 'compared', 'differ', 'seconds') if k in x}, back_end='Verus/Z3',
                  evaluations=s['evaluations'], distinct_nontrivial=s['distinct_nontrivial'],
                  rule='cross-check on the compiled crate: random and boundary-directed valid decimals, texts and arguments, judged by an independent integer oracle; non-trivial: operands not zero / text not empty',
                  samples=s.get('samples', [])[:3]),
              assumptions=spec.get('assumptions', []) + ['usize is 64 bits'],
              wall_s=0, violations=0)
    code = 0
    if s['found']:
        ev['violations'] = 1
        code = 1
        body = open(rfile).read()
        for e in v['failed'][:5]:
            body += '# failed obligation: %s: %s: %s\n' % (e['fn'], e['msg'], e['src'])
        open(rfile, 'w').write(body)
        print(s.get('replay', ''))
        for e in v['failed'][:5]:
            print('failed obligation: %s: %s: `%s`' % (e['fn'], e['msg'], e['src']))
        print('VIOLATION property=%s replay=%s' % (prop, rfile))
    elif v['status'] == 'failed':
        ev['violations'] = 1
        code = 1
        with open(rfile, 'w') as f:
            f.write('# no failing input found in %s tries; the verifier no longer accepts:\nproperty=%s\n' % (s['evaluations'], prop))
            for e in v['failed']:
                f.write('obligation=%s: %s: %s\n%s\n\n' % (e['fn'], e['msg'], e['src'], e['text']))
        for e in v['failed'][:5]:
            print('failed obligation: %s: %s: `%s`' % (e['fn'], e['msg'], e['src']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rfile))
    elif v['status'] == 'undecided':
        print('BOUNDED property=%s: %s; %d inputs tried, none fails' % (prop, v['why'], s['evaluations']))
        if v.get('detail'):
            print(v['detail'][-1500:])
        if exe is None and not v['fns']:
            print('neither the proof nor the inputs could be run on this tree')
    else:
        print('PROVED property=%s: %d obligations, %d functions under contract, verifier %.1f s; %d inputs cross-checked' % (
            prop, v['discharged'], len(v['fns']), v['verus_wall'], s['evaluations']))
    for k in known:
        if k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    sys.exit(code)


def elsewhere(prop, v, exe, seed, tier):
    """A contract serves several properties. When no input breaks this one but one breaks another property
    whose proof contains the same failed functions, it is that property the failure speaks of."""
    bad = {e['fn'] for e in v['failed']}
    out = os.path.join(BUILD, 'found', prop + '.other.txt')
    for q in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C10', 'C12', 'C13', 'C14', 'C17', 'C19', 'C11', 'C15', 'C18', 'C01'):
        if q == prop or PROPS[q]['roots'] is None and prop == 'C16':
            continue
        try:
            g = Gen(REPO)
            fns = set(g.contracts) if PROPS[q]['roots'] is None else set(g.closure(PROPS[q]['roots'])[0])
        except Exception:
            continue
        if not bad & fns:
            continue
        if left(tier, 50) < 20:
            break
        s = search(exe, q, 12, seed, out)
        if s.get('found'):
            return 'the contract of %s is not met (%s), but what fails is %s and not this property: %s' % (
                v['failed'][0]['fn'], v['failed'][0]['msg'], q, s.get('replay', '')[-300:])
    return None


def load_known():
    res = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m:
                res.append(dict(property=m.group(1), what=m.group(2)))
    return res


if __name__ == '__main__':
    main()
