"""Builds the verified file for a set of functions: source text taken from /repo, contracts and
proof hints from /verif/verus/*.vc, specifications and lemmas from /verif/verus/spec.rs."""
import os
import re
import sys
import glob
import json
import hashlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustlex import T, lex, text, norm, match, split, OPEN, CLOSE, LexError, Items, parse_file
from desugar import Desugar, Unsupported, L, RULES

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = ['arith', 'cmp', 'decimal', 'error', 'round', 'serde', 'utils']


def read_items(repo):
    it = Items()
    for p in sorted(glob.glob(os.path.join(repo, 'src', '**', '*.rs'), recursive=True)):
        b = os.path.basename(p)
        if b in ('verif.rs',):
            continue
        parse_file(open(p).read(), it, b)
    return it


# ---------------------------------------------------------------------- contracts
class Contract:
    def __init__(self, key):
        self.key = key
        self.ret = 'r'
        self.spec = ''
        self.secs = []    # (kind, arg, text)
        self.props = []
        self.opts = {}
        self.of = key


def read_contracts(paths=None):
    cs = {}
    for p in paths or sorted(glob.glob(os.path.join(HERE, 'verus', '*.vc'))):
        cur = None
        sec = None
        for line in open(p):
            if line.startswith('%%'):
                a = line[2:].strip()
                if a.startswith('#'):
                    sec = None
                    continue
                if a.startswith('fn '):
                    w = a.split()
                    cur = Contract(w[1])
                    for x in w[2:]:
                        if x.startswith('ret='):
                            cur.ret = x[4:]
                        elif '=' in x:
                            cur.opts[x.split('=')[0]] = x.split('=', 1)[1]
                        else:
                            cur.opts[x] = True
                    cur.of = cur.opts.get('of', w[1])
                    cs[w[1]] = cur
                    sec = 'spec'
                    continue
                cur.secs.append([a, ''])
                sec = 'sec'
                continue
            if sec == 'spec':
                cur.spec += line
            elif sec == 'sec':
                cur.secs[-1][1] += line
    return cs


# ---------------------------------------------------------------------- placing hints
def stmt_end(toks, i):
    """index just past the statement starting at i"""
    n = len(toks)
    j = i
    if toks[j] in ('while', 'for', 'loop', 'if', 'match', '{') or toks[j].kind == 'life':
        # block-like
        while j < n and toks[j] != '{':
            if toks[j] in OPEN:
                j = match(toks, j)
            j += 1
        j = match(toks, j) + 1
        while j < n and toks[j] == 'else':
            while toks[j] != '{':
                if toks[j] in OPEN:
                    j = match(toks, j)
                j += 1
            j = match(toks, j) + 1
        return j
    while j < n:
        t = toks[j]
        if t in OPEN:
            j = match(toks, j) + 1
            continue
        if t == ';':
            return j + 1
        if t in CLOSE:
            return j
        j += 1
    return j


def statements(toks, lo, hi):
    """(start, end) of the statements in toks[lo:hi] (inside one block)"""
    i = lo
    out = []
    while i < hi:
        e = stmt_end(toks, i)
        if e <= i:
            break
        # block-like expression continued by an operator is not a statement of its own
        out.append((i, min(e, hi)))
        i = e
    return out


def loops(toks):
    out = []
    for i, t in enumerate(toks):
        if t.kind == 'id' and t in ('while', 'loop', 'for'):
            j = i + 1
            while toks[j] != '{':
                if toks[j] in OPEN:
                    j = match(toks, j)
                j += 1
            s = i
            if i >= 2 and toks[i - 1] == ':' and toks[i - 2].kind == 'life':
                s = i - 2
            out.append((s, j, match(toks, j)))
    return out


def is_stmt_start(toks, i):
    return i == 0 or toks[i - 1] in (';', '{', '}')


COUNTS = {}
try:
    PINNED = json.load(open(os.path.join(HERE, 'verus', 'anchors.json')))
except OSError:
    PINNED = {}


class Placer:
    def __init__(self, toks, contract, missing):
        self.toks = toks
        self.repl = {}     # index -> text instead of that token
        self.ins = {}      # index -> list of text inserted before that token
        self.missing = missing
        self.c = contract
        self.loops = loops(toks)

    def add(self, idx, s, front=False):
        l = self.ins.setdefault(idx, [])
        if front:
            l.insert(0, s)
        else:
            l.append(s)

    def find_all(self, spec):
        rx = re.compile(re.match(r'/(.*)/\s*$', spec).group(1))
        out = []
        for i in range(len(self.toks)):
            if is_stmt_start(self.toks, i):
                e = stmt_end(self.toks, i)
                if rx.match(norm(self.toks[i:min(e, i + 60)])):
                    out.append((i, e))
        return out

    def find(self, spec):
        m = re.match(r'/(.*)/\s*(?:#(\d+))?\s*$', spec)
        rx = re.compile(m.group(1))
        want = int(m.group(2) or 1)
        cnt = 0
        for i in range(len(self.toks)):
            if not is_stmt_start(self.toks, i):
                continue
            e = stmt_end(self.toks, i)
            if rx.match(norm(self.toks[i:min(e, i + 60)])):
                cnt += 1
                if cnt == want:
                    return i, e
        return None

    def place(self):
        toks = self.toks
        nl = len(self.loops)
        for q, (a, body) in enumerate(self.c.secs):
            body = '//@h %d\n%s\n//@/h\n' % (q, body.rstrip('\n'))
            # alternatives: the first place there is
            alts = [x.strip() for x in a.split(' | ')]
            while len(alts) > 1:
                w = alts[0].split(None, 1)
                if w[0] in ('before', 'after') and self.find(w[1].strip()) is None:
                    alts.pop(0)
                elif w[0] == 'loop' and int(w[1].split()[0]) > nl:
                    alts.pop(0)
                else:
                    break
            a = alts[0]
            w = a.split(None, 1)
            kind = w[0]
            arg = w[1].strip() if len(w) > 1 else ''
            if kind == 'entry':
                self.add(1, body)
            elif kind == 'loop':
                ww = arg.split()
                k = int(ww[0])
                what = ww[1] if len(ww) > 1 else 'spec'
                if k > nl:
                    self.missing.append('%s: loop %d' % (self.c.key, k))
                    continue
                s, b, e = self.loops[k - 1]
                if what == 'spec':
                    self.add(b, body)
                elif what == 'begin':
                    self.add(b + 1, body)
                elif what == 'end':
                    self.add(e, body)
                elif what == 'before':
                    self.add(s, body)
                elif what == 'after':
                    self.add(e + 1, body)
                elif what == 'continue':
                    for i in range(b, e):
                        if toks[i] == 'continue' and toks[i].kind == 'id':
                            self.add(i, body)
                else:
                    raise ValueError(a)
            elif kind in ('afterall', 'beforeall'):
                # after every such statement (proof text that does not depend on which one it is)
                for f in self.find_all(arg):
                    self.add(f[1] if kind == 'afterall' else f[0], body)
            elif kind in ('after', 'before'):
                f = self.find(arg)
                nf = len(self.find_all(arg.rsplit('#', 1)[0].strip()))
                COUNTS.setdefault(self.c.key, {})[a] = nf
                if nf and nf != PINNED.get(self.c.key, {}).get(a, nf):
                    # it may be another statement now: a proof is a proof, but a failure says nothing
                    self.missing.append('%s: %s fits %d statements' % (self.c.key, a, nf))
                if f is None:
                    self.missing.append('%s: %s' % (self.c.key, a))
                    continue
                self.add(f[1] if kind == 'after' else f[0], body)
            elif kind == 'exit':
                # every return statement and the end of the body
                want = int(arg) if arg and arg != 'tail' else None
                rs = [i for i in range(len(toks)) if toks[i] == 'return' and toks[i].kind == 'id']
                if arg != 'tail':
                    for q, i in enumerate(rs):
                        if want is not None and q + 1 != want:
                            continue
                        if toks[i - 1] == '=>':
                            j = i
                            while toks[j] != ',' and toks[j] not in CLOSE:
                                if toks[j] in OPEN:
                                    j = match(toks, j)
                                j += 1
                            self.add(i, '{ ' + body)
                            self.add(j, ' }')
                        else:
                            self.add(i, body)
                    if want is not None and want > len(rs):
                        self.missing.append('%s: exit %d' % (self.c.key, want))
                if want is None:
                    st = statements(toks, 1, len(toks) - 1)
                    if st and toks[st[-1][1] - 1] != ';' and not (
                            toks[st[-1][0]] in ('while', 'for', 'loop')):
                        if not (toks[st[-1][0]] in ('if', 'match') and self.c.opts.get('unit')):
                            self.add(st[-1][0], body)
                        else:
                            self.add(len(toks) - 1, body)
                    else:
                        if not (st and toks[st[-1][0]] == 'return'):
                            self.add(len(toks) - 1, body)
            elif kind == 'exits':
                # like exit, at the end of every branch of a tail expression, after the value is computed
                for i in [i for i in range(len(toks)) if toks[i] == 'return' and toks[i].kind == 'id']:
                    j = i + 1
                    while toks[j] not in (',', ';') and toks[j] not in CLOSE:
                        if toks[j] in OPEN:
                            j = match(toks, j)
                        j += 1
                    if j == i + 1:
                        self.add(i, body)
                    else:
                        self.repl[i] = '{ let __ret ='
                        self.add(j, '; ' + body + ' return __ret }')
                if self.c.opts.get('unit'):
                    self.add(len(toks) - 1, body)
                else:
                    self.tails(1, len(toks) - 1, body)
            else:
                raise ValueError(a)
        return self

    def tails(self, lo, hi, body):
        toks = self.toks
        st = statements(toks, lo, hi)
        if not st:
            self.add(hi, body)
            return
        a, b = st[-1]
        h = toks[a]
        if h == 'return' or toks[b - 1] == ';' and h == 'return':
            return
        if toks[b - 1] == ';' or h in ('while', 'for', 'loop'):
            self.add(hi, body)
        elif h == '{' and b == hi:
            self.tails(a + 1, b - 1, body)
        elif h == 'if' and b == hi:
            i = a
            while i < b:
                while toks[i] != '{':
                    i = match(toks, i) + 1 if toks[i] in OPEN else i + 1
                e = match(toks, i)
                self.tails(i + 1, e, body)
                i = e + 1
        elif h == 'match' and b == hi:
            i = a
            while toks[i] != '{':
                i = match(toks, i) + 1 if toks[i] in OPEN else i + 1
            e = match(toks, i)
            i += 1
            while i < e:
                while toks[i] != '=>':
                    i = match(toks, i) + 1 if toks[i] in OPEN else i + 1
                i += 1
                if toks[i] == '{' and (match(toks, i) + 1 == e or toks[match(toks, i) + 1] == ',' or toks[match(toks, i) + 1] not in ('.', '?')):
                    z = match(toks, i)
                    self.tails(i + 1, z, body)
                    i = z + 1
                else:
                    z = i
                    while z < e and toks[z] != ',':
                        z = match(toks, z) + 1 if toks[z] in OPEN else z + 1
                    if toks[i] != 'return' and toks[i] not in ('panic', 'unreachable'):
                        self.add(i, '{ let __ret =')
                        self.add(z, '; ' + body + ' __ret }')
                    i = z
                if i < e and toks[i] == ',':
                    i += 1
        else:
            self.add(a, 'let __ret =')
            self.add(hi, '; ' + body + ' __ret')

    def text(self):
        for i, s in self.repl.items():
            self.toks[i] = T(s, 'id', self.toks[i].ws)
        out = []
        last = 0
        for i in sorted(self.ins):
            out.append(text(self.toks[last:i]))
            out.append('\n' + '\n'.join(self.ins[i]) + '\n')
            last = i
        out.append(text(self.toks[last:]))
        return ''.join(out)


RENAME = {
    'Ord::cmp': 'cmp', 'PartialOrd::partial_cmp': 'partial_cmp', 'PartialEq::eq': 'eq',
    'Add::add': 'op_add', 'Sub::sub': 'op_sub', 'Mul::mul': 'op_mul', 'Div::div': 'op_div', 'Rem::rem': 'op_rem',
    'Hash::hash': 'hash', 'From<i64>::from': 'from_i64', 'From<u64>::from': 'from_u64', 'FromStr::from_str': 'from_str',
}


def simple_subst(toks, f):
    """spelling changes inside a body or signature"""
    out = []
    i = 0
    n = len(toks)
    while i < n:
        t = toks[i]
        if f.trait and t == 'Self' and i + 2 < n and toks[i + 1] == '::' and toks[i + 2] in ('Output', 'Err'):
            out.append(T('FixedDecimal' if toks[i + 2] == 'Output' else 'Error', 'id', t.ws))
            i += 3
            continue
        out.append(t)
        i += 1
    return out


def fn_text(f, c, missing, rules, name=None, diverge=False):
    d = Desugar(diverge=diverge)
    body = d.run(simple_subst(f.body, f))
    rules |= d.used
    params = text(simple_subst(f.params, f)).strip()
    gen = text(f.generics).strip()
    if f.trait == 'Hash':
        gen = gen.replace('Hasher', 'VHasher')
    nm = name or RENAME.get(f.key, f.name)
    ret = text(simple_subst(f.ret, f)).strip()
    s = ''
    if c is not None:
        for o in ('rlimit', ):
            if o in c.opts:
                s += '#[verifier::rlimit(%s)]\n' % c.opts[o]
        if 'spinoff' in c.opts:
            s += '#[verifier::spinoff_prover]\n'
        if 'loopiso' in c.opts:
            s += '#[verifier::loop_isolation(%s)]\n' % c.opts['loopiso']
            s += '#[verifier::allow_complex_invariants]\n'
        if 'nonlinear' in c.opts:
            s += '#[verifier::nonlinear]\n'
    s += 'pub fn %s%s(%s)' % (nm, gen, params)
    if ret:
        s += ' -> (%s: %s)' % (c.ret if c else 'r', ret)
    s += '\n'
    if c is not None:
        s += c.spec
        p = Placer(body, c, missing).place()
        s += p.text().lstrip()
        if 'loops' in c.opts and int(c.opts['loops']) != len(p.loops):
            missing.append('%s: has %d loops, contract expects %s' % (f.key, len(p.loops), c.opts['loops']))
    else:
        s += text(body).lstrip()
    return s + '\n'


def calls(toks, items):
    """keys of the functions of the crate that a body may call"""
    byname = {}
    for k, f in items.fns.items():
        byname.setdefault(f.name, []).append(k)
    res = set()
    for i, t in enumerate(toks):
        if t.kind == 'id' and i + 1 < len(toks) and toks[i + 1] == '(' and str(t) in byname:
            prev = toks[i - 1] if i else ''
            for k in byname[str(t)]:
                f = items.fns[k]
                if f.owner is None and prev in ('.', '::'):
                    continue
                if f.owner is not None and prev not in ('.', '::'):
                    continue
                res.add(k)
    return res
