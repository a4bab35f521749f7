"""Generates the verified file for a set of root functions."""
import os
import re
import sys
import hashlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustlex import T, lex, text, norm, match, split, LexError
from desugar import Desugar, Unsupported, RULES
from extract import read_items, read_contracts, fn_text, simple_subst, RENAME, HERE
import extract
from inline import Inliner
from prune import prune_contract
import align


class Lost(Exception):
    """the source no longer has the shape the contracts are written for"""


def called(toks, items, contracts):
    byname = {}
    for k, f in items.fns.items():
        byname.setdefault(RENAME.get(k, f.name), []).append(k)
        if f.name == 'clone':
            byname.setdefault('clone', []).append(k)
    res = []
    consts = []
    for i, t in enumerate(toks):
        if t.kind != 'id':
            continue
        s = str(t)
        if s in items.consts:
            if s not in consts:
                consts.append(s)
            continue
        if i + 1 < len(toks) and toks[i + 1] == '(' and s in byname:
            prev = toks[i - 1] if i else ''
            if prev == 'fn':
                continue
            if s == 'cmp' and norm(toks[i:i + 5]) == 'cmp ( & 0 )':
                continue
            for k in byname[s]:
                f = items.fns[k]
                if (f.owner is None) == (prev in ('.', '::')):
                    continue
                if k not in res:
                    res.append(k)
    return res, consts


INTS = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'isize', 'usize')


def int_consts(items):
    """name -> (value, type) of the integer constants, folded"""
    vals = {}
    for _ in range(5):
        for n, (ty, val, _f) in items.consts.items():
            if n in vals or norm(ty) not in INTS:
                continue
            e = []
            for t in val:
                if t.kind == 'num':
                    m = re.match(r'(0[xob][0-9a-fA-F_]+?|[\d_]+)((?:i|u)(?:8|16|32|64|size))?$', str(t))
                    if not m:
                        break
                    e.append(str(int(m.group(1).replace('_', ''), 0)))
                elif str(t) in vals:
                    e.append(str(vals[str(t)][0]))
                elif t in ('+', '-', '*', '(', ')'):
                    e.append(str(t))
                elif t == '/':
                    e.append('//')
                else:
                    break
            else:
                v = eval(' '.join(e))
                if v >= 0:
                    vals[n] = (v, norm(ty))
    return vals


BITS = re.compile(r'(?:[^&]& |[^|]\| |\^ |>> )\(? ?(?:0x7f|0x80\w*|- ?128\w*|127|7)(?: |$)')


class Gen:
    def __init__(self, repo, contracts=None, drops=None):
        self.items = read_items(repo)
        self.contracts = contracts or read_contracts()
        self.drops = drops or {}
        for k, names in self.drops.items():
            self.contracts[k] = prune_contract(self.contracts[k], names)
        self.fold = int_consts(self.items)
        of = {c.of for c in self.contracts.values()}
        self.helpers = [k for k in self.items.fns if k not in of]
        self.inlined = set()
        self.not_inlined = {}
        for k, f in self.items.fns.items():
            if k in of and self.helpers:
                try:
                    f.body = Inliner(self.items, self.helpers, self.inlined).run(f.body, f.params)
                except Unsupported as e:
                    self.not_inlined[k] = str(e)
        pins = align.load()
        self.renamed = {}
        self.reshaped = {}
        self.restructured = set()
        for k, f in self.items.fns.items():
            if k in of and k in pins:
                if align.skeleton(f.body) != align.skeleton(lex(pins[k]['body'])) or align.operations(f.body) - align.operations(lex(pins[k]['body'])):
                    self.restructured.add(k)
                if align.kinds(f.body) != align.kinds(lex(pins[k]['body'])):
                    self.reshaped[k] = 'loops are written differently'
                m = align.apply(f, pins[k])
                if m:
                    self.renamed[k] = m
                d = align.detemp(f, pins[k])
                if d:
                    self.renamed.setdefault(k, {}).update({x: '(put back)' for x in d})
        for f in self.items.fns.values():
            f.body = self.folded(f.body)

    def folded(self, toks):
        out = []
        for i, t in enumerate(toks):
            if t.kind == 'id' and str(t) in self.fold and not (out and out[-1] in ('.', '::')):
                v, ty = self.fold[str(t)]
                out.append(T('%d%s' % (v, ty), 'num', t.ws))
            else:
                out.append(t)
        return out

    def closure(self, roots):
        """contract names needed for the roots; every function reached must have a contract"""
        todo = list(roots)
        seen = []
        consts = []
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            if c not in self.contracts:
                raise Lost('function %s has no contract%s' % (c, ''.join(' (' + x + ')' for x in self.not_inlined.values())[:200]))
            con = self.contracts[c]
            f = self.items.fns.get(con.of)
            if f is None:
                raise Lost('function %s is gone' % con.of)
            seen.append(c)
            body = Desugar().run(simple_subst(f.body, f))
            ks, cs = called(body, self.items, self.contracts)
            pks, pcs = called(f.params, self.items, self.contracts)
            for k in ks:
                if k not in todo and k not in seen:
                    todo.append(k)
            # proof text may mention constants too
            hint = con.spec + ' '.join(b for _, b in con.secs)
            for k in self.items.consts:
                if re.search(r'\b%s\b' % k, hint) and k not in cs:
                    cs.append(k)
            for k in cs + pcs:
                if k not in consts:
                    consts.append(k)
        # constants used by constants
        i = 0
        while i < len(consts):
            for t in self.items.consts[consts[i]][0] + self.items.consts[consts[i]][1]:
                if str(t) in self.items.consts and str(t) not in consts:
                    consts.append(str(t))
            i += 1
        return seen, consts

    def const_text(self, name):
        ty, val, _ = self.items.consts[name]
        con = self.contracts.get('const:' + name)
        tt, vt = text(ty).strip(), text(val).strip()
        if name in self.fold:
            return 'ty', 'pub const %s: %s = %d;\n' % (name, tt, self.fold[name][0])
        if con is None:
            return 'ty', 'pub const %s: %s = %s;\n' % (name, tt, vt)
        return 'table', ('const %s_SRC: %s = %s;\n' % (name, tt, vt)) + con.spec.replace('CONST_TYPE', tt)

    def build(self, roots, lemmas=(), theorems=''):
        fns, consts = self.closure(roots)
        self.missing = []
        for k in fns:
            if self.drops.get(k):
                self.missing.append('%s: the source has no %s' % (k, ', '.join(sorted({x for _, x in self.drops[k]}))))
        self.rules = set(self.inlined)
        lem = list(lemmas)
        code = []
        self.lines = []
        for k in fns:
            con = self.contracts[k]
            for l in con.opts.get('lemmas', '').split(','):
                if l and l not in lem:
                    lem.append(l)
            f = self.items.fns[con.of]
            if con.of in self.reshaped and con.secs:
                self.missing.append('%s: %s' % (k, self.reshaped[con.of]))
            if con.of in self.renamed:
                self.rules.add('rename')
            nm = con.opts.get('name')
            t = fn_text(f, con, self.missing, self.rules, name=nm, diverge='diverge' in con.opts)
            t = '//@fn %s\n%s//@end\n' % (k, t)
            if f.owner is not None:
                t = 'impl FixedDecimal {\n%s}\n' % t
            m = 'm_' + re.sub(r'\W+', '_', nm or RENAME.get(f.key, f.name))
            # the sign bit touched directly, without a hint about it
            bits = 'lem_i8_sign' not in t and BITS.search(norm(lex(re.sub(r'//@h.*?//@/h', '', t, flags=re.S))))
            code.append('pub mod %s { use super::*;\n%s%s}\npub use %s::*;\n' % (m, 'broadcast use fxd_bits;\n' if bits else '', t, m))
        ty, tables = [], []
        rd = lambda n: open(os.path.join(HERE, 'verus', n + '.rs')).read()
        order = []

        def need(l):
            if l in order:
                return
            for m in re.findall(r'^//@needs (\w+)', rd(l), re.M):
                need(m)
            order.append(l)
        for l in lem:
            need(l)
        hint = ' '.join(rd(l) for l in order) + theorems
        consts = consts + [c for c in self.items.consts if c not in consts and re.search(r'\b%s\b' % c, hint)]
        consts = consts + [c for c in self.fold if c not in consts and "const:" + c not in self.contracts]
        for c in consts:
            w, t = self.const_text(c)
            (ty if w == 'ty' else tables).append(t)
        at, st, _ = self.items.types['FixedDecimal']
        stx = re.sub(r'\bpub \( crate \)|pub\(crate\)', 'pub', text(st))
        ea, et, _ = self.items.types['Error']
        etx = re.sub(r'#\s*\[\s*error\s*\([^)]*\)\s*\]', '', text(et))
        out = ['#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_upper_case_globals, unused_labels, unused_braces)]\n',
               'use vstd::prelude::*;\nuse std::cmp::Ordering;\nverus! {\n']
        if not any('global' == l for l in lem):
            out.append('global size_of usize == 8;\n')
        out.append('pub mod ty { use super::*;\n')
        out.append('pub %s\n' % stx.strip())
        out.append('pub %s\n' % etx.strip())
        out.append('pub type Result<T> = std::result::Result<T, Error>;\n')
        if any('Clone' in a for a in at):
            out.append('''impl Clone for FixedDecimal {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { FixedDecimal { intg: self.intg, frac: self.frac, lsu: self.lsu } }
}
''')
        out += ty
        out.append('}\npub use ty::*;\n')
        out.append('pub mod prelude { use super::*;\n' + rd('prelude') + self.std_opt(''.join(code)) + '}\npub use prelude::*;\n')
        out.append('pub mod spec { use super::*;\n' + rd('spec') + '}\npub use spec::*;\n')
        for l in order:
            out.append('pub mod %s { use super::*;\n%s}\npub use %s::*;\n' % (l, rd(l), l))
        if tables:
            out.append('pub mod tables { use super::*;\n' + ''.join(tables) + '}\npub use tables::*;\n')
        # a module for each function: what one function's proof sees does not depend on which others are checked with it
        out += code
        if theorems:
            out.append('pub mod theorems { use super::*;\n' + theorems + '}\n')
        out.append('} // verus!\nfn main() {}\n')
        self.fns, self.consts, self.lemmods = fns, consts, order
        return ''.join(out)

    def std_opt(self, code):
        code = re.sub(r'//@h.*?//@/h', '', code, flags=re.S)
        code = norm(lex(code))
        parts = re.split(r'^//@opt (.*)\n', open(os.path.join(HERE, 'verus', 'std_opt.rs')).read(), flags=re.M)
        return ''.join(b for rx, b in zip(parts[1::2], parts[2::2]) if re.search(rx, code))


if __name__ == '__main__':
    g = Gen('/repo')
    roots = sys.argv[2:]
    s = g.build(roots)
    if g.missing:
        print('LOST', g.missing)
    open(sys.argv[1], 'w').write(s)
    print('functions:', ' '.join(g.fns), '| consts:', ' '.join(g.consts), '| rules:', ' '.join(sorted(g.rules)))
