"""Leaves out proof text that names variables the source no longer has. Only loop specifications, ghost
definitions and proof blocks are touched, never a contract: with less proof text a proof can fail, not
become wrong."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustlex import T, lex, text, match, split, OPEN, CLOSE

HEADS = ('invariant', 'invariant_except_break', 'ensures', 'decreases', 'requires')


def has(toks, names):
    return any(t.kind == 'id' and str(t) in names for t in toks)


def clauses(toks):
    """top-level comma separated clauses; the commas of binders |a, b| do not separate"""
    out, cur, i, n = [], [], 0, len(toks)
    while i < n:
        t = toks[i]
        if t in OPEN:
            e = match(toks, i)
            cur += toks[i:e + 1]
            i = e + 1
            continue
        if t in ('forall', 'exists', 'choose') and i + 1 < n and toks[i + 1] == '|':
            e = i + 2
            while toks[e] != '|':
                e += 1
            cur += toks[i:e + 1]
            i = e + 1
            continue
        if t == ',':
            out.append(cur)
            cur = []
            i += 1
            continue
        cur.append(t)
        i += 1
    if cur:
        out.append(cur)
    return out


def prune_spec(body, names):
    toks = lex(body)
    secs = []
    for t in toks:
        if t.kind == 'id' and t in HEADS and (not secs or True):
            secs.append([t, []])
        else:
            if not secs:
                return body
            secs[-1][1].append(t)
    out = ''
    for h, ts in secs:
        cs = [c for c in clauses(ts) if not has(c, names)]
        if cs:
            out += '    %s\n' % h + ''.join('        %s,\n' % text(c).strip() for c in cs)
    return out


def stmts(toks):
    """statements of ghost code"""
    out, i, n = [], 0, len(toks)
    while i < n:
        s = i
        if toks[i] in ('proof', 'if', 'match', 'while', '{', 'loop', 'for'):
            while toks[i] != '{':
                if toks[i] in OPEN:
                    i = match(toks, i)
                i += 1
            i = match(toks, i) + 1
            while i < n and toks[i] == 'else':
                while toks[i] != '{':
                    if toks[i] in OPEN:
                        i = match(toks, i)
                    i += 1
                i = match(toks, i) + 1
        else:
            by = False
            while i < n and toks[i] != ';':
                if toks[i] in ('by', 'implies') and i + 1 < n:
                    by = True
                if toks[i] in OPEN:
                    blk = toks[i] == '{'
                    i = match(toks, i)
                    if blk and by and not (i + 1 < n and toks[i + 1] == ';'):
                        break
                i += 1
            i += 1
        out.append(toks[s:min(i, n)])
    return out


def prune_code(toks, names):
    out = []
    for s in stmts(toks):
        if not has(s, names):
            out += s
            continue
        # let ghost (a, b) = (x, y);
        if s[:2] == ['let', 'ghost'] and len(s) > 3 and s[2] == '(':
            e = match(s, 2)
            if e + 2 < len(s) and s[e + 1] == '=' and s[e + 2] == '(' and match(s, e + 2) == len(s) - 2 and not has(s[2:e], names):
                ps, vs = split(s[3:e]), split(s[e + 3:-2])
                if len(ps) == len(vs):
                    for p, v in zip(ps, vs):
                        if not has(v, names):
                            out += lex(' let ghost ') + p + lex(' = ') + v + lex(';')
                    continue
        if s[0] in ('proof', '{') and s[-1] == '}':
            b = 0 if s[0] == '{' else 1
            out += s[:b + 1] + prune_code(s[b + 1:-1], names) + s[-1:]
        elif s[0] == 'if' and s[-1] == '}':
            # keep the branches that remain when the condition is still meaningful
            i = 0
            cond_ok = True
            keep = []
            while i < len(s):
                j = i
                while s[j] != '{':
                    if s[j] in OPEN:
                        j = match(s, j)
                    j += 1
                if has(s[i:j], names):
                    cond_ok = False
                e = match(s, j)
                keep += s[i:j + 1] + prune_code(s[j + 1:e], names) + [s[e]]
                i = e + 1
            if cond_ok:
                out += keep
    return out


def prune(kind, body, names):
    """body of one section without what mentions any of names"""
    toks = lex(body)
    if not has(toks, names):
        return body
    w = kind.split()
    if w[0] == 'loop' and (len(w) == 2 or w[2] == 'spec'):
        return prune_spec(body, names)
    return '    ' + text(prune_code(toks, names)).strip() + '\n'


def prune_contract(c, names):
    """-> copy of contract c with pruned proof text; names: (number of the section, name)"""
    import copy
    d = copy.copy(c)
    d.secs = [[a, prune(a, b, {x for z, x in names if z == q})] for q, (a, b) in enumerate(c.secs)]
    return d


if __name__ == '__main__':
    # self test: nothing is lost when no name matches; reparsing is stable
    from extract import read_contracts
    for k, c in read_contracts().items():
        for a, b in c.secs:
            w = a.split()
            if w[0] == 'loop' and len(w) == 2:
                x = prune_spec(b, {'no_such_name'})
                if [str(t) for t in lex(x)] != [str(t) for t in lex(b)]:
                    i, j = [str(t) for t in lex(x)], [str(t) for t in lex(b)]
                    if [t for t in i if t != ','] != [t for t in j if t != ',']:
                        print('SPEC', k, a, '\n', x, '\n', b)
            else:
                x = prune_code(lex(b), {'no_such_name'})
                if [str(t) for t in x] != [str(t) for t in lex(b)]:
                    print('CODE', k, a)
                y = sum(stmts(lex(b)), [])
                if [str(t) for t in y] != [str(t) for t in lex(b)]:
                    print('STMTS', k, a)
