"""Local names. The proof text mentions variables by name; when a function now uses other names for
the same variables, they are renamed back (a consistent renaming of local variables to names that do
not occur otherwise, so nothing changes in meaning). verus/pinned.json only serves to find the
correspondence; it is never verified in place of the source. `align.py --pin` rewrites it."""
import collections
import difflib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustlex import T, lex, text, norm, split, match, OPEN
from inline import bound, rename, idents

PIN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'verus', 'pinned.json')


def param_names(params):
    out = []
    for p in split(params):
        q = 1 if p and p[0] == 'mut' else 0
        if len(p) > q + 1 and p[q].kind == 'id' and p[q + 1] == ':':
            out.append(str(p[q]))
    return out


def kinds(body):
    """the loop forms of a body, in order"""
    out = []
    for i, t in enumerate(body):
        if t.kind == 'id' and t in ('while', 'loop', 'for') and not (i and body[i - 1] == '.'):
            out.append(str(t))
        if t == '.' and i + 1 < len(body) and body[i + 1] in ('for_each', 'all', 'any'):
            out.append(str(body[i + 1]))
    return out


def skeleton(body):
    """the statement structure of a body: what is bound, branched on, repeated and left, in order"""
    keep = ('if', 'else', 'match', 'while', 'loop', 'for', 'return', 'break', 'continue', 'let', '{', '}', '=>', '?')
    out = []
    for i, t in enumerate(body):
        if t in keep:
            out.append(str(t))
        elif t == '.' and i + 1 < len(body) and body[i + 1] in ('for_each', 'all', 'any'):
            out.append(str(body[i + 1]))
        elif t in ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&='):
            out.append('=')
    return out


def operations(body):
    """bit operators, remainders and library methods a body uses: with one the proof was not written for, a failed
    obligation may say nothing about the code"""
    out = set()
    for i, t in enumerate(body):
        if t in ('<<', '>>', '^', '%', '<<=', '>>=', '^=', '&=', '|=', '%='):
            out.add(str(t).rstrip('='))
        elif t in ('&', '|') and i and (body[i - 1].kind in ('id', 'num') or body[i - 1] in (')', ']')) and body[i - 1] not in ('return', 'in', 'if', 'match', 'mut', 'while', '=>'):
            out.add(str(t))
        elif t == '.' and i + 2 < len(body) and body[i + 1].kind == 'id' and body[i + 2] == '(' and str(body[i + 1]) not in COMMON:
            out.add('.' + str(body[i + 1]))
    return out


COMMON = {'min', 'max', 'len', 'clone', 'cmp', 'iter', 'iter_mut', 'zip', 'take', 'skip', 'rev', 'enumerate', 'push', 'eq', 'partial_cmp',
          'fill', 'copy_from_slice', 'copy_within', 'write_u8', 'write_u32', 'as_bytes', 'is_empty', 'extend_from_slice',
          'is_neg', 'is_zero', 'set_neg', 'set_pos', 'set_zero', 'set_one', 'set_neg_and_check_zero', 'reset_units', 'intg', 'frac',
          'intg_units', 'frac_units', 'round', 'round_to', 'as_i64', 'as_u64', 'lsu_to_i64', 'lsu_to_u64', 'append_str_buf', 'append_frac',
          'from_bytes_str', 'from_ascii_str', 'to_string', 'hash'}


def correspond(f, pin):
    """names of the current function -> names of the pinned one"""
    cur = list(f.params) + list(f.body)
    old = lex(pin['params'] + ' ' + pin['body'])
    if [str(t) for t in cur] == [str(t) for t in old]:
        return {}
    cb = set(param_names(f.params) + bound(f.body))
    ob = set(param_names(lex(pin['params'])) + bound(lex(pin['body'])))
    new, gone = cb - ob, ob - cb
    if not new or not gone:
        return {}
    votes = collections.Counter()
    # with all local names blanked, equal positions correspond
    def blank(toks, names):
        return ['?' if t.kind == 'id' and str(t) in names and not (i and toks[i - 1] == '.') else str(t) for i, t in enumerate(toks)]
    a, b = blank(cur, new), blank(old, gone)
    for blk in difflib.SequenceMatcher(None, a, b, autojunk=False).get_matching_blocks():
        for z in range(blk.size):
            x, y = cur[blk.a + z], old[blk.b + z]
            if a[blk.a + z] == '?':
                votes[(str(x), str(y))] += 1
    m = {}
    used = idents(cur)
    for (x, y), n in votes.most_common():
        if x in m or y in m.values() or y in used or x in ('self', '_') or y in ('self', '_', 'intg', 'frac', 'lsu') or x in ('intg', 'frac', 'lsu'):
            continue
        m[x] = y
    return m


ASSIGN = ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>=')
QUIET = {'is_neg', 'is_zero', 'intg', 'frac', 'intg_units', 'frac_units', 'len', 'min', 'max', 'is_empty'}


def quiet(toks):
    """no effect and no call but of a few known methods"""
    for i, t in enumerate(toks):
        if t in ('{', '}', '!', '?', '|', '||', 'move', 'mut', 'return', 'break', 'continue', 'unsafe', 'match', 'if', 'loop') and not (t == '||' and i and i + 1 < len(toks)):
            return False
        if t in ('!', '|'):
            return False
        if t in ASSIGN:
            return False
        if t == '(' and i and toks[i - 1].kind == 'id' and toks[i - 1] != 'as' and not (i > 1 and toks[i - 2] == '.' and str(toks[i - 1]) in QUIET):
            return False
        if t == '(' and i and toks[i - 1] in (')', ']'):
            return False
    return bool(toks)


def detemp(f, pin):
    """`let x = E; S` with x used once, in S, and not a name of the pinned text: E is put back into S
    (E is quiet and S does nothing before it reads x)"""
    known = set(param_names(lex(pin['params'])) + bound(lex(pin['body'])))
    gone = []
    again = True
    while again:
        again = False
        b = f.body
        for i in range(1, len(b)):
            if b[i] != 'let' or b[i].kind != 'id' or b[i - 1] not in ('{', '}', ';') or i + 3 >= len(b):
                continue
            x = b[i + 1]
            if x.kind != 'id' or x in ('mut', '_') or str(x) in known or b[i + 2] != '=':
                continue
            if sum(1 for t in b if t.kind == 'id' and t == x) != 2:
                continue
            e = i + 3
            while e < len(b) and b[e] != ';':
                e = match(b, e) + 1 if b[e] in OPEN else e + 1
            if e >= len(b) or not quiet(b[i + 3:e]):
                continue
            u = next((k for k in range(e + 1, len(b)) if b[k] == x and b[k].kind == 'id'), None)
            if u is None:
                continue
            # the next statement, up to the use, changes nothing
            head = b[e + 1:u]
            if any(t in ('{', '}', ';', 'while', 'for', 'loop', 'let', '&&', '||', 'mut', '?', '|', '!') for t in head if not (t == 'let' and t is head[0])):
                continue
            if any(t == '(' and k and head[k - 1].kind == 'id' and head[k - 1] not in ('as', 'if', 'match', 'return', 'Some', 'Ok') and not (k > 1 and head[k - 2] == '.' and str(head[k - 1]) in QUIET) for k, t in enumerate(head)):
                continue
            ex = list(b[i + 3:e])
            # an initializer or assigned value needs no parentheses
            if len(ex) > 1 and not (b[u - 1] == '=' and b[u + 1] == ';'):
                ex = [T('(', 'p', ' ')] + ex + [T(')', 'p', '')]
            f.body = b[:i] + b[e + 1:u] + ex + b[u + 1:]
            gone.append(str(x))
            again = True
            break
    return gone


def apply(f, pin):
    m = correspond(f, pin)
    if m:
        f.body = rename(f.body, m)
        f.params = rename(f.params, m)
    return m


def load():
    try:
        return json.load(open(PIN))
    except OSError:
        return {}


if __name__ == '__main__' and '--pin' in sys.argv:
    from extract import read_items, read_contracts
    it = read_items('/repo')
    of = {c.of for c in read_contracts().values()}
    json.dump({k: dict(params=norm(f.params), body=norm(f.body)) for k, f in sorted(it.fns.items()) if k in of}, open(PIN, 'w'), indent=0)
    import extract
    from gen import Gen
    from props import PROPS
    g = Gen('/repo')
    g.build([k for k, c in g.contracts.items() if not k.startswith('const:') and c.of in g.items.fns])
    json.dump(extract.COUNTS, open(os.path.join(os.path.dirname(PIN), 'anchors.json'), 'w'), indent=0, sort_keys=True)
