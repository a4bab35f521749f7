"""Puts the bodies of functions that have no contract of their own (helpers split off a function
that has one) back at the places they are called from, so that the contract of the caller still
applies to the same code. Only forms for which this is plainly meaning-preserving are done; anything
else leaves the helper without a contract, and the check says so."""
from rustlex import T, lex, text, norm, match, split, OPEN, CLOSE
from desugar import Unsupported, L, postfix_start


def idents(toks):
    """names used as variables (not fields, methods or parts of paths)"""
    return {str(t) for i, t in enumerate(toks) if t.kind in ('id', 'life') and not (i and toks[i - 1] == '.')
            and not (i + 1 < len(toks) and toks[i + 1] == '(' and not (i and toks[i - 1] == 'in'))}


class Helper:
    def __init__(self, f):
        self.f = f
        self.name = f.name
        if f.generics or f.trait:
            raise Unsupported('helper %s is generic or a trait function' % f.key)
        if any(q not in ('const',) for q in getattr(f, 'quals', [])):
            raise Unsupported('helper %s is %s' % (f.key, f.quals))
        self.self_form = None
        self.params = []     # (name, is mut, type tokens)
        for p in split(f.params):
            n = norm(p)
            if n in ('self', '& self', '& mut self', 'mut self'):
                self.self_form = n
                continue
            q = 0
            mut = p[0] == 'mut'
            if mut:
                q = 1
            if p[q].kind != 'id' or p[q + 1] != ':':
                raise Unsupported('helper %s has a parameter pattern' % f.key)
            self.params.append((str(p[q]), mut, p[q + 2:]))
        if self.self_form == 'mut self':
            raise Unsupported('helper %s takes mut self' % f.key)
        b = f.body[1:-1]
        self.returns = any(t.kind == 'id' and t == 'return' for t in b) or any(t == '?' for t in b)
        self.body = b
        if any(t == f.name and i + 1 < len(b) and b[i + 1] == '(' for i, t in enumerate(b)):
            raise Unsupported('helper %s is recursive' % f.key)


def bound(toks):
    """names bound by let and for and match arms in a body (over-approximated by the identifiers in patterns)"""
    out = []
    i = 0
    n = len(toks)
    while i < n:
        t = toks[i]
        if t.kind == 'id' and t == 'let':
            j = i + 1
            d = 0
            while j < n and not (d == 0 and toks[j] in ('=', ';', ':')):
                if toks[j] in OPEN:
                    d += 1
                elif toks[j] in CLOSE:
                    d -= 1
                if toks[j].kind == 'id' and toks[j] not in ('mut', 'ref', 'Some', 'Ok', 'Err', '_'):
                    out.append(str(toks[j]))
                j += 1
            i = j
            continue
        if t.kind == 'id' and t == 'for':
            j = i + 1
            while j < n and toks[j] != 'in':
                if toks[j].kind == 'id' and toks[j] not in ('mut', 'ref', '_'):
                    out.append(str(toks[j]))
                j += 1
            i = j
            continue
        if t == '|' and i and (toks[i - 1] in ('(', ',', '=', 'move')):
            j = i + 1
            while j < n and toks[j] != '|':
                if toks[j].kind == 'id' and toks[j] not in ('mut', 'ref', '_'):
                    out.append(str(toks[j]))
                j += 1
            i = j + 1
            continue
        i += 1
    return out


def visible(toks, pos):
    """names bound (anywhere in a pattern) in the blocks that are open at pos; over-approximated"""
    res = set()
    stack = [[]]
    for i in range(pos):
        t = toks[i]
        if t == '{':
            stack.append([])
        elif t == '}':
            stack.pop()
        elif t.kind == 'id' and not (i and toks[i - 1] == '.'):
            stack[-1].append(str(t))
    for l in stack:
        res |= set(l)
    return res


def block_end(toks, pos):
    d = 0
    for i in range(pos, len(toks)):
        if toks[i] == '{':
            d += 1
        elif toks[i] == '}':
            d -= 1
            if d < 0:
                return i
    return len(toks)


def last_stmt(b):
    """index where the last statement or tail expression of a body starts"""
    from extract import statements
    st = statements(b, 0, len(b))
    return st[-1][0] if st else 0


def flat_path(a):
    return all((t.kind == 'id' and t not in ('mut', 'if', 'match', 'as')) or t in ('.', '*') for t in a) and a and a[0].kind == 'id'


def rename(toks, m):
    out = []
    for i, t in enumerate(toks):
        if t.kind == 'id' and str(t) in m and not (i and toks[i - 1] in ('.', '::')) and not (i + 1 < len(toks) and toks[i + 1] == '::'):
            if i + 1 < len(toks) and toks[i + 1] == ':' and i and toks[i - 1] in ('{', ','):
                out.append(t)       # field of a struct literal
                continue
            out.append(T(m[str(t)], 'id', t.ws))
        else:
            out.append(t)
    return out


def put(toks, name, repl):
    """replaces a parameter by the place or value it stands for. repl = (mode, tokens)"""
    mode, place = repl
    out = []
    i = 0
    n = len(toks)

    def paren(p):
        return p if len(p) == 1 else ([T('(', 'p', ' ')] + list(p) + [T(')', 'p', '')])
    while i < n:
        t = toks[i]
        if t.kind == 'id' and t == name and not (i and toks[i - 1] in ('.', '::')):
            nxt = toks[i + 1] if i + 1 < n else ''
            if mode == 'name':
                out += [T(str(x), x.kind, t.ws if q == 0 else x.ws) for q, x in enumerate(place)]
            else:
                amp = L('&mut') if mode == 'refmut' else L('&')
                if out and out[-1] == '*' and (len(out) < 2 or not (out[-2].kind in ('id', 'num') or out[-2] in (')', ']')) or out[-2] in ('return', 'in', 'if', 'while', 'match', '=', 'else')):
                    ws = out[-1].ws
                    out.pop()
                    q = list(place)
                    q[0] = T(str(q[0]), q[0].kind, ws)
                    out += q
                elif nxt in ('.', '['):
                    q = list(place)
                    q[0] = T(str(q[0]), q[0].kind, t.ws)
                    out += q
                elif out and out[-1] == '&' and nxt == '[':
                    out += place
                else:
                    # a plain use is a reborrow
                    out += L('(') + amp + list(place) + L(')') if nxt != ',' and nxt != ')' else amp + list(place)
            i += 1
            continue
        out.append(t)
        i += 1
    return out


class Inliner:
    def __init__(self, items, helpers, used):
        self.items = items
        self.h = {}
        for k in helpers:
            f = items.fns[k]
            self.h.setdefault(f.name, []).append(k)
        self.k = 0
        self.used = used

    def find(self, toks, others):
        """(start of call expression, index of name, closing parenthesis, key, receiver or None)"""
        for i, t in enumerate(toks):
            if t.kind != 'id' or str(t) not in self.h or i + 1 >= len(toks) or toks[i + 1] != '(':
                continue
            prev = toks[i - 1] if i else ''
            if prev == 'fn':
                continue
            for k in self.h[str(t)]:
                f = self.items.fns[k]
                if prev == '.':
                    if f.owner is None:
                        continue
                    j = postfix_start(toks[:i - 1])
                    return j, i, match(toks, i + 1), k, toks[j:i - 1]
                if prev == '::':
                    if f.owner is None:
                        raise Unsupported('path to helper ' + k)
                    return i - 2, i, match(toks, i + 1), k, None
                if f.owner is None:
                    return i, i, match(toks, i + 1), k, None
        return None

    def run(self, toks, params=()):
        toks = list(toks)
        n = 0
        while True:
            c = self.find(toks, None)
            if c is None:
                return toks
            n += 1
            if n > 40:
                raise Unsupported('too many helper calls')
            toks = self.one(toks, c, idents(params))

    def one(self, toks, c, pnames):
        from extract import is_stmt_start, stmt_end
        s, i, e, key, recv = c
        h = Helper(self.items.fns[key])
        self.used.add('inline')
        self.k += 1
        args = [list(a) for a in split(toks[i + 2:e])]
        if h.self_form and recv is None:
            a0 = args.pop(0)
            if a0 and a0[0] == '&':
                a0 = a0[2 if a0[1] == 'mut' else 1:]
            recv = a0
        if len(args) != len(h.params):
            raise Unsupported('call of helper ' + key)
        body = list(h.body)
        ret_ty = h.f.ret
        names = idents(toks) | set(pnames)
        # what the call is part of
        ss = s
        while ss > 0 and not is_stmt_start(toks, ss):
            ss -= 1
        head = toks[ss:s]
        after = toks[e + 1] if e + 1 < len(toks) else ''
        hn = norm(head)
        ctx = None
        if toks[0] == '{' and ss == 0:
            ss = 1
        if after in (';', '}'):
            if hn == '':
                ctx = 'tail' if after == '}' else 'stmt'
            elif hn == 'return':
                ctx = 'return'
            elif head[0] == 'let' and head[-1] == '=' and norm(head).count('=') == 1:
                ctx = 'let'
            elif head[-1] == '=' and flat_path([t for t in head[:-1] if t not in ('[', ']')]) and after == ';' and not any(t in ('(', '{') for t in head):
                ctx = 'assign'
        # the end of the body of the caller, not of a nested block
        is_end = after == '}' and e + 2 == len(toks)
        if h.returns and not (ctx == 'return' or (ctx == 'tail' and is_end)):
            raise Unsupported('helper %s returns early' % key)
        # the variable a result goes to can be the helper's own variable
        ls = last_stmt(body)
        tail = body[ls:]
        m = {}
        self_tail = False
        loc = bound(body)
        if ctx == 'let' and recv is not None and str(head[-2]) in [str(x) for x in recv]:
            pass
        elif ctx == 'let' and len(tail) == 1 and tail[0].kind == 'id' and str(tail[0]) in loc and loc.count(str(tail[0])) == 1 and norm(head[1:2]) != '(':
            pat = [t for t in head[1:-1]]
            if ':' in pat:
                pat = pat[:pat.index(':')]
            mut = pat[0] == 'mut'
            nm = str(pat[-1])
            q = [z for z, t in enumerate(body) if t == 'let' and (body[z + 1] == tail[0] or (body[z + 1] == 'mut' and body[z + 2] == tail[0]))]
            if len(q) == 1 and depth(body, q[0]) == 0 and nm not in idents(body) - {str(tail[0])} and len(pat) == (2 if mut else 1) and (not mut or body[q[0] + 1] == 'mut') and nm not in sum(([str(x) for x in a] for a in args), []):
                m[str(tail[0])] = nm
                self_tail = True
                if mut and body[q[0] + 1] != 'mut':
                    self_tail = False
                    m = {}
        # fresh names for what the helper binds
        taken = names | set(m.values())
        pn = [p for p, _, _ in h.params]
        here = visible(toks, ss) | set(pnames)
        later = idents(toks[e + 1:block_end(toks, e)])
        given = idents(sum(args, []) + list(recv or []))
        for x in dict.fromkeys(loc):
            if x in m or x in pn:
                continue
            if x not in given and (x not in here or x not in later):
                # the name is free, or hides a variable that the rest of the block does not use
                taken.add(x)
                continue
            if x in names:
                y = x
                z = 0
                while y in taken or y in loc:
                    z += 1
                    y = '%s_h%d' % (x, z)
                m[x] = y
                taken.add(y)
        if set(loc) & set(pn):
            raise Unsupported('helper %s shadows a parameter' % key)
        if any(body[z] in ('FixedDecimal', 'Self') and z + 1 < len(body) and body[z + 1] == '{' for z in range(len(body))) and set(m) & {'intg', 'frac', 'lsu'}:
            raise Unsupported('names of helper %s' % key)
        # parameters
        pre = []
        subst = []
        for (p, mut, ty), a in zip(h.params, args):
            tyn = norm(ty)
            if not mut and a[0] == '&' and a[1] == 'mut' and flat_path(a[2:]) and tyn.startswith('& mut'):
                subst.append((p, ('refmut', a[2:])))
            elif not mut and a[0] == '&' and flat_path(a[1:]) and tyn.startswith('&'):
                subst.append((p, ('ref', a[1:])))
            elif not mut and len(a) == 1 and a[0].kind in ('id', 'num') and not any(len(b) > 1 and b[0] == '&' and b[1] == 'mut' and b[2] == a[0] for b in args):
                lit = a[0]
                if a[0].kind == 'num' and len(ty) == 1 and str(a[0]).replace('_', '').isdigit():
                    lit = T(str(a[0]) + str(ty[0]), 'num', a[0].ws)
                subst.append((p, ('name', [lit])))
            else:
                y = p
                z = 0
                while y in taken or (y != p and y in loc):
                    z += 1
                    y = '%s_h%d' % (p, z)
                taken.add(y)
                if y != p:
                    m[p] = y
                tt = L(text(ty).strip())
                pre += L('let ') + (L('mut') if mut else []) + L(y) + ([T(':', 'p', '')] + tt if '<' not in tyn and "'" not in tyn else []) + L('=') + a + [T(';', 'p', '')]
        # arguments are evaluated before the body; a place that is substituted must not be changed by it before use
        body = rename(body, m)
        # substitutions go through unique markers so that one does not see another's text
        marks = {}
        for z, (p, r) in enumerate(subst):
            mk = '__fxd_p%d_%d' % (self.k, z)
            body = rename(body, {p: mk})
            marks[mk] = r
        if h.self_form:
            mk = '__fxd_self_%d' % self.k
            body = rename(body, {'self': mk})
            if flat_path(recv):
                if norm(recv) == 'self':
                    marks[mk] = ('name', recv)
                else:
                    # a local decimal, or a reference to one: field and method access look the same
                    if any(body[z] == mk and not (z + 1 < len(body) and body[z + 1] == '.') for z in range(len(body))):
                        raise Unsupported('receiver of helper ' + key)
                    marks[mk] = ('name', recv)
            else:
                raise Unsupported('receiver of helper ' + key)
        for mk, r in marks.items():
            body = put(body, mk, r)
        if any(str(t) == 'Self' for t in body) and self.items.fns[key].owner not in ('FixedDecimal', None):
            raise Unsupported('Self in helper ' + key)
        body = [T('FixedDecimal', 'id', t.ws) if t == 'Self' else t for t in body]
        ls = last_stmt(body)
        tail = body[ls:]
        stm = body[:ls]
        if tail and tail[-1] == ';':
            stm, tail = body, []
        if h.returns and ctx in ('return', 'tail'):
            pass
        NL = T(';', 'p', '')
        if ctx in ('stmt',):
            new = pre + stm + (tail + ([NL] if tail and not (tail[0] in ('if', 'while', 'for', 'loop', 'match') ) else []) if tail else [])
            if tail and tail[0] not in ('if', 'while', 'for', 'loop', 'match') and ret_ty:
                new = pre + stm + L('let _ =') + tail + [NL]
            return toks[:ss] + new + toks[e + 2:]
        if ctx == 'tail':
            return toks[:ss] + pre + stm + tail + toks[e + 1:]
        if ctx == 'return':
            new = pre + stm + L('return') + tail
            return toks[:ss] + new + toks[e + 1:]
        if ctx == 'let' and self_tail:
            return toks[:ss] + pre + stm + toks[e + 2:]
        if ctx in ('let', 'assign') and tail:
            hd = list(head)
            return toks[:ss] + pre + stm + hd + tail + toks[e + 1:]
        if not tail:
            raise Unsupported('value of helper ' + key)
        # a block in place of the call; operands evaluated before it in the same expression keep their order
        new = L('( {') + pre + stm + tail + L('} )')
        return toks[:s] + new + toks[e + 1:]


def depth(toks, i):
    d = 0
    for t in toks[:i]:
        if t in OPEN:
            d += 1
        elif t in CLOSE:
            d -= 1
    return d
