"""Mechanical rewrites from the crate's Rust into the subset the verifier accepts. Every rule is
local, keeps evaluation order, and is listed in RULES (reported in the evidence)."""
import re
from rustlex import T, lex, text, norm, match, split, OPEN, CLOSE, LexError

RULES = {
    'rename': 'local variables are renamed to the names the proof text uses',
    'inline': 'a private function without a contract of its own is put back at the places it is called from',
    'for-range': '`for i in a..b` becomes a while loop over a counter',
    'iter-chain': 'for over iter/iter_mut/rev/zip/take/skip/enumerate/chain(repeat) becomes an index loop over the same elements',
    'iter-all': '`xs.iter().all(|x| c)`, `any`, `for_each` become index loops',
    'debug_assert': 'debug_assert!/assert! become proof obligations on the same condition',
    'panic': 'panic!/unreachable! become calls that must be proved unreachable (or diverge, in the operator variants)',
    'relop': '`<`, `>`, `<=`, `>=`, `==`, `!=` between decimals become the calls to cmp/eq they stand for',
    'from': '`FixedDecimal::from(e as u64)` names the impl it resolves to',
    'utf8': 'String::from_utf8_unchecked becomes a specified external call that requires ASCII',
    'byte-str': 'b"..." becomes the array of its bytes',
    'str-bytes': 'str::as_bytes becomes a verified wrapper of it',
    'slice-ops': '`xs[a..b].fill(v)`, `copy_from_slice`, `copy_within`, `swap` become calls of verified functions with the std meaning and bounds checks',
    'std-fns': '`u8::is_ascii_digit` becomes a call of a verified function with the std meaning; `x.clone_from(&y)` is `*x = y.clone()`; `std::cmp::min/max(a, b)` is `a.min/max(b)`',
    'const-fold': 'integer constants are replaced by their values',
    'parse': '`s.parse()`/from_str resolve to the extracted from_str',
}


KEYWORDS = ('if', 'while', 'match', 'return', 'in', 'else', 'break')


class Unsupported(Exception):
    pass


def L(s):
    ts = lex(s)
    if ts:
        ts[0] = T(str(ts[0]), ts[0].kind, ' ' + (ts[0].ws or ''))
    return ts


def postfix_start(out):
    """start of the maximal postfix expression at the end of out"""
    j = len(out)
    while j > 0:
        p = out[j - 1]
        if p in (')', ']'):
            d = 0
            while True:
                j -= 1
                if out[j] in CLOSE:
                    d += 1
                elif out[j] in OPEN:
                    d -= 1
                    if d == 0:
                        break
            continue
        if p.kind in ('id', 'num') or p in ('.', '::'):
            if p in ('return', 'in', 'if', 'while', 'match', 'let', 'else'):
                break
            j -= 1
            continue
        break
    return j


class Desugar:
    def __init__(self, decimals=(), diverge=False):
        self.h = 0
        self.k = 0
        self.used = set()
        self.diverge = diverge

    def run(self, toks):
        return self.block(list(toks))

    # ------------------------------------------------------------------ expressions
    def simple(self, toks):
        """rewrites that do not need statement structure; toks without loops handled outside"""
        out = []
        i = 0
        n = len(toks)
        while i < n:
            t = toks[i]
            # macros
            if t.kind == 'id' and i + 2 < n and toks[i + 1] == '!' and toks[i + 2] in OPEN and t not in KEYWORDS:
                e = match(toks, i + 2)
                args = split(toks[i + 3:e])
                if t in ('debug_assert', 'assert'):
                    self.used.add('debug_assert')
                    self.h += 1
                    v = '__c%d' % self.h
                    out += L('{ let %s: bool = ' % v) + self.simple(args[0]) + L('; assert(%s); }' % v)
                    i = e + 1
                    continue
                if t in ('debug_assert_eq', 'assert_eq', 'debug_assert_ne', 'assert_ne'):
                    self.used.add('debug_assert')
                    self.h += 1
                    v = '__c%d' % self.h
                    op = '==' if t.endswith('eq') else '!='
                    out += (L('{ let %s: bool = (' % v) + self.simple(args[0]) + L(') %s (' % op)
                            + self.simple(args[1]) + L('); assert(%s); }' % v))
                    i = e + 1
                    continue
                if t in ('panic', 'unreachable', 'todo', 'unimplemented'):
                    self.used.add('panic')
                    out += L('fxd_panics()' if self.diverge and t == 'panic' else 'fxd_panic()')
                    i = e + 1
                    continue
                if t in ('matches',):
                    out += toks[i:i + 3] + self.simple(toks[i + 3:e]) + [toks[e]]
                    i = e + 1
                    continue
                raise Unsupported('macro %s!' % t)
            # xs.iter().all(|p| e)
            if t == '.' and norm(toks[i:i + 5]) in ('. iter ( ) .',) and toks[i + 5] in ('all', 'any') and toks[i + 6] == '(':
                e = match(toks, i + 6)
                clo = toks[i + 7:e]
                j = postfix_start(out)
                recv = out[j:]
                del out[j:]
                if clo[0] != '|':
                    raise Unsupported('closure')
                q = clo.index('|', 1)
                pat = clo[1:q]
                ex = self.simple(clo[q + 1:])
                self.used.add('iter-all')
                self.k += 1
                k = self.k
                isall = toks[i + 5] == 'all'
                out += (L('{ let mut __r%d = %s; let mut __k%d: usize = 0; while __r%d == %s && __k%d < ' % (k, 'true' if isall else 'false', k, k, 'true' if isall else 'false', k))
                        + recv + L('.len() { let ') + (pat[1:] if pat[0] == '&' else pat) + L('= ' if pat[0] == '&' else '= & ') + recv
                        + L('[__k%d]; __k%d = __k%d + 1; if %s(' % (k, k, k, '!' if isall else ''))
                        + ex + L(') { __r%d = %s; } } __r%d }' % (k, 'false' if isall else 'true', k)))
                i = e + 1
                continue
            # xs[a..b].fill(v), .copy_within(c..d, e), .copy_from_slice(&ys[c..d])
            if t == '.' and i + 2 < n and toks[i + 1] in ('fill', 'copy_within', 'copy_from_slice') and toks[i + 2] == '(':
                e = match(toks, i + 2)
                args = split(toks[i + 3:e])
                j = postfix_start(out)
                recv = out[j:]
                del out[j:]
                base, lo, hi = self.place(recv)
                self.used.add('slice-ops')
                if hi == base + '.len()':
                    self.h += 1
                    hi = '__l%d' % self.h
                    out += L('{ let %s: usize = %s.len(); ' % (hi, base))
                    whole = True
                else:
                    whole = False
                if toks[i + 1] == 'fill':
                    out += L('fxd_fill(&mut %s, %s, %s, ' % (base, lo, hi)) + self.simple(args[0]) + L(')')
                elif toks[i + 1] == 'copy_within':
                    _, a, b = self.place(L(base) + L('[') + args[0] + L(']'))
                    if lo != '0' or not whole:
                        raise Unsupported('copy_within of a part')
                    if b == base + '.len()':
                        b = hi
                    out += L('fxd_copy_within(&mut %s, %s, %s, ' % (base, a, b)) + self.simple(args[1]) + L(')')
                else:
                    src = args[0]
                    if src[0] != '&':
                        raise Unsupported('copy_from_slice argument')
                    sb, a, b = self.place(src[1:])
                    out += L('fxd_copy_from_slice(&mut %s, %s, %s, &%s, %s, %s)' % (base, lo, hi, sb, a, b))
                if whole:
                    out += L('}')
                i = e + 1
                continue
            # x.clone_from(&y) is *x = y.clone()
            if t == '.' and norm(toks[i:i + 3]) == '. clone_from (' and out and out[-1].kind == 'id' and (len(out) == 1 or out[-2] in (';', '{', '}', '=>', ',')):
                e = match(toks, i + 2)
                x = out.pop()
                self.used.add('std-fns')
                out += [T('*' + x, 'id', x.ws)] + L(' = (') + self.simple(toks[i + 3:e]) + L(').clone()')
                i = e + 1
                continue
            # std::cmp::min(a, b) is a.min(b)
            if t in ('std', 'core', 'cmp') and re.match(r'(?:(?:std|core) :: )?cmp :: (?:min|max) \(', norm(toks[i:i + 6])):
                q = i
                while toks[q] != '(':
                    q += 1
                e = match(toks, q)
                args = split(toks[q + 1:e])
                x, y = args[0], args[1]
                if x[0].kind == 'num' and len(x) == 1:
                    x, y = y, x
                self.used.add('std-fns')
                out += L('(') + self.simple(x) + L(').%s(' % toks[q - 1]) + self.simple(y) + L(')')
                i = e + 1
                continue
            if t == '.' and norm(toks[i:i + 3]) == '. swap (':
                e = match(toks, i + 2)
                args = split(toks[i + 3:e])
                j = postfix_start(out)
                recv = out[j:]
                del out[j:]
                self.h += 1
                v = '__t%d' % self.h
                x, y = self.simple(args[0]), self.simple(args[1])
                b = text(recv).strip()
                self.used.add('slice-ops')
                out += L('{ let %s = %s[' % (v, b)) + x + L(']; %s[' % b) + x + L('] = %s[' % b) + y + L(']; %s[' % b) + y + L('] = %s; }' % v)
                i = e + 1
                continue
            if t.startswith('b"') and '\\' not in t:
                self.used.add('byte-str')
                out.append(T('&[' + ', '.join('%du8' % ord(c) for c in t[2:-1]) + ']', 'num', t.ws))
                i += 1
                continue
            if t == 'String' and norm(toks[i:i + 4]) == 'String :: from_utf8_unchecked (':
                self.used.add('utf8')
                out += L('fxd_string_from_ascii')
                i += 3
                continue
            if t == '.' and norm(toks[i:i + 4]) == '. as_bytes ( )' :
                # recv.as_bytes(): recv must be a plain identifier
                p = out[-1]
                if p.kind != 'id' or (len(out) > 1 and out[-2] == '.'):
                    raise Unsupported('as_bytes receiver')
                self.used.add('str-bytes')
                out[-1] = T('fxd_as_bytes(%s)' % p, 'id', p.ws)
                i += 4
                continue
            if t == '.' and norm(toks[i:i + 4]) == '. is_ascii_digit ( )':
                j = postfix_start(out)
                recv = out[j:]
                del out[j:]
                self.used.add('std-fns')
                out += recv + L('.fxd_is_ascii_digit()')
                i += 4
                continue
            if t in ('FixedDecimal', 'Self') and norm(toks[i + 1:i + 4]) == ':: from (':
                e = match(toks, i + 3)
                a = norm(toks[i + 4:e])
                # which impl it is; a wrong guess does not type-check in the generated text
                b = norm(toks)
                ws = a.split()
                def typed(ty):
                    x = re.escape(ws[0])
                    return a.endswith('as ' + ty) or len(ws) == 1 and (
                        re.search(r'\blet (mut )?%s : %s\b' % (x, ty), b) or
                        re.search(r'\blet (mut )?%s = [^;{}]* as %s ;' % (x, ty), b))
                if typed('u64') or a.endswith('. unsigned_abs ( )'):
                    nm = 'from_u64'
                elif typed('i64'):
                    nm = 'from_i64'
                elif len(ws) == 1:
                    nm = 'from_u64'
                else:
                    raise Unsupported('From conversion of %s' % a)
                self.used.add('from')
                out += [t, toks[i + 1], T(nm, 'id', ''), toks[i + 3]] + self.simple(toks[i + 4:e]) + [toks[e]]
                i = e + 1
                continue
            # unsafe { e }  (the only unsafe operation is from_utf8_unchecked)
            if t == 'unsafe' and i + 1 < n and toks[i + 1] == '{':
                i += 1
                continue
            out.append(t)
            i += 1
        return self.relops(out)

    def place(self, toks):
        """base, lower and upper bound (as text) of `xs` or `xs[a..b]`"""
        toks = list(toks)
        if toks[-1] == ']':
            d = 0
            q = len(toks)
            while True:
                q -= 1
                if toks[q] in CLOSE:
                    d += 1
                elif toks[q] in OPEN:
                    d -= 1
                    if d == 0:
                        break
            idx = toks[q + 1:-1]
            d = 0
            cut = None
            for z, t in enumerate(idx):
                if t in OPEN:
                    d += 1
                elif t in CLOSE:
                    d -= 1
                elif d == 0 and t in ('..', '..='):
                    cut = z
            if cut is not None:
                b = text(toks[:q]).strip()
                lo, hi = self.simple(idx[:cut]), self.simple(idx[cut + 1:])
                lo = text(lo).strip() if lo else '0'
                hi = text(hi).strip() if hi else b + '.len()'
                if idx[cut] == '..=':
                    hi = '(%s) + 1' % hi
                return b, lo, hi
        b = text(toks).strip()
        return b, '0', b + '.len()'

    DEC_CONSTS = ('MIN_I64', 'MAX_I64', 'MAX_U64')
    REL = {'<': ('Less', '=='), '>': ('Greater', '=='), '<=': ('Greater', '!='), '>=': ('Less', '!='),
           '==': ('Equal', '=='), '!=': ('Equal', '!=')}

    def relops(self, toks):
        out = []
        i = 0
        n = len(toks)
        while i < n:
            t = toks[i]
            if t in self.REL and i + 1 < n:
                j = i + 1
                amp = False
                if toks[j] == '&':
                    amp = True
                    j += 1
                if j < n and toks[j] in self.DEC_CONSTS:
                    left = out[-1]
                    star = len(out) > 1 and out[-2] == '*'
                    if left.kind != 'id':
                        raise Unsupported('comparison of decimals')
                    self.used.add('relop')
                    if star:
                        del out[-2]
                    o, op = self.REL[t]
                    out += L('.cmp(&%s) %s Ordering::%s' % (toks[j], op, o))
                    i = j + 1
                    continue
                if out and out[-1] in self.DEC_CONSTS:
                    c = out[-1]
                    if toks[j].kind != 'id' or (j + 1 < n and toks[j + 1] in ('.', '(', '[')):
                        raise Unsupported('comparison of decimals')
                    self.used.add('relop')
                    if len(out) > 1 and out[-2] == '&':
                        del out[-2]
                    o, op = self.REL[t]
                    out += L('.cmp(%s) %s Ordering::%s' % (toks[j], op, o))
                    i = j + 1
                    continue
            out.append(t)
            i += 1
        return out

    # ------------------------------------------------------------------ statements
    def block(self, toks):
        """walks a token list, rewriting loops; nested blocks are handled recursively"""
        out = []
        i = 0
        n = len(toks)
        seg = []

        def flush():
            nonlocal seg
            if seg:
                out.extend(self.simple_nested(seg))
                seg = []
        while i < n:
            t = toks[i]
            if t == 'for' and t.kind == 'id' and not (i + 1 < n and toks[i + 1] == '<'):
                flush()
                # pattern
                j = i + 1
                d = 0
                while not (d == 0 and toks[j] == 'in'):
                    if toks[j] in OPEN:
                        d += 1
                    elif toks[j] in CLOSE:
                        d -= 1
                    j += 1
                pat = toks[i + 1:j]
                h = j + 1
                j = h
                while toks[j] != '{':
                    if toks[j] in OPEN:
                        j = match(toks, j)
                    j += 1
                ex = toks[h:j]
                e = match(toks, j)
                body = toks[j + 1:e]
                out += self.forloop(pat, ex, body, t.ws)
                i = e + 1
                continue
            # EXPR.iter_mut().for_each(|p| stmt);
            if t == '.' and norm(toks[i + 1:i + 4]) in ('iter_mut ( )', 'iter ( )') and norm(toks[i + 4:i + 7]) == '. for_each (':
                e = match(toks, i + 6)
                clo = toks[i + 7:e]
                if clo[0] != '|':
                    raise Unsupported('closure')
                q = clo.index('|', 1)
                # receiver is the rest of the current segment back to the statement start
                j = len(seg)
                while j > 0 and seg[j - 1] not in (';', '{', '}'):
                    j -= 1
                recv = seg[j:]
                seg = seg[:j]
                flush()
                self.used.add('iter-all')
                b = clo[q + 1:]
                if b and b[0] == '{':
                    b = b[1:-1]
                else:
                    b = b + [T(';', 'p', '')]
                out += self.forloop(clo[1:q], recv + toks[i:i + 4], b, recv[0].ws if recv else ' ')
                i = e + 1
                if i < n and toks[i] == ';':
                    i += 1
                continue
            seg.append(t)
            i += 1
        flush()
        return out

    def simple_nested(self, seg):
        return self.simple(seg)

    # ------------------------------------------------------------------ for loops
    def forloop(self, pat, ex, body, ws):
        if body and body[-1] not in (';', '}'):
            body = body + [T(';', 'p', '')]
        self.k += 1
        k = self.k
        pre = []
        # range?
        d = 0
        cut = None
        for q, t in enumerate(ex):
            if t in OPEN:
                d += 1
            elif t in CLOSE:
                d -= 1
            elif d == 0 and t in ('..', '..='):
                cut = q
        if cut is not None and not any(x == '|' for x in ex):
            self.used.add('for-range')
            lo, hi, inc = ex[:cut], ex[cut + 1:], ex[cut] == '..='
            if lo and lo[0] == '(' and norm(ex[:1]) == '(':
                pass
            out = L('let __e%d = ' % k) + self.simple(hi) + L('; let mut __k%d = ' % k) + self.simple(lo) + L(';')
            out[0] = T(str(out[0]), out[0].kind, ws)
            out += L('while __k%d %s __e%d {' % (k, '<=' if inc else '<', k))
            if norm(pat) != '_':
                out += L('let ') + pat + L('= __k%d;' % k)
            out += L('__k%d = __k%d + 1;' % (k, k)) + self.block(body) + L('}')
            return out
        self.used.add('iter-chain')
        src = self.chain(ex, pre, k)
        ln = src.length()
        if ln is None:
            raise Unsupported('infinite iterator')
        out = []
        for p in pre:
            out += L(p) if isinstance(p, str) else p
        out += L('let __n%d: usize = %s; let mut __k%d: usize = 0;' % (k, ln, k))
        out[0] = T(str(out[0]), out[0].kind, ws)
        out += L('while __k%d < __n%d {' % (k, k))
        out += self.bind(pat, src.elem('__k%d' % k))
        out += L('__k%d = __k%d + 1;' % (k, k)) + self.block(body) + L('}')
        return out

    def bind(self, pat, el):
        if isinstance(el, tuple):
            if pat[0] == '(' and match(pat, 0) == len(pat) - 1:
                ps = split(pat[1:-1])
                if len(ps) != 2:
                    raise Unsupported('pattern')
                return self.bind(ps[0], el[0]) + self.bind(ps[1], el[1])
            raise Unsupported('pattern')
        if norm(pat) == '_':
            return []
        if pat[0] == '&':
            return L('let ') + pat[1:] + L('= *(%s);' % el)
        return L('let ') + pat + L('= %s;' % el)

    def chain(self, ex, pre, k):
        """iterator expression -> source; slices are bound to variables first"""
        # &xs[..], &mut xs[..] and xs.iter() chains
        ex = list(ex)
        if ex[0] == '&':
            mut = ex[1] == 'mut'
            return self.slice(ex[2 if mut else 1:], mut, pre, k)
        # split trailing method calls
        segs = []
        j = len(ex)
        while True:
            if j >= 3 and ex[j - 1] == ')':
                d = 0
                q = j
                while True:
                    q -= 1
                    if ex[q] in CLOSE:
                        d += 1
                    elif ex[q] in OPEN:
                        d -= 1
                        if d == 0:
                            break
                if q >= 2 and ex[q - 1].kind == 'id' and ex[q - 2] == '.':
                    m = str(ex[q - 1])
                    if m in ('iter', 'iter_mut', 'rev', 'zip', 'take', 'skip', 'enumerate', 'chain', 'copied', 'cloned', 'into_iter'):
                        segs.append((m, ex[q + 1:j - 1]))
                        j = q - 2
                        continue
            break
        base = ex[:j]
        segs.reverse()
        if not segs or segs[0][0] not in ('iter', 'iter_mut'):
            raise Unsupported('iterator %s' % norm(ex))
        s = self.slice(base, segs[0][0] == 'iter_mut', pre, k)
        for m, a in segs[1:]:
            if m == 'rev':
                s = s.rev()
            elif m == 'zip':
                s = Zip(s, self.chain(a, pre, k))
            elif m == 'take':
                v = '__t%d_%d' % (k, len(pre))
                pre.append(L('let %s: usize = ' % v) + self.simple(a) + L(';'))
                s = Take(s, v)
            elif m == 'skip':
                v = '__t%d_%d' % (k, len(pre))
                pre.append(L('let %s: usize = ' % v) + self.simple(a) + L(';'))
                s = Skip(s, v)
            elif m == 'enumerate':
                s = Enum(s)
            elif m == 'chain':
                a = norm(a)
                if a not in ('std :: iter :: repeat ( & 0 )', 'iter :: repeat ( & 0 )', 'repeat ( & 0 )'):
                    raise Unsupported('chain')
                s = Pad(s)
            elif m in ('copied', 'cloned'):
                s = Deref(s)
            else:
                raise Unsupported('adapter ' + m)
        return s

    def slice(self, base, mut, pre, k):
        if base and base[0] == '(' and match(base, 0) == len(base) - 1:
            base = base[1:-1]
        # place[a..b]
        if base[-1] == ']':
            d = 0
            q = len(base)
            while True:
                q -= 1
                if base[q] in CLOSE:
                    d += 1
                elif base[q] in OPEN:
                    d -= 1
                    if d == 0:
                        break
            place, idx = base[:q], base[q + 1:-1]
            d = 0
            cut = None
            for z, t in enumerate(idx):
                if t in OPEN:
                    d += 1
                elif t in CLOSE:
                    d -= 1
                elif d == 0 and t in ('..', '..='):
                    cut = z
            if cut is None:
                raise Unsupported('iteration over element')
            lo, hi, inc = idx[:cut], idx[cut + 1:], idx[cut] == '..='
            p = text(place).strip()
            a, b = '__a%d_%d' % (k, len(pre)), '__b%d_%d' % (k, len(pre))
            pre.append(L('let %s: usize = ' % a) + (self.simple(lo) if lo else L('0')) + L(';'))
            pre.append(L('let %s: usize = ' % b) + ((self.simple(hi) + (L('+ 1') if inc else [])) if hi else L('%s.len()' % p)) + L(';'))
            pre.append('fxd_slice_check(%s, %s, %s.len());' % (a, b, p))
            return Slice(p, a, b, mut)
        p = text(base).strip()
        return Slice(p, None, None, mut)


class Slice:
    def __init__(self, p, a, b, mut, r=False):
        self.p, self.a, self.b, self.mut, self.r = p, a, b, mut, r

    def length(self):
        return '%s.len()' % self.p if self.a is None else '%s - %s' % (self.b, self.a)

    def rev(self):
        return Slice(self.p, self.a, self.b, self.mut, not self.r)

    def elem(self, k):
        m = '&mut ' if self.mut else '&'
        if not self.r:
            ix = k if self.a is None else '%s + %s' % (self.a, k)
        else:
            ix = '%s.len() - 1 - %s' % (self.p, k) if self.a is None else '%s - 1 - %s' % (self.b, k)
        return '%s%s[%s]' % (m, self.p, ix)


class Wrap:
    def __init__(self, s, v=None):
        self.s, self.v = s, v

    def rev(self):
        raise Unsupported('rev of adapter')

    def length(self):
        return self.s.length()

    def elem(self, k):
        return self.s.elem(k)


class Zip(Wrap):
    def length(self):
        a, b = self.s.length(), self.v.length()
        if a is None:
            return b
        if b is None:
            return a
        return 'fxd_min(%s, %s)' % (a, b)

    def elem(self, k):
        return (self.s.elem(k), self.v.elem(k))


class Take(Wrap):
    def length(self):
        a = self.s.length()
        return self.v if a is None else 'fxd_min(%s, %s)' % (a, self.v)


class Skip(Wrap):
    def length(self):
        return 'fxd_sat_sub(%s, %s)' % (self.s.length(), self.v)

    def elem(self, k):
        return self.s.elem('(%s + %s)' % (self.v, k))


class Enum(Wrap):
    def elem(self, k):
        return (k, self.s.elem(k))


class Deref(Wrap):
    def elem(self, k):
        return '*(%s)' % self.s.elem(k)


class Pad(Wrap):
    def length(self):
        return None

    def elem(self, k):
        return 'if %s < %s { %s } else { &0 }' % (k, self.s.length(), self.s.elem(k))
