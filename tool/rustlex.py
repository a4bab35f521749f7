"""Token-level reading of Rust source: enough to cut items, functions, statements and loops out of
a file and put them back verbatim (comments dropped)."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<str>b?r\#*"|b?")
 |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>0[xob][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|\d[\d_]*(?:\.(?!\.)(?![A-Za-z_])[\d_]*)?(?:[eE][+-]?\d+)?(?:[iuf](?:8|16|32|64|128|size))?)
 |(?P<id>r\#[A-Za-z_]\w*|[A-Za-z_]\w*)
 |(?P<p>\.\.=|\.\.\.|<<=|>>=|\.\.|->|=>|::|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
''', re.X)

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}


class LexError(Exception):
    pass


class T(str):
    """a token: its text, its kind and the white space before it"""
    __slots__ = ('kind', 'ws')

    def __new__(cls, s, kind='p', ws=' '):
        o = str.__new__(cls, s)
        o.kind = kind
        o.ws = ws
        return o


def lex(src):
    out = []
    i = 0
    ws = ''
    n = len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise LexError('cannot lex at %r' % src[i:i + 30])
        k = m.lastgroup
        s = m.group(0)
        if k == 'ws':
            ws += s
            i = m.end()
            continue
        if k == 'lc':
            i = m.end()
            continue
        if k == 'bc':
            d = 1
            i = m.end()
            while d:
                a = src.find('*/', i)
                b = src.find('/*', i)
                if a < 0:
                    raise LexError('unterminated comment')
                if 0 <= b < a:
                    d += 1
                    i = b + 2
                else:
                    d -= 1
                    i = a + 2
            ws += ' '
            continue
        if k == 'str':
            if 'r' in s:
                h = s.count('#')
                e = src.find('"' + '#' * h, m.end())
                e = e + 1 + h
            else:
                e = m.end()
                while src[e] != '"':
                    e += 2 if src[e] == '\\' else 1
                e += 1
            s = src[i:e]
            i = e
        else:
            i = m.end()
        out.append(T(s, k, re.sub(r'\n\s*\n+', '\n', ws) if '\n' in ws else ws))
        ws = ''
    return out


def text(toks):
    out = []
    last = ''
    for t in toks:
        ws = t.ws if isinstance(t, T) else ''
        if not ws and last and t and (last[-1].isalnum() or last[-1] == '_') and (t[0].isalnum() or t[0] in "_'"):
            ws = ' '
        out.append(ws)
        out.append(str(t))
        last = t
    return ''.join(out)


def norm(toks):
    return ' '.join(str(t) for t in toks)


def match(toks, i):
    """index of the bracket closing the one at i"""
    d = 0
    j = i
    while j < len(toks):
        t = toks[j]
        if t in OPEN:
            d += 1
        elif t in CLOSE:
            d -= 1
            if d == 0:
                return j
        j += 1
    raise LexError('unbalanced bracket')


def split(toks, sep=','):
    """splits at top-level separators"""
    out = [[]]
    d = 0
    for t in toks:
        if t in OPEN:
            d += 1
        elif t in CLOSE:
            d -= 1
        if d == 0 and t == sep:
            out.append([])
        else:
            out[-1].append(t)
    if not out[-1]:
        out.pop()
    return out


class Fn:
    def __init__(self, key, name, owner, trait, attrs, head, params, ret, body, generics):
        self.key = key
        self.name = name
        self.owner = owner      # type name for impl functions
        self.trait = trait      # trait text or None
        self.attrs = attrs
        self.generics = generics
        self.params = params    # tokens between the parentheses
        self.ret = ret          # tokens of the return type or []
        self.body = body        # tokens including the braces

    def text_norm(self):
        return norm(self.params) + ' -> ' + norm(self.ret) + ' ' + norm(self.body)


class Items:
    def __init__(self):
        self.fns = {}
        self.consts = {}        # name -> (type tokens, value tokens, kind)
        self.types = {}         # name -> (attrs, tokens)
        self.macros = []
        self.others = []


def parse_file(src, items, fname):
    _parse(lex(src), items, None, None, fname)
    return items


def _parse(toks, items, owner, trait, fname):
    i = 0
    n = len(toks)
    while i < n:
        attrs = []
        while i < n and toks[i] == '#':
            j = i + 1
            if toks[j] == '!':
                j += 1
            e = match(toks, j)
            attrs.append(norm(toks[i:e + 1]))
            i = e + 1
        if i >= n:
            break
        start = i
        vis = ''
        if toks[i] == 'pub':
            vis = 'pub'
            i += 1
            if toks[i] == '(':
                vis = 'pub(' + norm(toks[i + 1:match(toks, i)]) + ')'
                i = match(toks, i) + 1
        cfg_off = any('cfg ( test )' in a or 'cfg ( fxd_verif )' in a for a in attrs)
        quals = []
        while toks[i] in ('const', 'unsafe', 'async', 'extern', 'default') and not (
                toks[i] == 'const' and toks[i + 1].kind == 'id' and toks[i + 1] not in ('fn', 'unsafe') ):
            quals.append(str(toks[i]))
            i += 1
            if toks[i].kind == 'str':
                i += 1
        k = toks[i]
        if k == 'fn':
            name = str(toks[i + 1])
            j = i + 2
            generics = []
            if toks[j] == '<':
                d = 0
                g0 = j
                while True:
                    if toks[j] == '<':
                        d += 1
                    elif toks[j] == '>':
                        d -= 1
                    elif toks[j] == '>>':
                        d -= 2
                    j += 1
                    if d <= 0:
                        break
                generics = toks[g0:j]
            e = match(toks, j)
            params = toks[j + 1:e]
            j = e + 1
            ret = []
            if toks[j] == '->':
                j += 1
                while toks[j] not in ('{', 'where', ';'):
                    if toks[j] in OPEN:
                        m = match(toks, j)
                        ret += toks[j:m + 1]
                        j = m + 1
                    else:
                        ret.append(toks[j])
                        j += 1
            where = []
            if toks[j] == 'where':
                while toks[j] != '{':
                    where.append(toks[j])
                    j += 1
            if toks[j] == ';':
                i = j + 1
                continue
            e = match(toks, j)
            body = toks[j:e + 1]
            i = e + 1
            if cfg_off:
                continue
            key = name if owner is None else (('%s::%s' % (trait, name)) if trait else '%s::%s' % (owner, name))
            f = Fn(key, name, owner, trait, attrs, quals, params, ret, body, generics + where)
            f.quals = quals
            f.file = fname
            f.vis = vis
            if key in items.fns:
                items.others.append('duplicate fn ' + key)
            items.fns[key] = f
            continue
        if k in ('const', 'static'):
            j = i + 1
            if toks[j] == 'mut':
                j += 1
            name = str(toks[j])
            j += 2
            ty = []
            while toks[j] != '=':
                if toks[j] in OPEN:
                    m = match(toks, j)
                    ty += toks[j:m + 1]
                    j = m + 1
                else:
                    ty.append(toks[j])
                    j += 1
            j += 1
            val = []
            while toks[j] != ';':
                if toks[j] in OPEN:
                    m = match(toks, j)
                    val += toks[j:m + 1]
                    j = m + 1
                else:
                    val.append(toks[j])
                    j += 1
            i = j + 1
            if not cfg_off:
                items.consts[name] = (ty, val, fname)
            continue
        if k in ('struct', 'enum', 'union'):
            name = str(toks[i + 1])
            j = i + 2
            while toks[j] not in ('{', '(', ';'):
                j += 1
            if toks[j] == ';':
                e = j
            else:
                e = match(toks, j)
                if toks[j] == '(':
                    e += 1
            if not cfg_off:
                items.types[name] = (attrs, toks[i:e + 1], fname)
            i = e + 1
            continue
        if k == 'impl':
            j = i + 1
            if toks[j] == '<':
                d = 0
                while True:
                    if toks[j] == '<':
                        d += 1
                    elif toks[j] == '>':
                        d -= 1
                    elif toks[j] == '>>':
                        d -= 2
                    j += 1
                    if d <= 0:
                        break
            hd = []
            while toks[j] != '{':
                hd.append(toks[j])
                j += 1
            e = match(toks, j)
            if not cfg_off:
                h = [str(t) for t in hd]
                if 'where' in h:
                    h = h[:h.index('where')]
                if 'for' in h:
                    p = h.index('for')
                    tr = ''.join(h[:p])
                    tr = tr.split('::')[-1] if '<' not in tr else tr
                    _parse(toks[j + 1:e], items, ''.join(h[p + 1:]), tr, fname)
                else:
                    _parse(toks[j + 1:e], items, ''.join(h), None, fname)
            i = e + 1
            continue
        if k == 'mod':
            if toks[i + 2] == ';':
                i += 3
                continue
            e = match(toks, i + 2)
            if not cfg_off:
                _parse(toks[i + 3:e], items, None, None, fname)
            i = e + 1
            continue
        if k in ('use', 'type', 'extern'):
            while toks[i] != ';':
                if toks[i] in OPEN:
                    i = match(toks, i)
                i += 1
            i += 1
            continue
        if k == 'trait':
            while toks[i] != '{':
                i += 1
            i = match(toks, i) + 1
            items.others.append('trait')
            continue
        if k == 'macro_rules' or (k.kind == 'id' and i + 1 < n and toks[i + 1] == '!'):
            while toks[i] not in OPEN:
                i += 1
            items.others.append('macro')
            i = match(toks, i) + 1
            if i < n and toks[i] == ';':
                i += 1
            continue
        raise LexError('unexpected item at %r in %s' % (norm(toks[start:start + 8]), fname))
