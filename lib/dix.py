"""Random dictionaries (.dix), written from the documented format, and their denotation:
the weighted relation between surface and lexical strings that the XML describes.

Nothing here uses lttoolbox.  Symbols as in fst.py.
"""
from xml.sax.saxutils import escape, quoteattr

# ------------------------------------------------------------------ regular expressions
# AST: ('c', ch) ('set', neg, [(lo, hi)]) ('cat', [..]) ('alt', [..]) ('rep', op, node)
RESERVED = '()[]*?+-^\\|'


def re_esc(c):
    return '\\' + c if c in RESERVED else c


def re_str(n):
    k = n[0]
    if k == 'raw':
        return n[1]
    if k == 'c':
        return re_esc(n[1])
    if k == 'set':
        return '[' + ('^' if n[1] else '') + ''.join(
            re_esc(lo) if lo == hi else re_esc(lo) + '-' + re_esc(hi) for lo, hi in n[2]) + ']'
    if k == 'cat':
        return ''.join('(' + re_str(x) + ')' if x[0] in ('alt', 'raw') else re_str(x) for x in n[1])
    if k == 'alt':
        return '|'.join(re_str(x) for x in n[1])
    if k == 'rep':
        x = n[2]
        s = re_str(x)
        if x[0] not in ('c', 'set'):
            s = '(' + s + ')'
        return s + n[1]
    raise AssertionError(n)


def re_parse(t):
    """-> the expression that t means, or None when it is malformed"""
    p = 0

    class Bad(Exception):
        pass

    def at():
        return t[p] if p < len(t) else ''

    def letter():
        nonlocal p
        c = at()
        if c == '\\':
            p += 1
            c = at()
            if not c or c not in RESERVED:
                raise Bad()
        elif not c or c in RESERVED:
            raise Bad()
        p += 1
        return c

    def term():
        nonlocal p
        if at() == '(':
            p += 1
            x = alt()
            if at() != ')':
                raise Bad()
            p += 1
        elif at() == '[':
            p += 1
            neg = at() == '^'
            p += neg
            rs = []
            while at() != ']':
                lo = hi = letter()
                if at() == '-':
                    p += 1
                    hi = letter()
                if lo > hi:
                    raise Bad()
                rs.append((lo, hi))
            p += 1
            x = ('set', neg, rs)
        else:
            x = ('c', letter())
        if at() and at() in '*+?':
            x = ('rep', at(), x)
            p += 1
        return x

    def cat():
        xs = [term()]
        while at() and at() not in '|)':
            xs.append(term())
        return ('cat', xs)

    def alt():
        nonlocal p
        xs = [cat()]
        while at() == '|':
            p += 1
            xs.append(cat())
        return ('alt', xs)

    try:
        x = alt()
        if at():
            raise Bad()
    except Bad:
        return None
    return x


def re_text(r, letters, ops):
    """a random text that may or may not be a regular expression"""
    atoms = letters + ['(', ')', '[', ']', '|', '\\', '-', '^'] + list(ops) * 2
    t = ''
    for _ in range(r.randint(1, 9)):
        t += r.choice(['(', '(', ')', ')', '|', '[a', '[^', ']', '\\' + r.choice(RESERVED), r.choice(letters), r.choice(letters), r.choice(letters),
                       '%s-%s' % (r.choice(letters), r.choice(letters)), r.choice(ops), '[%s]' % r.choice(letters),
                       '(%s|%s)' % (r.choice(letters), r.choice(letters)), r.choice(atoms)])
    return t


def re_expand(t):
    out, esc = '', False
    for c in t:
        if esc:
            esc = False
        elif c == '\\':
            esc = True
        elif c in '^$/<>{}*@#+~:':
            out += '\\'
        out += c
    return out


def re_lang(n, N):
    """Strings (tuples of symbols) of length at most N."""
    k = n[0]
    if k == 'raw':
        return re_lang(n[2], N)
    if k == 'c':
        return {(n[1],)} if N >= 1 else set()
    if k == 'set':
        if N < 1:
            return set()
        s = set()
        for lo, hi in n[2]:
            s.update(chr(i) for i in range(ord(lo), ord(hi) + 1))
        if n[1]:
            s = set(chr(i) for i in range(1, 256)) - s      # Latin-1, as documented by the tests
        return {(c,) for c in s}
    if k == 'cat':
        r = {()}
        for x in n[1]:
            l = re_lang(x, N)
            if len(r) * len(l) > 20 * LIMIT:
                raise TooBig()
            r = {a + b for a in r for b in l if len(a) + len(b) <= N}
        return r
    if k == 'alt':
        r = set()
        for x in n[1]:
            r |= re_lang(x, N)
        return r
    if k == 'rep':
        l = re_lang(n[2], N)
        if n[1] == '?':
            return l | {()}
        r = set(l)
        front = set(l)
        while front:
            if len(front) * len(l) > 20 * LIMIT:
                raise TooBig()
            front = {a + b for a in front for b in l if b and len(a) + len(b) <= N} - r
            r |= front
        if n[1] == '*':
            r.add(())
        return r
    raise AssertionError(n)


def re_finite(n):
    k = n[0]
    if k == 'raw':
        return re_finite(n[2])
    if k in ('c', 'set'):
        return True
    if k in ('cat', 'alt'):
        return all(re_finite(x) for x in n[1])
    return n[1] == '?' and re_finite(n[2])


# ------------------------------------------------------------------ dictionaries
class Entry:
    def __init__(self, elems, **attrs):
        self.elems = elems
        self.attrs = attrs


class Dix:
    def __init__(self):
        self.alphabet = ''
        self.sdefs = []
        self.pardefs = []       # (name, [Entry])
        self.sections = []      # (id, type, [Entry])
        self.dtype = None


SPECIAL = {'<b/>': ' ', '<j/>': '+', '<a/>': '~'}


def side_xml(syms):
    """syms: characters, '<tag>', or ('b',) ('j',) ('a',) ('m',) ('g', [..])."""
    out = []
    for s in syms:
        if isinstance(s, tuple):
            if s[0] == 'g':
                out.append('<g>' + side_xml(s[1]) + '</g>')
            else:
                out.append('<%s/>' % s[0])
        elif len(s) > 1 and s[0] == '<':
            out.append('<s n=%s/>' % quoteattr(s[1:-1]))
        else:
            out.append(escape(s))
    return ''.join(out)


ESCAPED = '^$/<>{}\\*@#+~:'


def side_syms(syms, keep_boundaries=False, esc=False):
    out = []
    for s in syms:
        if isinstance(s, tuple):
            if s[0] == 'g':
                out.append('#')
                out.extend(side_syms(s[1], keep_boundaries, esc))
            elif s[0] == 'm':
                if keep_boundaries:
                    out.append('>')
            else:
                out.append({'b': ' ', 'j': '+', 'a': '~'}[s[0]])
        elif esc and len(s) == 1 and s in ESCAPED:
            out.append('\\' + s)
        else:
            out.append(s)
    return tuple(out)


def elem_xml(e):
    if e[0] == 'p':
        l, r = side_xml(e[1]), side_xml(e[2])
        return '<p>%s%s</p>' % ('<l>%s</l>' % l if l else '<l/>', '<r>%s</r>' % r if r else '<r/>')
    if e[0] in ('i', 'ig'):
        return '<%s>%s</%s>' % (e[0], side_xml(e[1]), e[0])
    if e[0] == 'par':
        return '<par n=%s/>' % quoteattr(e[1])
    if e[0] == 're':
        return '<re>%s</re>' % escape(re_str(e[1]))
    raise AssertionError(e)


def entry_xml(e, pretty=False):
    a = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in e.attrs.items())
    if not e.elems:
        return '<e%s></e>' % a
    return '<e%s>%s</e>' % (a, (' ' if pretty else '').join(elem_xml(x) for x in e.elems))


def dix_xml(d):
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n<dictionary%s>' % (
        '' if not d.dtype else ' type=%s' % quoteattr(d.dtype))]
    o.append('<alphabet>%s</alphabet>' % escape(d.alphabet))
    o.append('<sdefs>')
    for s in d.sdefs:
        o.append('  <sdef n=%s/>' % quoteattr(s[1:-1]))
    o.append('</sdefs>')
    if d.pardefs:
        o.append('<pardefs>')
        for n, es in d.pardefs:
            o.append(' <pardef n=%s>' % quoteattr(n))
            for e in es:
                o.append('  ' + entry_xml(e))
            o.append(' </pardef>')
        o.append('</pardefs>')
    for i, t, es in d.sections:
        o.append('<section id=%s type=%s>' % (quoteattr(i), quoteattr(t)))
        for e in es:
            o.append('  ' + entry_xml(e))
        o.append('</section>')
    o.append('</dictionary>')
    return '\n'.join(o) + '\n'


class Sel:
    """What a compilation selects."""

    def __init__(self, dir='lr', alt='', v='', vl='', vr='', m=False, esc=False):
        self.esc = esc
        self.dir, self.alt, self.v, self.vl, self.vr, self.m = dir, alt, v, vl, vr, m

    def args(self):
        a = []
        if self.m:
            a.append('-m')
        if self.alt:
            a += ['-a', self.alt]
        if self.v:
            a += ['-v', self.v]
        if self.vl:
            a += ['-l', self.vl]
        if self.vr:
            a += ['-r', self.vr]
        return a

    def __repr__(self):
        return '%s alt=%s v=%s vl=%s vr=%s m=%d' % (self.dir, self.alt, self.v, self.vl, self.vr, self.m)


def selected(e, sel):
    a = e.attrs
    if a.get('r') and a['r'].lower() != sel.dir:
        return False
    if a.get('i') == 'yes':
        return False
    if a.get('alt') and sel.alt not in a['alt'].split(' '):
        return False
    if a.get('v') and sel.v and sel.v not in a['v'].split(' '):
        return False
    if sel.dir == 'rl' and a.get('vl') and sel.vl not in a['vl'].split(' '):
        return False
    if sel.dir == 'lr' and a.get('vr') and sel.vr not in a['vr'].split(' '):
        return False
    return True


def elem_pairs(x, sel, pars, N):
    if x[0] == 'p':
        l, r = side_syms(x[1], sel.m, sel.esc), side_syms(x[2], sel.m, sel.esc)
        return [(l, r, 0.0)]
    if x[0] == 'i':
        l = side_syms(x[1], sel.m, sel.esc)
        return [(l, l, 0.0)]
    if x[0] == 'ig':
        l = side_syms(x[1], sel.m, sel.esc)
        return [(l, ('#',) + l, 0.0)]
    if x[0] == 'par':
        return pars[x[1]]
    if x[0] == 're':
        if sel.esc:         # lt-expand shows the expression itself
            t = ('__REGEXP__' + re_expand(re_str(x[1])),)
            return [(t, t, 0.0)]
        return [(s, s, 0.0) for s in re_lang(x[1], N)]
    raise AssertionError(x)


LIMIT = 60000


class TooBig(Exception):
    pass


def entry_pairs(e, sel, pars, N):
    """[(left, right, weight)] in the order of the XML sides, lengths at most N."""
    w = float(e.attrs['w']) if e.attrs.get('w') else 0.0
    rel = {((), ()): w}
    for x in e.elems:
        nr = {}
        ps = elem_pairs(x, sel, pars, N)
        if len(rel) * len(ps) > 4 * LIMIT:
            raise TooBig()
        for (l, r), w0 in rel.items():
            for l2, r2, w2 in ps:
                if len(l) + len(l2) > N or len(r) + len(r2) > N:
                    continue
                k = (l + l2, r + r2)
                if k not in nr or nr[k] > w0 + w2:
                    nr[k] = w0 + w2
        rel = nr
    return rel


def union_rel(rels):
    out = {}
    for rel in rels:
        for k, w in rel.items():
            if k not in out or out[k] > w:
                out[k] = w
        if len(out) > LIMIT:
            raise TooBig()
    return out


def denote(d, sel, N=10 ** 6):
    """{section name: {(input, output): weight}} in the direction of sel, N bounding the
    length of both sides."""
    pars = {}
    for n, es in d.pardefs:
        u = union_rel(entry_pairs(e, sel, pars, N) for e in es if selected(e, sel))
        pars[n] = [(l, r, w) for (l, r), w in u.items()]
    out = {}
    for i, t, es in d.sections:
        u = union_rel(entry_pairs(e, sel, pars, N) for e in es if selected(e, sel))
        if sel.dir == 'rl':
            u = {(r, l): w for (l, r), w in u.items()}
        out[i + '@' + t] = union_rel([u, out.get(i + '@' + t, {})])
    return out


def re_narrow(n):
    """no range of thousands of characters (minimizing with them takes minutes)"""
    if n[0] == 'set':
        return all(ord(hi) - ord(lo) < 300 for lo, hi in n[2])
    return all(re_narrow(x) for y in n[1:] for x in (y if isinstance(y, list) else [y]) if isinstance(x, tuple))


def re_first(n):
    k = n[0]
    if k == 'raw':
        return re_first(n[2])
    if k == 'c':
        return {n[1]}
    if k == 'set':
        return {x[0] for x in re_lang(n, 1)}
    if k == 'cat':
        return cat_first([re_first(x) for x in n[1]])
    if k == 'alt':
        return set().union(*[re_first(x) for x in n[1]])
    f = re_first(n[2])
    return f if n[1] == '+' else f | {''}


def cat_first(fs):
    out = set()
    for f in fs:
        out |= f - {''}
        if '' not in f:
            return out
    return out | {''}


def firsts(d, sel):
    """{section: set of first input symbols, '' when some input is empty}"""
    k = 1 if sel.dir == 'lr' else 2
    pars = {}

    def ef(e):
        fs = []
        for x in e.elems:
            if x[0] == 'p':
                s = side_syms(x[k], sel.m)
                fs.append({s[0]} if s else {''})
            elif x[0] in ('i', 'ig'):
                s = side_syms(x[1], sel.m)
                if x[0] == 'ig' and k == 2:
                    s = ('#',) + s
                fs.append({s[0]} if s else {''})
            elif x[0] == 're':
                fs.append(re_first(x[1]))
            else:
                if not pars[x[1]]:
                    return set()
                fs.append(pars[x[1]])
        # an element that can be nothing at all (empty paradigm) kills the entry
        return cat_first(fs) if all(fs) else set()
    for n, es in d.pardefs:
        pars[n] = set().union(*[ef(e) for e in es if selected(e, sel)]) if es else set()
    out = {}
    for i, t, es in d.sections:
        out.setdefault(i + '@' + t, set()).update(*[ef(e) for e in es if selected(e, sel)])
    return out


def finite(d):
    return all(re_finite(x[1]) for _, es in list(d.pardefs) + [(s[0], s[2]) for s in d.sections]
               for e in es for x in e.elems if x[0] == 're')


# ------------------------------------------------------------------ random generation
LOWER = list('abcdeáñç')
LETTERS = list('abcdeABáÁñßʼ') + ['ж', 'Ж', '\u0301', 'İ', '中', '\U00010400', '\U00010428', '\U0001F600']
TAGS = ['<n>', '<v>', '<sg>', '<pl>', '<adj>', '<cmp:x>', '<a.b>']


class Gen:
    def __init__(self, rng, letters=None, tags=None, weights=None, regex=None, filters=None,
                 specials=None, cyclic=None, maxpar=None, multisec=True, paronly=True):
        r = self.r = rng
        self.letters = letters or r.sample(LETTERS, r.randint(3, 8))
        self.tags = tags or r.sample(TAGS, r.randint(2, 4))
        self.weights = r.random() < .4 if weights is None else weights
        self.regex = r.random() < .3 if regex is None else regex
        self.filters = r.random() < .5 if filters is None else filters
        self.specials = r.random() < .5 if specials is None else specials
        self.cyclic = r.random() < .5 if cyclic is None else cyclic
        self.maxpar = r.choice([0, 1, 2, 3, 4]) if maxpar is None else maxpar
        self.multisec = multisec
        self.paronly = paronly

    def word(self, lo=1, hi=4):
        r = self.r
        return [r.choice(self.letters) for _ in range(r.randint(lo, hi))]

    def tagseq(self, lo=0, hi=3):
        r = self.r
        return [r.choice(self.tags) for _ in range(r.randint(lo, hi))]

    def side(self, lo, hi, tags=True):
        r = self.r
        s = self.word(lo, hi)
        if self.specials and s and r.random() < .25:
            s.insert(r.randint(1, len(s)), r.choice([('b',), ('j',), ('a',), ('m',), ('b',),
                                                     ('g', self.word(1, 2))]))
        if tags and r.random() < .7:
            s += self.tagseq(0, 2)
        return s

    def rx(self, depth=2):
        r = self.r
        k = r.random()
        if depth >= 2 and r.random() < .2:
            for _ in range(30):
                t = re_text(r, self.letters, '*+?' if self.cyclic else '?')
                x = re_parse(t)
                if x and '[]' not in t and '[^' not in t and re_narrow(x):
                    return ('raw', t, x)
        if k < .3 or depth == 0 and k < .6:
            return ('c', r.choice(self.letters + ['.', '*', '-', ':', '/', '#', '<']))
        if k < .5 or depth == 0:
            rs = []
            for _ in range(r.randint(1, 3)):
                c = r.choice(self.letters)
                rs.append((c, chr(ord(c) + r.randint(0, 2))) if r.random() < .4 else (c, c))
            return ('set', r.random() < .12, rs)
        if k < .65:
            return ('cat', [self.rx(depth - 1) for _ in range(r.randint(2, 3))])
        if k < .8:
            return ('alt', [self.rx(depth - 1) for _ in range(r.randint(2, 3))])
        return ('rep', r.choice('*+?' if self.cyclic else '?'), self.rx(depth - 1))

    def attrs(self, insec):
        r = self.r
        a = {}
        if self.filters:
            if r.random() < .25:
                a['r'] = r.choice(['LR', 'RL'])
            if r.random() < .08:
                a['i'] = 'yes'
            if r.random() < .12:
                a['alt'] = r.choice(['x', 'y', 'x y', 'z', 'xy', 'x-y z', 'zx x'])
            if r.random() < .12:
                a['v'] = r.choice(['p', 'q', 'p q', 'pq', 's t', 'qp p'])
            if r.random() < .1:
                a['vl'] = r.choice(['s', 't', 's t', 's t', 'st', 'st t'])
            if r.random() < .1:
                a['vr'] = r.choice(['s', 't', 't s', 's t', 'st', 't-s'])
        if self.weights and r.random() < .5:
            a['w'] = str(r.choice([0.25, 0.5, 1, 2, 3.75, 8, 0.125, 100]))
        if insec and r.random() < .2:
            a['lm'] = 'x'
        return a

    def elem(self, pars, first, paradigm):
        r = self.r
        k = r.random()
        if pars and k < .35:
            return ('par', r.choice(pars))
        if self.regex and k < .5:
            return ('re', self.rx(2 if r.random() < .8 else 3))
        lo = 1 if first and not paradigm else 0
        if k < .7:
            return ('i', self.side(max(lo, 1), 3, tags=r.random() < .4))
        if self.specials and k < .75:
            return ('ig', self.side(1, 2, tags=False))
        return ('p', self.side(lo, 3, r.random() < .3), self.side(lo, 3))

    def entry(self, pars, paradigm):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3])
        if paradigm and r.random() < .08:
            return Entry([('p', [], self.tagseq(0, 1))], **self.attrs(False))
        es = [self.elem(pars, k == 0, paradigm) for k in range(n)]
        return Entry(es, **self.attrs(not paradigm))

    def dix(self):
        r = self.r
        d = Dix()
        d.alphabet = ''.join(self.letters if r.random() < .6 else r.sample(self.letters, r.randint(0, len(self.letters))))
        d.sdefs = list(self.tags)
        pars = []
        for k in range(self.maxpar):
            n = r.choice(['par%d', 'n/oun%d', 'ñ__%d', 'p p%d']) % k
            d.pardefs.append((n, [self.entry(pars, True) for _ in range(r.randint(1, 4))]))
            pars.append(n)
        types = ['standard', 'standard', 'inconditional', 'postblank', 'preblank']
        ns = r.choice([1, 1, 2, 3]) if self.multisec else 1
        for k in range(ns):
            d.sections.append(('s%d' % k, types[0] if not self.multisec else r.choice(types),
                               [self.entry(pars, False) for _ in range(r.randint(1, 7))]))
        return d
