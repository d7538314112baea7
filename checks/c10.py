"""C10: postgeneration and transliteration rewrite exactly the longest matches and nothing else."""
from fw import Violation, Skip
import re
import dix, stream, fst
from stream import isupper, lower, upper, isalnum, isspace

SPEC = dict(
    id='C10', level='exploration',
    technique='reference-model monitor (left-to-right longest rewriting over the compiled arcs) on the output of '
              'sanitized lt-proc -p / -t runs',
    rule='one evaluation = one random text rewritten with one random rule set; non-trivial when a rule applies; '
         'distinct by (rules, text, flags)',
    quick=2500, thorough=40000, min_distinct=500)


class Ambiguous(Exception):
    pass


class Rewriter:
    def __init__(self, secs, alphabet, cs):
        self.f = list(secs)
        self.cs = cs
        self.alpha = set(alphabet)
        self.arcs = [{s: None for s in ()} for _ in self.f]

    def closure(self, front):
        out = list(front)
        i = 0
        while i < len(out):
            k, s, seq, dirty, w = out[i]
            for a, b, t, aw in self.f[k].arcs[s]:
                if a == '':
                    out.append((k, t, seq + ((b,) if b else ()), dirty, w + aw))
            i += 1
        return out

    def step(self, front, c):
        nf = []
        low = lower(c) if len(c) == 1 and isupper(c) and not self.cs else None
        for k, s, seq, dirty, w in front:
            for a, b, t, aw in self.f[k].arcs[s]:
                if a == c or (low is not None and a == low):
                    if low is not None and b == low:
                        b = c
                    nf.append((k, t, seq + ((b,) if b else ()), dirty or a != c, w + aw))
        return self.closure(set(nf))

    def match(self, T, pos):
        """Longest match at pos -> (end, output symbols) or None"""
        front = self.closure([(k, f.init, (), False, 0.0) for k, f in enumerate(self.f)])
        best = None
        first = second = None
        p = pos
        while True:
            fin = {}
            for k, s, seq, dirty, w in front:
                if s in self.f[k].finals:
                    fu = bool(first)
                    up = bool(first and second)
                    o = [upper(x) if dirty and up and len(x) == 1 else x for x in seq]
                    if dirty and fu and o:
                        j = 1 if o[0] == '~' and len(o) > 1 else 0
                        if len(o[j]) == 1:
                            o[j] = upper(o[j])
                    o = tuple(o)
                    w += self.f[k].finals[s]
                    fin[o] = min(w, fin.get(o, w))
            if fin:
                m = min(fin.values())
                c = [o for o, w in fin.items() if w <= m + 1e-6]
                best = (p, c)
            if p >= len(T):
                break
            c = T[p]
            if len(c) == 1 and (isalnum(c) or c in self.alpha):
                if first is None:
                    first = isupper(c)
                    if not first:
                        second = False
                elif second is None:
                    second = isupper(c)
            front = self.step(front, c)
            p += 1
            if not front:
                break
        if best:
            if len(best[1]) > 1:
                raise Ambiguous()
            return best[0], list(best[1][0])
        return None

    def run(self, T):
        T = list(T)
        pos, n, same_spaces = 0, 0, True
        self.joins = False
        while pos < len(T):
            m = None if T[pos] == ' ' else self.match(T, pos)
            if not m:
                pos += 1
                continue
            end, O = m
            M = T[pos:end]
            n += 1
            if M.count(' ') != O.count(' '):
                same_spaces = False
            if not (M.count(' ') == O.count(' ') == 0 or
                    M.count(' ') == O.count(' ') == 1 and M[-1] == O[-1] == ' '):
                self.joins = True
            i = 0
            while i < len(O) and i < len(M) and O[-1 - i] == M[-1 - i]:
                i += 1
            T[pos:end] = O
            pos += len(O) - i + (1 if i == len(M) else 0)
            if len(T) > 5000:
                raise Ambiguous()
        return T, n, same_spaces


LET = ['a', 'b', 'c', 'A', 'B', 'é', 'É', '\'', '-', '中', '\U00010428', '\U00010400', '\U0001F600', '1', 'ж']


def rules(r):
    d = dix.Dix()
    letters = r.sample(LET, r.randint(3, 6))
    d.alphabet = ''.join(letters)
    d.sdefs = ['<n>', '<v>'] if r.random() < .2 else []
    es = []
    tilde = r.random() < .5
    spaces = r.random() < .5
    special = r.random() < .2
    weights = r.random() < .2
    seen = set()

    def side(lo, hi, left):
        s = [r.choice(letters) for _ in range(r.randint(lo, hi))]
        if spaces and len(s) and r.random() < .35:
            for _ in range(r.choice([1, 1, 1, 1, 2, 3, 4])):
                s.insert(r.randint(1, len(s)), ('b',))
            if r.random() < .2:
                s.append(('b',))
        if not left and special and r.random() < .5:
            s.insert(r.randint(0, len(s)), r.choice(list('/^$[]{}\\@<>')))
        if d.sdefs and r.random() < .2:
            s.insert(r.randint(0, len(s)), r.choice(d.sdefs))
        return s
    for _ in range(r.randint(1, 8)):
        l = side(1, 4, True)
        if tilde and r.random() < .6:
            l.insert(0, ('a',))
        if l[0] == ('b',) or (tuple(l) in seen and not weights):
            continue
        seen.add(tuple(l))
        k = r.random()
        if k < .5:
            rr = side(0, 4, False)
        elif k < .8:
            rr = list(l)
            if rr[0] == ('a',):
                rr = rr[1:]
            x = r.randint(0, len(rr))
            rr[:x] = side(0, 3, False)
        else:
            rr = [x for x in l if x != ('a',)]
        if rr and rr[0] == ('b',):
            rr = rr[1:]
        e = dix.Entry([('p', l, rr)])
        if l == rr and r.random() < .7:
            e = dix.Entry([('i', l)])
        if weights and r.random() < .5:
            e.attrs['w'] = r.choice(['1', '0.5', '2'])
        es.append(e)
    d.sections = [('s', 'standard', es)]
    if len(es) > 3 and r.random() < .3:
        d.sections = [('s', 'standard', es[:2]), ('t', 'standard', es[2:])]
    if not es:
        raise Skip()
    return d, letters


def case(ctx):
    r = ctx.rng
    d, letters = rules(r)
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', ['lr', p, ctx.path('d.bin')])
    try:
        b = fst.read_bin(ctx.path('d.bin'))
    except fst.BinErr as e:
        raise Violation('the compiled file cannot be read back: %s' % e)
    rel = dix.denote(d, dix.Sel('lr'))
    lhs = sorted({i for x in rel.values() for i, o in x})
    cs = r.random() < .1
    rw = Rewriter([b.sections[k] for k in sorted(b.sections)], d.alphabet, cs)
    for k in range(5):
        mode = r.choice(['-p', '-t', '-x'])
        flags = [mode] + (['-c'] if cs else [])
        words = []
        while len(words) < r.choice([1, 3, 8, 20]):
            x = r.random()
            if x < .6:
                w = list(r.choice(lhs))
                if len(w) > 14:
                    continue
                w = [upper(c) if len(c) == 1 and y else c for c in w
                     for y in [False]] if r.random() < .7 else stream.vary_case(r, w)
                if r.random() < .4:
                    w = w + [r.choice(letters) for _ in range(r.randint(1, 2))]
                if r.random() < .2:
                    w = [r.choice(letters)] + w
                if r.random() < .2:
                    w = w + list(r.choice(lhs))
            elif x < .9:
                w = [r.choice(letters + ['q']) for _ in range(r.randint(1, 5))]
            else:
                w = [r.choice(list('/^$[]{}\\@<>~.,*+') + ['<n>', '<zz>'])]
            cur = []
            for c in w:
                if c == ' ':
                    if cur:
                        words.append(cur)
                    cur = []
                else:
                    cur.append(c)
            if cur:
                words.append(cur)
        plain = r.random() < .6
        wb = r.random() < .25

        def blank():
            if plain or r.random() < .5:
                return ' '
            return r.choice(['\n', '  ', '[<b>]', ' [x] ', '[<i>][</i>]', '\t', '[\\]]', '\u00a0', '[ ]\n', '\\ ', ' \\ [x]'])
        lead = '' if r.random() < .7 else r.choice([' ', '\n', '[<b>]', '[]  ', '\\ '])
        bl = [blank() for _ in words[1:]]
        tail = r.choice(['', '', '\n', ' ', '[]', '.[][\n]', ' [</b>]\n'])
        if tail.startswith('.'):
            words[-1] = words[-1] + ['.']
            tail = tail[1:]
        T = []
        src = lead
        nwb = 0
        wbi = {}
        end = -1
        for i, w in enumerate(words):
            if i:
                src += bl[i - 1]
                T.append(' ')
            T += w
            t = ''.join(c if len(c) > 1 else stream.esc(c) for c in w)
            if wb and i > end and r.random() < .4:
                end = min(len(words) - 1, i + r.choice([0, 0, 0, 1, 2]))
                t = '[[t:b:%d]]%s' % (i, t)
                nwb += 1
                wbi[i] = end
            if i == end:
                t += '[[/]]'
            src += t
        src += tail
        try:
            E, n, same = rw.run(T)
        except Ambiguous:
            ctx.count('ambiguous_rules')
            continue
        out = ctx.run('lt-proc', flags + [ctx.path('d.bin')], src).text
        if mode == '-p':
            E = [c for c in E if c != '~']
        info = dict(input=src, output=out, flags=flags)
        body = out
        if nwb:
            body = strip_wblanks(out, info)
            ids = [x for y in re.findall(r'\[\[(t:b:[^\]]*)\]\]', out) for x in y.split('; ')]
            if ids != re.findall(r'(?<=\[\[)t:b:\d+', src):
                raise Violation('word blanks changed: %r' % ids, **info)
            ctx.count('with_word_blanks')
        chars = lambda l: [c for c in l if not (len(c) == 1 and isspace(c))]
        got = tokens(body, info)
        want = chars(E)
        gotc = [x for k2, x in got if k2 == 'c' and not (len(x) == 1 and isspace(x))]
        if want != gotc:
            i = next((i for i, (x, y) in enumerate(zip(want, gotc)) if x != y), min(len(want), len(gotc)))
            raise Violation('the text differs from character %d on: %r, expected %r' % (
                i, ''.join(gotc[i:i + 15]), ''.join(want[i:i + 15])), **info)
        sb = lambda s: [x for k2, x in tokens(s, info) if k2 == 'b']
        src_blanks = sb(lead) + [x for q in bl for x in sb(q)] + sb(tail)
        if [x for k2, x in got if k2 == 'b'] != src_blanks:
            raise Violation('superblanks changed', **info)
        hard = lambda s: [x for k2, x in tokens(s, info) if k2 == 'b' or (len(x) == 1 and isspace(x) and x != ' ')]
        hs = hard(lead) + [x for q in bl for x in hard(q)] + hard(tail)
        if hard(body) != hs:
            raise Violation('blanks differ: %r, expected %r' % (hard(body), hs), **info)
        if nwb and not rw.joins:
            ws, cur = [], []
            for c in E + [' ']:
                if c == ' ':
                    ws.append(''.join(cur))
                    cur = []
                else:
                    cur.append(c if len(c) > 1 else stream.esc(c))
            if len(ws) == len(words):
                ctx.count('exact_word_blanks')
                ends = set(wbi.values())
                ex = lead + ''.join((bl[i - 1] if i else '') + ('[[t:b:%d]]' % i if i in wbi else '') + w + (
                    '[[/]]' if i in ends else '') for i, w in enumerate(ws)) + tail
                if out != ex:
                    raise Violation('word blanks moved: expected %r' % ex, **info)
        exact = None
        if same:
            it = iter(bl)
            exact = lead + ''.join(next(it) if c == ' ' else (c if len(c) > 1 else stream.esc(c)) for c in E) + tail
        elif all(q == ' ' for q in bl):
            exact = lead + ''.join(c if len(c) > 1 or c == ' ' else stream.esc(c) for c in E) + tail
        if exact is not None:
            ctx.count('exact')
            if body != exact:
                raise Violation('whitespace differs: %r, expected %r' % (body, exact), **info)
        if n:
            ctx.count('rewrites', n)
            ctx.sig(sorted(map(str, rel.items())), src, flags)
            if ctx.sample is None:
                ctx.sample = {'case': ctx.idx, 'flags': flags, 'input': src[:120], 'output': out[:120]}


def strip_wblanks(s, info):
    o, i, depth = '', 0, 0
    while i < len(s):
        if s[i] == '\\':
            o += s[i:i + 2]
            i += 2
        elif s[i:i + 2] == '[[':
            j = s.find(']]', i)
            if j < 0:
                raise Violation('unterminated word blank', **info)
            depth += -1 if s[i:j] == '[[/' else 1
            if depth not in (0, 1):
                raise Violation('nested or unbalanced word blanks', **info)
            i = j + 2
        elif s[i] == '[':
            j = i
            while j < len(s) and s[j] != ']':
                j += 2 if s[j] == '\\' else 1
            o += s[i:j + 1]
            i = j + 1
        else:
            o += s[i]
            i += 1
    if depth:
        raise Violation('word blank not closed', **info)
    return o


def tokens(s, info):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            out.append(('c', s[i + 1]))
            i += 2
        elif c == '[':
            j = i
            while j < len(s) and s[j] != ']':
                j += 2 if s[j] == '\\' else 1
            if j >= len(s):
                raise Violation('unterminated blank in the output', **info)
            out.append(('b', s[i:j + 1]))
            i = j + 1
        elif c == '<':
            j = s.find('>', i)
            if j < 0:
                raise Violation('unescaped < in the output', **info)
            out.append(('c', s[i:j + 1]))
            i = j + 1
        else:
            out.append(('c', c))
            i += 1
    return out
