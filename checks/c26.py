"""C26: the text and container helpers of the library answer every request of any history as documented."""
from fw import Violation, Skip
import bisect
from xml.sax.saxutils import escape, quoteattr
from stream import isupper, isspace, esc

SPEC = dict(
    id='C26', level='exploration', harness=('helpers',),
    technique='online reference monitor: every answer of the sanitized helpers (strings on exactly sized buffers, containers '
              'and readers over random histories) is compared with an independent model',
    rule='one evaluation = one history of requests of one kind; distinct by the requests',
    quick=6000, thorough=100000, min_distinct=3000)

CH = list('aAbBzZ') + ['é', 'É', 'ß', 'ſ', 'İ', 'ı', 'Σ', 'σ', 'ς', 'ǆ', 'ǅ', 'Ǆ', 'ΐ', 'ﬃ', 'ŉ', 'ж', 'Ж', '中', '\U00010428', '\U00010400',
                       '\U0001F600', '1', '-', '.', '\\', '/', '<', '>', ' ', '\t', '\n', '\u00a0', '\u2003', '\u3000', '\u0301']
TITLE = list('abcABC') + ['é', 'É', 'ß', 'Σ', 'σ', 'ǆ', 'Ǆ', 'ﬃ', 'ж', 'Ж', '\U00010428', '\U00010400']


def text(r, chars=CH, lo=0, hi=6):
    return ''.join(r.choice(chars) for _ in range(r.randint(lo, hi if r.random() < .95 else 80)))


def x(s):
    return s.encode().hex()


def lst(v):
    return ' '.join([str(len(v))] + [x(p) for p in v])


def trim(s):
    a, b = 0, len(s)
    while a < b and isspace(s[a]):
        a += 1
    while b > a and isspace(s[b - 1]):
        b -= 1
    return s[a:b]


def split(s, d):
    return [p for p in s.split(d) if p]


def split_escaped(s, d):
    out, cur, i = [], '', 0
    while i < len(s):
        if s[i] == '\\':
            cur += s[i:i + 2]
            i += 2
            continue
        if s[i] == d:
            out.append(cur)
            cur = ''
        else:
            cur += s[i]
        i += 1
    return [p for p in out + [cur] if p]


def title(s):
    return ' '.join(w.capitalize() for w in s.split(' '))


def getcase(s):
    if not s or not isupper(s[0]):
        return 'aa'
    return 'AA' if len(s) > 1 and isupper(s[-1]) else 'Aa'


def copycase(s, t):
    if not s or not t:
        return t
    return {'aa': str.lower, 'Aa': title, 'AA': str.upper}[getcase(s)](t)


def symbols(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            out.append(s[i + 1])
            i += 2
            continue
        j = s.find('>', i) if s[i] == '<' else -1
        n = j + 1 if j >= 0 else i + 1
        out.append(s[i:n])
        i = n
    return out


# ------------------------------------------------------------------ strings
def strings(r):
    for _ in range(r.randint(1, 40)):
        k = r.choice(['trim', 'split', 'splite', 'join', 'subst', 'itoa', 'ftoa', 'stoi', 'stod', 'lower', 'upper', 'title',
                      'getcase', 'copycase', 'caseeq', 'starts', 'ends', 'mergewb', 'symbols', 'vec32', 'tokenize'])
        s = text(r)
        few = text(r, r.sample(CH, 3), 0, 8)
        if k == 'trim':
            ws = [c for c in CH if isspace(c)]
            s = text(r, ws, 0, 3) + s + text(r, ws, 0, 3)
            yield k, [s], x(trim(s))
        elif k == 'split':
            d = text(r, CH, 1, 2)
            s = few + r.choice(['', d]) + s + d * r.randint(0, 2) + few
            yield k, [s, d], lst(split(s, d))
        elif k == 'splite':
            d = r.choice('/.-aé')
            s = text(r, [d, d, '\\', 'b', 'é', '\U0001F600', '/'], 0, 9)
            yield k, [s, d], lst(split_escaped(s, d))
        elif k == 'join':
            v = [text(r, CH, 1, 4) for _ in range(r.randint(0, 4))]
            d = text(r, CH, 0, 2)
            yield k, [d] + v, x(d.join(v))
        elif k == 'subst':
            o, n = text(r, few or 'a', 1, 2), text(r, CH, 0, 3)
            s = few + s + o + few
            yield k, [s, o, n], x(s.replace(o, n))
        elif k == 'itoa':
            n = r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-10 ** 6, 10 ** 6), r.randint(0, 99)])
            yield k, [str(n)], x(str(n)) + ' ' + x(str(n))
        elif k == 'stoi':
            n = r.choice([0, 7, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-10 ** 6, 10 ** 6)])
            if r.random() < .8:
                yield k, [str(n)], str(n)
            else:
                yield k, [r.choice(['', 'a', 'x1', '.', 'é1'])], 'invalid'
        elif k == 'ftoa':
            f = r.choice([0.0, 1.5, -2.25, 1e-6, r.uniform(-1000, 1000), r.uniform(-1e-3, 1e-3), 1e6, 123456.789])
            yield k, [repr(f)], ('f', f, 1.1e-6)
        elif k == 'stod':
            if r.random() < .8:
                f = r.choice([0.0, 1.5, -2.25, .001, r.randint(-1000, 1000) / 8, 4e3, float('inf'), float('-inf')])
                yield k, [repr(f) if abs(f) < 1e9 else str(f)], ('n', f)
            else:
                yield k, [r.choice(['', 'a', 'w1', 'é1', 'xe5'])], 'invalid'
        elif k == 'lower':
            yield k, [s], x(s.lower())
        elif k == 'upper':
            yield k, [s], x(s.upper())
        elif k == 'title':
            s = ' '.join(text(r, TITLE, 1, 5) for _ in range(r.randint(0, 3)))
            yield k, [s], x(title(s))
        elif k == 'getcase':
            yield k, [s], x(getcase(s))
        elif k == 'copycase':
            s = text(r, CH, 0, 4)
            t = ' '.join(text(r, TITLE, 1, 5) for _ in range(r.randint(0, 3)))
            yield k, [s, t], x(copycase(s, t))
        elif k == 'caseeq':
            t = r.choice([s, s.upper(), s.lower(), s.swapcase(), few])
            yield k, [s, t], str(int(s.casefold() == t.casefold()))
        elif k in ('starts', 'ends'):
            i = r.randint(0, len(s))
            t = r.choice([s[:i], s[i:], few, s + 'a', ''])
            yield k, [s, t], str(int(s.startswith(t) if k == 'starts' else s.endswith(t)))
        elif k == 'mergewb':
            a, b = [r.choice(['', '[[t:b:x1]]', '[[t:i:é; t:b:q]]', '[[a\\]b]]', '[[]]']) for _ in 'ab']
            yield k, [a, b], x(a[:-2] + '; ' + b[2:] if a and b else a + b)
        elif k == 'symbols':
            s = text(r, ['a', 'é', '\U0001F600', '\\', '<', '>', '<n>', '<a b>', '<é\U0001F600>', '<>'], 0, 8)
            yield k, [s], lst(symbols(s))
        elif k == 'vec32':
            yield k, [s], ''.join('%d ' % n for n in [7] + [ord(c) for c in s]) + x(s)
        else:
            tags = r.sample(['<n>', '<v>', '<a.b>', '<é>', '<sg>'], 3)
            v = [r.choice(tags + ['a', 'é', '\U0001F600', '<', '>', '\\', '.']) for _ in range(r.randint(0, 8))]
            s = ''.join(c if len(c) > 1 else esc(c) for c in v)
            yield k, [s] + tags, ''.join('%d ' % (-1 - tags.index(c) if c in tags else ord(c)) for c in v) + x(''.join(v))


# ------------------------------------------------------------------ containers
def buffers(r):
    n = r.choice([1, 2, 5, 64])
    yield 'bnew', [str(n)], str(n)
    vals, pos, kept, keeping = [], 0, 0, False
    keep_at = r.choice([0, 0, 3])
    for i in range(r.randint(5, 150) if r.random() < .8 else 700):
        if i == keep_at:
            yield 'bkeep', [], str(pos)
            kept, keeping = pos, True
            continue
        low = kept if keeping else max(0, len(vals) - n)
        k = r.choice(['badd'] * 4 + ['bnext'] * 3 + ['bpeek', 'blast', 'bset', 'bback', 'bempty', 'bkeep' if r.random() < .2 else 'bcopy', 'bcopy'])
        if k == 'badd':
            v = r.randint(-5, 10 ** 6)
            vals.append(v)
            pos = len(vals)
            yield k, [str(v)], '%d %d' % (v, pos)
        elif k in ('bnext', 'bpeek', 'blast'):
            if not vals or k == 'blast':
                if vals:
                    yield k, [], str(vals[-1])
                continue
            v = vals[pos] if pos < len(vals) else vals[-1]
            pos += k == 'bnext' and pos < len(vals)
            yield k, [], '%d %d' % (v, pos)
        elif k == 'bset':
            p = r.randint(min(low, len(vals)), len(vals))
            yield k, [str(p)], str(abs(p - pos))
            pos = p
        elif k == 'bback':
            b = r.randint(0, max(0, pos - low))
            pos -= b
            yield k, [str(b)], str(pos)
        elif k == 'bempty':
            yield k, [], str(int(pos == len(vals)))
        elif k == 'bkeep':
            if keeping:
                kept = pos
                yield k, [], str(pos)
        else:
            yield k, [], str(pos)


def vectors(r):
    A, B = set(), set()
    hi = r.choice([5, 40, 1000])
    num = lambda: r.randint(-hi, hi)
    show = lambda s: ''.join('%d ' % v for v in sorted(s))
    for _ in range(r.randint(3, 80)):
        k = r.choice(['vins', 'vins', 'vrange', 'vassign', 'vdel', 'vdel', 'vhas', 'vhas', 'vmeet', 'vswap', 'vdrop'])
        if k == 'vins':
            v = num()
            yield k, [str(v)], '%d %d' % (v not in A, v)
            A.add(v)
        elif k in ('vrange', 'vassign'):
            v = [num() for _ in range(r.choice([0, 1, 2, 5, 20] + [700] * (hi == 1000)))]
            if r.random() < .4:
                v.sort()
            if k == 'vrange':
                A |= set(v)
            else:
                B = set(v)
            yield k, [str(y) for y in v], show(A if k == 'vrange' else B)
        elif k == 'vdel':
            v = r.choice(sorted(A)) if A and r.random() < .6 else num()
            n = v in A
            A.discard(v)
            yield k, [str(v)], '%d %d' % (n, len(A))
        elif k == 'vhas':
            v = r.choice(sorted(A)) if A and r.random() < .5 else num()
            l = sorted(A)
            yield k, [str(v)], '%d %d %d %d' % (v in A, v in A, bisect.bisect_left(l, v), bisect.bisect_right(l, v))
        elif k == 'vmeet':
            yield k, [], str(int(bool(A & B)))
        elif k == 'vswap':
            A, B = B, A
            yield k, [], '%d %d' % (len(A), len(B))
        else:
            A -= B
            yield k, [], str(len(A))


# ------------------------------------------------------------------ reading
PIECES = ['a', 'é', '中', '\U0001F600', ' ', '\n', '\\', '\\\\', '\\\\>', '\\]', '\\^', '[', ']', '[[', ']]', '<', '>', '^', '$', '\0', '{', '}']


def files(r, path):
    for k in range(r.choice([1, 1, 2, 3])):
        s = ''.join(r.choice(PIECES) for _ in range(r.randint(0, 40)))
        p = '%s%d' % (path, k)
        with open(p, 'w', newline='') as f:
            f.write(s)
        for first in [True] + [False] * r.choice([0, 0, 1, 2]):
            yield from one_file(r, p, s, first)


def one_file(r, path, s, first):
    yield (r.choice(['open', 'wrap']), [path], 'ok') if first else ('rewind', [], 'ok')
    pend = list(s)[::-1]       # what is still to come, reversed
    fresh = False              # something was put back and not read again
    for _ in range(r.randint(1, 60)):
        k = r.choice(['get', 'get', 'peek', 'unget', 'block', 'wblank', 'blank'])
        if not pend and k not in ('get', 'peek'):
            break
        if k == 'get':
            yield k, [], str(ord(pend.pop())) if pend else '65535'
            if not pend:
                break
        elif k == 'peek':
            yield k, [], str(ord(pend[-1])) if pend else '65535'
        elif k == 'unget':
            c = pend.pop()
            yield 'get', [], str(ord(c))
            c = r.choice([c, 'q', '\U0001F601'])
            yield k, [str(ord(c))], 'ok'
            pend.append(c)
        elif k in ('block', 'wblank'):
            out = '[[' if k == 'wblank' else '<'
            while pend and pend[-1] != '\0':
                c = pend.pop()
                out += c
                if c == '\\':
                    if pend and pend[-1] != '\0':
                        out += pend.pop()
                elif k == 'block' and c == '>':
                    break
                elif k == 'wblank' and c == ']' and pend and pend[-1] == ']':
                    out += pend.pop()
                    break
            yield k, ['60', '62'] if k == 'block' else [], x(out)
            if not pend:
                break
        else:
            wb = r.random() < .5
            out, ok = '', True
            p = list(pend)
            while p and p[-1] not in '^\0':
                c = p.pop()
                if c == '[':
                    dbl = p and p[-1] == '['
                    if dbl and not wb:
                        p.append(c)
                        break
                    if not p or p[-1] == '\0':
                        ok = False
                        break
                    out += c
                    if dbl:
                        out += p.pop()
                    closed = False
                    while p and p[-1] != '\0':
                        c = p.pop()
                        out += c
                        if c == '\\':
                            if p and p[-1] != '\0':
                                out += p.pop()
                        elif c == ']' and (not dbl or p and p[-1] == ']'):
                            if dbl:
                                out += p.pop()
                            closed = True
                            break
                    if not closed:
                        ok = False
                        break
                else:
                    out += c
                    if c == '\\':
                        if not p or p[-1] == '\0':
                            ok = False
                            break
                        out += p.pop()
            if not ok or not p:
                break                   # malformed or the end
            pend = p
            yield k, [str(int(wb))], x(out)


MARKS = '*@#=%'


def readers(r, path):
    known = r.sample(['<n>', '<v>', '<a.b>', '<é>', '<sg>', '<1/2>'], 3)
    unk = r.random() < .5
    s, exp = '', []

    def reading():
        """-> (text, mark, content, symbols)"""
        mark = r.choice(MARKS) if r.random() < .2 else ''
        v = [r.choice(['a', 'é', '\U0001F600', ' ', '+', '#', '.'] + list('^$/<>[]{}\\@') + known + ['<zz>'])
             for _ in range(r.randint(0, 5))]
        while not mark and v and v[0] in MARKS + '@':
            v.pop(0)
        if mark and not v:
            v = ['a']
        t = ''.join(c if len(c) > 1 else esc(c) for c in v)
        sy = ''.join('<?>' if len(c) > 1 and not unk and c not in known else c for c in v)
        return mark + t, mark, t, sy

    def blank(first):
        b = ''
        for _ in range(r.choice([0, 1, 1, 2])):
            b += r.choice([' ', '\n', '[<b>]', '[x\\]y]', '\\^', '\\[', 'é', '\U0001F600', '[[t:b:x]]a', '[[/]]', '[[q]] ', '.', '/', '{'])
        return b

    for _ in range(r.randint(0, 8)):
        b = blank(True)
        if r.random() < .12:
            s += b + '\0'
            exp.append('10 %s//' % x(b))
            continue
        w = r.choice(['', '', '', '[[t:b:z9]]', '[[t:i:a\\]b; t:b:q]]'])
        if b.endswith(']]') and not w:      # a word blank in front of the unit, whatever it was meant to be
            b += ' '
        rs = [reading() for _ in range(r.randint(1, 3))]
        chunk = '{^a<n>$ ^\\}b$}' if r.random() < .1 else ''
        s += b + w + '^' + '/'.join(y[0] for y in rs) + chunk + '$'
        exp.append('00 %s/%s/%s' % (x(b), x(w), x(chunk)) + ''.join(
            ' %d:%s:%s' % (ord(m) if m else 0, x(t), x(sy)) for _, m, t, sy in rs))
    b = blank(True)
    s += b
    exp.append('01 %s//' % x(b))
    exp.append('01 //')
    with open(path, 'w', newline='') as f:
        f.write(s)
    yield 'open', [path], 'ok'
    yield 'reader', [str(int(unk))] + known, 'ok'
    for e in exp:
        yield 'rnext', [], e


def xmls(r, path):
    def node(d):
        name = r.choice(['e', 'par', 'é', 'x-y'])
        at = {k: text(r, ['a', 'é', '"', '<', '&', "'", ' ', '\U0001F600'], 0, 4) for k in r.sample(['a', 'b', 'é', 'c', 'ab'], r.randint(0, 4))}
        show = '(%s ' % x(name)
        for k in 'abé':
            show += '%s %s ' % (x(at.get(k, '')), x(at.get(k, 'none')))
        body = ''
        for _ in range(r.randint(0, 3) if d else 0):
            body += r.choice(['', ' \n', 'text &amp; é', '<!-- <c/> -->', '<![CDATA[<z/>]]>', '<?pi x?>'])
            t, sh = node(d - 1)
            body += t
            show += sh
        body += r.choice(['', '', '\n', 'é'])
        return '<%s%s>%s</%s>' % (name, ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in at.items()), body, name), show + ')'
    t, show = node(3)
    with open(path, 'w') as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?>\n<!-- c -->\n' + t + '\n')
    yield 'xml', [path], show


KINDS = [strings, strings, strings, buffers, vectors, files, readers, readers, xmls]


def case(ctx):
    r = ctx.rng
    kind = r.choice(KINDS)
    gen = kind(r, ctx.path('f')) if kind in (files, readers, xmls) else kind(r)
    reqs = list(gen)
    src = ''.join('\t'.join([k] + ['x' + x(a) for a in args]) + '\n' for k, args, e in reqs)
    ctx.write('script', src)
    out = ctx.run('helpers', [], src).text
    got = out.split('\n')
    for i, (k, args, e) in enumerate(reqs):
        g = got[i] if i < len(got) else None
        ok = g == e
        if isinstance(e, tuple):
            try:
                v = float(bytes.fromhex(g).decode()) if e[0] == 'f' else float(g)
                ok = v == e[1] or abs(v - e[1]) <= (e[2] if e[0] == 'f' else abs(e[1]) * 1e-12)
            except (ValueError, TypeError):
                ok = False
        if not ok:
            raise Violation('%s %r answered %r, expected %r' % (k, args, dec(g), dec(e)), history=[q[:2] for q in reqs[:i + 1]][-40:])
        ctx.count(k if kind is strings else kind.__name__)
    if len(reqs) > 0 and len(got) != len(reqs) + 1:
        raise Violation('%d answers to %d requests' % (len(got) - 1, len(reqs)))
    if reqs:
        ctx.sig(src)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'kind': kind.__name__, 'requests': [repr(q)[:120] for q in reqs[:4]]}


def dec(s):
    if not isinstance(s, str):
        return s
    try:
        return bytes.fromhex(s).decode() if s else s
    except ValueError:
        return s
