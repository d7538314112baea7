"""Hostile input texts for analysers and friends."""
import stream

PUNCT = list('.,;:!?()"\'-_*+~#=%&|0123') + ['¿', '…', '—', '\u00a0', '\t', '\u2028', '\u0301', '€']
RES = list(stream.RESERVED)


def surfaces(rels):
    s = sorted({i for rel in rels.values() for i, o in rel})
    return s


def text(r, surf, letters, n=None, blanks=True, shy=False, newline=True, maxrep=12, res=True, wblanks=True):
    """Returns a list of items ('c', ch) / ('b', blank)."""
    out = []
    n = n or r.randint(1, maxrep)

    if r.random() < .03:
        n *= r.choice([10, 30, 100])
    longs = r.random() < .04

    def longb(b):
        k = r.choice([30, 60, 130, 1000, 2100, 5000]) if longs and r.random() < .3 else 0
        pad = ''.join(r.choice(['a', ' ', 'é', '<b>', '\\]', '\n', '\U0001F600']) for _ in range(k))
        if b.startswith('[['):
            return b[:2] + pad.replace('\n', '] ') + b[2:]
        return b[:1] + pad + b[1:]

    def word():
        k = r.random()
        if longs and r.random() < .1:
            return [r.choice(letters) for _ in range(r.choice([40, 130, 260, 1030, 2040, 2060, 4200]))]
        if surf and k < .6:
            w = [c for c in r.choice(surf)]
            k = r.random()
            if k < .12:
                w = w[:r.randint(1, len(w))]
            elif k < .22:
                w = w + [r.choice(letters)]
            elif k < .3:
                w = w + [x for x in r.choice(surf)]
            elif k < .35:
                w.insert(r.randint(0, len(w)), r.choice(letters))
            return stream.vary_case(r, w)
        if k < .85:
            return [r.choice(letters) for _ in range(r.randint(1, 5))]
        if k < .95:
            return [r.choice(PUNCT) for _ in range(r.randint(1, 2))]
        return [r.choice(RES)] if res else [r.choice(PUNCT)]
    for _ in range(n):
        for c in word():
            if len(c) > 1:          # a tag: as text it is not a letter
                continue
            out.append(('b', longb(r.choice(stream.BLANKS))) if (blanks and c == ' ' and r.random() < .2) else ('c', c))
            if shy and r.random() < .1:
                out.append(('c', '\u00ad'))
        k = r.random()
        if k < .6:
            out.append(('c', ' '))
            if r.random() < .15:
                out.append(('c', ' '))
        elif k < .7 and blanks:
            out.append(('b', longb(r.choice(stream.BLANKS + (stream.WBLANKS if wblanks else [])))))
        elif k < .75 and newline:
            out.append(('c', '\n'))
        elif k < .82:
            out.append(('c', r.choice(PUNCT)))
    if newline and r.random() < .5:
        out.append(('c', '\n'))
    return out


def to_stream(items, r=None):
    """with r, some characters are escaped that need not be"""
    p = 0 if r is None or r.random() < .7 else .1
    return ''.join(x if k in 'bt' else '\\' + x if p and len(x) == 1 and r.random() < p and x != '\u00ad' else stream.esc(x)
                   for k, x in items)
