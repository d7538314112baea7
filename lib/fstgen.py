"""Random weighted transducers in ATT text form."""
import fst

LETTERS = ['a', 'b', 'c', 'é', 'Ж', 'ß', '中', '\U00010428', '\U0001F600', '1', '$', '\u0301']
PUNCT = ['.', '-', '!', "'", '¿']
TAGS = ['<n>', '<v>', '<sg>', '<é>', '<\U0001F600>', '<:x:y>', '<a b>']


def rand(r, letters=None, tags=None, punct=(), cyclic=False, weights=None, n=None, eps=.15, first=None, nfin=None):
    """A random FST over states 0..n-1 (every state reachable from 0).  first: symbols allowed on
    the input side of arcs that leave state 0."""
    L = letters if letters is not None else r.sample(LETTERS, r.randint(2, 4))
    T = tags if tags is not None else r.sample(TAGS, r.randint(1, 3))
    n = n or r.randint(2, 8)
    W = weights if weights is not None else r.random() < .5
    syms = L * 3 + T + list(punct)

    def sym():
        return '' if r.random() < eps else r.choice(syms)

    def w():
        return r.choice([0.0, 0.5, 1.0, 2.25, 10.0, 1.5 if cyclic else -1.5, 100.125]) if W and r.random() < .6 else 0.0
    f = fst.FST()
    seen = set()

    def arc(s, t):
        i, o = sym(), sym()
        if r.random() < .4:
            o = i
        if s == 0 and first:
            i = r.choice(first)
        if (s, t, i, o) in seen:
            return
        seen.add((s, t, i, o))
        f.arcs[s].append((i, o, t, w()))
    for t in range(1, n):
        arc(r.randint(0, t - 1), t)
    for _ in range(r.randint(0, 2 * n)):
        s, t = r.randint(0, n - 1), r.randint(0, n - 1)
        if not cyclic:
            if s == t:
                continue
            s, t = min(s, t), max(s, t)
        arc(s, t)
    f.finals[n - 1] = w()
    for _ in range(r.randint(0, 2) if nfin is None else nfin):
        k = r.randint(1, n - 1)
        f.finals[k] = w()
    return f


def att(fsts, eps='ε', space=' ', tab='\t', rename=None, r=None, showzero=.5):
    """rename: state -> number."""
    out = []
    for f in fsts:
        ren = (rename or (lambda s: s))
        lines = []
        order = sorted(f.arcs)
        order.remove(f.init) if f.init in order else None
        order.insert(0, f.init)

        def s(x):
            return eps if x == '' else space if x == ' ' else tab if x == '\t' else x
        for st in order:
            for i, o, t, w in f.arcs.get(st, ()):
                c = [str(ren(st)), str(ren(t)), s(i), s(o)]
                if w or (r and r.random() < showzero):
                    c.append(repr(w))
                lines.append('\t'.join(c))
        fin = []
        for st, w in f.finals.items():
            fin.append(str(ren(st)) + ('\t' + repr(w) if w or (r and r.random() < showzero) else ''))
        if r and r.random() < .3 and len(lines) > 1:      # finals may come anywhere but first
            for x in fin:
                lines.insert(r.randint(1, len(lines)), x)
        else:
            lines += fin
        out.append('\n'.join(lines) + '\n')
    return '--\n'.join(out)


def multi(r, f, letters, p=.1):
    """Gives some arcs labels of several characters (ATT allows them; each stands for the
    sequence of its characters)."""
    for s, l in f.arcs.items():
        for k, (i, o, t, w) in enumerate(l):
            if r.random() < p:
                if len(i) == 1 and not i.isspace():
                    i += ''.join(r.choice(letters) for _ in range(r.choice((1, 1, 2, 3, 5))))
                if len(o) == 1 and not o.isspace() and r.random() < .7:
                    o += ''.join(r.choice(letters) for _ in range(r.choice((1, 1, 2, 3, 5))))
                l[k] = (i, o, t, w)


def expand(f):
    g = fst.FST()
    g.init, g.finals = f.init, dict(f.finals)
    n = 0

    def parts(x):
        return [x] if len(x) < 2 or x[0] == '<' else list(x)
    for s, l in f.arcs.items():
        for i, o, t, w in l:
            a, b = parts(i), parts(o)
            m = max(len(a), len(b))
            src = s
            for k in range(m):
                last = k == m - 1
                n += 1
                g.arcs[src].append((a[k] if k < len(a) else '', b[k] if k < len(b) else '',
                                    t if last else ('x', n), w if last else 0.0))
                src = ('x', n)
    return g
