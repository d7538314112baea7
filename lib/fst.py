"""Reference weighted transducers, independent of lttoolbox's own code.

A symbol is a str: a single character, or '<tag>'; epsilon is ''.
read_bin() is a reader of the binary format written from its description.
"""
import math, struct
from collections import defaultdict

EPS = ''
LTTB_EPS = 'ε'


class FST:
    __slots__ = ('init', 'finals', 'arcs')

    def __init__(self):
        self.init = 0
        self.finals = {}           # state -> weight
        self.arcs = defaultdict(list)  # state -> [(in, out, target, weight)]

    def n_arcs(self):
        return sum(len(v) for v in self.arcs.values())

    def states(self):
        s = {self.init} | set(self.finals) | set(self.arcs)
        for l in self.arcs.values():
            s.update(a[2] for a in l)
        return s

    def inverted(self):
        f = FST()
        f.init = self.init
        f.finals = dict(self.finals)
        for s, l in self.arcs.items():
            f.arcs[s] = [(o, i, t, w) for i, o, t, w in l]
        return f

    def trimmed(self):
        """Keeps only the states on some path from the initial to a final one."""
        acc = {self.init}
        st = [self.init]
        while st:
            s = st.pop()
            for a in self.arcs.get(s, ()):
                if a[2] not in acc:
                    acc.add(a[2]); st.append(a[2])
        rev = defaultdict(set)
        for s, l in self.arcs.items():
            for a in l:
                rev[a[2]].add(s)
        co = set(self.finals)
        st = list(co)
        while st:
            s = st.pop()
            for p in rev[s]:
                if p not in co:
                    co.add(p); st.append(p)
        keep = acc & co
        f = FST()
        f.init = self.init
        f.finals = {s: w for s, w in self.finals.items() if s in keep}
        for s, l in self.arcs.items():
            if s in keep:
                k = [a for a in l if a[2] in keep]
                if k:
                    f.arcs[s] = k
        return f

    def is_acyclic(self):
        t = self.trimmed()
        color = {}
        for root in list(t.arcs):
            if color.get(root):
                continue
            stack = [(root, iter(t.arcs.get(root, ())))]
            color[root] = 1
            while stack:
                s, it = stack[-1]
                for a in it:
                    c = color.get(a[2], 0)
                    if c == 1:
                        return False
                    if c == 0:
                        color[a[2]] = 1
                        stack.append((a[2], iter(t.arcs.get(a[2], ()))))
                        break
                else:
                    color[s] = 2
                    stack.pop()
        return True

    def paths(self, limit=200000):
        """All accepting paths of an acyclic FST: list of (in tuple, out tuple, weight)."""
        t = self.trimmed()
        out = []
        stack = [(t.init, (), (), 0.0)]
        while stack:
            s, i, o, w = stack.pop()
            if s in t.finals:
                out.append((i, o, w + t.finals[s]))
                if len(out) > limit:
                    raise OverflowError('too many paths')
            for a in t.arcs.get(s, ()):
                stack.append((a[2], i + ((a[0],) if a[0] else ()),
                              o + ((a[1],) if a[1] else ()), w + a[3]))
        return out

    def paths_bounded(self, max_in, max_out, max_eps=4, limit=100000):
        """Accepting paths with at most max_in input and max_out output symbols and at
        most max_eps consecutive eps:eps arcs (for cyclic transducers)."""
        t = self.trimmed()
        out = []
        stack = [(t.init, (), (), 0.0, 0)]
        n = 0
        while stack:
            s, i, o, w, e = stack.pop()
            n += 1
            if n > 3000000:
                raise OverflowError('too many steps')
            if s in t.finals:
                out.append((i, o, w + t.finals[s]))
                if len(out) > limit:
                    raise OverflowError('too many paths')
            for a in t.arcs.get(s, ()):
                ni = i + ((a[0],) if a[0] else ())
                no = o + ((a[1],) if a[1] else ())
                if len(ni) > max_in or len(no) > max_out:
                    continue
                ne = 0 if (a[0] or a[1]) else e + 1
                if ne > max_eps:
                    continue
                stack.append((a[2], ni, no, w + a[3], ne))
        return out


def relation(paths, nd=4):
    """{(in, out): minimal weight}"""
    r = {}
    for i, o, w in paths:
        k = (i, o)
        if k not in r or w < r[k]:
            r[k] = w
    return r


def wclose(a, b, tight=False):
    """tight: what the binary format keeps (30 bits of mantissa for every weight on the way)"""
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    if tight:
        return abs(a - b) <= 1e-7 + 1e-8 * max(abs(a), abs(b))
    return abs(a - b) <= 1e-5 + 1e-6 * max(abs(a), abs(b))


def same_relation(r1, r2, weights=True, tight=False):
    """None if the two relations are the same, else a description of a difference."""
    for k in r1:
        if k not in r2:
            return 'missing pair %s:%s' % (''.join(k[0]), ''.join(k[1]))
    for k in r2:
        if k not in r1:
            return 'extra pair %s:%s' % (''.join(k[0]), ''.join(k[1]))
    if weights:
        for k in r1:
            if not wclose(r1[k], r2[k], tight):
                return 'pair %s:%s has weight %r, expected %r' % (
                    ''.join(k[0]), ''.join(k[1]), r2[k], r1[k])
    return None


# ---------------------------------------------------------------- binary format

class BinErr(Exception):
    pass


class _R:
    def __init__(self, b):
        self.b = b
        self.p = 0

    def byte(self):
        if self.p >= len(self.b):
            raise BinErr('truncated file')
        v = self.b[self.p]
        self.p += 1
        return v

    def mb(self):
        u = self.byte()
        n = u >> 6
        v = u & 0x3f
        for _ in range(n):
            v = (v << 8) | self.byte()
        return v

    def s(self):
        return ''.join(chr(self.mb()) for _ in range(self.mb()))

    def lmb(self):
        v = self.mb()
        if v >= 0x04000000:
            v = ((v & 0x03ffffff) << 26) & 0xffffffff | self.mb()
        return v

    def dbl(self):
        m = self.lmb()
        e = self.lmb()
        if m == 0xffffffff and e == 0xffffffff:
            return math.inf
        if m == 0xffffffff and e == 0xfffffffe:
            return -math.inf
        if m >= 1 << 31:
            m -= 1 << 32
        if e >= 1 << 31:
            e -= 1 << 32
        return math.ldexp(m / 0x40000000, e)


class Bin:
    def __init__(self):
        self.letters = []
        self.tags = []
        self.pairs = []
        self.sections = {}


def read_bin(path):
    try:
        return _read_bin(path)
    except (IndexError, struct.error, ValueError, OverflowError, ZeroDivisionError, MemoryError) as e:
        raise BinErr('malformed file: %s %s' % (type(e).__name__, e))


def _read_bin(path):
    with open(path, 'rb') as f:
        r = _R(f.read())
    if r.b[:4] != b'LTTB':
        raise BinErr('no header')
    if struct.unpack('>Q', r.b[4:12])[0] != 0:
        raise BinErr('features')
    r.p = 12
    out = Bin()
    out.letters = [chr(r.mb()) for _ in range(r.mb())]
    nt = r.mb()
    out.tags = ['<' + r.s() + '>' for _ in range(nt)]

    def sym(v):
        v -= nt
        if v == 0:
            return ''
        if v < 0:
            return out.tags[-v - 1]
        return chr(v)
    np = r.mb()
    out.pairs = [(sym(r.mb()), sym(r.mb())) for _ in range(np)]
    ns = r.mb()
    for _ in range(ns):
        name = r.s()
        if r.b[r.p:r.p + 4] != b'LTTD':
            raise BinErr('no transducer header')
        feat = struct.unpack('>Q', r.b[r.p + 4:r.p + 12])[0]
        r.p += 12
        weighted = feat & 1
        f = FST()
        f.init = r.mb()
        base = 0
        for _ in range(r.mb()):
            base += r.mb()
            f.finals[base] = r.dbl() if weighted else 0.0
        n = r.mb()
        for s in range(n):
            tag = 0
            for _ in range(r.mb()):
                tag += r.mb()
                t = (s + r.mb()) % n
                w = r.dbl() if weighted else 0.0
                i, o = out.pairs[tag]
                f.arcs[s].append((i, o, t, w))
        if name in out.sections:
            raise BinErr('duplicate section ' + name)
        out.sections[name] = f
    if r.p != len(r.b):
        raise BinErr('trailing bytes')
    return out


# ---------------------------------------------------------------- ATT text

def parse_att(text, eps=(LTTB_EPS,)):
    """lt-print output -> list of FST (one per '--'-separated block)."""
    out = []
    cur = FST()
    for line in text.split('\n'):
        if line == '':
            continue
        if line.startswith('-'):
            out.append(cur)
            cur = FST()
            continue
        c = line.split('\t')
        if len(c) <= 2:
            cur.finals[int(c[0])] = float(c[1]) if len(c) == 2 else 0.0
        else:
            i, o = c[2], c[3]
            i = '' if i in eps else i
            o = '' if o in eps else o
            cur.arcs[int(c[0])].append((i, o, int(c[1]), float(c[4]) if len(c) > 4 else 0.0))
    out.append(cur)
    return out


def combined(fsts):
    """Union of several FSTs as one (used when sections do not matter)."""
    f = FST()
    f.init = ('u',)
    for k, g in enumerate(fsts):
        f.arcs[f.init].append(('', '', (k, g.init), 0.0))
        for s, l in g.arcs.items():
            f.arcs[(k, s)] = [(i, o, (k, t), w) for i, o, t, w in l]
        for s, w in g.finals.items():
            f.finals[(k, s)] = w
    return f


# ---------------------------------------------------------------- writing the binary format

def _mb(v):
    if v < 0x40:
        return bytes([v])
    if v < 0x4000:
        return bytes([v >> 8 | 0x40, v & 255])
    if v < 0x400000:
        return bytes([v >> 16 | 0x80, v >> 8 & 255, v & 255])
    assert v < 0x40000000
    return bytes([v >> 24 | 0xc0, v >> 16 & 255, v >> 8 & 255, v & 255])


def _str(s):
    return _mb(len(s)) + b''.join(_mb(ord(c)) for c in s)


def _lmb(v):
    if v < 0x04000000:
        return _mb(v)
    return _mb(v >> 26 | 0x04000000) + _mb(v & 0x03ffffff)


def _dbl(x):
    if math.isinf(x):
        return _lmb(0xffffffff) + _lmb(0xffffffff if x > 0 else 0xfffffffe)
    m, e = math.frexp(x)
    return _lmb(int(m * 0x40000000) & 0xffffffff) + _lmb(e & 0xffffffff)


def bin_bytes(letters, sections, tags=(), r=None, weighted=None, old=False):
    """A binary file with these sections ({name: FST}); r shuffles tag and pair numbering."""
    tags = list(tags)
    pairs = [('', '')]
    known, tagset = {('', '')}, set(tags)
    for f in sections.values():
        for l in f.arcs.values():
            for i, o, t, w in l:
                for x in (i, o):
                    if len(x) > 1 and x not in tagset:
                        tagset.add(x)
                        tags.append(x)
                if (i, o) not in known:
                    known.add((i, o))
                    pairs.append((i, o))
    if r:
        r.shuffle(tags)
        rest = pairs[1:]
        r.shuffle(rest)
        pairs[1:] = rest
    nt = len(tags)
    code = {t: nt - k - 1 for k, t in enumerate(tags)}

    def c(x):
        return nt if x == '' else code[x] if len(x) > 1 else ord(x) + nt
    out = [b'' if old else b'LTTB' + bytes(8), _str(letters), _mb(nt)]
    out += [_str(t[1:-1]) for t in tags]
    out.append(_mb(len(pairs)))
    out += [_mb(c(i)) + _mb(c(o)) for i, o in pairs]
    pn = {p: k for k, p in enumerate(pairs)}
    out.append(_mb(len(sections)))
    for name in sorted(sections):
        f = sections[name]
        out.append(_str(name))
        st = [f.init] + sorted((s for s in f.states() if s != f.init), key=repr)
        num = {s: k for k, s in enumerate(st)}
        wt = weighted
        if wt is None:
            wt = any(f.finals.values()) or any(a[3] for l in f.arcs.values() for a in l)
        if not old:
            out.append(b'LTTD' + bytes(7) + bytes([1 if wt else 0]))
        out.append(_mb(0))
        fin = sorted((num[s], w) for s, w in f.finals.items())
        out.append(_mb(len(fin)))
        base = 0
        for s, w in fin:
            out.append(_mb(s - base) + (_dbl(w) if wt else b''))
            base = s
        n = len(st)
        out.append(_mb(n))
        for s in st:
            l = sorted((pn[i, o], num[t], w) for i, o, t, w in f.arcs.get(s, ()))
            out.append(_mb(len(l)))
            base = 0
            for p, t, w in l:
                out.append(_mb(p - base) + _mb((t - num[s]) % n) + (_dbl(w) if wt else b''))
                base = p
    return b''.join(out)


def rel_bounded(f, N, M, limit=150000):
    """{(in, out): smallest weight} for strings up to N and M symbols; weights must not be
    negative, loops of any kind are fine."""
    import heapq
    t = f.trimmed()
    best = {(t.init, (), ()): 0.0}
    q = [(0.0, 0, (t.init, (), ()))]
    out, n = {}, 0
    while q:
        w, _, k = heapq.heappop(q)
        if w > best[k]:
            continue
        s, i, o = k
        if s in t.finals:
            x = w + t.finals[s]
            if (i, o) not in out or x < out[i, o]:
                out[i, o] = x
        for a in t.arcs.get(s, ()):
            ni = i + (a[0],) if a[0] else i
            no = o + (a[1],) if a[1] else o
            if len(ni) > N or len(no) > M:
                continue
            nk = (a[2], ni, no)
            nw = w + a[3]
            if nk not in best or nw < best[nk]:
                best[nk] = nw
                n += 1
                if n > limit:
                    raise OverflowError('too many steps')
                heapq.heappush(q, (nw, n, nk))
    return out


def compose(f, g):
    """f then g, as a transducer (all epsilon interleavings)."""
    h = FST()
    h.init = (f.init, g.init)
    st, seen = [h.init], {h.init}
    while st:
        k = st.pop()
        a, b = k
        if a in f.finals and b in g.finals:
            h.finals[k] = f.finals[a] + g.finals[b]
        new = []
        for i, m, t, w in f.arcs.get(a, ()):
            if m == '':
                new.append((i, '', (t, b), w))
            else:
                for m2, o, t2, w2 in g.arcs.get(b, ()):
                    if m2 == m:
                        new.append((i, o, (t, t2), w + w2))
        for m2, o, t2, w2 in g.arcs.get(b, ()):
            if m2 == '':
                new.append(('', o, (a, t2), w2))
        for x in new:
            h.arcs[k].append(x)
            if x[2] not in seen:
                seen.add(x[2])
                st.append(x[2])
    return h
