"""Reference model of text processing: left-to-right longest match over a finite dictionary."""
import stream
from stream import isalnum, isupper, lower, upper


class Trie:
    __slots__ = ('kids', 'ends')

    def __init__(self):
        self.kids = {}
        self.ends = []     # (section type, output symbols, weight)

    def add(self, inp, typ, out, w):
        t = self
        for s in inp:
            t = t.kids.setdefault(s, Trie())
        t.ends.append((typ, out, w))


def build(rels):
    """{section name: {(in, out): w}} -> Trie"""
    t = Trie()
    for name, rel in rels.items():
        typ = name.rsplit('@', 1)[1]
        for (i, o), w in rel.items():
            t.add(i, typ, o, w)
    return t


def render(out, up, first, escaped=stream.RESERVED):
    """Output symbols -> text, with the case of the surface form restored."""
    s = ''
    for x in out:
        if len(x) > 1 and x[0] == '<':
            s += x
        else:
            s += ('\\' if x in escaped else '') + (upper(x) if up else x)
    if first and s:
        k = 1 if s[0] == '~' and len(s) > 1 else 0
        s = s[:k] + upper(s[k]) + s[k + 1:]
    return s


class Analyser:
    def __init__(self, rels, alphabet, case_sensitive=False, dict_case=False):
        self.t = build(rels)
        self.alpha = set(alphabet)
        self.cs = case_sensitive
        self.dc = dict_case
        self.ambiguous = False

    def alphabetic(self, c):
        return c is not None and (isalnum(c) or c in self.alpha)

    def step(self, front, c):
        nf = []
        for node, dirty in front:
            k = node.kids.get(c)
            if k:
                nf.append((k, dirty))
            if not self.cs and isupper(c):
                l = lower(c)
                if l != c:
                    k = node.kids.get(l)
                    if k:
                        nf.append((k, True))
        return nf

    def finals(self, front, sf):
        fu = (not self.dc) and isupper(sf[0])
        up = fu and len(sf) > 1 and isupper(sf[-1])
        best = {}
        for node, dirty in front:
            for typ, out, w in node.ends:
                s = render(out, dirty and up, dirty and fu)
                if s not in best or best[s] > w:
                    best[s] = w
        return best

    def lookup(self, word):
        front = [(self.t, False)]
        for c in word:
            front = self.step(front, c)
        return self.finals(front, word) if any(n.ends for n, d in front) else {}

    def run(self, text):
        """text: list of characters (blanks given as ' ').  Returns a list of
        ('c', ch) | ('lu', sf, {analysis: weight} or None for unknown, type)."""
        out, p, n = [], 0, len(text)
        while p < n:
            front = [(self.t, False)]
            best = None
            q = p
            while q < n:
                front = self.step(front, text[q])
                q += 1
                if not front:
                    break
                nxt = text[q] if q < n else None
                types = {e[0] for node, d in front for e in node.ends}
                if not types:
                    continue
                for special in ('inconditional', 'postblank', 'preblank'):
                    if special in types:
                        best = (q, special, self.finals(front, text[p:q]))
                        break
                else:
                    if not self.alphabetic(nxt):
                        best = (q, 'standard', self.finals(front, text[p:q]))
            if best:
                out.append(('lu', ''.join(text[p:best[0]]), best[2], best[1]))
                p = best[0]
                continue
            if not self.alphabetic(text[p]):
                out.append(('c', text[p]))
                p += 1
                continue
            q = p
            while q < n and self.alphabetic(text[q]):
                q += 1
            word = ''.join(text[p:q])
            low = word.lower()
            if not self.cs and low != word and self.lookup(low):
                self.ambiguous = True
            out.append(('lu', word, None, 'unknown'))
            p = q
        return out
