"""The Apertium stream format: a strict parser for what the tools print, and generators."""
import unicodedata
from fw import Violation

RESERVED = '[]{}^$/\\@<>'


def isupper(c):
    return unicodedata.category(c) == 'Lu'


def islower_ok(c):
    return len(c.lower()) == 1


def lower(c):
    if c == 'İ':
        return 'i'
    l = c.lower()
    return l if len(l) == 1 else c


def upper(c):
    u = c.upper()
    return u if len(u) == 1 else c


def isalnum(c):
    k = unicodedata.category(c)
    return k[0] == 'L' or k == 'Nd'


def isspace(c):
    return unicodedata.category(c) in ('Zs', 'Zl', 'Zp') or c in '\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f\x85'


def esc(s, chars=RESERVED):
    return ''.join('\\' + c if c in chars else c for c in s)


class Bad(Exception):
    pass


def blanks(text, i):
    """Reads a superblank or word blank that starts at i; returns the index after it."""
    n = len(text)
    if text[i:i + 2] == '[[':
        j = i + 2
        while j < n:
            if text[j] == '\\':
                j += 2
                continue
            if text[j:j + 2] == ']]':
                return j + 2
            j += 1
        raise Bad('unterminated word blank')
    j = i + 1
    while j < n:
        if text[j] == '\\':
            j += 2
            continue
        if text[j] == ']':
            return j + 1
        j += 1
    raise Bad('unterminated blank')


def split_lu(s):
    """Splits the inside of ^...$ at unescaped slashes."""
    out, cur, i = [], [], 0
    while i < len(s):
        if s[i] == '\\':
            cur.append(s[i:i + 2])
            i += 2
            continue
        if s[i] == '/':
            out.append(''.join(cur))
            cur = []
        else:
            cur.append(s[i])
        i += 1
    out.append(''.join(cur))
    return out


def unesc(s):
    o, i = [], 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            o.append(s[i + 1])
            i += 2
        else:
            o.append(s[i])
            i += 1
    return ''.join(o)


def parse(text, lus=True):
    """Stream -> [('c', char) | ('b', blank) | ('lu', [reading, ...])].  With lus=False, ^ is
    not expected (plain text with blanks)."""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c == '\\':
            if i + 1 >= n:
                raise Bad('trailing backslash')
            out.append(('c', text[i + 1]))
            i += 2
        elif c == '[':
            j = blanks(text, i)
            out.append(('b', text[i:j]))
            i = j
        elif c == '^' and lus:
            j = i + 1
            while j < n and text[j] != '$':
                j += 2 if text[j] == '\\' else 1
            if j >= n:
                raise Bad('unterminated lexical unit')
            out.append(('lu', split_lu(text[i + 1:j])))
            i = j + 1
        elif c in '^$]':
            raise Bad('stray %s' % c)
        else:
            out.append(('c', c))
            i += 1
    return out


def parse_or_violate(text, what, lus=True, **info):
    try:
        return parse(text, lus)
    except Bad as e:
        raise Violation('%s is not a well-formed stream: %s' % (what, e), output=text[:2000], **info)


BLANKS = ['[<b>]', '[</b>]', '[\\[x\\]]', '[é]', '[]', '[ ]', '[a b]', '[\n]', '[<i>x</i>]', '[\U0001F600]',
          '[^not/lu$]', '[{1}]']
WBLANKS = ['[[t:b:abc]]', '[[/]]', '[[t:i:x; t:b:y]]']


def vary_case(r, s):
    k = r.random()
    if k < .55:
        return s
    if k < .7:
        return [upper(c) for c in s]
    if k < .85:
        return [upper(s[0])] + s[1:] if s else s
    return [upper(c) if r.random() < .5 else lower(c) for c in s]
