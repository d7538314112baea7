"""C19: no input makes a tool touch memory it does not own, run into undefined behaviour, or hang."""
import copy, os
import xml.etree.ElementTree as ET
from fw import Violation, Skip
import dix, anagen, fst, fstgen, stream, c15

SPEC = dict(
    id='C19', level='exploration',
    technique='AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions (and valgrind memcheck, for uninitialised values) on the real programs while they are fed '
              'hostile streams (mutated, truncated, invalid UTF-8, unbalanced, very long) and hostile dictionaries, ATT files '
              'and patterns; hangs are found by a time limit',
    rule='one evaluation = one program run on one hostile input to its end; distinct by program, options and input',
    variants=('plain',), quick=7000, thorough=80000, min_distinct=1500)

MODES = [[], [], ['-a', '-w'], ['-c'], ['-e'], ['-e', '-M', '2'], ['-b'], ['-b'], ['-o'], ['-O'], ['-g'], ['-g'], ['-d'], ['-n'], ['-l'],
         ['-m'], ['-g', '-C'], ['-b', '-g'], ['-b', '-d'], ['-b', '-n'], ['-p'], ['-p'], ['-x'], ['-t'], ['-t'], ['-s'], ['-I'], ['-W'],
         ['-N', '1'], ['-L', '2'], ['-i'], ['-r']]
SPECIAL = ['^', '$', '/', '<', '>', '[', ']', '\\', '{', '}', '@', '*', '#', '+', '~', '[[', ']]', '[[/]]', '[[t:b:x]]', '^$', '^/$', '<n>',
           '\0', '\n', ' ', '\t', '\u00ad', '\u200d', '\u0301', '\U0001F600', '\ufeff', '\uffff', '&', '.', ',', '1', '12', '=', '%', '-', ':', '|',
           '<>', '<<', '>>', '^*', '^@', '^#', '\\\\', '\\^', '\u2028']
BAD = [b'\xff', b'\xc3', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\x80', b'\xf0\x9f', b'\xe4\xb8', b'\xc0\x80', b'\0']


# input that is not UTF-8, or a broken file, is refused by throwing one of these out of main
REJECT = (b'std::runtime_error', b'utf8::')


def base(r, rels, letters, tags, plain):
    """something like a stream for this dictionary"""
    pairs = [k for x in rels.values() for k in x]
    out = ''
    for _ in range(r.randint(0, 8)):
        if plain is not None and r.random() < .9:
            out += unit(r, pairs, letters, tags, plain)
            continue
        i, o = r.choice(pairs) if pairs and r.random() < .8 else (
            [r.choice(letters) for _ in range(r.randint(0, 4))], [r.choice(letters + tags) for _ in range(r.randint(0, 4))])
        i, o = ''.join(i), ''.join(o)
        if r.random() < .2:
            i = i.upper()
        out += r.choice(['%s ' % i, i, '^%s$ ' % i, '^%s$' % o, '^%s/%s$ ' % (i, o), '^%s/%s/%s$' % (o, o, i), '[[t:b:%s]]^%s$[[/]]' % (i, o),
                         '[%s]' % i, '~%s' % i, '^%s<MERGE_BEG>$ ^%s<MERGE_END>$' % (o, o), '^%s<MERGED>$' % i, '<%s>' % i, '\\%s' % i])
    return out


def unit(r, pairs, letters, tags, plain):
    """a well-formed piece: of text (plain) or of lexical units"""
    i, o = r.choice(pairs) if pairs and r.random() < .8 else (
        [r.choice(letters) for _ in range(r.randint(0, 4))], [r.choice(letters + tags + ['<zz>']) for _ in range(r.randint(1, 4))])
    esc = lambda x: ''.join(c if len(c) > 1 else stream.esc(c) for c in x)
    if r.random() < .2:
        i = [stream.upper(c) if len(c) == 1 else c for c in i]
        o = [stream.upper(c) if len(c) == 1 else c for c in o]
    if plain:
        t = ''.join(stream.esc(c) for c in i if len(c) == 1)
        return r.choice(['%s ', '%s', '%s', '[b]%s', '%s[[t:b:x]]', '[[t:b:x; t:i:y]]%s[[/]] ', '%s.', '~%s', '%s\n', '%s[\n]', '%s\\ ', '%s \\[', '%s\u00ad', '%s\0']) % t
    i, o = esc(i), esc(o)
    f = r.choice(['%s', '%s', '%s/%s', '%s/%s/%s', '*%s', '@%s', '#%s', '%s<zz>', '%s#%s', '%s+%s', '=%s', '%%%s', '%s<MERGE_BEG>', '%s<MERGE_END>', '%s<MERGED>'])
    n = f.replace('%%', '').count('%s')
    u = '^' + f % tuple(r.choice([i, o, o]) for _ in range(n)) + '$'
    return r.choice(['', '', '[b]', '[[t:b:x]]']) + u + r.choice([' ', '', '[[/]]', '.', 'x', '\n', '\\^', '\0', '[c]', '~'])


def mutate(r, s):
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, 4, 10])):
        k = r.randint(0, len(s))
        x = r.random()
        if x < .2:
            s = s[:k] + '\\' + r.choice(SPECIAL) + s[k:]
        elif x < .5:
            s = s[:k] + r.choice(SPECIAL) + s[k:]
        elif x < .65:
            s = s[:k] + s[k + r.randint(1, 4):]
        elif x < .75:
            s = s[:k]
        elif x < .85:
            s = s[:k] + s[k:k + 10] * r.randint(2, 6) + s[k:]
        elif x < .9 and len(s) < 3000:
            s = s[:k] + (r.choice(SPECIAL + ['a', 'a b ', '[x]']) * r.choice([50, 600, 2100])) + s[k:]
        else:
            s += r.choice(['\n', '\0', '', '$', '\\'])
    b = s.encode('utf-8', 'replace')
    if r.random() < .2:
        for _ in range(r.choice([1, 1, 3])):
            k = r.randint(0, len(b))
            b = b[:k] + r.choice(BAD) + b[k:]
    return b


VALUES = ['', 'x', 'n', 'LR', 'RL', 'p0', 'p1', 'standard', 'inconditional', 'postblank', 'preblank', 'main', 'yes', 'no', '1', '-1', '1e30', 'nan', 'inf', '0x10', '1.5', 'a b',
          'é', '\U0001F600', '<n>', '@', '-', '0' * 40]
TEXTS = ['', 'a', 'ab', ' ', '\n', 'é', '\U0001F600', '\u0301', '<', '&', '\\', '[a-z]', '(a|b)*', 'a{2}', '[^a]', '(', ')', '*', 'a**', '((((a))))', '[', ']', '[]', '[a', '[z-a]',
         '|', 'a|', '\\(', '()', '?', 'a+?', '^', '$', '.', 'a' * 300]


def hostile_xml(r, t):
    """mutates the elements of an XML file, which stays well formed"""
    try:
        root = ET.fromstring(t.encode('utf-8'))
    except ET.ParseError:
        return t
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        els = [(p, c) for p in root.iter() for c in p]
        if not els:
            break
        p, c = r.choice(els)
        x = r.random()
        if x < .15:
            p.remove(c)
        elif x < .3:
            q = r.choice(els)[0]
            q.insert(r.randint(0, len(q)), copy.deepcopy(c))
        elif x < .4:
            c.tag = r.choice(els)[1].tag
        elif x < .55:
            k = r.choice(list(c.attrib) or ['w'])
            c.set(k, r.choice(VALUES))
        elif x < .65:
            c.set(r.choice(['n', 'w', 'r', 'v', 'vl', 'vr', 'alt', 'i', 'ign', 'lm', 'id', 'type', 'value', 'slr', 'srl', 'c', 'zz']), r.choice(VALUES))
        elif x < .7:
            c.attrib.clear()
        elif x < .85:
            c.text = r.choice(TEXTS)
        elif x < .9:
            c.tail = r.choice(TEXTS)
        else:
            q = ET.SubElement(p, r.choice(['e', 'p', 'l', 'r', 'i', 'ig', 're', 'par', 's', 'b', 'a', 'j', 'g', 'm', 't', 'd', 'prm', 'section', 'pardef', 'sdef', 'char', 'zz']))
            if r.random() < .7:
                q.set('n', r.choice(VALUES))
            if r.random() < .3:
                q.text = r.choice(TEXTS)
    for q in root.iter('re'):
        if r.random() < .4:
            t = q.text or ''
            k = r.randint(0, len(t))
            q.text = r.choice([t[:k] + r.choice(list('()[]*?+-^\\\\|')) + t[k:], t[:k] + '\\', t[:k], dix.re_text(r, list('abé'), '*+?'), '(' * r.choice([1, 5, 3000]) + t,
                               '(' * 300 + 'a' + ')' * 300, 'a?' * 200, 'a|' * 500 + 'b', '[a-\u024f]', '[^\U0001F600]'])
    return ET.tostring(root, encoding='unicode')


def hostile_text(r, t):
    """mutates the text of a dictionary or ATT file"""
    if t.startswith('<') and r.random() < .75:
        return hostile_xml(r, t)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randint(0, len(t))
        x = r.random()
        if x < .3:
            t = t[:k] + t[k + r.randint(1, 12):]
        elif x < .5:
            t = t[:k] + r.choice(['<e>', '</e>', '<p>', '<l>', '</l>', '<r/>', '<s n="n"/>', '<s n=""/>', '<par n="p0"/>', '<par n="zz"/>', '<re>', '</re>', '<b/>',
                                  '<j/>', '<g>', '</g>', '<a/>', '<i/>', '<e/>', '"', '=', '<', '&', '&amp;', '<!-- -->', '(', ')', '[', ']', '[a-', '*', '|',
                                  '\t', '\n', '\n\n', '0', '99999999999', '-1', '--\n', 'ε', '@0@', 'x', '<p><l/><r/></p>', ' w="x"', ' w="1e999"', ' w=""',
                                  ' r="LR"', '<sdef n="q"/>', '<section id="s" type="standard">', '<pardef n="q">', '</pardef>', '<m/>', '<t/>', '<d/>', '<w/>']) + t[k:]
        elif x < .7:
            j = r.randint(0, len(t))
            t = t[:k] + t[j:j + r.randint(1, 60)] + t[k:]
        elif x < .8:
            t = t[:k]
        else:
            ls = t.split('\n')
            j = r.randrange(len(ls))
            y = r.random()
            if y < .4:
                del ls[j]
            elif y < .7:
                ls.insert(r.randint(0, len(ls)), ls[j])
            else:
                r.shuffle(ls)
            t = '\n'.join(ls)
    return t


def chars_xml(r, letters, restore):
    cs = r.sample(letters, min(len(letters), r.randint(1, 3)))
    if restore:
        return '<?xml version="1.0"?>\n<restore-chars>\n' + ''.join(
            '<char value="%s"><restore-char value="%s"/></char>\n' % (c, r.choice(letters)) for c in cs if c not in '<&"') + '</restore-chars>\n'
    return '<?xml version="1.0"?>\n<ignored-chars>\n' + ''.join('<char value="%s"/>\n' % c for c in cs if c not in '<&"') + '</ignored-chars>\n'


WORDS = ['a', 'ab', 'house', 'casa', 'ñandú', '中文', '\U0001F600', '1', '12', '3.5', '1,000', '2024', '.', ',', '(', ')', '(#', '@(1)', '@(2)', '@(99)', '@', '#', '-', 'x1',
         '\\', '/', '<n>', '<b>', '[', ']', '$', '^', '*', '&']


def tmx_xml(r, segs):
    x = lambda t: t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')

    def seg(t):
        t = ' '.join(t)
        k = r.random()
        if k < .15:
            i = r.randint(0, len(t))
            return x(t[:i]) + r.choice(['<hi/>', '<ph/>', '<hi>b</hi>', '<ph x="1">', '<hi> </hi>']).replace('<ph x="1">', '<ph x="1"/>') + x(t[i:])
        return x(t)
    out = '<?xml version="1.0" encoding="UTF-8"?>\n<tmx version="1.4">\n<header creationtool="x" srclang="en"><prop type="p">q</prop></header>\n<body>\n'
    for o, m in segs:
        a, b = ('xml:lang', 'lang') if r.random() < .1 else ('xml:lang',) * 2
        out += '<tu>%s<tuv %s="en"><seg>%s</seg></tuv>\n<tuv %s="%s"><seg>%s</seg></tuv></tu>\n' % (
            r.choice(['', '', '<prop>x</prop>', '<!-- c -->']), a, seg(o), b, r.choice(['es', 'es', 'es', 'ca', 'en']), seg(m))
    return out + '</body>\n</tmx>\n'


def tmx_case(ctx, r):
    words = r.sample(WORDS, r.randint(3, 8))
    segs = []
    for _ in range(r.randint(1, 6)):
        o = [r.choice(words) for _ in range(r.randint(1, 7))]
        m = o if r.random() < .2 else [r.choice(words) for _ in range(r.randint(1, 7))]
        if r.random() < .3:
            m = [w if r.random() < .7 else r.choice(words) for w in o]
        segs.append((o, m))
    t = tmx_xml(r, segs)
    hostile = r.random() < .4
    if hostile:
        t = hostile_text(r, t)
    p = ctx.write('x.tmx', t)
    res = ctx.run('lt-tmxcomp', [r.choice(['en-es', 'en-es', 'en-es', 'es-en', 'en', 'xx-yy', 'en-en']), p, ctx.path('o.bin')], allow_fail=True, reject=REJECT)
    if res.rc not in (0, 1):
        raise Violation('lt-tmxcomp exits %d' % res.rc, text=t[:3000])
    args, src = [], t.encode('utf-8', 'replace')
    if res.rc == 0:
        txt = ''
        for _ in range(r.randint(1, 6)):
            o = list(r.choice(r.choice(segs)))
            if r.random() < .3:
                o[r.randrange(len(o))] = r.choice(words + ['7', '1234567'])
            g = ' '.join(o)
            if r.random() < .3:
                g = g.replace(' ', r.choice(['[x]', '[<b>]', '[[t:i:1]]', '  ', '\n']), r.randint(1, 3))
            txt += (stream.esc(g, '\\/@<>^$[]{}') if r.random() < .5 else g) + r.choice(['.', ' ', ', ', '\n', '', '.\0'])
        src = mutate(r, txt)
        args = r.choice([[], ['-s'], ['-z']]) + [ctx.path('o.bin')]
        res = ctx.run('lt-tmxproc', args, src, allow_fail=True, reject=REJECT)
        if res.rc not in (0, 1):
            raise Violation('lt-tmxproc exits %d' % res.rc, text=t[:3000], stdin=repr(src[:2000]))
        ctx.count('tmx_accepted')
    return 'lt-tmxproc' if args else 'lt-tmxcomp', args, src, res.rc


def acx_case(ctx, r):
    rels, letters, tags = dictionary(ctx, r)
    t = c15.xml(c15.table(r, [c for c in letters if len(c) == 1]))
    if r.random() < .8:
        t = hostile_text(r, t)
    if r.random() < .3:
        k = t.find('value="')
        t = t[:k + 7] + r.choice(['', 'ab', '&#0;', '&#x10ffff;', '\U0001F600\U0001F601', '&amp;', ' ']) + t[k + 7 + (t[k + 7:].find('"')):]
    p = ctx.write('x.acx', t)
    if r.random() < .5:
        tool, args = 'lt-apply-acx', [ctx.path('d.bin'), p, ctx.path('o.bin')]
    else:
        tool, args = 'lt-comp', ['lr', ctx.path('d.dix'), ctx.path('o.bin'), p]
    res = ctx.run(tool, args, allow_fail=True, reject=REJECT)
    if res.rc not in (0, 1):
        raise Violation('%s exits %d' % (tool, res.rc), text=t[:3000])
    return tool, args, t.encode('utf-8', 'replace'), res.rc


def dictionary(ctx, r):
    """a compiled dictionary with everything in it"""
    comp = r.random() < .4
    if comp:
        d, rels, letters = anagen.good_dix(r, tags=['<n>', '<v>', '<compound-only-L>', '<compound-R>', '<cmp-split>'])
    else:
        d, rels, letters = anagen.good_dix(r, specials=r.random() < .5 or None)
    ctx.write('d.dix', dix.dix_xml(d))
    direction = r.choice(['lr', 'lr', 'rl'])
    res = ctx.run('lt-comp', [direction, ctx.path('d.dix'), ctx.path('d.bin')], allow_fail=True, reject=REJECT)
    if res.rc:
        direction = 'lr'
        ctx.run('lt-comp', [direction, ctx.path('d.dix'), ctx.path('d.bin')])
    if direction == 'rl':
        rels = {n: {(o, i): w for (i, o), w in x.items()} for n, x in rels.items()}
    return rels, letters, list(d.sdefs)


def stream_case(ctx, r):
    rels, letters, tags = dictionary(ctx, r)
    tool = r.choice(['lt-proc'] * 8 + ['lt-merge', 'lt-paradigm'])
    mode = r.choice(MODES)
    plain = True if tool == 'lt-paradigm' else False if tool == 'lt-merge' or mode and mode[0] in ('-b', '-o', '-O', '-g', '-d', '-n', '-l', '-m') else True
    src = mutate(r, base(r, rels, letters, tags, plain))
    if tool == 'lt-proc':
        args = list(mode)
        if args == ['-i'] or args == ['-r']:
            args.append(ctx.write('c.xml', chars_xml(r, letters, args == ['-r'])))
        if r.random() < .3:
            args.append('-z')
        if r.random() < .1:
            args += [r.choice(['-N', '-L', '-M']), r.choice(['0', '1', '-1', '2', '99999999999', 'x', '', '3x', '2147483647'])]
        args.append(ctx.path('d.bin'))
    elif tool == 'lt-merge':
        args = r.choice([[], ['-u'], ['-z'], ['-u', '-z']])
    else:
        args = r.choice([[], ['-a'], ['-s'], ['-z']]) + [ctx.path('d.bin')]
        src = src.replace(b' ', b'\n')
        # repeated wildcards match a word in very many ways
        while b'**' in src:
            src = src.replace(b'**', b'*')
        src = b'\n'.join(l if l.count(b'*') < 4 else l.replace(b'*', b'') for l in src.split(b'\n'))
    res = ctx.run(tool, args, src, allow_fail=True, reject=REJECT)
    if res.rc not in (0, 1):
        raise Violation('%s exits %d' % (tool, res.rc), stdin=repr(src[:2000]))
    return tool, args, src, res.rc


def endless(p):
    """does it have infinitely many outputs for some input?"""
    try:
        b = fst.read_bin(p)
    except fst.BinErr as e:
        raise Violation('lt-comp wrote a file that cannot be read: %s' % e)
    for f in b.sections.values():
        g = fst.FST()
        for s, l in f.arcs.items():
            # trimmed() needs an initial and a final state
            g.arcs[s] = [a for a in l if a[0] == '']
            g.finals[s] = 0.0
            g.arcs['x'].append(('', '', s, 0.0))
        g.init = 'x'
        if not g.is_acyclic():
            return True
    return False


def text_case(ctx, r):
    x = r.random()
    if x < .12:
        return tmx_case(ctx, r)
    if x < .2:
        return acx_case(ctx, r)
    if x < .72:
        g = dix.Gen(r)
        g.filters = True
        d = g.dix()
        t = hostile_text(r, dix.dix_xml(d))
        p = ctx.write('x.dix', t)
        tool = r.choice(['lt-comp', 'lt-comp', 'lt-comp', 'lt-expand', 'lsx-comp'])
        args = [r.choice(['lr', 'rl', 'lr', 'rl', 'u'])] if tool != 'lt-expand' else []
        if r.random() < .2:
            args = [r.choice(['-v', '-a', '-l', '-r']), r.choice(['x', 'y', ''])] + args
        if tool != 'lt-expand' and r.random() < .3:
            args = r.sample(['-d', '-m', '-V', '-j', '-S', '-H'], r.randint(1, 3)) + args
        elif tool == 'lt-expand' and r.random() < .2:
            args = ['-m'] + args
        args += [p] + ([ctx.path('o.bin')] if tool != 'lt-expand' else [])
    elif x < .9:
        f = [fstgen.rand(r, cyclic=r.random() < .3) for _ in range(r.choice([1, 1, 2]))]
        t = hostile_text(r, fstgen.att(f, r=r))
        p = ctx.write('x.att', t)
        tool = 'lt-comp'
        args = r.choice([[], ['-S'], ['-H']]) + [r.choice(['lr', 'rl']), p, ctx.path('o.bin')]
    else:
        rels, letters, tags = dictionary(ctx, r)
        rs = r.random() < .5
        t = hostile_text(r, chars_xml(r, letters, rs))
        p = ctx.write('c.xml', t)
        tool = 'lt-proc'
        args = ['-r' if rs else '-i', p, ctx.path('d.bin')]
    res = ctx.run(tool, args, ''.join(['a b']), allow_fail=True, reject=REJECT)
    if res.rc not in (0, 1):
        raise Violation('%s exits %d' % (tool, res.rc), text=t[:3000])
    if res.rc == 0 and tool in ('lt-comp', 'lsx-comp'):
        # whatever it accepted can be used
        for n, a in (('lt-print', []), ('lt-proc', ['-g'] if r.random() < .5 else [])):
            if n == 'lt-proc' and endless(ctx.path('o.bin')):
                continue
            res = ctx.run(n, a + [ctx.path('o.bin')], mutate(r, 'ab <n> ^ab<n>$'), allow_fail=True, reject=REJECT)
            if res.rc not in (0, 1):
                raise Violation('%s exits %d' % (n, res.rc), text=t[:3000])
        ctx.count('accepted')
    return tool, args, t.encode('utf-8', 'replace'), res.rc


def case(ctx):
    r = ctx.rng
    if ctx.idx < (64 if ctx.tier == 'quick' else 640):
        ctx.valgrind = True
        ctx.count('valgrind')
    tool, args, src, rc = (stream_case if r.random() < .65 else text_case)(ctx, r)
    ctx.count(tool)
    ctx.count('%s_exit_%d' % (tool, rc))
    ctx.count('bytes', len(src))
    ctx.sig(tool, [a.replace(ctx.dir, '') for a in args], src)
    if ctx.sample is None:
        ctx.sample = {'case': ctx.idx, 'tool': tool, 'args': [a.replace(ctx.dir, '') for a in args], 'input': repr(src[:200])}
