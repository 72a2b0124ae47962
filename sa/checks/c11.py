"""C11: Touchstone text means the same to every reader and writer."""
import itertools

from ..aev import Arr, Opaque
from ..laws import law, R, call, meth
from ..models import setup
from .c09 import E_, fclass

META = {
    'explanation': 'Abstract interpretation of the writers and readers over value numbers, with texts whose numbers are '
                   'placeholders for value numbers. The texts of the writers are read by a parser of the checker that '
                   'follows the Touchstone 1.1 definition (option line with its defaults, unit, number format, '
                   'reference impedance, transposed 2-ports, at most four pairs on a line) and every number has to be '
                   'the value number the object has at that impedance; texts generated from the same definition are '
                   'given to the readers, whose matrices have to be the value numbers of the reference conversion.',
    'rules': {
        'text': 'the text of a writer, read with the option line it states, is the S-matrix of the object at every '
                'frequency asked for and names its ports',
        'reader': 'an admissible text is read with the number format, frequency unit, parameter type, reference '
                  'impedance and port names it states, and with the defaults of the format for those it omits',
        'comments': 'the special comments of a text are returned by the reader',
        'layout': 'order and case of the option line, blank lines, comments and line breaks do not change the result',
        'round trip': 'reading back what a writer wrote gives the matrices, frequencies and port names of the object',
        'objects': 'an object made from a text has the matrices of the text at its frequencies',
        'reject': 'an option line that is not admissible is refused',
    },
    'assumptions': ['1-, 2-, 3- and 5-ports with two frequencies stand for all sizes',
                    'the digits written for a number are not judged (C26)',
                    'Z and Y texts hold unnormalised impedances and admittances, as written by the package'],
    'technique': 'abstract interpretation of writers and readers over value numbers (global value numbering with trace '
                 'partitioning), against a reference grammar of the text format',
}

UNITS = {'HZ': 1, 'KHZ': 10**3, 'MHZ': 10**6, 'GHZ': 10**9}
FS = (40000000, 41000000)


def start(ev, files=None):
    setup(ev)
    ev.ext['time.strftime'] = lambda ev, A, k: '2020-01-01 00:00:00'
    ev.F.loose_abs = True
    ev.files = dict(files or {})
    return ev.F, E_(ev)


def polar(ev, tag):
    F = ev.F
    m, p = ev.sym('m' + tag, pos='+'), ev.sym('p' + tag)
    return F.mul(m, F.exp(F.mul(F.num(1j), p)))


def table(ev, n, tag=''):
    return [Arr([polar(ev, f'{tag}{k}_{i}_{j}') for i in range(n) for j in range(n)], (n, n)) for k in range(len(FS))]


def stack_(ms):
    return Arr([x for m in ms for x in m.flat], (len(ms),) + ms[0].shape)


class BadText(Exception):
    pass


def options(line):
    """the option line by the definition of the format"""
    o = {'unit': 'GHZ', 'type': 'S', 'fmt': 'MA', 'R': ['50']}
    it = line[1:].upper().split()
    k = 0
    while k < len(it):
        w = it[k]
        if w in UNITS:
            o['unit'] = w
        elif w in ('S', 'Y', 'Z'):
            o['type'] = w
        elif w in ('RI', 'MA', 'DB'):
            o['fmt'] = w
        elif w == 'R':
            o['R'] = []
            while k + 1 < len(it) and (it[k + 1][0].isdigit() or it[k + 1][0] in '‹.+-'):
                k += 1
                o['R'].append(it[k])
        else:
            raise BadText(f'{w!r} in the option line')
        k += 1
    return o


def parse(ev, text, n):
    """option line, port names and data of a text"""
    F, m = ev.F, E_(ev)
    opt, ports, toks, rec = None, None, [], []
    for line in text.split('\n'):
        line = line.strip()
        if line.startswith('!'):
            if line.startswith('!PORTS'):
                ports = [p.strip() for p in line[6:].split(',')]
            continue
        if line.startswith('#'):
            if opt is not None:
                raise BadText('two option lines')
            opt = options(line)
            continue
        it = line.split('!', 1)[0].split()
        if not it:
            continue
        if opt is None:
            raise BadText('data ahead of the option line')
        if len(it) > 9:
            raise BadText('more than four pairs on a line')
        if not toks or len(toks) == 1 + 2 * n * n:
            if toks:
                rec.append(toks)
            toks = []
            if len(it) % 2 == 0:
                raise BadText('a record does not start with a frequency')
        elif len(it) % 2:
            raise BadText('half a pair on a line')
        toks = toks + it
    if toks:
        rec.append(toks)
    if opt is None:
        raise BadText('no option line')
    fs, Ss = [], []
    for r in rec:
        if len(r) != 1 + 2 * n * n:
            raise BadText(f'{len(r)} numbers in a record of a {n}-port')
        v = [ev.parse(t) for t in r]
        fs.append(m.mul(v[0], UNITS[opt['unit']]))
        c = [value(ev, opt['fmt'], v[1 + 2 * k], v[2 + 2 * k]) for k in range(n * n)]
        if n == 2:
            c = [c[0], c[2], c[1], c[3]]
        Ss.append(Arr(c, (n, n)))
    return opt, ports, fs, Ss


def value(ev, fmt, a, b):
    F, m = ev.F, E_(ev)
    if fmt == 'RI':
        return m.add(a, m.mul(m.j(), b))
    if fmt == 'DB':
        a = F.exp(m.mul(F.log(F.num(10)), m.div(a, 20)))
    return m.mul(a, F.exp(m.div(m.mul(m.j(), b, F.pi), 180)))


def pair(ev, fmt, tag):
    """two placeholders and the value they stand for"""
    a, b = ev.sym('a' + tag, pos='+' if fmt == 'MA' else None), ev.sym('b' + tag)
    return (a, b), value(ev, fmt, a, b)


def obj(ev, kind, n, z, ports, Ss):
    F = ev.F
    fs = [F.num(f) for f in FS]
    if kind == 'rfBase':
        return ev.construct(ev.pkg.cls('rfBase'), [], dict(Ss=stack_(Ss), fs=fs, Zbase=z, ports=list(ports)))
    if kind == 'rfObject':
        o = ev.construct(ev.pkg.cls('rfObject'), [], dict(Zbase=z, ports=list(ports)))
        for f, s in zip(fs, Ss):
            meth(ev, o, 'setS', f, s)
        return o
    if kind == 'rfCircuit':
        o = ev.construct(ev.pkg.cls('rfCircuit'), [], dict(Zbase=z))
        b = obj(ev, 'rfObject', n, z, ports, Ss)
        meth(ev, o, 'addblock', 'A', b, ports=list(ports))
        return o
    raise ValueError(kind)


def zval(ev, zk):
    return ev.sym('Z1', pos='+') if zk == 'Z' else ev.F.num(zk)


def names(n):
    return [f'p{k}' for k in range(1, n + 1)]


def written(ev, o, how, fmt, fs, kw):
    """the text a writer makes"""
    k = dict(kw)
    if fs:
        k['fs'] = [ev.F.num(f) for f in fs]
    if how.startswith('WriteTSF'):
        if fmt is not None:
            k['tsf_format'] = fmt
        if how.endswith('file'):
            r = call(ev, ev.pkg.func('WriteTSF'), o, 'dir/x.s2p', **k)
            return ev.files.get('dir/x.s2p')
        return call(ev, ev.pkg.func('WriteTSF'), o, **k)
    if fmt is not None:
        k['tfmt'] = fmt
    if how == 'write_tsf':
        meth(ev, o, 'write_tsf', 'dir/x', **k)
        return ev.files.get(f'dir/x.s{ev.length(o)}p' if hasattr(ev, 'length') else next(iter(ev.files), None))
    return meth(ev, o, 'tsf2str', **k)


def wfunc(ck, how):
    if how.startswith('WriteTSF'):
        return ck.pkg.func('WriteTSF')
    return fclass(ck, 'rfBase', 'tsf2str' if how == 'tsf2str' else 'write_tsf')


def r_text(ck, how, kind, n, zk, fmt, fs=(), kw=()):
    kw = dict(kw)

    def go(ev):
        start(ev)
        z = zval(ev, zk)
        Ss = table(ev, n)
        o = obj(ev, kind, n, z, names(n), Ss)
        want_f = list(fs or FS)
        t = written(ev, o, how, fmt, fs, kw)
        if not isinstance(t, str):
            return [('text', Opaque('text') if isinstance(t, Opaque) else 'no text', 'text')]
        try:
            opt, ports, f, S = parse(ev, t, n)
        except BadText as e:
            return [('text', f'not readable: {e}', 'admissible text')]
        if opt['type'] != 'S':
            return [('parameter type', opt['type'], 'S')]
        if len(opt['R']) != 1:
            return [('reference impedances', len(opt['R']), 1)]
        zr = ev.parse(opt['R'][0])
        sel = [Ss[FS.index(x)] for x in want_f]
        ref = [s if s_same(z, zr) else R(ev).convert(zr, s, z) for s in sel]
        out = [('frequencies', f, [ev.F.num(x) for x in want_f]), ('coefficients', S, ref)]
        if ports is not None:
            pn = ev.getattr(o, 'ports')
            out.append(('port names', ports, list(pn.tolist()) if isinstance(pn, Arr) else list(pn)))
        if how.startswith('WriteTSF') or fmt is None:
            pass
        return out
    law(ck, 'text', f'{how} of {kind}[{n}], {fmt!r}{", at " + str(zk) if zk != "Z" else ""}'
        f'{", fs given" if fs else ""}{"".join(f", {k}" for k in kw)}', wfunc(ck, how), go, limit=60, steps=900000)


def s_same(a, b):
    return a.fp == b.fp


def fmt_num(ev, x):
    return x if isinstance(x, str) else ev.text(x)


def compose(ev, n, opt, rows, fs, brk='rows', extra=None):
    """an admissible text: opt the option line, rows the pairs"""
    L = ['! made for reading', opt]
    L += (extra or [])
    for f, ps in zip(fs, rows):
        toks = [f'{ev.text(a)} {ev.text(b)}' for a, b in ps]
        if brk == 'rows' and n <= 2:
            L.append(f'{f} ' + ' '.join(toks))
        elif brk == 'single':
            L.append(f'{f} {toks[0]}')
            L += toks[1:]
        elif brk == 'comments':
            L.append('')
            L.append('! a comment')
            L.append(f'  {f} {toks[0]} ! with a remark')
            L += ['   ' + t + '  ! and another' for t in toks[1:]]
            L.append('')
        else:
            first = True
            for r in range(n):
                row = toks[r * n:(r + 1) * n]
                for c in range(0, n, 4):
                    L.append((f'{f} ' if first else '   ') + ' '.join(row[c:c + 4]))
                    first = False
    return '\n'.join(L) + '\n'


def content(ev, n, fmt, tag=''):
    rows, Ss = [], []
    for k in range(len(FS)):
        ps, vs = [], []
        for i in range(n * n):
            p, v = pair(ev, fmt, f'{tag}{k}_{i}')
            ps.append(p)
            vs.append(v)
        if n == 2:
            vs = [vs[0], vs[2], vs[1], vs[3]]
        rows.append(ps)
        Ss.append(Arr(vs, (n, n)))
    return rows, Ss


def optline(ev, tpl, z):
    return tpl.replace('@1', ev.text(z[0])).replace('@2', ev.text(z[1]) if len(z) > 1 else '')


def short(f, unit):
    from fractions import Fraction
    x = Fraction(f, UNITS[unit])
    return str(int(x)) if x.denominator == 1 else repr(float(x))


def reader(ck):
    return ck.pkg.func('ReadTSF')


def r_reader(ck, tpl, n, brk='rows', kws=(), src='string', rule='reader', extra=()):
    """tpl: option line with @1 and @2 for symbolic impedances"""
    kws = dict(kws)

    def go(ev):
        F, m = start(ev)
        z = [ev.sym('R1', pos='+'), ev.sym('R2', pos='+')]
        line = optline(ev, tpl, z)
        opt = options(line)
        rows, Ss = content(ev, n, opt['fmt'])
        t = compose(ev, n, line, rows, [short(f, opt['unit']) for f in FS], brk, list(extra))
        k = dict(kws)
        if 'Zbase' in k:
            k['Zbase'] = ev.sym('Z2', pos='+')
        if src == 'path':
            ev.files['dir/in.s2p'] = t
            r = call(ev, reader(ck), 'dir/in.s2p', **k)
        elif src == 'file':
            ev.files['dir/in.s2p'] = t
            r = call(ev, reader(ck), ev.file('dir/in.s2p', 'r'), **k)
        else:
            r = call(ev, reader(ck), t, **k)
        z2 = k.get('Zbase', F.num(50))
        zs = [ev.parse(x) for x in opt['R']]
        zs = zs * n if len(zs) == 1 else zs
        if all(s_same(x, z2) for x in zs):
            ref = Ss
        else:
            ref = [R(ev).convert(z2, s, zs, t1='P') for s in Ss]
        u = UNITS[k.get('funit', 'GHz').upper()]
        ports = k.get('ports', 'port-%03d')
        if isinstance(ports, str):
            ports = [ports % i for i in range(1, n + 1)]
        for e in extra:
            if e.startswith('!PORTS') and 'ports' not in k:
                ports = [p.strip() for p in e[6:].split(',')]
        got = r['ports']
        return [('matrices', r['Ss'], stack_(ref)), ('frequencies', r['fs'], Arr([m.div(f, u) for f in FS], (len(FS),))),
                ('port names', list(got), list(ports)),
                ('reference impedance', r['Zbase'], z2)]
    law(ck, rule, f'{tpl!r}[{n}]{"" if brk == "rows" else ", " + brk}{"".join(f", {k}={v}" for k, v in kws.items())}'
        f'{"" if src == "string" else ", " + src}{"".join(", " + e for e in extra)}',
        reader(ck), go, limit=60, steps=900000)


def r_hfss(ck, n, tpl, order, shape='ports'):
    """port impedances and propagation constants in comments"""
    def go(ev):
        F, m = start(ev)
        line = optline(ev, tpl, [ev.sym('R1', pos='+')])
        opt = options(line)
        rows, Ss = content(ev, n, opt['fmt'])
        L = ['! Touchstone file exported from HFSS 2014.0.0', '! Variables:', '!  w_in = 3mm', '!$len = 12', '!', line,
             '!Data is not renormalized']
        Z = []
        for k, f in enumerate(FS):
            toks = [f'{ev.text(a)} {ev.text(b)}' for a, b in rows[k]]
            L.append(f'{short(f, opt["unit"])} ' + ' '.join(toks[:4]))
            L += [' '.join(toks[i:i + 4]) for i in range(4, len(toks), 4)]
            zr = [ev.sym(f'zr{k}_{i}', pos='+') for i in range(n)]
            zi = [ev.sym(f'zi{k}_{i}') for i in range(n)]
            g = [ev.sym(f'g{k}_{i}') for i in range(n)]
            Z.append([m.add(a, m.mul(m.j(), b)) for a, b in zip(zr, zi)])
            pg = [f'0 {ev.text(x)}' for x in g]
            pz = [f'{ev.text(a)} {ev.text(b)}' for a, b in zip(zr, zi)]
            if shape == 'matrix':
                pg = [pg[i] if i == j else '0 0' for i in range(n) for j in range(n)]
                pz = [pz[i] if i == j else '0 0' for i in range(n) for j in range(n)]
            gl, zl = ['! Gamma ! ' + '   '.join(pg)], ['! Port Impedance ' + '   '.join(pz)]
            if shape == 'wrapped':
                gl = ['! Gamma ! ' + pg[0]] + ['!  ' + x for x in pg[1:]]
                zl = ['! Port Impedance ' + pz[0]] + ['!  ' + x for x in pz[1:]]
            L += gl + zl if order else zl + gl
        z2 = ev.sym('Z2', pos='+')
        r = call(ev, reader(ck), '\n'.join(L) + '\n', Zbase=z2)
        return [('matrices', r['Ss'], stack_([R(ev).convert(z2, s, z, t1='P') for s, z in zip(Ss, Z)])),
                ('port impedances', ev.asarr(r['Zc']), Arr([x for z in Z for x in z], (len(FS), n))),
                ('variables', r['variables'], {'w_in': '3mm', '$len': '12'})]
    law(ck, 'reader', f'port impedances in comments, {tpl!r}[{n}], {shape}{"" if order else ", impedance first"}',
        reader(ck), go, limit=60, steps=900000)


def r_comments(ck):
    def go(ev):
        F, m = start(ev)
        rows, Ss = content(ev, 2, 'RI')
        t = compose(ev, 2, '# MHZ S RI R 50', rows, ['40', '41'],
                    extra=['!PORTS left, right', '!MARKERS 40 40.5', '!SHAPE 2 1', '!PART TOP LEFT', '!NUMBERING UP'])
        r = call(ev, reader(ck), t, Zbase=F.num(50))
        return [('ports', list(r['ports']), ['left', 'right']), ('markers', list(ev.asarr(r['markers']).flat),
                                                                [F.num(40), m.div(81, 2)]),
                ('shape', r['shape'], (2, 1)), ('part', r['part'], ('top', 'left')), ('numbering', r['numbering'], 'up'),
                ('number format', r['datafmt'], 'RI')]
    law(ck, 'comments', 'special comments', reader(ck), go, limit=20)

    def go2(ev):
        F, m = start(ev)
        rows, Ss = content(ev, 2, 'RI')
        t = compose(ev, 2, '# MHZ S RI R 50', rows, ['40', '41'], extra=['!SHAPE 2', '!PART TOP'])
        r = call(ev, reader(ck), t, Zbase=F.num(50))
        return [('shape', r['shape'], (2, 0)), ('part', r['part'], 'top'), ('numbering', r['numbering'], None),
                ('markers', r['markers'], None)]
    law(ck, 'comments', 'short special comments', reader(ck), go2, limit=20)


def r_reject(ck, what):
    lines = {'two option lines': '# MHZ S RI R 50\n# HZ S RI R 50', 'unknown directive': '# MHZ S RI Q 50',
             'unknown unit': '# XHZ S RI R 50', 'unknown number format': '# MHZ S XX R 50'}

    def go(ev):
        start(ev)
        rows, Ss = content(ev, 2, 'RI')
        call(ev, reader(ck), compose(ev, 2, lines[what], rows, ['40', '41']))
        return []
    law(ck, 'reject', what, reader(ck), go, raises='ValueError', limit=20)


def r_wreject(ck, how, fmt):
    def go(ev):
        start(ev)
        o = obj(ev, 'rfBase', 2, ev.F.num(50), names(2), table(ev, 2))
        written(ev, o, how, fmt, (), {})
        return []
    law(ck, 'reject', f'{how} {fmt!r}', wfunc(ck, how), go, raises='ValueError', limit=20)


def r_round(ck, how, kind, n, zk, fmt, back='ReadTSF', zback='Z2'):
    def go(ev):
        F, m = start(ev)
        z = zval(ev, zk)
        Ss = table(ev, n)
        o = obj(ev, kind, n, z, names(n), Ss)
        t = written(ev, o, how, fmt, (), {})
        z2 = ev.sym('Z2', pos='+') if zback == 'Z2' else z if zback == 'same' else F.num(50)
        kz = {} if zback is None else {'Zbase': z2}
        ref = Ss if s_same(z, z2) else [R(ev).convert(z2, s, z) for s in Ss]
        fs = Arr([F.num(f) for f in FS], (len(FS),))
        if back == 'ReadTSF':
            r = call(ev, reader(ck), t, funit='Hz', **kz)
            return [('matrices', r['Ss'], stack_(ref)), ('frequencies', r['fs'], fs), ('ports', list(r['ports']), names(n))]
        if back == 'rfObject':
            q = ev.construct(ev.pkg.cls('rfObject'), [], dict(touchstone=t, **kz))
            return [('matrices', meth(ev, q, 'getS', list(fs.flat)), stack_(ref)), ('frequencies', ev.getattr(q, 'fs'), fs),
                    ('ports', list(ev.getattr(q, 'ports')), names(n))]
        if back == 'read_tsf':
            q = ev.construct(ev.pkg.cls('rfObject'), [], dict(kz))
            meth(ev, q, 'read_tsf', t)
            return [('matrices', meth(ev, q, 'getS', list(fs.flat)), stack_(ref)), ('frequencies', ev.getattr(q, 'fs'), fs),
                    ('ports', list(ev.getattr(q, 'ports')), names(n))]
        q = ev.construct(ev.pkg.cls('rfTRL'), [], dict(sNp=t, **kz))
        return [(f'matrix at {f}', meth(ev, q, 'getS', F.num(f)), s) for f, s in zip(FS, ref)]
    f = reader(ck) if back == 'ReadTSF' else fclass(ck, 'rfObject', 'read_tsf') if back in ('rfObject', 'read_tsf') \
        else fclass(ck, 'rfTRL', '__init__')
    rule = 'round trip' if back == 'ReadTSF' else 'objects'
    law(ck, rule, f'{how} of {kind}[{n}], {fmt!r}{", at " + str(zk) if zk != "Z" else ""} to {back}'
        f'{"" if zback == "Z2" else " at " + str(zback)}', f, go, limit=60, steps=900000)


def run(ck):
    ck.anchor('ReadTSF', reader(ck) is not None)
    ck.anchor('WriteTSF', ck.pkg.func('WriteTSF') is not None)
    ck.anchor('rfBase.tsf2str', fclass(ck, 'rfBase', 'tsf2str') is not None)
    # writers
    it = [('WriteTSF', 'rfObject', 2, 'Z', None), ('WriteTSF', 'rfObject', 2, 50, None)]
    for fmt, unit in itertools.product(('RI', 'MA', 'DB'), ('HZ', 'KHZ', 'MHZ', 'GHZ')):
        it.append(('WriteTSF', 'rfBase', 2, 'Z', f'{unit} S {fmt} R 30'))
        it.append(('tsf2str', 'rfBase', 2, 'Z', f'# {unit} S {fmt} R 30'))
    for o in ('', 'S', 'MHZ', 'RI', 'DB', 'R 75', 'MHZ RI', 'RI R 75', 'r 75', 'mhz s ri r 75', 'R 75 RI S MHZ', 'DB MHZ R 75 S',
              'S DB R 75.5', 'hz', 'RI HZ', 'MA R 7.5E1', 'R 50', 'MHZ S MA R 50'):
        it.append(('WriteTSF', 'rfBase', 2, 'Z', o))
        it.append(('tsf2str', 'rfBase', 2, 'Z', ('# ' + o).strip() if o else '#'))
    for n in (1, 3, 5):
        for fmt in ('RI', 'MA', 'DB'):
            it.append(('WriteTSF', 'rfBase', n, 30, f'MHZ S {fmt} R 30'))
            it.append(('tsf2str', 'rfBase', n, 30, f'# MHZ S {fmt} R 30'))
    for kind in ('rfObject', 'rfCircuit'):
        it.append(('WriteTSF', kind, 2, 'Z', 'MHZ S RI R 30', FS))
        it.append(('WriteTSF', kind, 2, 'Z', 'MHZ S MA R 30', FS[1:]))
    for k in ('rfBase',):
        it += [('WriteTSF', k, 2, 'Z', None), ('WriteTSF', k, 2, 50, None), ('tsf2str', k, 2, 'Z', None),
               ('tsf2str', k, 2, 'Z', None, FS[1:]), ('tsf2str', k, 2, 50, None),
               ('tsf2str', k, 2, 'Z', None, (), (('Zbase', 75),)), ('tsf2str', k, 2, 'Z', '# MHZ S RI', (), (('Zbase', 75),)),
               ('tsf2str', k, 2, 'Z', '# MHZ S RI R 30', (), (('Zbase', 75),)),
               ('tsf2str', k, 2, 'Z', None, FS, (('comments', 'two\nlines'),)),
               ('write_tsf', k, 2, 'Z', '# MHZ S RI R 30'), ('write_tsf', k, 3, 30, None),
               ('WriteTSF to file', k, 2, 'Z', 'MHZ S RI R 30')]
    ck.pmap('text', r_text, it)
    # readers
    it = []
    for fmt, unit in itertools.product(('RI', 'MA', 'DB'), ('HZ', 'KHZ', 'MHZ', 'GHZ')):
        it.append((f'# {unit} S {fmt} R @1', 2, 'rows', (('Zbase', 'Z2'), ('funit', 'Hz'))))
    for o in ('#', '# MHZ', '# RI', '# DB', '# R @1', '# S', '# MHZ S', '# MHZ S RI', '# R 50', '# mhz s ri r @1',
              '# R @1 RI S MHZ', '# DB R @1 MHZ S', '#MHZ S RI R @1', '# MHZ S RI R @1 @2', '# R @1 @2', '# R @1 @2 MHZ DB'):
        it.append((o, 2))
        it.append((o, 2, 'rows', (('Zbase', 'Z2'), ('funit', 'MHz'))))
    for n in (1, 3, 5):
        for fmt in ('RI', 'MA', 'DB'):
            it.append((f'# MHZ S {fmt} R 50', n))
    for f in ('Hz', 'kHz', 'MHz', 'GHz', 'HZ'):
        it.append(('# KHZ S RI R @1', 1, 'rows', (('funit', f),)))
    it += [('# MHZ S RI R 50', 2, 'rows', (('ports', 'q%d'),)), ('# MHZ S RI R 50', 3, 'rows', (('ports', 'q%02d'),)),
           ('# MHZ S RI R 50', 2, 'rows', (), 'string', 'reader', ('!PORTS a, b',)),
           ('# MHZ S RI R 50', 3, 'rows', (), 'string', 'reader', ('!PORTS a b, c ,d',)),
           ('# MHZ S RI R 50', 2, 'rows', (('ports', 'q%d'),), 'string', 'reader', ('!PORTS a, b',)),
           ('# MHZ S RI R @1', 2, 'rows', (), 'path'), ('# MHZ S RI R @1', 2, 'rows', (), 'file')]
    ck.pmap('reader', r_reader, it)
    lay = [(f'# MHZ S {fmt} R {z}', n, brk, (), 'string', 'layout') for fmt in ('RI', 'MA') for n in (2, 3)
           for brk in ('rows', 'single', 'comments') for z in ((50,) if n == 3 else (50, '@1'))]
    ck.pmap('layout', r_reader, lay)
    ck.pmap('reader', r_hfss, [(n, t, o, s) for n in (1, 2) for t in ('# GHZ S MA', '# MHZ S RI', '# MHZ S RI R 50')
                               for o in (True, False) for s in ('ports', 'matrix', 'wrapped')
                               if not (s == 'wrapped' and (n == 1 or not o)) and not (s == 'matrix' and n == 1)])
    ck.rule('comments', r_comments)
    ck.pmap('reject', r_reject, [(w,) for w in ('two option lines', 'unknown directive', 'unknown unit',
                                                'unknown number format')])
    ck.pmap('reject', r_wreject, [('WriteTSF', 'MHZ Z RI R 50'), ('WriteTSF', 'MHZ Y RI'), ('WriteTSF', 'MHZ S RI MA R 50'),
                                  ('tsf2str', '# MHZ S RI Q'), ('tsf2str', '# XHZ S RI R 50')])
    # round trips
    it = []
    for how, fmt in itertools.product(('WriteTSF', 'tsf2str'), ('RI', 'MA', 'DB')):
        for n in (1, 2):
            it.append((how, 'rfBase', n, 'Z', f'MHZ S {fmt} R 30'))
        it.append((how, 'rfBase', 3, 30, f'HZ S {fmt} R 30', 'ReadTSF', 'same'))
        it.append((how, 'rfBase', 2, 'Z', f'{fmt}'))
    for typ in 'ZY':
        for fmt in ('RI', 'MA', 'DB'):
            it.append(('tsf2str', 'rfBase', 2, 'Z', f'MHZ {typ} {fmt} R 30'))
        it += [('tsf2str', 'rfBase', 1, 'Z', f'{typ}'), ('tsf2str', 'rfBase', 2, 'Z', f'MHZ {typ} RI', 'ReadTSF', None),
               ('tsf2str', 'rfBase', 2, 'Z', f'MHZ {typ} RI R 50', 'ReadTSF', 'same')]
    it += [(h, 'rfBase', 2, 'Z', None, 'ReadTSF', zb) for h in ('WriteTSF', 'tsf2str') for zb in ('Z2', 'same', None)]
    for back in ('rfObject', 'read_tsf', 'rfTRL'):
        for fmt in ('RI', 'MA', 'DB'):
            it.append(('tsf2str', 'rfBase', 2, 30, f'MHZ S {fmt} R 30', back, 'same'))
        it += [('WriteTSF', 'rfBase', 2, 'Z', 'MHZ S RI R 30', back), ('tsf2str', 'rfBase', 2, 'Z', 'HZ RI', back),
               ('tsf2str', 'rfBase', 2, 'Z', 'HZ RI', back, None), ('tsf2str', 'rfBase', 2, 'Z', 'MHZ Z RI', back)]
    ck.pmap('round trip', r_round, it)
