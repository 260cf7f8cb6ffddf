"""C16: tables print numbers that round the limits correctly"""
import math
import os
import re
import tempfile
from fractions import Fraction
import numpy as np
from pyvc.api import contract, Skip
from contracts.c09_kde import mc

T = 'getdist.types:'
N = T + 'NumberFormatter.'
R = T + 'ResultTable.'


def places(s):
    return len(s.split('.')[1]) if '.' in s else 0


def figures(x, sf):
    """|x| rounded half up to sf significant figures: (text without sign)"""
    x = abs(Fraction(x))
    if x == 0:
        return '0' if sf == 1 else '0.' + '0' * (sf - 1)
    e = 0
    while x >= Fraction(10) ** (e + 1):
        e += 1
    while x < Fraction(10) ** e:
        e -= 1
    unit = Fraction(10) ** (e - sf + 1)
    k = int(x / unit + Fraction(1, 2))
    if len(str(k)) > sf:
        e += 1
        k //= 10
    v = k * Fraction(10) ** (e - sf + 1)
    dp = max(0, sf - 1 - e)
    n = int(v * 10 ** dp)
    s = str(n).rjust(dp + 1, '0')
    return s[:-dp] + '.' + s[-dp:] if dp else s


def neartie(x, sf):
    """so close to a rounding boundary that the last digit may go either way"""
    x = abs(Fraction(x))
    if x == 0:
        return False
    e = math.floor(math.log10(float(x)))
    for ee in (e - 1, e, e + 1):
        u = x / (Fraction(10) ** (ee - sf + 1))
        d = abs(u - int(u) - Fraction(1, 2))
        if d < Fraction(1, 10 ** 9) * max(1, u):
            return True
    return abs(x / Fraction(10) ** round(math.log10(float(x))) - 1) < Fraction(1, 10 ** 12)


def number(c, name, positive=False):
    def g():
        k = c.rng.random()
        if k < .5:
            v = c.rng.gauss(0, 1) * 10 ** c.rng.uniform(-7, 7)
        elif k < .75:
            v = round(c.rng.uniform(-1000, 1000), c.rng.randint(0, 4))
        elif k < .9:
            v = c.rng.choice([9.995, 99.96, 0.9996, 999.7, 99.5, 0.0995, 1.0, 10.0, 5e-5, 20.0, 100.0, 1000.0, 0.5, 2.5, 99999.7, 0.00009996]) * c.rng.choice([1, -1])
        else:
            v = c.rng.choice([1, -1]) * 10.0 ** c.rng.randint(-6, 6)
        return abs(v) if positive else v
    return c.real(name, gen=g)


@contract('C16', 'number_figs', [T + 'numberFigs', T + 'float_to_decimal', N + 'formatNumber', N + 'decimal_places'], symbolic=False, runs=4000)
def _(c):
    """a number prints as itself rounded (half away from zero) to the figures asked for"""
    t = c.module('getdist.types')
    x, sf = number(c, 'x'), c.int('sf', 1, 7)
    if c.flag('zero'):
        x = 0.0
    want = ('-' if x < 0 else '') + figures(x, sf)
    c.check('figures', t.numberFigs(x, sf) == want, lambda: '%r to %d: %s want %s' % (x, sf, t.numberFigs(x, sf), want))
    c.check('numpy', t.numberFigs(np.float64(x), sf) == want)
    c.check('single', t.numberFigs(np.float32(x), sf) == ('-' if x < 0 else '') + figures(float(np.float32(x)), sf))
    i = c.int('i', -200000, 200000)
    c.check('integer', t.numberFigs(i, sf) == ('-' if i < 0 else '') + figures(i, sf))
    c.check('exact', t.float_to_decimal(x).as_integer_ratio() == x.as_integer_ratio())
    f = t.NumberFormatter(sig_figs=c.int('default', 2, 6))
    c.check('format', f.formatNumber(x, sf) == want)
    c.check('default_figures', f.formatNumber(x) == t.numberFigs(x, f.sig_figs))
    signed = f.formatNumber(x, sf, wantSign=True)
    c.check('signed', signed == ('+' + want if x > 0 else want))
    c.check('places', f.decimal_places(want) == places(want))
    s, e = t.numberFigs(x, sf, sci=True)
    adj = 0 if x == 0 else math.floor(math.log10(abs(x)))
    if abs(adj) < 4 or x == 0:
        c.check('no_exponent', e == 0)
    if abs(adj) > 6:
        c.check('exponent', e != 0)
    if e == 0:
        c.check('plain', s == want)
    elif not neartie(x, sf):
        y = Fraction(x) / Fraction(10) ** e
        c.check('scaled', s == ('-' if x < 0 else '') + figures(y, sf), lambda: '%r to %d: %s e%d' % (x, sf, s, e))
        c.check('mantissa', 1 <= abs(float(s)) <= 10)
    c.check('sign_exponent', f.formatNumber(x, sf, sci=True) == (s, e))


def shown(text, places_, value, half=True):
    """text is value rounded at its own last digit (of the figures present)"""
    u = Fraction(10) ** -places_
    return abs(Fraction(text) - Fraction(value)) <= u / 2 * (1 + Fraction(1, 10 ** 9)) + abs(Fraction(value)) / 10 ** 14


def reference(value, plus, minus, sig_figs, err_sf):
    """figures of a value with errors: errors to err_sf (1 for large values with large errors); the value to at most sig_figs, as many decimals as the errors"""
    frac = plus / (abs(value) + plus)
    sf = sig_figs
    if frac > 0.1 and 20 <= value < 100:
        sf = 2
    elif frac > 0.01 and value < 1000:
        sf = 3
    if value >= 20 and frac > 0.1 and plus >= 2:
        err_sf = 1
    return sf, err_sf


@contract('C16', 'value_and_errors', [N + 'namesigFigs', N + 'formatNumber', T + 'numberFigs'], symbolic=False, runs=4000)
def _(c):
    t = c.module('getdist.types')
    f = t.NumberFormatter(sig_figs=c.option('sig_figs', [4, 4, 3, 5]), err_sf=c.option('err_sf', [2, 2, 1, 3]))
    value = number(c, 'value')
    scale = abs(value) if value else 1.0
    plus = abs(c.real('plus', gen=lambda: scale * 10 ** c.rng.uniform(-5, 2)))
    minus = -plus * c.real('ratio', gen=lambda: c.rng.choice([1.0, c.rng.uniform(.2, 5)]))
    if c.flag('zero'):
        value = 0.0
    if plus == 0 or minus == 0:
        raise Skip
    sf, esf = reference(value, plus, minus, f.sig_figs, f.err_sf)
    sign = c.flag('sign')
    res, ps, ms = f.namesigFigs(value, plus, minus, wantSign=sign)
    sg = '+' if sign else ''
    c.check('plus', ps == sg + figures(plus, esf), lambda: '%r %r' % (plus, ps))
    c.check('minus', ms == '-' + figures(minus, esf), lambda: '%r %r' % (minus, ms))
    dp, maxdp = places(res), max(places(ps), places(ms))
    c.check('decimals_enough', dp >= places(ps), lambda: '%s %s %s' % (res, ps, ms))
    if dp:
        c.check('rounded', shown(res, dp, value), lambda: '%r shown as %s' % (value, res))
    else:
        # integer: rounded to some number of figures, at least sf or to the unit
        ok = [k for k in range(1, 20) if res.lstrip('-') == figures(value, k)]
        c.check('rounded', (ok and (max(ok) >= min(sf, 1))) or shown(res, 0, value), lambda: '%r shown as %s' % (value, res))
        lead = len(res.lstrip('-'))
        c.check('unit', shown(res, -max(0, lead - sf), value), lambda: '%r shown as %s with %d figures' % (value, res, sf))
    # not more decimals than needed, unless rounding up changes the number of digits
    if dp > maxdp:
        c.check('decimals_few', len(figures(value, 1).replace('.', '')) > 0 and dp <= maxdp + 1 and Fraction(figures(value, sf)) != abs(Fraction(value)))
    c.check('no_negative_zero', float(res) != 0 or value < 0 or not res.startswith('-'))
    # with a common exponent
    r2, p2, m2, e = f.namesigFigs(value, plus, minus, wantSign=sign, sci=True)
    if e == 0:
        c.check('same', (r2, p2, m2) == (res, ps, ms))
    else:
        u = Fraction(10) ** e
        top = max(abs(value), abs(value + plus), abs(value + minus), abs(value - minus))
        c.check('exponent', 10.0 ** e <= top * (1 + 1e-9) and abs(e) > 4, lambda: '%s %s %s e%d' % (value, plus, minus, e))
        if not neartie(plus, esf):
            c.check('plus_e', p2 == sg + figures(Fraction(plus) / u, esf), lambda: '%r %r' % (plus, p2))
        if not neartie(minus, esf):
            c.check('minus_e', m2 == '-' + figures(Fraction(minus) / u, esf))
        c.check('decimals_e', places(r2) >= places(p2))
        c.check('rounded_e', shown(r2, places(r2) if places(r2) else -1, Fraction(value) / u), lambda: '%r shown as %s e%d' % (value, r2, e))


def pick(c, i):
    """one parameter's results, with limits of any kind"""
    mean = number(c, 'mean%d' % i)
    err = abs(mean or 1.0) * c.real('err%d' % i, gen=lambda: 10 ** c.rng.uniform(-4, 1))
    lims = []
    for k in range(2):
        tag = c.option('tag%d_%d' % (i, k), ['two', 'two', '>', '<', 'none'])
        a = c.real('up%d_%d' % (i, k), gen=lambda: c.rng.uniform(.5, 2)) * (1 + k)
        b = a * c.real('ratio%d_%d' % (i, k), gen=lambda: c.rng.choice([1.0, 1.05, c.rng.uniform(.5, 2)]))
        lims.append((mean - err * b, mean + err * a, tag))
    return mean, err, lims


class P:
    def __init__(self, name, label, derived, mean, err, lims, best):
        self.name, self.label, self.derived, self.mean, self.err, self.lims, self.best = name, label, derived, mean, err, lims, best


def results(c, t, n, tag='', best=False, names=None):
    info = c.module('getdist.paramnames').ParamInfo
    m = t.MargeStats()
    m.limits = [0.68, 0.95]
    m.hasBestFit = False
    ref = []
    for i in range(n):
        name = (names or ['p%d'])[min(i, len(names or [1]) - 1)]
        name = name % i if '%' in name else name
        mean, err, lims = pick(c, 100 * len(tag) + i)
        lab = c.option('label%s%d' % (tag, i), ['x_%d' % i, r'\Omega_{%d} h^2' % i, 'a b%d' % i])
        der = c.flag('derived%s%d' % (tag, i))
        p = info(name=name, label=lab, derived=der)
        p.mean, p.err = mean, err
        p.limits = [t.ParamLimit(list(l[:2]), l[2]) for l in lims]
        q = P(name, lab, der, mean, err, lims, mean + err * .3)
        m.names.append(p)
        ref.append(q)
    if best:
        b = t.BestFit()
        b.logLike = 10.5
        for q in ref:
            p = info(name=q.name, label=q.label, derived=q.derived)
            p.best_fit = q.best
            b.names.append(p)
        m.addBestFit(b)
    return m, ref


NUM = r'[-+]?\d+(?:\.\d+)?'


def near(text, e, value, figs):
    """the printed number is the value to at least that many figures"""
    x = float(text) * 10.0 ** e
    if value == 0:
        return x == 0
    return abs(x - value) <= .5000001 * 10.0 ** (math.floor(math.log10(abs(value))) - figs + 1 + (0 if abs(x) < 10.0 ** (math.floor(math.log10(abs(value))) + 1) else 1))


def check_tex(c, tex, q, limit, f, none='---'):
    lo, up, tag = q.lims[limit - 1]
    m = re.fullmatch(r'(?:\\left\(\\,)?(?P<body>.*?)(?:\\,\\right\))?(?:\\cdot 10\^\{(?P<e>-?\d+)\})?', tex)
    body, e = m.group('body'), int(m.group('e') or 0)
    if tag == 'none':
        c.check('none', tex == none)
    elif tag in '<>':
        bound = up if tag == '>' else lo
        c.check('one_tail', re.fullmatch(('< ' if tag == '>' else '> ') + NUM, body), lambda: '%s for %s' % (tex, tag))
        c.check('one_tail_value', near(body[2:], e, bound, 3), lambda: '%s for %r' % (tex, bound))
    else:
        dev = (up - q.mean) / (q.mean - lo)
        if limit == 1 and abs(dev - 1) < .0999:
            k = re.fullmatch(r'(%s)\\pm ([\d.]+)' % NUM, body)
            c.check('symmetric', k, lambda: tex)
            errs = [(k.group(2), q.err)]
        elif limit != 1 or abs(dev - 1) > .1001:
            k = re.fullmatch(r'(%s)\^\{(\+%s)\}_\{(-%s)\}' % (NUM, NUM, NUM), body)
            c.check('two_tail', k, lambda: tex)
            errs = [(k.group(2), up - q.mean), (k.group(3), lo - q.mean)]
        else:
            return
        for s, w in errs:
            c.check('error', near(s, e, w, 1), lambda: '%s for %r' % (tex, w))
        # the mean to within the last decimal printed (or four figures)
        s = k.group(1)
        tol = .5000001 * 10.0 ** (e - places(s)) if places(s) else max(.5000001 * 10.0 ** e, abs(q.mean) * 6e-3)
        c.check('mean', abs(float(s) * 10.0 ** e - q.mean) <= tol, lambda: '%s for %r' % (tex, q.mean))


@contract('C16', 'limits_tex', [T + 'MargeStats.texValues', N + 'plusMinusLimit', N + 'namesigFigs', T + 'ParamLimit.__init__', T + 'times_ten_power'], symbolic=False, runs=1500)
def _(c):
    """the limits of a parameter are shown as what they are: two-sided, one-sided or none, each number its value"""
    t = c.module('getdist.types')
    m, ref = results(c, t, 1, best=c.flag('best'), names=[c.option('name', ['p', 'q', 'chi2_a'])])
    q, limit = ref[0], c.option('limit', [1, 2])
    fm = c.option('formatter', ['TableFormatter', 'OpenTableFormatter', 'NoLineTableFormatter'])
    f = getattr(t, fm)()
    arg = m.names[0] if c.flag('info') else q.name
    out = m.texValues(f, arg, limit=limit)
    c.check('columns', len(out) == (2 if m.hasBestFit else 1))
    if q.name.startswith('chi2'):
        if limit == 2:
            c.check('dof', out[0].endswith(r'\,({\nu\rm{:}\,%.1f})' % (q.err ** 2 / 2)))
        else:
            c.check('chi2', r'\pm ' in out[0] and near(out[0].split(r'\pm ')[1], 0, q.err, 1))
    else:
        check_tex(c, out[0], q, limit, f)
    if m.hasBestFit:
        k = re.fullmatch(r'(%s)(?:\\cdot 10\^\{(-?\d+)\})?' % NUM, out[1])
        c.check('best', k, lambda: out[1])
        v = float(k.group(1)) * 10.0 ** int(k.group(2) or 0)
        w = (q.lims[limit - 1][1] - q.lims[limit - 1][0]) / 10
        c.check('best_value', abs(v - q.best) <= max(w, abs(q.best) * 6e-3), lambda: '%s for %r' % (out[1], q.best))
    c.check('absent', m.texValues(f, 'nope', limit=limit) is None)
    c.check('default', m.texValues(f, arg) == m.texValues(f, arg, limit=2))
    # shifts against a reference
    b, bref = results(c, t, 1, tag='ref', names=[q.name])
    d = q.mean - bref[0].mean
    how = c.option('shift', ['plain', 'indep', 'subset', 'both'])
    s = m.texValues(f, arg, limit=limit, refResults=b, shiftSigma_indep=how in ('indep', 'both'), shiftSigma_subset=how in ('subset', 'both'))[0]
    if out[0] == f.noConstraint:
        c.check('shift_none', s == out[0])
    else:
        indep = d / math.hypot(q.err, bref[0].err)
        subset = d / max(math.sqrt(abs(q.err ** 2 - bref[0].err ** 2)), bref[0].err / 20)
        want = {'plain': r'%+.1f \sigma' % (d / bref[0].err), 'indep': r', %+.1f \sigma_i' % indep, 'subset': r'%+.1f \sigma_s' % subset,
                'both': r'%+.1f \sigma_s, %+.1f \sigma_i' % (subset, indep)}[how]
        c.check('shift', s == out[0] + r'\quad(' + want + ')' or abs(d / bref[0].err * 10 % 1 - .5) < 1e-6, lambda: '%s want %s' % (s, want))


@contract('C16', 'limit_tag', [T + 'ParamLimit.__init__', T + 'ParamLimit.limitTag', T + 'ParamLimit.limitType'], bounded=False)
def _(c):
    """a limit keeps its ends and its kind"""
    t = c.module('getdist.types')
    a, b, tag = c.real('a'), c.real('b'), c.option('tag', ['two', '>', '<', 'none'])
    l = t.ParamLimit([a, b], tag)
    c.check('ends', c.And(l.lower == a, l.upper == b))
    c.check('tag', l.limitTag() == tag)
    c.check('type', l.limitType() == {'two': 'two tail', '>': 'one tail upper limit', '<': 'one tail lower limit', 'none': 'none'}[tag])
    c.check('flags', (l.twotail, l.onetail_upper, l.onetail_lower) == (tag == 'two', tag == '>', tag == '<'))


def cells(c, line, f):
    c.check('end_of_row', line.endswith(f.endofrow))
    return [x.strip() for x in line[:-len(f.endofrow)].split('&')]


@contract('C16', 'table', [R + x for x in ('__init__', 'addFullTableRow', 'paramResultsTex', 'paramResultTex', 'paramLabelColumn', 'addHeaderRow', 'addTitlesRow', 'tableTex', 'write')]
          + [T + 'TableFormatter.textAsColumn', T + 'MargeStats.getColumnLabels', T + 'BestFit.texValues', T + 'BestFit.getColumnLabels'], symbolic=False, runs=500)
def _(c):
    """every parameter is in the table once, with its own values under the right heading"""
    t = c.module('getdist.types')
    n, nres, ncol, limit = c.int('n', 1, 7), c.int('nres', 1, 3), c.int('ncol', 1, 3), c.option('limit', [1, 2])
    best = c.flag('best')
    kind = c.option('kind', ['marge', 'marge', 'marge', 'bestfit'])
    res, refs = [], []
    for k in range(nres):
        m, ref = results(c, t, n, tag='r' * k, best=best or kind == 'bestfit')
        if kind == 'bestfit':
            b = t.BestFit()
            for p in m.names:
                b.names.append(p)
            m = b
        elif k and c.flag('missing%d' % k):
            m.names = [p for p in m.names if p.name != 'p1']
            ref = [q for q in ref if q.name != 'p1']
        res.append(m)
        refs.append({q.name: q for q in ref})
    f = getattr(t, c.option('formatter', ['TableFormatter', 'OpenTableFormatter', 'NoLineTableFormatter']))()
    titles = ['run_%d' % k for k in range(nres)] if c.flag('titles') else None
    kw = {}
    if c.flag('number'):
        kw['numFormatter'] = t.NumberFormatter(5, err_sf=3)
    names = ['p%d' % i for i in range(n)]
    if c.flag('select'):
        kw['paramList'] = ['p2', 'p0', 'zz']
        names = [x for x in names if x in kw['paramList']]
        if not names:
            raise Skip
    if c.flag('blocks'):
        kw['blockEndParams'] = ['p0']
    tb = t.ResultTable(ncol, res[0] if nres == 1 and c.flag('single') else res, limit=limit, titles=titles, formatter=f, **kw)
    per = 1 if kind == 'bestfit' or not best else 2
    width = ncol * (1 + nres * per)
    rows = [l for l in tb.lines if '&' in l and 'multicolumn' not in l]
    head = cells(c, rows[0], f)
    one = ['Parameter'] + (['Best fit'] if kind == 'bestfit' else (['Best fit'] if best else []) + [r'%d\%% limits' % (68 if limit == 1 else 95)]) * nres
    c.check('header', [h.replace('\\bf', '').strip() for h in head] == one * ncol, lambda: '%s' % head)
    depth = -(-len(names) // ncol)
    c.check('rows', len(rows) == depth + 1, lambda: '%d' % len(rows))
    seen = []
    for i, l in enumerate(rows[1:]):
        cs = cells(c, l, f)
        c.check('width', len(cs) == width, lambda: '%d cells want %d: %s' % (len(cs), width, l))
        for col in range(ncol):
            at = col * depth + i
            grp = cs[col * (1 + nres * per):(col + 1) * (1 + nres * per)]
            if at >= len(names):
                c.check('blank', not any(grp))
                continue
            name = names[at]
            q0 = refs[0][name]
            lab = '$%s$' % q0.label
            c.check('label', re.sub(r'\s+\$', '$', grp[0]) == (lab if q0.derived else r'{\boldmath%s}' % lab) or re.sub(r'\s', '', grp[0]) == re.sub(r'\s', '', lab if q0.derived else r'{\boldmath%s}' % lab), lambda: '%s for %s' % (grp[0], lab))
            seen.append(name)
            for k in range(nres):
                got = grp[1 + k * per:1 + (k + 1) * per]
                if name not in refs[k]:
                    c.check('missing', not any(got))
                    continue
                q = refs[k][name]
                if kind == 'bestfit':
                    c.check('best_fit', near(got[0].replace('$', ''), 0, q.best, 4), lambda: '%s %r' % (got, q.best))
                    continue
                want = res[k].texValues(tb.format, name, limit=limit)
                strip = lambda x: re.sub(r'\s+\$$', '$', x).replace('$', '').strip()
                c.check('cell', strip(got[-1]) == want[0].strip(), lambda: '%s want %s' % (got, want))
                if per == 2:
                    c.check('best_cell', strip(got[0]) == want[1].strip())
                check_tex(c, strip(got[-1]), q, limit, f)
                c.check('math', got[-1] == f.noConstraint or (got[-1][0] == '$' and got[-1][-1] == '$'))
                if kw.get('numFormatter') and q.lims[limit - 1][2] == 'two':
                    z = t.TableFormatter()
                    z.numberFormatter = t.NumberFormatter(5, err_sf=3)
                    c.check('formatter', strip(got[-1]) == res[k].texValues(z, name, limit=limit)[0].strip())
    c.check('all', sorted(seen) == sorted(names))
    c.check('tabular', tb.lines[0].startswith('\\begin{tabular}') and tb.lines[-1] == '\\end{tabular}' and tb.tableTex() == '\n'.join(tb.lines))
    c.check('spec', len(re.findall(r'\b[lc]\b', tb.lines[0].split('} {')[-1])) == width)
    if titles:
        tl = [l for l in tb.lines if 'multicolumn' in l]
        c.check('titles', len(tl) == 1 and [re.sub(r'.*\\bf (.*)\}', r'\1', x) for x in cells(c, tl[0], f)] == ([''] + [x.replace('_', '{\\textunderscore}') for x in titles]) * ncol, lambda: '%s' % tl)
    doc = tb.tableTex(document=True, latex_preamble='PRE')
    c.check('document', '\n'.join(tb.lines) in doc and 'PRE' in doc and doc.startswith('\\documentclass') and doc.endswith('\\end{document}'))
    with tempfile.TemporaryDirectory() as d:
        tb.write(d + '/x.tex')
        c.check('written', open(d + '/x.tex', encoding='utf-8').read() == tb.tableTex())


def r7(x):
    return float('%.7E' % x)


@contract('C16', 'marge_file', [T + 'MargeStats.__str__', T + 'MargeStats.loadFromFile', T + 'MargeStats.headerLine', 'getdist.paramnames:ParamList.saveAsText'], symbolic=False, runs=400)
def _(c):
    """marginalised limits written to a file read back with every name, number, limit kind and label"""
    t = c.module('getdist.types')
    m, ref = results(c, t, c.int('n', 1, 5), names=['a', 'b%d', 'a_very_long_parameter_name_%d', 'x.y%d', 'é%d'])
    for i, q in enumerate(ref):
        if c.flag('nolabel%d' % i):
            m.names[i].label = q.label = ''
        if c.flag('big%d' % i):
            m.names[i].mean = q.mean = -q.mean * 1e30
    m.limits = c.option('contours', [[0.68, 0.95], [0.683, 0.9545]])
    with tempfile.TemporaryDirectory() as d:
        m.saveAsText(d + '/x.margestats')
        e = t.MargeStats(d + '/x.margestats')
    c.check('limits', e.limits == m.limits)
    c.check('names', e.list() == [q.name for q in ref], lambda: '%s' % e.list())
    for p, q in zip(e.names, ref):
        c.check('values', p.mean == r7(q.mean) and p.err == r7(q.err), lambda: '%s' % p.mean)
        c.check('label', p.label == q.label, lambda: '%r want %r' % (p.label, q.label))
        c.check('derived', bool(p.isDerived) == q.derived)
        c.check('count', len(p.limits) == 2)
        for l, w in zip(p.limits, q.lims):
            c.check('limit', (l.lower, l.upper, l.limitTag()) == (r7(w[0]), r7(w[1]), w[2]))


@contract('C16', 'best_fit_file', [T + 'BestFit.loadFromFile', T + 'BestFit.getParamDict', T + 'BestFit.sortedChiSquareds', T + 'BestFit.chiSquareForKindName'], symbolic=False, runs=400)
def _(c):
    """a best-fit file gives every parameter, flag, label and likelihood term as written in it"""
    t = c.module('getdist.types')
    g = {k: [('%s%d' % (k, i), number(c, '%s%d' % (k, i)), c.option('lab%s%d' % (k, i), ['x_1', r'\Omega h^2', 'a b c'])) for i in range(c.int('n' + k, 0 if k != 'v' else 1, 3))] for k in 'vfd'}
    chi = [(c.option('kind%d' % i, ['CMB', 'BAO', '']), 'like%d' % i, c.option('tag%d' % i, [None, 'plik', 'v1']), number(c, 'chi%d' % i)) for i in range(c.int('nchi', 0, 4))]
    L = number(c, 'like')
    out = []
    weighted = c.flag('weight')
    if weighted:
        out.append(' weight    =   3.0')
    out.append(' -log(Like) =   %.6f' % L)
    if c.flag('chi2'):
        out.append('  chi-sq    =   %.6f' % (2 * L))
    out.append('')
    k = 0
    for blk in 'vfd':
        for nm, v, lab in g[blk]:
            k += 1
            out.append('%5d  %.7E   %-20s %s' % (k, v, nm, lab))
        out.append('')
    if chi:
        out.append(' -log(Like)     chi-sq   data')
        for kind, nm, tag, v in chi:
            out.append(' %.3f  %.3f   %s%s%s' % (v / 2, v, kind + ': ' if kind else '', tag + ' = ' if tag else '', nm))
    with tempfile.TemporaryDirectory() as d:
        with open(d + '/x.minimum', 'w') as f:
            f.write('\n'.join(out) + '\n')
        fixed = c.flag('fixed')
        b = t.BestFit(d + '/x.minimum', want_fixed=fixed)
    want = g['v'] + (g['f'] if fixed else []) + g['d']
    c.check('like', b.logLike == float('%.6f' % L))
    c.check('weight', not weighted or b.weight == 3)
    c.check('names', b.list() == [w[0] for w in want], lambda: '%s' % b.list())
    for p, (nm, v, lab) in zip(b.names, want):
        c.check('value', p.best_fit == r7(v) and p.label == lab)
        if nm[0] != 'f':
            c.check('derived', bool(p.isDerived) == (nm[0] == 'd'))
        c.check('is_fixed', bool(p.isFixed) == (nm[0] == 'f'))
    dd = b.getParamDict()
    c.check('dict', all(dd[w[0]] == r7(w[1]) for w in want) and dd['loglike'] == b.logLike and set(dd) == {w[0] for w in want} | {'weight', 'loglike'})
    c.check('dict_no_derived', not any(w[0] in b.getParamDict(include_derived=False) for w in g['d']) and all(w[0] in b.getParamDict(include_derived=False) for w in g['v']))
    c.check('chi', [(k, getattr(x, 'name', '?'), getattr(x, 'tag', '?'), getattr(x, 'chisq', '?')) for k, x in b.chiSquareds] == [(k, n, tg, float('%.3f' % v)) for k, n, tg, v in chi], lambda: '%s' % [(k, x.name, x.tag, x.chisq) for k, x in b.chiSquareds])
    for k, n, tg, v in chi:
        c.check('chi_of', b.chiSquareForKindName(k, n) == float('%.3f' % v))
    c.check('chi_absent', b.chiSquareForKindName('CMB', 'nope') is None)
    srt = b.sortedChiSquareds()
    c.check('sorted', [k for k, _ in srt] == sorted({x[0] for x in chi}) and [v.name for _, vs in srt for v in vs] == [x[1] for kk in sorted({x[0] for x in chi}) for x in chi if x[0] == kk])


@contract('C16', 'like_file', [T + 'LikeStats.__str__', T + 'LikeStats.likeSummary', T + 'LikeStats.loadFromFile', 'getdist.mcsamples:MCSamples.getLikeStats'], symbolic=False, runs=60)
def _(c):
    t = c.module('getdist.types')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    n, p = 60, c.int('p', 1, 4)
    x = r.randn(n, p) * 10 ** r.uniform(-3, 3, p)
    L = c.option('offset', [0.0, 1000.5, -30.25]) + r.rand(n) * c.option('spread', [5, 60])
    w = r.randint(1, 5, n) * 1.0
    s = mc(c, x, w, L, names=['q%d' % i for i in range(p)])
    ncont = c.option('levels', [3, 2, 1])
    s.updateSettings({'contours': ' '.join(['0.5', '0.8', '0.95'][:ncont])})
    k = s.getLikeStats()
    c.check('best', k.logLike_sample == L.min() and all(par.bestfit_sample == x[L.argmin(), j] for j, par in enumerate(k.names)))
    c.check('mean', np.isclose(k.meanLogLike, (w * L).sum() / w.sum(), rtol=1e-10))
    c.check('log_mean', np.isclose(k.logMeanLike, -np.log((w * np.exp(-(L - L.min()))).sum() / w.sum()) + L.min(), rtol=1e-10))
    if k.logMeanInvLike is not None:
        c.check('log_mean_inv', np.isclose(k.logMeanInvLike, np.log((w * np.exp(L - L.min())).sum() / w.sum()) + L.min(), rtol=1e-10))
    c.check('complexity', np.isclose(k.complexity, 2 * ((w * L).sum() / w.sum() - L.min()), rtol=1e-8))
    ix = L.argsort(kind='stable')
    cum = w[ix].cumsum()
    for q, cont in enumerate([0.5, 0.8 if ncont > 1 else 0.5]):
        m = max(1, int(np.searchsorted(cum, w.sum() * cont)))
        for j, par in enumerate(k.names):
            c.check('region', par.ND_limit_bot[q] == x[ix[:m], j].min() and par.ND_limit_top[q] == x[ix[:m], j].max())
    with tempfile.TemporaryDirectory() as d:
        k.saveAsText(d + '/x.likestats')
        e = t.LikeStats(d + '/x.likestats')
        text = open(d + '/x.likestats').read()
    c.check('file', all(getattr(e, a, '?') == float('%f' % getattr(k, a)) for a in ('logLike_sample', 'meanLogLike', 'logMeanLike')))
    c.check('file_inv', getattr(e, 'logMeanInvLike', '?') == (None if k.logMeanInvLike is None else float('%f' % k.logMeanInvLike)))
    rows = text.split('parameter')[1].split('\n')[1:]
    for j, par in enumerate(k.names):
        f = rows[j].split()
        c.check('rows', f[0] == par.name and [float(v) for v in f[1:6]] == [r7(v) for v in (par.bestfit_sample, par.ND_limit_bot[0], par.ND_limit_top[0], par.ND_limit_bot[1], par.ND_limit_top[1])])


@contract('C16', 'samples_latex', ['getdist.mcsamples:MCSamples.' + x for x in ('getLatex', 'getInlineLatex', 'getTable', 'getMargeStats', '_setMargeLimits')], symbolic=False, runs=12)
def _(c):
    """each parameter's limits appear with its label; a posterior cut off by a hard limit gives a one-sided limit on the other side"""
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    n = 4000
    x = np.stack([r.randn(n) * .3 + 5, r.exponential(1, n), 10 - r.exponential(1, n), r.rand(n), r.randn(n) * 1e-6 + 3e-5], axis=1)
    names, labels = ['g', 'lo', 'hi', 'flat', 'small'], ['g', 'l', 'h', 'f', r's_\mu']
    order = c._in('order', lambda: c.rng.sample(range(5), 5))
    s = mc(c, x[:, order], names=[names[i] for i in order], labels=[labels[i] for i in order], ranges={'lo': (0, None), 'hi': (None, 10), 'flat': (0, 1)})
    limit = c.option('limit', [1, 2])
    labs, texs = s.getLatex(limit=limit)
    c.check('labels', labs == [labels[i] for i in order])
    m = s.getMargeStats()
    tags = {'g': 'two', 'small': 'two', 'lo': '>', 'hi': '<', 'flat': 'none'}
    for nm, tex in zip([names[i] for i in order], texs):
        p = m.parWithName(nm)
        lim = p.limits[limit - 1]
        c.check('kind', lim.limitTag() == tags[nm], lambda: '%s %s' % (nm, lim.limitTag()))
        v = x[:, names.index(nm)]
        q = P(nm, '', False, v.mean(), v.std(), [(l.lower, l.upper, l.limitTag()) for l in p.limits], None)
        c.check('moments', np.isclose(p.mean, v.mean()) and np.isclose(p.err, v.std()))
        check_tex(c, tex, q, limit, None)
        lab = labels[names.index(nm)]
        c.check('inline', s.getInlineLatex(nm, limit=limit) == s.getLatex(nm, limit=limit) == lab + (' ' if tags[nm] in '<>' else ' = ') + tex)
        cont = s.contours[limit - 1]
        if tags[nm] == '>':
            c.check('upper', abs((v < lim.upper).mean() - cont) < .01 and lim.lower <= v.min() + .05)
        elif tags[nm] == '<':
            c.check('lower', abs((v > lim.lower).mean() - cont) < .01)
        elif tags[nm] == 'two':
            c.check('inside', abs(((v > lim.lower) & (v < lim.upper)).mean() - cont) < .02)
    sel = ['hi', 'absent', 'g']
    labs, t2 = s.getLatex(sel, limit=limit)
    every = dict(zip([names[i] for i in order], texs))
    c.check('selected', labs == ['h', None, 'g'] and t2 == [every['hi'], None, every['g']])
    c.check('absent', c.raises(ValueError, lambda: s.getInlineLatex('absent')))
    e3 = s.getLatex(['g'], limit=1, err_sig_figs=4)[1][0]
    d = re.findall(NUM, e3)
    c.check('figures', len(d[1].lstrip('+-0.').replace('.', '')) == 4, lambda: e3)
    tb = s.getTable(limit=limit)
    c.check('table', all(t.replace(' ', '') in tb.tableTex().replace(' ', '') for t in texs))
