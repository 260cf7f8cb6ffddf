"""C12: parameter names resolve uniquely and round-trip through files"""
import fnmatch
import os
import tempfile
import numpy as np
from pyvc.api import contract
from contracts.c09_kde import mc

P = 'getdist.paramnames:'
L = P + 'ParamList.'
NAMES = ['a', 'b', 'aa', 'ab', 'omegabh2', 'ns', 'n_s', 'H0', 'A.x', 'A.y', 'logA', 'theta[0]', 'x-1', 'é', 'tau', 'ta', 'b2', 'H']
LABELS = ['', 'x', r'\Omega_b h^2', r'{\rm{d}} n / d \ln k', 'a b  c', 'x_{1}', r'\hat{é}', '5', 'a*', '$']
COMMENTS = ['', 'a comment', 'with # hash', 'x=1']


class Ref:
    def __init__(self, name, label, comment, derived, renames):
        self.name, self.label, self.comment, self.derived, self.renames = name, label, comment, derived, list(renames)


def draw(c, lo=1, hi=7):
    """distinct names, some with aliases (all names and aliases distinct)"""
    pool = list(NAMES)
    c.rng.shuffle(pool)
    pool = c._in('pool', lambda: pool)
    n = c.int('n', lo, hi)
    pool = list(pool)
    refs = []
    for i in range(n):
        name = pool.pop()
        k = c.option('aliases%d' % i, [0, 0, 1, 2])
        refs.append(Ref(name, c.option('label%d' % i, LABELS), c.option('comment%d' % i, COMMENTS), c.flag('derived%d' % i), [pool.pop() for _ in range(k)] if len(pool) > 6 else []))
    return refs, pool


def build(c, refs, tup=False):
    pn = c.module('getdist.paramnames')
    p = pn.ParamNames()
    for r in refs:
        i = pn.ParamInfo(name=r.name, label=r.label, comment=r.comment, derived=r.derived, renames=tuple(r.renames) if tup else list(r.renames))
        i.label = r.label
        p.names.append(i)
    return p


def same(c, tag, p, refs, aliases=True, comments=True):
    c.check(tag + '_names', [i.name for i in p.names] == [r.name for r in refs] and p.list() == [r.name for r in refs], lambda: '%s %s' % (p.list(), [r.name for r in refs]))
    c.check(tag + '_labels', [i.label for i in p.names] == [r.label for r in refs] and p.labels() == [r.label for r in refs], lambda: '%s' % p.labels())
    c.check(tag + '_derived', [bool(i.isDerived) for i in p.names] == [r.derived for r in refs])
    c.check(tag + '_counts', p.numParams() == len(refs) and p.numDerived() == sum(r.derived for r in refs) and p.numNonDerived() == sum(not r.derived for r in refs))
    c.check(tag + '_lists', p.getDerivedNames() == [r.name for r in refs if r.derived] and p.getRunningNames() == [r.name for r in refs if not r.derived])
    if comments:
        c.check(tag + '_comments', [i.comment for i in p.names] == [r.comment for r in refs])
    if aliases:
        c.check(tag + '_aliases', [sorted(i.renames) for i in p.names] == [sorted(r.renames) for r in refs])


def lookups(c, p, refs, absent):
    for k, r in enumerate(refs):
        for nm in [r.name] + r.renames:
            c.check('found', p.parWithName(nm) is p.names[k], nm)
            c.check('found_error', p.parWithName(nm, error=True) is p.names[k])
        c.check('number', p.numberOfName(r.name) == k and p.hasParam(r.name))
        c.check('name', p.name(k) == r.name and p.name(k, tag_derived=True) == r.name + ('*' if r.derived else ''))
    for nm in absent:
        c.check('absent', p.parWithName(nm) is None and p.numberOfName(nm) == -1 and not p.hasParam(nm), nm)
        c.check('absent_error', c.raises(Exception, lambda: p.parWithName(nm, error=True)))
    for bad in (1, None):
        c.check('not_a_name', c.raises(ValueError, lambda: p.parWithName(bad)) and c.raises(ValueError, lambda: p.numberOfName(bad)))


@contract('C12', 'lookup', [L + 'parWithName', L + 'numberOfName', L + 'hasParam', L + 'name', L + 'getRenames'], symbolic=False, runs=500)
def _(c):
    refs, rest = draw(c, 0)
    p = build(c, refs, c.flag('tuples'))
    same(c, 'built', p, refs)
    lookups(c, p, refs, rest[:4] + ['', 'zzz'])
    want = {r.name: r.renames for r in refs if r.renames}
    c.check('renames', {k: list(v) for k, v in p.getRenames().items()} == want)
    c.check('renames_all', {k: list(v) for k, v in p.getRenames(keep_empty=True).items()} == {r.name: r.renames for r in refs})


@contract('C12', 'extra_aliases', [L + 'parWithName', L + 'parsWithNames', P + 'mergeRenames', L + 'updateRenames'], symbolic=False, runs=400)
def _(c):
    """a dictionary of renames applies in both directions, and merging it adds exactly those aliases"""
    pn = c.module('getdist.paramnames')
    refs, rest = draw(c, 1, 5)
    p = build(c, refs)
    k = c.int('k', 0, len(refs) - 1)
    style = c.option('style', [list, tuple, lambda x: x[0]])
    new = rest[:2] if style in (list, tuple) else rest[:1]
    ren = {refs[k].name: style(new)}
    back = {new[0]: style([refs[k].name])}
    for nm in new:
        c.check('forward', p.parWithName(nm, renames=ren) is p.names[k])
    c.check('backward', p.parWithName(new[0], renames=back) is p.names[k])
    c.check('other', p.parWithName(rest[2], renames=ren) is None)
    for j, r in enumerate(refs):
        c.check('still', p.parWithName(r.name, renames=ren) is p.names[j])
    got = p.parsWithNames([r.name for r in refs] + new, renames=ren)
    c.check('list', len(got) == len(refs) + len(new) and all(got[j] is p.names[j] for j in range(len(refs))) and all(g is p.names[k] for g in got[len(refs):]))
    c.check('unchanged', [sorted(i.renames) for i in p.names] == [sorted(r.renames) for r in refs] and list(ren) == [refs[k].name])
    # merging
    extra = {rest[2]: [rest[3]]}
    d = dict(ren)
    d.update(extra)
    if c.flag('by_alias') and refs[k].renames:
        d = {refs[k].renames[0]: list(new)}
        d.update(extra)
    p.updateRenames(d)
    refs[k].renames += list(new)
    same(c, 'merged', p, refs)
    lookups(c, p, refs, [rest[2], rest[3]])
    p.updateRenames(d)
    same(c, 'merged_twice', p, refs)
    m = pn.mergeRenames({'A': ['B'], 'C': []}, {'B': 'D', 'E': ('F',)}, {'X': None})
    c.check('merge', {q: sorted(v) for q, v in m.items()} == {'A': ['B', 'D'], 'E': ['F']})
    m = pn.mergeRenames({'A': ['B'], 'C': []}, {'B': 'D', 'E': 'F'}, keep_names_1st=True)
    c.check('merge_keep', {q: sorted(v) for q, v in m.items()} == {'A': ['B', 'D'], 'C': [], 'E': ['F']})
    c.check('kwargs', c.raises(ValueError, lambda: pn.mergeRenames({}, keep=True)))
    # several dictionaries that together make groups of names
    dicts, groups = [{} for _ in range(c.int('ndict', 2, 4))], []
    for g in range(c.int('groups', 1, 3)):
        m = c.int('size%d' % g, 2, 6)
        mem = ['%s%d' % ('uvw'[g], q) for q in range(m)]
        first = len(dicts)
        for q in c._in('order%d' % g, lambda: tuple(c.rng.sample(range(1, m), m - 1))):
            i = c.rng.randrange(len(dicts))
            first = min(first, i)
            dicts[i].setdefault(mem[q - 1], []).append(mem[q])
        groups.append((set(mem), first))
    given = repr(dicts)
    got = pn.mergeRenames(*dicts)
    c.check('groups', sorted(sorted({q} | set(v)) for q, v in got.items()) == sorted(sorted(g) for g, i in groups), lambda: '%s from %s' % (got, dicts))
    c.check('group_keys', all(q not in v and len(v) == len(set(v)) and any(q in dicts[i] and q in g for g, i in groups) for q, v in got.items()))
    c.check('dictionaries', repr(dicts) == given)


@contract('C12', 'patterns', [L + 'parsWithNames', L + 'getMatches'], symbolic=False, runs=300)
def _(c):
    refs, rest = draw(c, 1)
    p = build(c, refs)
    names = [r.name for r in refs]
    q = [c.option('pattern%d' % i, ['a*', '?', '*', 'n?s', 'A.*', '*2', 'zz*'] + names + rest[:1]) for i in range(3)]
    want = []
    for t in q:
        if '*' in t or '?' in t:
            want += [p.names[k] for k, nm in enumerate(names) if fnmatch.fnmatchcase(nm, t)]
        else:
            want.append(p.names[names.index(t)] if t in names else None)
    got = p.parsWithNames(q)
    c.check('expanded', len(got) == len(want) and all(a is b for a, b in zip(got, want)), lambda: '%s' % q)
    c.check('single', p.parsWithNames(q[0])[:1] == p.parsWithNames([q[0]])[:1])
    if None in want:
        c.check('error', c.raises(Exception, lambda: p.parsWithNames(q, error=True)))
        e = [w is not None or '*' in t for t, w in zip(q, [p.parWithName(t) if not ('*' in t or '?' in t) else 1 for t in q])]
        c.check('error_list', [id(x) for x in p.parsWithNames(q, error=e)] == [id(x) for x in want])
    else:
        c.check('no_error', len(p.parsWithNames(q, error=True)) == len(want))
    i = p.names[0]
    c.check('info', p.parsWithNames([i])[0] is i)
    c.check('strings', p.getMatches('a*', strings=True) == [nm for nm in names if nm.startswith('a')])


@contract('C12', 'edits', [L + 'deleteIndices', L + 'filteredCopy', L + 'addDerived', L + 'setLabels', L + 'setLabelsAndDerivedFromParamNames', L + 'setWithNames', L + 'setDefault'],
          symbolic=False, runs=500)
def _(c):
    """index, label, derived flag and aliases stay with their parameter under any sequence of edits"""
    pn = c.module('getdist.paramnames')
    refs, rest = draw(c, 1)
    p = build(c, refs)
    for step in range(4):
        op = c.option('op%d' % step, ['delete', 'filter', 'filter_names', 'add', 'labels', 'labels_from', 'derived_from'])
        if op == 'delete':
            ix = [k for k in range(len(refs)) if c.flag('d%d_%d' % (step, k))]
            given = list(ix)
            c.rng.shuffle(given)
            p.deleteIndices(c.option('as%d' % step, [list, tuple, set, np.array])(given) if given else given)
            refs = [r for k, r in enumerate(refs) if k not in ix]
        elif op in ('filter', 'filter_names'):
            keep = [r.name for k, r in enumerate(refs) if c.flag('d%d_%d' % (step, k))]
            arg = keep + rest[:1]
            if op == 'filter_names':
                arg = pn.ParamNames(names=list(reversed(arg)))
            before = p.list()
            q = p.filteredCopy(arg)
            c.check('original', p.list() == before and type(q) is type(p))
            p, refs = q, [r for r in refs if r.name in keep]
        elif op == 'add' and rest:
            nm = rest.pop()
            dv = c.option('der%d' % step, [None, True, False])
            kw = {} if dv is None else {'derived': dv}
            lab = c.option('lab%d' % step, ['', r'\alpha'])
            i = p.addDerived(nm, label=lab, comment='cc', **kw)
            c.check('added', i is p.names[-1])
            refs = refs + [Ref(nm, lab or nm, 'cc', dv is not False, [])]
        elif op == 'labels':
            labs = ['L%d' % k for k in range(len(refs))]
            p.setLabels(labs)
            for r, l in zip(refs, labs):
                r.label = l
        elif op in ('labels_from', 'derived_from') and refs:
            o = pn.ParamNames(names=[rest[0]] if rest else [])
            for k, r in enumerate(refs):
                if c.flag('l%d_%d' % (step, k)):
                    o.names.insert(0, pn.ParamInfo(name=r.name, label='new%d' % k, derived=not r.derived))
            if c.flag('file%d' % step):
                with tempfile.TemporaryDirectory() as d:
                    o.saveAsText(d + '/x.paramnames')
                    (p.setLabelsFromParamNames if op == 'labels_from' else p.setLabelsAndDerivedFromParamNames)(d + '/x.paramnames')
            else:
                (p.setLabelsFromParamNames if op == 'labels_from' else p.setLabelsAndDerivedFromParamNames)(o)
            for k, r in enumerate(refs):
                if c.flag('l%d_%d' % (step, k)):
                    r.label = 'new%d' % k
                    if op == 'derived_from':
                        r.derived = not r.derived
        same(c, op, p, refs)
        lookups(c, p, refs, rest[:3])


@contract('C12', 'file_round_trip', [L + 'saveAsText', P + 'ParamNames.loadFromFile', P + 'ParamInfo.string', P + 'ParamInfo.setFromString', P + 'ParamNames.saveKeyWords', P + 'ParamNames.loadFromKeyWords'],
          symbolic=False, runs=400)
def _(c):
    pn = c.module('getdist.paramnames')
    refs, rest = draw(c, 0)
    p = build(c, refs)
    for r in refs:
        r.renames = []
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, c.option('file', ['x.paramnames', 'x.y.paramnames']))
        p.saveAsText(fn)
        raw = open(fn, encoding='utf-8').read()
        c.check('lines', raw.count('\n') == len(refs))
        if c.flag('blank'):
            open(fn, 'w', encoding='utf-8').write('\n  ' + raw.replace('\n', '\n\n'))
        if c.flag('bom'):
            t = open(fn, encoding='utf-8').read()
            open(fn, 'w', encoding='utf-8-sig').write(t)
        q = pn.ParamNames(fn)
        same(c, 'file', q, refs)
        c.check('origin', q.filenameLoadedFrom == os.path.basename(fn))
        q.saveAsText(fn)
        same(c, 'again', pn.ParamNames(fn), refs)
        c.check('text', open(fn, encoding='utf-8').read() == raw or not refs or any(not r.label for r in refs))
        lab = pn.ParamNames(names=[r.name for r in refs] + rest[:1], setParamNameFile=fn)
        c.check('override', [i.label for i in lab.names] == [r.label for r in refs] + ([''] if rest else []) and not any(i.isDerived for i in lab.names))
        bad = os.path.join(d, 'x.txt')
        open(bad, 'w').write('a a\n')
        c.check('extension', c.raises(ValueError, lambda: pn.ParamNames(bad)))

    class K(dict):
        def keyWord_int(self, k):
            return int(self[k][0])

        def keyWordAndComment(self, k):
            return self[k]

        def setKeyWord_int(self, k, v):
            self[k] = [str(v), '']

        def setKeyWord(self, k, v, comment):
            self[k] = [v, comment]
    k = K()
    p.saveKeyWords(k)
    q = pn.ParamNames()
    c.check('keyword_count', q.loadFromKeyWords(k) == len(refs))
    same(c, 'keywords', q, refs)
    for a in k:
        if not k[a][1]:
            k[a][1] = 'NULL'
    q = pn.ParamNames()
    q.loadFromKeyWords(k)
    same(c, 'keywords_without_comment', q, refs)


@contract('C12', 'construct', [P + 'ParamInfo.__init__', P + 'ParamInfo.setName', P + 'ParamInfo.setFromString', P + 'ParamInfo.nameEquals', L + '__init__', L + 'setDefault', L + 'setWithNames', L + 'setLabels'], symbolic=False, runs=300)
def _(c):
    pn = c.module('getdist.paramnames')
    refs, rest = draw(c, 1)
    names = [r.name for r in refs]
    p = pn.ParamNames(names=[r.name + ('*' if r.derived else '') for r in refs], labels=[r.label for r in refs])
    for r in refs:
        r.renames, r.comment = [], ''
    same(c, 'strings', p, refs)
    n = c.int('default', 1, 12)
    p = pn.ParamNames(default=n)
    same(c, 'default', p, [Ref('param%d' % (i + 1), 'p_{%d}' % (i + 1), '', False, []) for i in range(n)])
    for bad in ('a b', 'a\tb', 'a?', 'a*b', ' '):
        c.check('rejected', c.raises(ValueError, lambda: pn.ParamInfo(name=bad)), bad)
    c.check('rejected_type', c.raises(ValueError, lambda: pn.ParamInfo(name=3)))
    i, j = pn.ParamInfo(name=names[0]), pn.ParamInfo(name=rest[0])
    c.check('equals', i.nameEquals(names[0]) and i.nameEquals(pn.ParamInfo(name=names[0], label='z')) and not i.nameEquals(rest[0]) and not i.nameEquals(j))
    i = pn.ParamInfo('%s%s \t %s   # %s ' % (names[0], '*' if refs[0].derived else '', r'x y', 'com # ment'))
    c.check('line', (i.name, i.isDerived, i.label, i.comment) == (names[0], refs[0].derived, 'x y', 'com # ment'))
    i = pn.ParamInfo(names[0] + ' !Omega')
    c.check('escape', i.label == '\\Omega')
    c.check('latex', i.latexLabel() == '$\\Omega$' and i.getLabel() == '\\Omega')
    i = pn.ParamInfo(names[0])
    c.check('unlabelled', i.getLabel() == names[0] and i.latexLabel() == names[0] and i.label == '')


@contract('C12', 'sample_sets', ['getdist.chains:Chains.setParamNames', 'getdist.chains:Chains._getParamIndices', 'getdist.chains:Chains._parAndNumber', 'getdist.chains:Chains.updateRenames', 'getdist.mcsamples:MCSamples.parLabel',
                                 'getdist.chains:ParSamples', 'getdist.chains:Chains.getParams', 'getdist.chains:Chains.getParamSampleDict'], symbolic=False, runs=120)
def _(c):
    """a sample set resolves names, indices and ParamInfo to the same column"""
    refs, rest = draw(c, 1)
    for k, r in enumerate(refs):
        r.name = ''.join(ch for ch in r.name if ch.isalnum()) + '_%d' % k
    n = len(refs)
    x = np.arange(5.0 * n).reshape(5, n) ** 1.3
    pn = build(c, refs)
    src = c.option('source', ['object', 'list'])
    ll = None if c.flag('nolike') else np.array([3.0, 1, 0.5, 7, 2])
    s = mc(c, x.copy(), loglikes=ll, names=pn if src == 'object' else [r.name for r in refs], labels=[r.label for r in refs])
    if src == 'list' and c.flag('renames'):
        s.updateRenames({r.name: r.renames for r in refs})
        c.check('aliases', {k: sorted(v) for k, v in s.getRenames().items()} == {r.name: sorted(r.renames) for r in refs if r.renames})
        for k, r in enumerate(refs):
            c.check('by alias', all(s.paramNames.parWithName(a) is s.paramNames.names[k] for a in r.renames))
    c.check('copied', s.paramNames is not pn)
    c.check('index', s.index == {r.name: k for k, r in enumerate(refs)})
    par = s.getParams()
    for k, r in enumerate(refs):
        i, info = s._parAndNumber(r.name)
        c.check('by_name', i == k and info is s.paramNames.names[k])
        i, info = s._parAndNumber(k)
        c.check('by_index', i == k and info is s.paramNames.names[k])
        i, info = s._parAndNumber(s.paramNames.names[k])
        c.check('by_info', i == k)
        c.check('column', np.array_equal(s[r.name], x[:, k]) and np.array_equal(getattr(par, r.name), x[:, k]))
        c.check('label', s.parLabel(k) == r.label and s.parLabel(r.name) == r.label and s.parName(k) == r.name)
    for der in (True, False):
        rows = [s.getParamSampleDict(2, want_derived=der)]
        if ll is not None:
            rows.append(s.getParamBestFitDict(best_sample=True, want_derived=der))
        for row in rows:
            want = {r.name: x[2, k] for k, r in enumerate(refs) if der or src == 'list' or not r.derived}
            want['weight'] = 1
            if ll is not None:
                want['loglike'] = 0.5
            c.check('row', row == want, lambda: '%s %s' % (row, want))
    c.check('unknown', s._parAndNumber(rest[0]) == (None, None))
    c.check('weight', np.array_equal(s['weight'], np.ones(5)) and (s['loglike'] is None if ll is None else np.array_equal(s['loglike'], ll)))
    c.check('no such', c.raises(Exception, lambda: s['not a parameter']))
    # other names for the same columns
    other = ['n%d' % k for k in range(n)]
    c.rng.shuffle(other)
    s.setParamNames(c.option('again', [list, tuple])(other))
    for k, a in enumerate(other):
        c.check('renamed', s._parAndNumber(a)[0] == k and s.index[a] == k and np.array_equal(s[a], x[:, k]) and s.paramNames.numberOfName(a) == k)
    c.check('renamed_only', all(s._parAndNumber(r.name) == (None, None) for r in refs if r.name not in other))
    c.check('size', c.raises(Exception, lambda: mc(c, x.copy(), names=[r.name for r in refs] + rest[:1])))
    # names with dots are vectors of objects
    tree = list(c._in('tree', lambda: tuple(c.rng.sample(['a', 'a.b', 'a.c', 'd.e.f', 'd.e', 'g', 'h.i'], n) if n <= 7 else ())))
    if tree:
        o = mc(c, x.copy(), names=tree).getParams()
        for k, name in enumerate(tree):
            q = o
            for part in (name + ('.value' if any(t.startswith(name + '.') for t in tree) else '')).split('.'):
                q = getattr(q, part, None)
            c.check('tree', np.array_equal(q, x[:, k]) if q is not None else False, name)


# ------------------------------------------------------------------------------------------ proofs
from pyvc.specs import LoopSpec, loopspec      # noqa: E402


def _dom():
    import z3
    from pyvc.core import cur
    return z3, cur()


@loopspec('getdist.paramnames', 'ParamList.numberOfName', 0)
class NumberLoop(LoopSpec):
    """no name before position k is the wanted one"""
    proof_only = True

    def invariant(self, loop, st, k):
        z3, ctx = _dom()
        f = ctx.param_names
        j = z3.Const('__j_names', z3.IntSort())
        return [('not_before', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), f(j) != ctx.wanted), patterns=[f(j)]))]

    def havoc(self, loop, st):
        self.assume_inv(loop, st)
        return {}


@loopspec('getdist.paramnames', 'ParamList.parWithName', 0)
class FindLoop(LoopSpec):
    """no parameter before position k has the wanted string as name or alias"""
    proof_only = True

    def invariant(self, loop, st, k):
        z3, ctx = _dom()
        j = z3.Const('__j_names', z3.IntSort())
        fs = [ctx.param_names] + ctx.param_aliases
        return [('not_before', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.And(*[f(j) != ctx.wanted for f in fs])), patterns=[ctx.param_names(j)]))]

    def havoc(self, loop, st):
        self.assume_inv(loop, st)
        return {v: st[v] for v in ('given_names', 'name', 'renames', 'error') if v in st}


def symbolic_list(c, aliases):
    """a parameter list of any length with arbitrary names and the given number of aliases each; all strings distinct"""
    import z3
    from pyvc.core import cur, wrap, lift
    from pyvc.arr import SList
    from pyvc.sstr import SStr
    pn = c.module('getdist.paramnames')
    ctx = cur()
    n = c.dim('n', lo=0)
    ctx.param_names = z3.Function('param_name', z3.IntSort(), z3.DeclareSort('Name'))
    ctx.param_aliases = [z3.Function('param_alias%d' % q, z3.IntSort(), z3.DeclareSort('Name')) for q in range(aliases)]

    def item(k):
        i = c.partial(pn.ParamInfo)
        i.name = SStr(ctx.param_names(lift(k)))
        i.renames = [SStr(f(lift(k))) for f in ctx.param_aliases]
        i.position = wrap(lift(k))
        i.isDerived, i.label = False, ''
        return i
    p = c.partial(pn.ParamList)
    p.names = SList(lift(n), item)
    fs = [ctx.param_names] + ctx.param_aliases
    i, j = z3.Ints('__i_d __j_d')
    for a in range(len(fs)):
        for b in range(a, len(fs)):
            ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < lift(n), j < lift(n), i != j if a == b else True), fs[a](i) != fs[b](j)),
                                 patterns=[z3.MultiPattern(fs[a](i), fs[b](j))]))
    return p, n, fs, item


@contract('C12', 'find_any_length', [L + 'parWithName', L + 'numberOfName', L + 'hasParam'], concrete=False, bounded=False,
          assumes=['number of aliases per parameter 0, 1 or 2'], note='lists of any length')
def _(c):
    """every parameter is found by its name and by each alias at its own position, and by nothing else"""
    import z3
    from pyvc.core import cur, lift, wrap
    from pyvc.sstr import SStr
    ctx = cur()
    p, n, fs, item = symbolic_list(c, c.option('aliases', [0, 1, 2]))
    if c.flag('present'):
        k = c.int('k', 0)
        c.assume(k < n)
        which = c.option('which', [0, 1, 2])
        if which >= len(fs):
            return c.check('none', True)
        name = SStr(fs[which](lift(k)))
        ctx.wanted = name.t
        r = p.parWithName(name, error=c.flag('error'))
        c.check('found', r is not None)
        c.check_eq('position', r.position, k)
        if which == 0:
            c.check_eq('number', p.numberOfName(name), k)
            c.check('has', p.hasParam(name))
    else:
        name = SStr(z3.Const('absent', z3.DeclareSort('Name')))
        ctx.wanted = name.t
        j = z3.Int('__j_abs')
        for f in fs:
            ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < lift(n)), f(j) != name.t), patterns=[f(j)]))
        c.check_is('none', p.parWithName(name), None)
        c.check_eq('number', p.numberOfName(name), -1)
        c.check('has_not', c.Not(p.hasParam(name)))
        c.check('raises', c.raises(Exception, lambda: p.parWithName(SStr(name.t), error=True)))


@contract('C12', 'line_round_trip', [P + 'ParamInfo.string', P + 'ParamInfo.setFromString', P + 'ParamInfo.__init__', P + 'ParamInfo.setName'], concrete=False, bounded=False,
          assumes=['str.split, strip and replace (pyvc/sstr.py)', 'names have no white space, "*" or "?"; labels no "#", "!"; labels and comments no white space at their ends'])
def _(c):
    """a line written for a parameter reads back as the same parameter, for every name, label and comment"""
    import z3
    from pyvc.core import cur
    from pyvc.sstr import SStr, nows, trimmed
    ctx = cur()
    pn = c.module('getdist.paramnames')
    N, Lb, Cm = (SStr(z3.String(x)) for x in ('name', 'label', 'comment'))
    ctx.assume(nows(N.t))
    ctx.assume(z3.Length(N.t) > 0)
    for ch in ('*', '?', ' ', '\t'):
        ctx.assume(z3.Not(z3.Contains(N.t, z3.StringVal(ch))))
    label, comment, derived = c.flag('label'), c.flag('comment'), c.flag('derived')
    ctx.assume(z3.And(trimmed(Lb.t), z3.Length(Lb.t) > 0, trimmed(Cm.t), z3.Length(Cm.t) > 0))
    for ch in ('#', '!'):
        ctx.assume(z3.Not(z3.Contains(Lb.t, z3.StringVal(ch))))
    i = pn.ParamInfo(name=N, label=Lb if label else '', comment=Cm if comment else '', derived=derived)
    if not label:
        i.label = ''
    line = i.string()
    if c.flag('file'):
        line = (line + '\n').strip()
    j = pn.ParamInfo(line)
    eq = lambda a, b: z3.BoolVal(a == b) if isinstance(a, str) and isinstance(b, str) else (a == b)
    c.check('name', eq(j.name, N))
    c.check('label', eq(j.label, Lb if label else ''))
    c.check('comment', eq(j.comment, Cm if comment else ''))
    c.check('derived', bool(j.isDerived) == derived)
