"""C18: the job index never loses or duplicates a submitted job"""
import contextlib
import io
import os
import stat
import sys
import tempfile
import types as pytypes
from pyvc.api import contract, Skip

Q = 'paramgrid.jobqueue:'
X = Q + 'jobIndex.'


def job(jid, name, roots, **kw):
    return pytypes.SimpleNamespace(jobId=jid, jobName=name, names=list(roots), **kw)


class Ref:
    """live jobs in order of submission; a name belongs to the job last submitted under it"""

    def __init__(self):
        self.jobs = []

    def add(self, j):
        self.delete(j.jobId)
        self.jobs.append(j)

    def delete(self, jid):
        self.jobs = [j for j in self.jobs if j.jobId != jid]

    def names(self):
        return {j.jobName: j.jobId for j in self.jobs}

    def roots(self):
        return {n: j.jobId for j in self.jobs for n in j.names}


def same(c, ix, ref, tag='', by_identity=True):
    c.check(tag + 'ids', set(ix.jobSettings) == {j.jobId for j in ref.jobs})
    c.check(tag + 'sequence', list(ix.jobSequence) == [j.jobId for j in ref.jobs], lambda: '%s' % ix.jobSequence)
    for j in ref.jobs:
        g = ix.jobSettings[j.jobId]
        c.check(tag + 'settings', g is j if by_identity else g == j)
    c.check(tag + 'job_names', ix.jobNames == ref.names(), lambda: '%s want %s' % (ix.jobNames, ref.names()))
    c.check(tag + 'root_names', ix.rootNames == ref.roots(), lambda: '%s want %s' % (ix.rootNames, ref.roots()))


POOL = [['r1'], ['r2'], ['r1', 'r2'], ['r2', 'r3'], []]


@contract('C18', 'index_step', [X + 'addJob', X + 'delId'], proof=False, paths=20000,
          note='one operation from every consistent state of up to two jobs (ids, names and roots parametric, all sharing patterns)')
def _(c):
    """from any consistent index one submission or deletion gives the consistent index of the jobs then live"""
    jq = c.module('paramgrid.jobqueue')
    ix, ref = jq.jobIndex(), Ref()
    for k in range(c.option('jobs', [0, 1, 2])):
        ref.jobs.append(job('id%d' % k, c.option('name%d' % k, ['n0', 'n1']), c.option('roots%d' % k, POOL[:4])))
    for j in ref.jobs:
        ix.jobSettings[j.jobId] = j
        ix.jobSequence.append(j.jobId)
    ix.jobNames, ix.rootNames = ref.names(), ref.roots()
    if c.option('op', ['add', 'delete']) == 'add':
        j = job(c.option('id', ['id0', 'id1', 'new']), c.option('name', ['n0', 'n1', 'n2']), c.option('roots', POOL))
        ix.addJob(j)
        ref.add(j)
    else:
        jid = c.option('del', ['id0', 'id1', 'absent', None])
        ix.delId(jid)
        ref.delete(jid)
    same(c, ix, ref)


# ------------------------------------------------------------------------------------------ proof for any number of jobs
from pyvc.specs import LoopSpec, loopspec      # noqa: E402


class Ghost:
    """any number of jobs with arbitrary distinct ids, names and roots (ids, names: elements of arbitrary sets)"""

    def __init__(self, c):
        import z3
        from pyvc.core import cur
        from pyvc.arr import SList
        from pyvc.sstr import SStr
        from pyvc.smap import SMap
        self.z3, self.ctx = z3, cur()
        self.Id, self.Name, self.Job = [z3.DeclareSort(x) for x in ('JobId', 'Name', 'Job')]
        I, F = z3.IntSort(), z3.Function
        self.idof, self.nameof, self.nroots = F('job_id', self.Job, self.Id), F('job_name', self.Job, self.Name), F('job_nroots', self.Job, I)
        self.root, self.first = F('job_root', self.Job, I, self.Name), F('job_first', self.Job, self.Name, I)
        self.seq, self.pos = F('seq', I, self.Id), F('seq_pos', self.Id, I)
        self.n = c.dim('jobs', lo=0).t
        j, x, i = z3.Const('__j', self.Job), z3.Const('__x', self.Name), z3.Int('__i')
        # position of the first occurrence of a name among the roots of a job (nroots if none): a definition
        self.ctx.axiom('first',
                       z3.ForAll([j, i], z3.Implies(z3.And(i >= 0, i < self.nroots(j)), self.first(j, self.root(j, i)) <= i), patterns=[self.root(j, i)]),
                       z3.ForAll([j, x], z3.And(self.first(j, x) >= 0, z3.Implies(self.first(j, x) < self.nroots(j), self.root(j, self.first(j, x)) == x)), patterns=[self.first(j, x)]),
                       z3.ForAll([j], self.nroots(j) >= 0, patterns=[self.nroots(j)]))
        self.job_cache = {}

        def dec(t):
            return pytypes.SimpleNamespace(term=t, jobId=SStr(self.idof(t)), jobName=SStr(self.nameof(t)), names=SList(self.nroots(t), lambda i: SStr(self.root(t, z3.IntVal(i) if isinstance(i, int) else i))))
        self.dec = dec
        self.settings = SMap(self.Id, self.Job, dec)
        self.names_map = lambda empty=False: SMap(self.Name, self.Id, SStr, empty=empty)
        self.sequence = SList(self.n, lambda i: SStr(self.seq(i)))

    def holds(self, jobs):
        """the settings hold exactly the jobs of the sequence, whose ids are distinct; each under its own id"""
        z3 = self.z3
        k, d = z3.Int('__k'), z3.Const('__d', self.Id)
        return [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n), z3.And(z3.Select(jobs.has, self.seq(k)), self.pos(self.seq(k)) == k)), patterns=[self.seq(k)]),
                z3.ForAll([d], z3.Implies(z3.Select(jobs.has, d), z3.And(self.pos(d) >= 0, self.pos(d) < self.n, self.seq(self.pos(d)) == d,
                                                                          self.idof(z3.Select(jobs.val, d)) == d)), patterns=[z3.Select(jobs.has, d)])]

    def owner(self, m, jobs, seq, n, pos, roots):
        """names of the first n jobs of a sequence: every name belongs to the last of them that has it, and nothing else is known"""
        z3 = self.z3
        k, i, x = z3.Int('__k'), z3.Int('__i'), z3.Const('__x', self.Name)
        S, rng = z3.Select, z3.And(k >= 0, k < n)
        job = lambda d: S(jobs.val, d)
        has = (lambda j, y: self.first(j, y) < self.nroots(j)) if roots else (lambda j, y: self.nameof(j) == y)
        v = S(m.val, x)
        a = (z3.ForAll([k, i], z3.Implies(z3.And(rng, i >= 0, i < self.nroots(job(seq(k)))), S(m.has, self.root(job(seq(k)), i))), patterns=[self.root(job(seq(k)), i)])
             if roots else z3.ForAll([k], z3.Implies(rng, S(m.has, self.nameof(job(seq(k))))), patterns=[seq(k)]))
        return [a,
                z3.ForAll([x], z3.Implies(S(m.has, x), z3.And(pos(v) >= 0, pos(v) < n, seq(pos(v)) == v, has(job(v), x))), patterns=[S(m.has, x)]),
                z3.ForAll([x, k], z3.Implies(z3.And(S(m.has, x), rng, has(job(seq(k)), x)), k <= pos(v)), patterns=[z3.MultiPattern(S(m.has, x), seq(k))])]


@loopspec('paramgrid.jobqueue', 'jobIndex._setNames', 0)
class RootsLoop(LoopSpec):
    """after i roots: those roots belong to the job, all other names to whom they belonged before"""
    proof_only = True

    def parts(self, loop):
        g = loop.pre
        o = g.get('self')
        return o.rootNames, g['j']

    def entry(self, loop, st):
        m, j = self.parts(loop)
        loop.before = (m.has, m.val)
        super().entry(loop, st)

    def invariant(self, loop, st, k):
        from pyvc.core import cur
        G = cur().ghost_jobs
        z3 = G.z3
        m, j = self.parts(loop)
        x = z3.Const('__x', G.Name)
        S = z3.Select
        mine = G.first(j.term, x) < k
        return [('has', z3.ForAll([x], S(m.has, x) == z3.Or(S(loop.before[0], x), mine), patterns=[S(m.has, x)])),
                ('val', z3.ForAll([x], S(m.val, x) == z3.If(mine, G.idof(j.term), S(loop.before[1], x)), patterns=[S(m.val, x)]))]

    def havoc(self, loop, st):
        m, j = self.parts(loop)
        m.havoc()
        loop.modifies = [m]
        self.assume_inv(loop, st)
        return {}


@loopspec('paramgrid.jobqueue', 'jobIndex.delId', 0)
class NamesLoop(LoopSpec):
    """after k jobs: the names of the first k jobs of the new sequence"""
    proof_only = True

    def invariant(self, loop, st, k):
        from pyvc.core import cur
        G = cur().ghost_jobs
        o = loop.pre['self']
        it, n, sel, rank = cur().filters[-1]
        seq, pos = (lambda i: G.seq(sel(i))), (lambda d: rank(G.pos(d)))
        out = []
        for nm, m, roots in (('names', o.jobNames, False), ('roots', o.rootNames, True)):
            out += [(nm + str(q), f) for q, f in enumerate(G.owner(m, o.jobSettings, seq, k, pos, roots))]
        return out

    def havoc(self, loop, st):
        o = loop.pre['self']
        o.jobNames.havoc()
        o.rootNames.havoc()
        loop.modifies = [o.jobNames, o.rootNames]
        self.assume_inv(loop, st)
        return {}


@contract('C18', 'index_any', [X + 'addJob', X + 'delId'], bounded=False, concrete=False, timeout=120,
          note='one operation from every consistent state with any number of jobs, names and roots: with the empty index consistent, every history by induction')
def _(c):
    """from any consistent index, a submission or deletion gives the consistent index of the jobs then live, in order of submission"""
    from pyvc.core import cur
    from pyvc.sstr import SStr
    jq = c.module('paramgrid.jobqueue')
    G = Ghost(c)
    z3, ctx = G.z3, cur()
    ctx.ghost_jobs = G
    ctx.empty_dict = lambda: G.names_map(empty=True)
    ix = c.partial(jq.jobIndex)
    ix.jobSettings, ix.jobSequence, ix.jobNames, ix.rootNames = G.settings, G.sequence, G.names_map(), G.names_map()
    for f in G.holds(G.settings):
        ctx.assume(f)
    for m, roots in ((ix.jobNames, False), (ix.rootNames, True)):
        for f in G.owner(m, G.settings, G.seq, G.n, G.pos, roots):
            ctx.assume(f)
    had, val, S = G.settings.has, G.settings.val, z3.Select
    add = c.option('op', ['add', 'delete']) == 'add'
    if add:
        jt = z3.Const('new_job', G.Job)
        d = G.idof(jt)
        ix.addJob(G.dec(jt))
    else:
        d = z3.Const('deleted', G.Id)
        ix.delId(SStr(d))
        ix.delId(None)
    y = z3.Const('some_id', G.Id)
    J = ix.jobSettings
    c.check('live', z3.And(S(J.has, y) == (z3.Or(S(had, y), y == d) if add else z3.And(S(had, y), y != d)),
                           z3.Implies(S(J.has, y), S(J.val, y) == (z3.If(y == d, jt, S(val, y)) if add else S(val, y)))))
    # order: the jobs there were, as they were ordered, then the new one
    fl = getattr(ctx, 'filters', [])
    sel, rank, kept = (fl[-1][2], fl[-1][3], fl[-1][1]) if fl else ((lambda i: i), (lambda i: i), G.n)
    n = ix.jobSequence.n
    c.check('length', n == (kept + 1 if add else kept))
    newpos = lambda q: z3.If(q == d, kept, rank(G.pos(q))) if add else rank(G.pos(q))
    i, k = z3.Int('some_i'), z3.Int('some_k')
    ctx.assume(z3.And(i >= 0, i < k, k < n))
    at = lambda p: ix.jobSequence.fn(p).t
    c.check('distinct', at(i) != at(k))
    c.check('order', z3.Implies(z3.And(at(i) != d, at(k) != d), G.pos(at(i)) < G.pos(at(k))))
    if add:
        c.check('new last', z3.And(at(n - 1) == d, at(i) != d))
    c.check('all there', z3.Implies(S(J.has, y), z3.And(newpos(y) >= 0, newpos(y) < n, at(newpos(y)) == y, G.idof(S(J.val, y)) == y)))
    c.check('only live', S(J.has, at(k)))
    seq = lambda p: z3.If(p == kept, d, G.seq(sel(p))) if add else G.seq(sel(p))
    x, r = z3.Const('some_name', G.Name), z3.Int('some_root')
    has = {False: lambda j: G.nameof(j) == x, True: lambda j: G.first(j, x) < G.nroots(j)}
    for nm, m, roots in (('job_names', ix.jobNames, False), ('root_names', ix.rootNames, True)):
        v = S(m.val, x)
        jk = S(J.val, at(k))
        c.check(nm + ' known', z3.Implies(z3.And(r >= 0, r < G.nroots(jk)), S(m.has, G.root(jk, r))) if roots else S(m.has, G.nameof(jk)))
        c.check(nm + ' live', z3.Implies(S(m.has, x), z3.And(S(J.has, v), has[roots](S(J.val, v)))))
        c.check(nm + ' last', z3.Implies(z3.And(S(m.has, x), has[roots](jk)), k <= newpos(v)))


@contract('C18', 'histories', [X + 'addJob', X + 'delId', Q + 'addJobIndex', Q + 'deleteJobNames', Q + 'loadJobIndex', Q + 'saveJobIndex'], symbolic=False, runs=250)
def _(c):
    """the index on disk follows any sequence of submissions and deletions"""
    jq = c.module('paramgrid.jobqueue')
    with tempfile.TemporaryDirectory() as d:
        ref = Ref()
        c.check('absent', jq.loadJobIndex(d, must_exist=True) is None)
        same(c, jq.loadJobIndex(d), ref, 'empty_')
        for k in range(c.int('steps', 1, 8)):
            if c.option('op%d' % k, ['add', 'add', 'del']) == 'add':
                j = job(c.option('id%d' % k, ['1.s', '2.s', '3.s', '4']), c.option('name%d' % k, ['n0', 'n1', 'n2']), c.option('roots%d' % k, POOL), subTime=k)
                jq.addJobIndex(d, j)
                ref.add(j)
            else:
                names = c.option('del%d' % k, ['n0', ['n1'], ['n0', 'n2'], 'absent'])
                jq.deleteJobNames(d, names)
                for n in [names] if isinstance(names, str) else names:
                    ref.delete(ref.names().get(n))
            same(c, jq.loadJobIndex(d), ref, by_identity=False)
            same(c, jq.loadJobIndex(d, must_exist=True), ref, by_identity=False)
        c.check('files', sorted(os.listdir(d)) == (['jobIndex.pyobj']))


def crash_at(k, f):
    """f in a child process ended (without any clean-up) at its k-th event; True if it got there"""
    pid = os.fork()
    if pid == 0:
        n = [0]

        def tick(frame, event, arg):
            n[0] += 1
            if n[0] >= k:
                os._exit(77)
            return tick
        try:
            with open(os.devnull, 'w') as null:
                os.dup2(null.fileno(), 1)
                sys.setprofile(tick)
                sys.settrace(tick)
                f()
                sys.settrace(None)
                sys.setprofile(None)
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    return os.WEXITSTATUS(st) == 77


@contract('C18', 'crash', [Q + 'saveJobIndex', Q + 'addJobIndex', Q + 'deleteJobNames', Q + 'loadJobIndex'], symbolic=False, runs=4, timeout=300,
          note='the process is ended at every interpreter event (line, call, return, C call) of the operation')
def _(c):
    """an operation interrupted at any point leaves the index as before or as after it"""
    jq = c.module('paramgrid.jobqueue')
    op = c.option('op', ['add', 'delete', 'save'])
    with tempfile.TemporaryDirectory() as d:
        before = Ref()
        for k in range(c.int('jobs', 1, 3)):
            j = job('id%d' % k, 'n%d' % k, ['r%d' % k])
            before.add(j)
            jq.addJobIndex(d, j)
        with open(d + '/jobIndex.pyobj', 'rb') as f:
            start = f.read()
        after = Ref()
        after.jobs = list(before.jobs)
        new = job('new', 'nn', ['r1', 'x'])
        if op == 'delete':
            after.delete('id0')
            act = lambda: jq.deleteJobNames(d, 'n0')
        elif op == 'add':
            after.add(new)
            act = lambda: jq.addJobIndex(d, new)
        else:
            ix = jq.loadJobIndex(d)
            ix.addJob(new)
            after.add(new)
            act = lambda: jq.saveJobIndex(ix, d)
        k, saw, state = 0, set(), None
        while True:
            k += 1
            if k > 5000:
                raise Skip
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
            with open(d + '/jobIndex.pyobj', 'wb') as f:
                f.write(start)
            hit = crash_at(k, act)
            if not hit:
                break
            try:
                got = jq.loadJobIndex(d, must_exist=True)
            except Exception as e:
                got = e
            c.check('readable', isinstance(got, jq.jobIndex), lambda: 'interrupted at event %d: %r' % (k, got))
            ids = set(got.jobSettings)
            c.check('old_or_new', ids in ({j.jobId for j in before.jobs}, {j.jobId for j in after.jobs}))
            same(c, got, before if ids == {j.jobId for j in before.jobs} else after, 'crash_', by_identity=False)
            # a retry after the interruption works
            if k % 10 == 0:
                if op == 'add':
                    jq.addJobIndex(d, new)
                    c.check('retry', set(jq.loadJobIndex(d).jobSettings) == {j.jobId for j in after.jobs})
        same(c, jq.loadJobIndex(d), after, 'done_', by_identity=False)
        c.check('events', k > 5)


def script(d, name, text):
    fn = os.path.join(d, 'bin', name)
    with open(fn, 'w') as f:
        f.write('#!/bin/sh\n' + text)
    os.chmod(fn, stat.S_IRWXU)


@contextlib.contextmanager
def cluster(c, moab=False):
    """a scratch folder with stand-ins for the queue commands that only record what they are given"""
    with tempfile.TemporaryDirectory() as d:
        for s in ('bin', 'scripts', 'grid'):
            os.makedirs(os.path.join(d, s))
        for sub, dele, stat_ in (('qsub', 'qdel', 'qstat'), ('msub', 'canceljob', 'showq'), ('mysub', 'mydel', 'qstat'))[::moab and 1 or 2][:2 + moab]:
            script(d, sub, 'echo "$@" >> %s/%s.log; cat %s/next\n' % (d, sub, d))
            script(d, dele, 'echo "$@" >> %s/%s.log\n' % (d, dele))
            script(d, stat_, 'cat %s/stat 2>/dev/null\n' % d)
        open(d + '/stat', 'w').write('')
        with open(d + '/template', 'w') as f:
            f.write('#!/bin/sh\n#NAME ##JOBNAME## ##NUMNODES## ##PPN## ##WALLTIME## ##NUMRUNS## ##OMP## ##NUMMPI## ##QUEUE## ##NUMSLOTS##\n#MORE ##MPIPERNODE## ##NUMTASKS## ##CHAINSPERNODE## ##ONERUN## ##PROGRAM## ##JOBCLASS## ##MEM_MB##\ncd ##ROOTDIR##\n##COMMAND##\nwait\n')
        env, cwd = dict(os.environ), os.getcwd()
        for k in list(os.environ):
            if k.startswith('COSMOMC_'):
                del os.environ[k]
        os.environ.update(PATH=os.path.join(d, 'bin') + ':/usr/bin:/bin', USER='me')
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                yield d
        finally:
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)


def read(fn):
    return open(fn).read().splitlines() if os.path.exists(fn) else []


@contract('C18', 'submit', [Q + x for x in ('submitJob', 'jobSettings.__init__', 'addJobIndex', 'queue_job_details', 'queue_job_names', 'deleteJobs', 'deleteRootNames', 'replacePlaceholders', 'extractValue', 'getDefaulted')],
          symbolic=False, runs=80, timeout=300)
def _(c):
    """submitted jobs are in the index under the id the queue gave; the queue listing and cancellation find exactly those"""
    jq = c.module('paramgrid.jobqueue')
    style = c.option('style', ['pbs', 'sge', 'plain', 'moab'])
    moab = style == 'moab'
    with cluster(c, moab) as d:
        ref = Ref()
        own = c.flag('own')     # queue commands and run command of the template
        if own:
            with open('template', 'a') as f:
                f.write('##DEFAULT_qsub: mysub ##JOBCLASS####\n##DEFAULT_qdel: mydel##\n##RUN: mpirun -np ##NUMMPI## me ##INI## ##INIBASE## ##')
        sub, dele = ('mysub', 'mydel') if own else ('msub', 'canceljob') if moab else ('qsub', 'qdel')
        kw = dict(jobclass='quick', program='prog', mem_per_node=c.option('mem', [100, 250]), job_template='template', batchPath=d + '/grid', chainsPerNode=2, coresPerNode=c.option('cores', [4, 8, 16]), nodes=c.option('nodes', [1, 2]), walltime='10:00:00')
        n = c.int('n', 1, 4)
        for k in range(n):
            num = 100 + 7 * k
            jid = {'moab': 'moab.%d' % num, 'pbs': '%d.server' % num, 'sge': '%d' % num, 'plain': '%d' % num}[style]
            open(d + '/next', 'w').write({'moab': '\n' + jid + '\n', 'pbs': jid + '\n', 'sge': 'Your job %d ("job%d") has been submitted\n' % (num, k), 'plain': '  %d  \n' % num}[style])
            files = ['ini/r%d_%d.ini' % (k, i) for i in range(c.int('files%d' % k, 1, 2))]
            seq = c.flag('seq%d' % k)
            given = files[0] if len(files) == 1 and c.flag('string') else files
            mode = c.option('mode%d' % k, ['run', 'run', 'run', 'dry', 'nosub'])
            jq.submitJob('job%d' % k, given, sequential=seq, dryrun=mode == 'dry', no_sub=mode == 'nosub', queue='fast', **kw)
            if mode == 'dry':
                c.check('dry', not os.path.exists('scripts/job%d_subscript' % k))
                continue
            text = open('scripts/job%d_subscript' % k).read()
            runs = 1 if seq else len(files)
            omp = kw['coresPerNode'] // (2 * runs)
            ppn = 2 * runs * omp
            c.check('resources', '#NAME job%d %d %d 10:00:00 %d %d %d fast %d\n' % (k, kw['nodes'], ppn, runs, omp, 2 * kw['nodes'], ppn * kw['nodes']) in text, lambda: text)
            c.check('more', '#MORE %d %d 2 %d prog quick %d\n' % (2 * runs, 2 * kw['nodes'] * runs, seq or len(files) == 1, kw['mem_per_node']) in text, lambda: text)
            c.check('folder', 'cd %s\n' % os.getcwd() in text and (own or '##' not in text))
            c.check('batch', read('scripts/job%d.batch' % k) == ([x[:-4] for x in files] if len(files) > 1 else []))
            cmds = [l for l in text.splitlines() if 'mpirun' in l and '##RUN' not in l]
            c.check('own', not own or all('me %s %s' % (f, os.path.basename(f)[:-4]) in l for f, l in zip(files, cmds)))
            c.check('commands', len(cmds) == len(files) and all(' %s ' % f in l and '-np %d ' % (2 * kw['nodes']) in l and l.rstrip().endswith('&') == (not seq) for f, l in zip(files, cmds)), lambda: '%s' % cmds)
            if mode == 'nosub':
                continue
            c.check('submitted', read(sub + '.log')[-1:] == [('quick ' if own else '') + './scripts/job%d_subscript' % k], lambda: '%s' % read(sub + '.log'))
            c.check('id_file', open('scripts/job%d.sub' % k).read() == jid)
            ref.add(job(jid, 'job%d' % k, ['r%d_%d' % (k, i) for i in range(len(files))]))
        ix = jq.loadJobIndex(d + '/grid')
        c.check('index', list(ix.jobSequence) == [j.jobId for j in ref.jobs] and ix.jobNames == ref.names() and ix.rootNames == ref.roots() and set(ix.jobSettings) == set(ix.jobSequence), lambda: '%s' % ix.jobSequence)
        for j in ref.jobs:
            g = ix.jobSettings[j.jobId]
            c.check('kept', g.jobId == j.jobId and g.jobName == j.jobName and g.names == j.names)
        # the queue: some running, some waiting, some gone, some of others
        state = {j.jobId: c.option('state' + j.jobId, ['r', 'qw', 'gone']) for j in ref.jobs}
        form = c.option('form', ['same', 'suffix', 'prefix']) if style in ('plain', 'sge') else 'same'
        shown = lambda i: {'same': i, 'suffix': i + '.host', 'prefix': 'host.' + i}[form]
        runs = ' Running ' if moab else ' r '
        lines = ['job-ID prior name user state submit', '-' * 30]
        for j in ref.jobs:
            if state[j.jobId] != 'gone':
                lines.append('%s 0.5 %s me %s 11/18/2026' % (shown(j.jobId), j.jobName, runs if state[j.jobId] == 'r' else 'qw'))
        lines += ['999.server 0.5 other you %s x' % runs, '998 0.5 mine me %s x' % runs, 'Total jobs: me %s x' % runs]
        open('stat', 'w').write('\n'.join(lines) + '\n')
        for running, queued in ((True, True), (True, False), (False, True)):
            want = [j for j in ref.jobs if state[j.jobId] == 'r' and running or state[j.jobId] == 'qw' and queued]
            ids, names, roots, infos = jq.queue_job_details(d + '/grid', running=running, queued=queued)
            c.check('listed', ids == [j.jobId for j in want] and names == [j.jobName for j in want] and roots == [j.names for j in want], lambda: '%s %s' % (ids, lines))
            c.check('roots', jq.queue_job_names(d + '/grid', running=running, queued=queued) == [r for j in want for r in j.names])
        if not ref.jobs:
            return
        # cancel some
        num = lambda j: int(j.jobId.split('.')[moab])
        how = c.option('how', ['ids', 'roots', 'root names', 'one root', 'names', 'one name', 'one id', 'range', 'min', 'none'])
        pick = [j for j in ref.jobs if c.flag('pick' + j.jobId)]
        if how == 'ids':
            args = dict(jobIds=[j.jobId for j in pick] + ['nope'])
        elif how == 'one id':
            pick = pick[:1]
            args = dict(jobIds=pick[0].jobId if pick else 'nope')
        elif how == 'one name':
            pick = pick[:1]
            args = dict(jobNames=pick[0].jobName if pick else 'nope')
        elif how == 'one root':
            pick = pick[:1]
            args = dict(rootNames=pick[0].names[0] if pick else 'nope')
        elif how in ('roots', 'root names'):
            args = dict(rootNames=[j.names[0] for j in pick] + ['nope'])
        elif how == 'names':
            args = dict(jobNames=[j.jobName for j in pick] + ['nope'])
        elif how == 'range':
            args, pick = dict(jobId_minmax=[103, 114]), [j for j in ref.jobs if 103 <= num(j) <= 114]
        elif how == 'min':
            args, pick = dict(jobId_min=107), [j for j in ref.jobs if num(j) >= 107]
        else:
            args, pick = {}, []
        confirm = c.flag('confirm') or how == 'root names'
        if how == 'root names':
            jq.deleteRootNames(d + '/grid', **args)
        else:
            got = jq.deleteJobs(d + '/grid', confirm=confirm, **args)
            c.check('found', {j for j in got if j not in (None, 'nope')} == {j.jobId for j in pick})
        live = [j.jobId for j in ref.jobs if j in pick and state[j.jobId] != 'gone']
        c.check('cancelled', sorted(read(dele + '.log')) == (sorted(live) if confirm else []), lambda: '%s' % read(dele + '.log'))
        if confirm:
            for j in pick:
                ref.delete(j.jobId)
        ix = jq.loadJobIndex(d + '/grid')
        c.check('after', list(ix.jobSequence) == [j.jobId for j in ref.jobs] and ix.jobNames == ref.names() and ix.rootNames == ref.roots() and set(ix.jobSettings) == set(ix.jobSequence))


@contract('C18', 'settings', [Q + 'getDefaulted', Q + 'extractValue', Q + 'replacePlaceholders', Q + 'jobSettings.__init__'], symbolic=False, runs=200)
def _(c):
    """a setting comes from the argument, else the template, else the environment, else the default"""
    jq = c.module('paramgrid.jobqueue')
    with cluster(c) as d:
        vals = {k: c.option(k, [None, v]) for k, v in (('arg', 3), ('template', '5'), ('env', '7'), ('ext', '9'), ('default', 11))}
        tp = c.option('type', [int, str])
        if vals['env']:
            os.environ['COSMOMC_nodes'] = vals['env']
        ext = c.flag('use_ext')
        if vals['ext']:
            os.environ['MY_NODES'] = vals['ext']
        t = '#x\n' + ('##DEFAULT_nodes: %s ##\n' % vals['template'] if vals['template'] else '') + '##DEFAULT_other: 1##\n'
        order = [vals['arg'], vals['template'], vals['env'], vals['ext'] if ext else None, vals['default']]
        want = next((x for x in order if x is not None), None)
        got = jq.getDefaulted('nodes', vals['default'], tp=tp, template=t, ext_env='MY_NODES' if ext else None, nodes=vals['arg'], other=99)
        c.check('order', got == (None if want is None else tp(want)), lambda: '%r want %r' % (got, want))
        c.check('extract', jq.extractValue(t, 'DEFAULT_other') == '1' and jq.extractValue(t, 'nope') is None)
        c.check('replace', jq.replacePlaceholders('a ##X## b\r\n##Y####X##', {'X': 1, 'Y': 'z'}) == 'a 1 b\nz1')
        open('template', 'w').write(t)
        cores, per, runs = c.option('cores', [4, 6, 8, 12]), c.option('per', [1, 2, 3, 4]), c.option('runs', [1, 2])
        kw = dict(job_template='template', coresPerNode=cores, chainsPerNode=per, runsPerJob=runs, nodes=2)
        if cores % (per * runs):
            c.check('unequal', c.raises(Exception, lambda: jq.jobSettings('j', **kw)))
        else:
            j = jq.jobSettings('j', **kw)
            c.check('made', (j.jobName, j.nodes, j.chainsPerNode, j.coresPerNode, j.nchains, j.omp) == ('j', 2, per, cores, 2 * per, cores / (per * runs)))
            c.check('commands', j.qsub == 'qsub' and j.qdel == 'qdel' and j.runCommand is None)


SETTINGS = {'nodes': 1, 'chainsPerNode': 1, 'coresPerNode': 4, 'mem_per_node': 63900, 'walltime': '24:00:00', 'program': './cosmomc', 'queue': '', 'jobclass': '', 'qsub': 'qsub', 'qdel': 'qdel'}


@contract('C18', 'sources', [Q + 'jobSettings.__init__', Q + 'getDefaulted', Q + 'extractValue'], symbolic=False, runs=40)
def _(c):
    """every setting of a job comes from the argument, else the template, else the environment, else its default"""
    jq = c.module('paramgrid.jobqueue')
    with cluster(c) as d:
        kw, lines, want = {}, [], {}
        for n, (key, default) in enumerate(SETTINGS.items()):
            number = isinstance(default, int)
            vals = [12 * 2 ** q if key == 'coresPerNode' else 1 + q if number else '%s%d' % (key, q) for q in range(3)]
            if key == 'chainsPerNode':
                vals = [1, 2, 4]
            src = c.option('from ' + key, [(0,), (1,), (2,), (0, 1, 2), (1, 2), (0, 2)] + ([()] if key not in ('nodes', 'chainsPerNode', 'coresPerNode') else []))
            if 0 in src:
                kw[key] = vals[0]
            if 1 in src:
                lines.append('##DEFAULT_%s: %s ##' % (key, vals[1]))
            if 2 in src:
                os.environ['COSMOMC_' + key] = str(vals[2])
            want[key] = vals[src[0]] if src else default
        open('template', 'w').write('\n'.join(lines) + '\n')
        j = jq.jobSettings('x', job_template='template', runsPerJob=1, **kw)
        for key in SETTINGS:
            c.check(key, getattr(j, key) == want[key], lambda: '%s: %r want %r' % (key, getattr(j, key), want[key]))
        c.check('chains', j.nchains == j.nodes * j.chainsPerNode and j.omp == j.coresPerNode / j.chainsPerNode)
