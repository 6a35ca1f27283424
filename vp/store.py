"""Driver for the folder of YANG modules: downloading, crashes, compiling (ModelStore.tla).

A world is {load, imp, inc, given, bad}: announced modules, imports, includes, what the device hands out."""
import json, os, random, re, shutil, signal, tempfile, threading, time
import multiprocessing as mp
from . import core

NAMES = ['ma', 'mb', 'mc', 'md', 'me', 'mf']
SUBS = ['ma-sub', 'mb-sub', 'mc-sub']


BAD = ['', 'no yang at all {{{', 'module %s {\n  namespace "urn:s:%s";\n', '<html>404</html>', 'container c { leaf x { type string; } }\n']


def text(w, m, v):
    if m in w.get('bad', {}):
        b = BAD[w['bad'][m]]
        return b.replace('%s', m) + '// %s %d\n' % (m, v)
    out = ''.join('  include %s;\n' % s if m not in SUBS else '' for s in w['inc'][m])
    imp = ''.join('  import %s { prefix p-%s; }\n' % (i, i) for i in w['imp'][m])
    if m in SUBS:
        owner = m.split('-')[0]
        return ('submodule %s {\n  belongs-to %s { prefix o; }\n%s  revision 2024-01-0%d;\n'
                '  container c-%s { leaf v%d { type string; } }\n}\n' % (m, owner, imp, v, m, v))
    return ('module %s {\n  namespace "urn:s:%s";\n  prefix %s;\n%s%s  revision 2024-01-0%d;\n'
            '  container c-%s { leaf v%d { type string; } }\n}\n' % (m, m, m, imp, out, v, m, v))


def caps(w, v):
    return ['urn:ietf:params:netconf:base:1.0'] + \
        ['urn:s:%s?module=%s&revision=2024-01-0%d' % (m, m, v) for m in w['load']]


def world(rng, n, broken=False):
    mods = NAMES[:n]
    subs = [m + '-sub' for m in mods[:3] if rng.random() < .4]
    dens = rng.choice([.15, .35, .6])
    imp, inc = {}, {}
    for i, m in enumerate(mods):
        imp[m] = [x for x in mods[i + 1:] if rng.random() < dens]
        inc[m] = [s for s in subs if s == m + '-sub']
    for s in subs:
        i = mods.index(s.split('-')[0])
        imp[s] = [x for x in mods[i + 1:] if rng.random() < dens]
        inc[s] = []
    al = mods + subs
    load = sorted(m for m in mods if rng.random() < rng.choice([.3, .7, 1]))
    given = sorted(m for m in al if rng.random() < rng.choice([.8, 1, 1]))
    bad = {}
    if broken:
        for m in rng.sample(al, min(len(al), rng.randint(1, 2))):
            bad[m] = rng.randrange(len(BAD))
            imp[m], inc[m] = [], []
    return dict(mods=al, load=load, imp=imp, inc=inc, given=given, bad=bad)


# ------------------------------------------------------------------ the device
class Server:
    """hands out modules at a pace of its own"""
    def __init__(self, w, v, seed, pace):
        self.w, self.v, self.pace = w, v, pace
        self.rng = random.Random(seed)
        self.lock = threading.Lock()
        self.asked = []
        self.open = 0
        self.last = time.time()
        self.hold = {m for m in w['mods'] if self.rng.random() < .4}
        self.fail = {m: self.rng.choice(['error', 'notok', 'raise']) for m in w['mods']}

    def __call__(self, cls, args, kwargs):
        from . import device
        from ncclient import operations
        if not cls.__name__.endswith('GetSchema'):
            return device.rpc_error_reply()
        m = args[0] if args else kwargs.get('identifier')
        with self.lock:
            self.asked.append(m)
            self.open += 1
            self.last = time.time()
            d = self.rng.random() * .004
        if self.pace == 'random':
            time.sleep(d)
        elif self.pace == 'hold' and m in self.hold:
            # answered only when nothing else moves any more
            while True:
                with self.lock:
                    if time.time() - self.last > .012:
                        self.last = time.time()
                        break
                time.sleep(.002)
        with self.lock:
            self.open -= 1
            self.last = time.time()
        if m not in self.w['given']:
            how = self.fail.get(m, 'error')
            if how == 'notok':
                return device.rpc_error_reply()
            if how == 'raise':
                raise operations.errors.TimeoutExpiredError('no answer')
            raise device.rpc_error_reply().error
        return device.schema_reply(text(self.w, m, self.v))


# ------------------------------------------------------------------ crash points
class Crash:
    """ends the process at the k-th operation on a file of the folder"""
    def __init__(self, folder, k):
        self.folder, self.k, self.n = os.path.realpath(folder) + os.sep, k, 0
        self.lock = threading.Lock()

    def inside(self, p):
        try:
            return os.path.realpath(os.fspath(p)).startswith(self.folder)
        except TypeError:
            return False

    def point(self, f=None, data=None):
        with self.lock:
            self.n += 1
            if self.n == self.k:
                if f is not None:
                    try:
                        f.write(data[:len(data) // 2])
                        f.flush()
                    except Exception:
                        pass
                os._exit(77)

    def install(self):
        import builtins, io
        real = builtins.open
        me = self

        class File:
            def __init__(self, f):
                self.__dict__['f'] = f
            def write(self, data):
                me.point(self.f, data)
                return self.f.write(data)
            def writelines(self, lines):
                for x in lines:
                    self.write(x)
            def close(self):
                me.point()
                self.f.close()
            def __enter__(self):
                return self
            def __exit__(self, *a):
                self.close()
            def __getattr__(self, k):
                return getattr(self.f, k)
            def __iter__(self):
                return iter(self.f)

        def opened(file, mode='r', *a, **kw):
            if any(x in mode for x in 'wax+') and me.inside(file):
                me.point()
                return File(real(file, mode, *a, **kw))
            return real(file, mode, *a, **kw)
        builtins.open = io.open = opened
        for name in ('remove', 'unlink', 'rename', 'replace', 'rmdir'):
            def wrap(p, *a, _f=getattr(os, name), **kw):
                if me.inside(p):
                    me.point()
                return _f(p, *a, **kw)
            setattr(os, name, wrap)


def any_order(rng):
    """a directory lists its files in no particular order"""
    ls, sd = os.listdir, os.scandir

    def listdir(*a):
        x = sorted(ls(*a))
        rng.shuffle(x)
        return x

    class Scan:
        def __init__(self, x):
            self.x = iter(x)
        def __iter__(self):
            return self
        def __next__(self):
            return next(self.x)
        def __enter__(self):
            return self
        def __exit__(self, *a):
            pass
        def close(self):
            pass

    def scandir(*a):
        with sd(*a) as it:
            x = sorted(it, key=lambda e: e.name)
        rng.shuffle(x)
        return Scan(x)
    os.listdir, os.scandir = listdir, scandir


# ------------------------------------------------------------------ one step in a process of its own
def child(folder, w, v, step, k, out):
    from . import device
    from ncclient.devices.default import DefaultDeviceHandler
    srv = Server(w, v, step.get('seed', 0), step.get('pace', ''))
    dev = device.Dev(device.Session(caps(w, v)), DefaultDeviceHandler())
    dev.handler = srv
    ev = dict(exc='', asked=[], imports={}, depends={}, listed=[], got=0)
    c = Crash(folder, k)
    any_order(random.Random('%s %s' % (step.get('seed', 0), k)))
    try:
        if step['op'] == 'run':
            c.install()
            dev.scan_models(folder=folder, download=step['how'])
            for m in w['mods']:
                i, d = dev.compiler.get_dependencies(m)
                ev['imports'][m], ev['depends'][m] = sorted(i), sorted(set(d) & set(w['mods']))
            ev['listed'] = [m.get('id') or '' for m in dev.compiler.context.dependencies]
        else:
            dev.scan_models(folder=folder, download='ignore')
            c.install()
            ev['got'] = version_of(dev.load_model(step['m']).tree, step['m'])
    except Exception as e:
        ev['exc'] = type(e).__name__
        ev['msg'] = str(e)[:200]
    ev['asked'] = sorted(srv.asked)
    ev['ops'] = c.n
    with os.fdopen(out, 'w') as f:
        f.write(json.dumps(ev))


def version_of(tree, m):
    names = {x.tag.split('}')[-1] for x in tree.iter() if isinstance(x.tag, str)}
    if 'c-' + m not in names:
        return 0
    vs = [v for v in (1, 2) if 'v%d' % v in names]
    return vs[0] if len(vs) == 1 else -1


HANGS = mp.Value('i', 0)        # a few calls that never return are enough


def forked(folder, w, v, step, k=0, limit=15):
    """(outcome, observations); outcome: done, crash, hang"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            child(folder, w, v, step, k, wr)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r) as f:
        txt = f.read()
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        HANGS.value += 1
        return 'hang', {}
    if os.WEXITSTATUS(st) == 77:
        return 'crash', {}
    if os.WEXITSTATUS(st) != 0 or not txt:
        raise core.Machinery('child process failed')
    return 'done', json.loads(txt)


def snapshot(folder, ws):
    """ws: the world of each version"""
    y, cache, mark = {}, {}, 0
    have = set(os.listdir(folder)) if os.path.isdir(folder) else set()
    rd = lambda n: open(os.path.join(folder, n), 'rb').read().decode('utf-8', 'replace')
    for m in ws[1]['mods']:
        y[m] = cache[m] = 0
        if m + '.yang' in have:
            t = rd(m + '.yang')
            y[m] = next((v for v in ws if text(ws[v], m, v) == t), -1)
        if m + '.xml' in have:
            t = rd(m + '.xml')
            vs = [v for v in ws if re.search(r'\bv%d\b' % v, t)]
            cache[m] = vs[0] if len(vs) == 1 and t.rstrip().endswith('</%s>' % m) else -1
    if 'capabilities.txt' in have:
        t = rd('capabilities.txt')
        mark = next((v for v in ws if '\n'.join(sorted(caps(ws[v], v))) == t), -1)
    return dict(yang=y, cache=cache, mark=mark)


def spec_world(w):
    return {k: w[k] for k in ('load', 'imp', 'inc', 'given', 'mods')}


def run_history(c):
    """steps: run (how, crash at k or 0), load, upgrade, tear"""
    ws = {int(k): v for k, v in c['ws'].items()}
    if HANGS.value >= 8:
        return []
    base = tempfile.mkdtemp(prefix='vps')
    folder = os.path.join(base, 'yang')
    rng = random.Random(c['seed'])
    v = 1
    evs = []
    fresh = False               # the last run was complete and nothing has touched the folder since
    try:
        for step in c['steps']:
            op = step['op']
            if op == 'upgrade':
                v = 3 - v
                fresh = False
                continue
            if op == 'tear':            # the process died while this file was being written
                fs = [f for f in (os.listdir(folder) if os.path.isdir(folder) else []) if f.endswith('.xml')]
                if fs:
                    p = os.path.join(folder, rng.choice(sorted(fs)))
                    with open(p, 'r+b') as f:
                        f.truncate(rng.randrange(max(1, len(f.read()) - 8)))
                continue
            if op == 'break':           # files that are no YANG modules
                os.makedirs(folder, exist_ok=True)
                fresh = False
                for n, data in step['files'].items():
                    with open(os.path.join(folder, n), 'wb') as f:
                        f.write(data.encode('latin-1'))
                for m in ws[v]['given']:
                    with open(os.path.join(folder, m + '.yang'), 'w') as f:
                        f.write(text(ws[v], m, v))
                continue
            before = snapshot(folder, ws)
            if op == 'load' and step['m'] in SUBS or op == 'load' and before['yang'].get(step['m'], 0) != v or op == 'load' and step['m'] in ws[v].get('bad', {}) or \
                    op == 'run' and step['how'] == 'ignore' and not os.path.isdir(folder):
                continue
            res, ob = forked(folder, ws[v], v, step, step.get('k', 0))
            ev = dict(kind=op, v=v, fresh=fresh, w=spec_world(ws[v]), res=res, how=step.get('how', ''), m=step.get('m', ''),
                      before=before, after=snapshot(folder, ws), k=step.get('k', 0), pace=step.get('pace', ''),
                      exc=ob.get('exc', ''), asked=ob.get('asked', []), imports=ob.get('imports', {}),
                      depends=ob.get('depends', {}), listed=ob.get('listed', []), got=ob.get('got', 0), ops=ob.get('ops', 0), msg=ob.get('msg', ''))
            evs.append(ev)
            if op == 'run' and step['how'] != 'ignore':
                fresh = res == 'done' and not ev['exc']
            if res == 'hang':
                break
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return evs


# ------------------------------------------------------------------ the checks
def design(ctx):
    ctx.design('MCStore', workers=4)
    # the specification tells a wrong order of removing files from a right one
    rc, out = ctx.tlc('MCStore', 'MCStoreLate.cfg', {'VP_SCALE': '1'}, workers=4)
    if 'Invariant Trust is violated' not in out:
        raise core.Machinery('negative control: a late mark must violate Trust\n' + out[-2000:])


def judge(ctx, cases, chunk=4):
    evs = ctx.drive(run_history, cases, chunk=chunk, per_case=300)
    for e in evs:
        ctx.count('events_%s_%s_%s' % (e.get('kind'), e.get('how', ''), e.get('res', '')))
    ctx.validate('StoreTrace', evs)
    return evs


def check_download(ctx):
    """C20: any dependency graph, any pace of answers, any failures"""
    design(ctx)
    rng = ctx.rng()
    cases = []
    for i in range(4000 if ctx.thorough else 350):
        w = world(rng, rng.randint(1, 6), broken=rng.random() < .25)
        w2 = world(rng, len([m for m in w['mods'] if m in NAMES]))
        for k in ('imp', 'inc'):
            w2[k].update({m: [] for m in w['mods'] if m not in w2[k]})
            w[k].update({m: [] for m in w2['mods'] if m not in w[k]})
        w['mods'] = w2['mods'] = sorted(set(w['mods']) | set(w2['mods']))
        p = lambda: dict(pace=rng.choice(['', 'random', 'hold', 'hold']), seed=rng.randrange(10 ** 6))
        run = lambda how: dict(op='run', how=how, **p())
        steps = [run('check')]
        steps += rng.choice([[], [run('check')], [run('force')], [run('ignore'), dict(op='upgrade'), run('check')],
                             [dict(op='upgrade'), run('check'), run('check')], [dict(op='upgrade'), run('ignore')]])
        cases.append(dict(ws={1: w, 2: w2}, seed=rng.randrange(10 ** 6), steps=steps))
    for c in cases:     # which modules of another version are there is not the business of 'ignore'
        if c['steps'][-2:] and c['steps'][-1]['how'] == 'ignore' and c['steps'][-2]['op'] == 'upgrade':
            c['steps'].pop()
    judge(ctx, cases)


def pair(rng, n):
    """the worlds before and after an upgrade of the device, over the same names"""
    w, w2 = world(rng, n), world(rng, n)
    for k in ('imp', 'inc'):
        for m in set(w['mods']) | set(w2['mods']):
            w[k].setdefault(m, [])
            w2[k].setdefault(m, [])
    w['mods'] = w2['mods'] = sorted(set(w['mods']) | set(w2['mods']))
    return {1: w, 2: w2}


def sim_worlds():
    """the worlds of MCStore"""
    m = ['ma', 'mb', 'mc', 'md']
    none = {x: [] for x in m}
    return {1: dict(mods=m, load=['ma', 'mb'], imp=dict(none, ma=['mc'], mb=['mc', 'md']), inc=none, given=['ma', 'mb', 'mc'], bad={}),
            2: dict(mods=m, load=['ma'], imp=dict(none, ma=['md'], md=['ma', 'mb']), inc=none, given=['ma', 'md'], bad={})}


def from_spec(ctx, rng, n):
    """behaviours of the specification as histories for the real code"""
    rc, out = ctx.tlc('MCStoreSim', env={'VP_SCALE': '1'}, workers=1,
                      args=['-simulate', 'num=%d' % n, '-depth', '150', '-seed', str(ctx.seed + 41)])
    hs = [json.loads(x) for x in sorted(set(json.loads('"%s"' % x) for x in re.findall(r'"VPHIST (.*)"$', out, re.M)))]
    if len(hs) < 10:
        raise core.Machinery('no histories from the specification\n' + out[-2000:])
    res = []
    for h in hs:
        steps = []
        for x in h:
            if x['op'] == 'run':
                steps.append(dict(op='run', how=x['how'], pace=rng.choice(['', 'random']), seed=rng.randrange(10 ** 6)))
            elif x['op'] == 'load':
                steps.append(dict(op='load', m='m' + x['m']))
            elif x['op'] == 'upgrade':
                steps.append(dict(op='upgrade'))
            elif x['op'] == 'crash' and steps:
                # where in a run: cleaning up, downloading, writing the mark
                steps[-1]['k'] = {'clean': rng.randint(1, 8), 'get': rng.randint(4, 16)}.get(x['at'], rng.randint(1, 22))
        steps += [dict(op='run', how='check'), dict(op='run', how='check'), dict(op='load', m='ma')]
        res.append(steps)
    ctx.count('histories_from_spec', len(res))
    return res


def check_crash(ctx):
    """C21: a process may die anywhere; the folder is never taken for complete when it is not"""
    design(ctx)
    rng = ctx.rng()
    run = lambda how='check', **k: dict(op='run', how=how, **k)
    up = dict(op='upgrade')
    cases = []
    # every crash point of an upgrade, then every kind of next run
    probe = [pair(rng, rng.randint(2, 4)) for i in range(12 if ctx.thorough else 2)] + [sim_worlds()]
    for ws in probe:
        loads = [dict(op='load', m=m) for m in ws[1]['load'][:2]]
        again = [dict(op='load', m=m) for m in ws[2]['load'][:2]]
        # how many operations on files there are, hence crash points
        e = run_history(dict(ws=ws, seed=0, steps=[run()] + loads + [up, run(), run('force')]))
        n1, n2, n3 = [x['ops'] for x in e if x['kind'] == 'run'][:3] if len(e) >= 3 else (20, 30, 30)
        for k in range(1, n2 + 2):
            cases.append(dict(ws=ws, seed=k, steps=[run()] + loads + [up, run(k=k), run()] + again))
        for k in range(1, n3 + 2):
            cases.append(dict(ws=ws, seed=k, steps=[run()] + loads + [run('force', k=k, seed=k), run()] + loads))
        for k in range(1, n1 + 2):
            cases.append(dict(ws=ws, seed=k, steps=[run(k=k), run(), run()]))
        # two crashes, or an upgrade and back between them
        for k in range(1, n2 + 2, 1 if ctx.thorough else 2):
            cases.append(dict(ws=ws, seed=k, steps=[run(), up, run(k=k, seed=k), up, run()] + loads))
            cases.append(dict(ws=ws, seed=k, steps=[run(), up, run(k=k), run(k=rng.randint(1, n2)), run()]))
        ctx.count('crash_points', n1 + n2 + n3)
    # compiled modules of the past, torn files
    for i in range(300 if ctx.thorough else 40):
        ws = pair(rng, rng.randint(1, 4))
        l1 = [dict(op='load', m=m) for m in ws[1]['load']]
        l2 = [dict(op='load', m=m) for m in ws[2]['load']]
        cases.append(dict(ws=ws, seed=i, steps=[run()] + l1 + [up, run(rng.choice(['check', 'force']))] + l2 + l2))
        cases.append(dict(ws=ws, seed=i, steps=[run()] + l1 + [dict(op='tear')] * rng.randint(1, 3) + [run('ignore')] + l1))
    sims = from_spec(ctx, rng, 2000 if ctx.thorough else 300)
    rng.shuffle(sims)
    for s in sims[:2500 if ctx.thorough else 70]:
        cases.append(dict(ws=sim_worlds(), seed=len(cases), steps=s))
    judge(ctx, cases)


JUNK = ['\xff\xfe\x00\x81', '', 'garbage {', 'module zz {\n  namespace "urn:zz";\n  prefix zz;\n  import ma;\n}\n',
        'module zz {\n  namespace "urn:zz";\n  prefix zz;\n  import nowhere { prefix n; }\n  uses n:g;\n}\n',
        'submodule zz {\n  belongs-to nobody { prefix n; }\n}\n', 'container c;\n', 'module zz;\n',
        'module zz {\n  // caf\xe9\n  namespace "urn:zz";\n  prefix zz;\n}\n', 'module 4zz { }', '}' * 40, 'module zz { import; }']


def check_broken(ctx):
    """C22: files that are no YANG modules"""
    rng = ctx.rng()
    cases = []
    for i in range(1500 if ctx.thorough else 220):
        w = world(rng, rng.randint(0 if i % 5 == 0 else 1, 4), broken=rng.random() < .3)
        w['given'] = [m for m in w['given'] if m not in w['bad'] or rng.random() < .5]
        n = rng.choice([0, 1, 1, 2, 4]) if w['given'] else rng.choice([1, 2])
        files = {'zz%d%s' % (j, rng.choice(['.yang', '.yang', '.YANG'])):
                 (JUNK[i % len(JUNK)] if j == 0 else rng.choice(JUNK)) for j in range(n)}
        for m in w['given']:        # the same module once more
            if rng.random() < .25:
                files[rng.choice(['%s@2024-01-01.yang', 'copy-of-%s.yang', '00%s.yang']) % m] = text(w, m, 1)
        steps = [dict(op='break', files=files), dict(op='run', how='ignore')]
        steps += [dict(op='load', m=m) for m in w['given'] if m in w['load']][:2]
        cases.append(dict(ws={1: w, 2: w}, seed=i, steps=steps))
    judge(ctx, cases)
