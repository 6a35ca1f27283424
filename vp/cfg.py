"""Drivers for the configuration part of ncdiff (Config, ConfigDelta, edit-config).

A case is plain JSON; run_* turns it into an event recorded from the real code."""
import json, os, random, copy, re, shutil
from . import core, schema, tree, worlds
from .tree import Style, to_xml, to_ele, project, gen, N

SCH = DEV = None
WORLDS = 6
OPTS = [dict(pc=a, pr=b, pd=c, dt=t, depth=d)
        for a in ('merge', 'create', 'replace') for b in ('merge', 'replace')
        for c in ('delete', 'remove')
        for t, d in (('minimum', 0), ('replace', 0), ('replace', 1), ('replace', 2))]


def setup(ctx):
    """schema constant for TLC + a real ModelDevice with the models loaded."""
    global SCH, DEV
    try:
        from . import device
    except AssertionError as e:
        raise core.Machinery('not the code of /repo: %s' % e)
    except Exception as e:
        raise core.Violation('the package cannot be imported', repr(e))
    # random modules beside the fixed ones
    ws = worlds.worlds(ctx.rng('worlds'), WORLDS * (4 if ctx.thorough else 1))
    src = ctx.path('yang')
    shutil.copytree(device.YANG, src)
    mods = dict(device.MODULES)
    for w in ws:
        with open(os.path.join(src, 'vpw%d.yang' % w.i), 'w') as h:
            h.write(w.text)
        u = 'urn:vp:w%d' % w.i
        mods['vpw%d' % w.i] = (w.p, u)
        tree.U[w.p] = tree.MOD['vpw%d' % w.i] = u
        tree.URL2P[u], tree.URL2M[u] = w.p, 'vpw%d' % w.i
    load = ['vpalpha', 'vpbeta'] + ['vpw%d' % w.i for w in ws]
    SCH = schema.load(src, list(mods), load)
    ctx.count('random_modules', len(ws))
    ctx.count('schema_nodes', len(SCH['nodes']))
    f = ctx.path('schema.json')
    json.dump(SCH['nodes'], open(f, 'w'))
    os.environ['VP_SCHEMA'] = f
    os.environ.setdefault('VP_SCALE', '2' if ctx.thorough else '1')
    os.environ.setdefault('VP_OUT', '')
    try:
        DEV = device.make_device(modules=mods, load=load, src=src)
    except Exception as e:
        raise core.Violation('models cannot be loaded', repr(e))


def universes(ctx):
    """TLC checks the delta design and emits the universes it explored."""
    out = ctx.path('universe.json')
    ctx.design('MCSync', env={'VP_OUT': out, 'VP_OPT': str(int(ctx.prop[1:]) % 3)})
    return json.load(open(out))


def exc_name(e):
    return type(e).__name__


def mkstyle(rng):
    """one way of spelling for all operands of a session (see DESIGN: D4)"""
    return dict(mode=rng.choice(['default', 'prefix', 'mixed']), pfx=rng.choice(['', 'p']),
                seed=rng.randrange(1 << 30))


def safe(st):
    return Style(random.Random(st['seed']), st['mode'], st['pfx'], 'root', 'share', False)


def okw(o):
    return dict(preferred_create=o['pc'], preferred_replace=o['pr'], preferred_delete=o['pd'],
                diff_type=o['dt'], replace_depth=o['depth'])


def cfg(kids, st=None, **kw):
    from ncdiff import Config
    return Config(DEV, to_xml(kids, SCH, safe(st) if st else Style()), **kw)


# ---------------------------------------------------------------- input generation
def density(rng):
    return rng.choice([.08, .15, .3, .5])


SKIPS = [(), ('va:top2', 'vb:broot', 'va:tlist'), ('vb:broot',), ('va:top',)]


def part(rng):
    """the schema with some of its roots only: those of the fixed modules or of a random one or two"""
    fixed = [r for r in SCH['roots'] if r[0] == 'v']
    other = sorted({r.split(':')[0] for r in SCH['roots']} - {r.split(':')[0] for r in fixed})
    if not other or rng.random() < .55:
        return dict(SCH, roots=fixed)
    few = rng.sample(other, rng.choice([1, 1, 2]) if len(other) > 1 else 1)
    return dict(SCH, roots=[r for r in SCH['roots'] if r.split(':')[0] in few])


def rnd_cfg(rng, **kw):
    return gen(rng, part(rng), density(rng), skip=rng.choice(SKIPS), **kw)


def mutate(rng, kids, n=None):
    """a config near kids: drop, change, duplicate-with-other-key or permute nodes"""
    k = copy.deepcopy(kids)
    for _ in range(n or rng.randint(1, 4)):
        spots = []

        def walk(ks, path):
            spots.append((ks, path))
            for c in ks:
                q = (path + '/' if path else '') + c['t']
                if SCH['nodes'][q]['kids']:
                    walk(c['k'], q)
        walk(k, '')
        ks, path = rng.choice(spots)
        what = rng.random()
        cand = [i for i, c in enumerate(ks)
                if not SCH['nodes'][(path + '/' if path else '') + c['t']]['iskey']]
        if what < .3 and cand:
            del ks[rng.choice(cand)]
        elif what < .55 and cand:
            c = ks[rng.choice(cand)]
            inf = SCH['nodes'][(path + '/' if path else '') + c['t']]
            if inf['ty'] == 'leaf':
                c['v'] = tree.val(rng, inf)
        elif what < .8:
            # swap two siblings of one tag
            tags = {}
            for i, c in enumerate(ks):
                tags.setdefault(c['t'], []).append(i)
            t = [v for v in tags.values() if len(v) > 1]
            if t:
                i, j = rng.sample(rng.choice(t), 2)
                ks[i], ks[j] = ks[j], ks[i]
        else:
            add = graft(rng, path, ks)
            if add:
                ks += add
    return k


def graft(rng, path, ks):
    """new children under path that fit beside ks"""
    tags = SCH['nodes'][path]['kids'] if path else SCH['roots']
    sub = {'roots': tags, 'nodes': SCH['nodes']}
    t = rng.choice(tags)
    p = (path + '/' if path else '') + t
    inf = SCH['nodes'][p]
    if inf['iskey'] or not inf['rw'] or inf['status'] != 'current':
        return []
    have = {c['t'] for c in ks}
    for h in have:
        hi = SCH['nodes'][(path + '/' if path else '') + h]
        for c, x in hi['choices']:
            if dict(map(tuple, inf['choices'])).get(c, x) != x:
                return []
    if inf['ty'] in ('leaf', 'container') and t in have:
        return []
    new = gen_one(rng, p)
    ids = {ident(c, (path + '/' if path else '') + c['t']) for c in ks}
    return [n for n in new if ident(n, p) not in ids]


def gen_one(rng, p):
    info = SCH['nodes'][p]
    t = info['tag']
    if info['ty'] == 'leaf':
        return [N(t, tree.val(rng, info))]
    if info['ty'] == 'leaf-list':
        vs = []
        for _ in range(rng.randint(1, 3)):
            v = tree.val(rng, info)
            if v not in vs:
                vs.append(v)
        return [N(t, v) for v in vs]
    kids = []
    for kt in info['kids']:
        q = p + '/' + kt
        ki = SCH['nodes'][q]
        if ki['iskey']:
            kids.append(N(kt, tree.val(rng, ki)))
    for kt in info['kids']:
        q = p + '/' + kt
        ki = SCH['nodes'][q]
        if ki['iskey'] or not ki['rw'] or ki['status'] != 'current' or ki['choices']:
            continue
        if rng.random() < .35:
            kids += gen_one(rng, q)
    if info['ty'] == 'container' and not info['pres'] and not kids:
        return []
    return [N(t, '', kids)]


def ident(n, p):
    info = SCH['nodes'].get(p)
    if info is None:
        return (n['t'],)
    if info['ty'] == 'leaf-list':
        return (n['t'], n['v'])
    if info['ty'] == 'list':
        return (n['t'],) + tuple(next((c['v'] for c in n['k'] if c['t'] == k), None)
                                 for k in info['keys'])
    return (n['t'],)


def pairs_from(ctx, unis, rng, per_family):
    """pairs of configurations from TLC's universes: all of them when they fit"""
    out = []
    for u in unis:
        cs = u['cfgs']
        n = len(cs) ** 2
        if n <= per_family:
            out += [(a, b) for a in cs for b in cs]
            ctx.count('pairs_%s_all' % u['name'], n)
        else:
            for _ in range(per_family):
                out.append((rng.choice(cs), rng.choice(cs)))
            ctx.count('pairs_%s_sampled' % u['name'], per_family)
    return out


def rnd_pairs(ctx, rng, n):
    out = []
    for _ in range(n):
        a = rnd_cfg(rng)
        b = mutate(rng, a) if rng.random() < .6 else rnd_cfg(rng)
        if rng.random() < .5:
            a, b = b, a
        out.append((a, b))
    ctx.count('pairs_random', n)
    return out


# ---------------------------------------------------------------- deltas
def run_delta(c):
    from ncdiff import ConfigDelta
    ev = dict(kind='delta', a=c['a'], b=c['b'], o=c['o'], st=c['st'], exc='')
    try:
        A, B = cfg(c['a'], c['st']), cfg(c['b'], c['st'])
        d = ConfigDelta(A, B, **okw(c['o']))
        ev['nc'] = project(d.nc, SCH, attrs=True)
        ev['ncr'] = project(ConfigDelta(B, A, **okw(c['o'])).nc, SCH, attrs=True)
        ev['neg'] = project((-d).nc, SCH, attrs=True)
        s = A + d
        s2 = d + A
        back = B - d
        ev['sum'] = project(s.ele, SCH, attrs=True)
        ev['sum2'] = project(s2.ele, SCH, attrs=True)
        ev['back'] = project(back.ele, SCH, attrs=True)
        ev['sumeq'], ev['backeq'] = bool(s == B), bool(back == A)
        ev['tr'] = bool(d)
        if c['o'] == OPTS[0]:
            ev['nc2'] = project((B - A).nc, SCH, attrs=True)
        else:
            ev['nc2'] = ev['nc']
    except Exception as e:
        ev['exc'] = exc_name(e)
        ev['msg'] = str(e)[:300]
    return ev


def delta_cases(ctx, unis, rng, per_family, nrand):
    cases = []
    for a, b in pairs_from(ctx, unis, rng, per_family) + rnd_pairs(ctx, rng, nrand):
        o = OPTS[0] if rng.random() < .3 else rng.choice(OPTS)
        cases.append(dict(a=a, b=b, o=o, st=mkstyle(rng)))
    return cases


def run_minrep(c):
    """diff type minimum-replace: the minimum payload, with replace on the nodes that are named"""
    from ncdiff import ConfigDelta
    from lxml import etree
    ev = dict(kind='minrep', a=c['a'], b=c['b'], o=c['o'], st=c['st'], exc='', depth=c['depth'], steps=[], anywhere=c['any'])
    try:
        A, B = cfg(c['a'], c['st']), cfg(c['b'], c['st'])
        o = okw(dict(c['o'], dt='minimum'))
        m = ConfigDelta(A, B, **o).nc
        short = lambda e: '%s:%s' % (tree.URL2P[etree.QName(e).namespace], etree.QName(e).localname)
        xp = None
        if c['pick'] is not None:
            all_ = list(m.iterdescendants())
            if all_:
                e = all_[int(c['pick'] * len(all_))]
                ev['steps'] = [short(x) for x in list(e.iterancestors())[::-1][1:] + [e]]
                xp = '//' + ev['steps'][-1] if c['any'] else '/nc:config/' + '/'.join(ev['steps'])
        o.update(diff_type='minimum-replace', replace_depth=c['depth'])
        if xp:
            o['replace_xpath'] = xp
        r = ConfigDelta(A, B, **o).nc
        nodes = []

        def walk(x, y, path):
            cx, cy = list(x), list(y)
            same = x.tag == y.tag and (x.text or '') == (y.text or '') and len(cx) == len(cy) and \
                dict(x.attrib) == {k: v for k, v in y.attrib.items() if k != 'operation'}
            nodes.append([path, y.get('operation') or '', same])
            for i, j in zip(cx, cy):
                walk(i, j, path + [short(i)])
        walk(m, r, [])
        ev['nodes'] = nodes
    except Exception as e:
        if not core.from_code(e):
            raise
        ev['exc'], ev['msg'] = exc_name(e), str(e)[:300]
    return ev


def check_prefs(ctx):
    """C06"""
    check_delta(ctx)
    rng = ctx.rng('minrep')
    cases = [dict(a=a, b=b, o=rng.choice(OPTS), st=mkstyle(rng), depth=rng.randint(0, 3), any=rng.random() < .5,
                  pick=rng.random() if rng.random() < .6 else None)
             for a, b in rnd_pairs(ctx, rng, 800 * (8 if ctx.thorough else 1))]
    ctx.validate('ConfigTrace', ctx.drive(run_minrep, cases), label='m')


def check_delta(ctx):
    setup(ctx)
    unis = universes(ctx)
    rng = ctx.rng('delta')
    k = 8 if ctx.thorough else 1
    cases = delta_cases(ctx, unis, rng, 700 * k, 5000 * k)
    evs = ctx.drive(run_delta, cases)
    ctx.validate('ConfigTrace', evs)


# ---------------------------------------------------------------- edit-config (C03)
def gen_edits(rng, kids, path, perr=.12, depth=0):
    """random edit-config children against the existing children kids"""
    out, written = [], set()
    tags = SCH['nodes'][path]['kids'] if path else SCH['roots']

    def q(t):
        return (path + '/' if path else '') + t

    def conflicts(t):
        mine = dict(map(tuple, SCH['nodes'][q(t)]['choices']))
        return any(mine.get(c, x) != x for w in written
                   for c, x in SCH['nodes'][q(w)]['choices'])

    def anchor(t, p, exists):
        info = SCH['nodes'][p]
        pool = [c for c in kids if c['t'] == t] + [c for c in out if c['t'] == t]
        if rng.random() < perr or not pool:
            if not pool and rng.random() < .7:
                return None
            if info['ty'] == 'leaf-list':
                return [['.', 'zz']]
            return [[k, 'zz'] for k in info['keys']]
        c = rng.choice(pool)
        if info['ty'] == 'leaf-list':
            return [['.', c['v']]]
        return [[k, next(x['v'] for x in c['k'] if x['t'] == k)] for k in info['keys']]

    def order(e, t, p, exists):
        if SCH['nodes'][p]['user'] and rng.random() < .75:
            e['ins'] = rng.choice(['first', 'last', 'before', 'after'])
            if e['ins'] in ('before', 'after'):
                a = anchor(t, p, exists)
                if a is None:
                    e['ins'] = 'last'
                else:
                    e['anc'] = a
                    if rng.random() < perr * .3:
                        e['anc'] = []
        return e

    def writes(t):
        if conflicts(t):
            return False
        if SCH['nodes'][q(t)]['choices']:
            written.add(t)
        return True

    todo = [('old', c) for c in kids if rng.random() < (.5 if depth else .8)]
    for t in tags:
        if rng.random() < .2:
            g = graft(rng, path, kids)
            todo += [('new', n) for n in g]
            break
    rng.shuffle(todo)
    seen = set()
    for how, n in todo:
        t = n['t']
        p = q(t)
        info = SCH['nodes'][p]
        if info['iskey'] or not info['rw'] or ident(n, p) in seen:
            continue
        seen.add(ident(n, p))
        keys = [copy.deepcopy(c) for c in n['k'] if c['t'] in info['keys']]
        exists = how == 'old'
        r = rng.random()
        if (exists and r < .3) or (not exists and r < perr):
            op = rng.choice(['delete', 'remove'])
            out.append(N(t, n['v'] if info['ty'] == 'leaf-list' or rng.random() < .3 and info['ty'] == 'leaf' else '',
                         keys, op=op))
            continue
        if not exists and r < 2 * perr:
            out.append(N(t, n['v'] if info['ty'] in ('leaf', 'leaf-list') else '', keys, op='remove'))
            continue
        if not writes(t):
            continue
        if info['ty'] in ('leaf', 'leaf-list'):
            v = n['v'] if info['ty'] == 'leaf-list' else tree.val(rng, info)
            op = rng.choice(['', '', 'merge', 'replace'])
            if not exists and rng.random() < .3 or exists and rng.random() < perr / 2:
                op = 'create'
            out.append(order(N(t, v, op=op), t, p, exists))
        else:
            op = rng.choice(['', '', '', 'merge', 'replace'])
            if not exists and rng.random() < .3 or exists and rng.random() < perr / 2:
                op = 'create'
            if op in ('replace', 'create'):
                new = n if rng.random() < .4 else None
                if new is None:
                    g = gen_one(rng, p)
                    if not g:
                        continue
                    new = g[0]
                e = N(t, '', keys + [copy.deepcopy(c) for c in new['k'] if c['t'] not in info['keys']], op=op)
            else:
                base = n['k'] if exists else keys
                sub = gen_edits(rng, [c for c in base], p, perr, depth + 1)
                if not exists:
                    have = {ident(c, p + '/' + c['t']) for c in sub}
                    if rng.random() < .5 and not sub:
                        sub = [copy.deepcopy(c) for c in n['k'] if c['t'] not in info['keys']]
                e = N(t, '', keys + sub, op=op)
            out.append(order(e, t, p, exists))
    if rng.random() < perr * .1 and out:
        rng.choice(out)['op'] = 'frobnicate'
    return out


def plant(rng, e):
    """one defect in an edit without any"""
    e = copy.deepcopy(e)
    every = spots_of(e)
    what = rng.choice(['anchor', 'anchor', 'wrong', 'create', 'delete', 'op', 'user'])
    user = [s for s in every if SCH['nodes'][s[2]]['user']]
    rel = [s for s in user if s[0][s[1]].get('ins') in ('before', 'after')]
    if what in ('anchor', 'wrong', 'user') and user:
        ks, i, p = rng.choice(rel or user) if what != 'user' else rng.choice(user)
        n = ks[i]
        if n.get('op') in ('delete', 'remove'):
            return e
        n['ins'] = n.get('ins') or 'first'
        if what != 'user' and n['ins'] in ('first', 'last'):
            n['ins'] = rng.choice(['before', 'after'])
        if n['ins'] in ('before', 'after'):
            n['anc'] = [] if what == 'anchor' else n.get('anc') or []
            if what == 'wrong':
                ks2 = SCH['nodes'][p]['keys']
                n['anc'] = [['.', 'zz']] if SCH['nodes'][p]['ty'] == 'leaf-list' else [[k, 'zz'] for k in ks2]
        return e
    every = [s for s in every if not SCH['nodes'][s[2]]['iskey']]
    if every:
        ks, i, p = rng.choice(every)
        n = ks[i]
        n['op'] = {'create': 'create', 'delete': 'delete'}.get(what, 'frobnicate')
        if what == 'delete':
            n['k'] = [c for c in n['k'] if SCH['nodes'][p + '/' + c['t']]['iskey']]
    return e


def run_apply(c):
    from ncdiff import ConfigDelta
    ev = dict(kind='apply', a=c['a'], e=c['e'], st=c['st'], exc='', exc2='')
    xml = to_xml(c['e'], SCH, safe(c['st']))
    try:
        A = cfg(c['a'], c['st'])
    except Exception as e:
        ev['exc'] = ev['exc2'] = exc_name(e)
        return ev
    from lxml import etree
    try:
        ev['res'] = project((A + etree.fromstring(to_xml(c['e'], SCH, safe(c['st']), per_child=True))).ele, SCH, attrs=True)
    except Exception as e:
        ev['exc'], ev['msg'] = exc_name(e), str(e)[:300]
    try:
        d = ConfigDelta(A, delta=xml)
        ev['res2'] = project(d.config_dst.ele, SCH, attrs=True)
        if d.config_src is not A:
            ev['exc2'] = 'config_src'
    except Exception as e:
        ev['exc2'] = exc_name(e)
    return ev


def check_apply(ctx):
    setup(ctx)
    unis = universes(ctx)
    rng = ctx.rng('apply')
    k = 8 if ctx.thorough else 1
    cases = []
    for u in unis:
        for _ in range(450 * k):
            a = rng.choice(u['cfgs'])
            cases.append(dict(a=a, e=gen_edits(rng, a, ''), st=mkstyle(rng)))
    ctx.count('universe_edits', len(cases))
    for _ in range(6000 * k):
        a = rnd_cfg(rng)
        cases.append(dict(a=a, e=gen_edits(rng, a, '', rng.choice([0, .05, .15])), st=mkstyle(rng)))
    for _ in range(3500 * k):
        a = rng.choice(rng.choice(unis)['cfgs']) if rng.random() < .4 else rnd_cfg(rng)
        cases.append(dict(a=a, e=plant(rng, gen_edits(rng, a, '', 0)), st=mkstyle(rng)))
    evs = ctx.drive(run_apply, cases)
    ctx.count('edits_rejected', sum(1 for e in evs if e['exc']))
    ctx.count('edits_accepted', sum(1 for e in evs if not e['exc']))
    ctx.validate('ConfigTrace', evs)


# ---------------------------------------------------------------- comparison (C04, C12)
def anystyle(rng):
    return dict(mode=rng.choice(['default', 'prefix', 'mixed']), pfx=rng.choice(['', 'p', 'zz']),
                decl=rng.choice(['local', 'root']), idp=rng.choice(['own', 'share', 'json']),
                dflt=rng.choice(['', '', 'va', 'vb', 'vi']), seed=rng.randrange(1 << 30))


def styled(kids, s):
    return to_xml(kids, SCH, Style(random.Random(s['seed']), s['mode'], s['pfx'], s['decl'], s['idp'],
                                  dflt=s['dflt']))


def run_cmp(c):
    from ncdiff import Config
    ev = dict(kind='cmp', a=c['a'], b=c['b'], sa=c['sa'], sb=c['sb'], exc='')
    try:
        A, B = Config(DEV, styled(c['a'], c['sa'])), Config(DEV, styled(c['b'], c['sb']))
        ev.update(eq=bool(A == B), ne=bool(A != B), le=bool(A <= B), ge=bool(A >= B),
                  lt=bool(A < B), gt=bool(A > B), ba=bool(A))
    except Exception as e:
        ev['exc'], ev['msg'] = exc_name(e), str(e)[:300]
    return ev


def shrink(rng, kids, keep=.75):
    """drop nodes at random, keys excepted: a smaller config"""
    def go(ks, path):
        out = []
        for c in ks:
            p = (path + '/' if path else '') + c['t']
            if not SCH['nodes'][p]['iskey'] and rng.random() > keep:
                continue
            out.append(dict(c, k=go(c['k'], p)))
        return out
    return go(kids, '')


def shuffle_sys(rng, kids):
    """permute what YANG leaves unordered"""
    def go(ks, path):
        ks = [dict(c, k=go(c['k'], (path + '/' if path else '') + c['t'])) for c in ks]
        keys = [c for c in ks if SCH['nodes'][(path + '/' if path else '') + c['t']]['iskey']]
        rest = [c for c in ks if c not in keys]
        new = rest[:]
        rng.shuffle(new)
        user = {}
        for c in rest:
            if SCH['nodes'][(path + '/' if path else '') + c['t']]['user']:
                user.setdefault(c['t'], []).append(c)
        out = []
        for c in new:
            out.append(user[c['t']].pop(0) if c['t'] in user else c)
        return keys + out
    return go(kids, '')


def cmp_pairs(ctx, unis, rng, per_family, n):
    ps = pairs_from(ctx, unis, rng, per_family)
    for _ in range(n):
        a = rnd_cfg(rng)
        r = rng.random()
        if r < .35:
            b = shrink(rng, a, rng.choice([.6, .8, .95]))
        elif r < .55:
            b = copy.deepcopy(a)
        elif r < .8:
            b = mutate(rng, a)
        else:
            b = rnd_cfg(rng)
        if rng.random() < .6:
            b = shuffle_sys(rng, b)
        if rng.random() < .5:
            a, b = b, a
        ps.append((a, b))
    ctx.count('pairs_random', n)
    return ps


def check_cmp(ctx):
    setup(ctx)
    unis = universes(ctx)
    rng = ctx.rng('cmp')
    k = 8 if ctx.thorough else 1
    cases = [dict(a=a, b=b, sa=anystyle(rng), sb=anystyle(rng))
             for a, b in cmp_pairs(ctx, unis, rng, 1200 * k, 9000 * k)]
    evs = ctx.drive(run_cmp, cases)
    ctx.validate('ConfigTrace', evs)


IDPATHS = ('va:top/va:idr', 'va:top/va:iid', 'va:top/va:il', 'va:top/va:idl', 'vb:broot/vb:idr')


def only_refs(kids, path=''):
    out = []
    for c in kids:
        p = (path + '/' if path else '') + c['t']
        info = SCH['nodes'][p]
        k = only_refs(c['k'], p)
        if info['iskey'] or info['dt'] in ('idref', 'iid') or any(not SCH['nodes'][p + '/' + x['t']]['iskey'] for x in k) or \
                any(SCH['nodes'][p + '/' + x['t']]['dt'] in ('idref', 'iid') for x in k):
            out.append(dict(c, k=k))
    return out


def rnd_ident(rng):
    """configs full of identityref and instance-identifier values"""
    if rng.random() < .5:
        return only_refs(gen(rng, part(rng), .5))
    top = []
    if rng.random() < .6:
        top.append(N('va:idr', rng.choice(tree.IDS)))
    if rng.random() < .6:
        top.append(N('va:iid', rng.choice(tree.IIDS)))
    for i in rng.sample(tree.IDS, rng.randint(0, 3)):
        top.append(N('va:il', i))
    for i in rng.sample(tree.IDS, rng.randint(0, 3)):
        top.append(N('va:idl', '', [N('va:id', i)] + ([N('va:v', 'x')] if rng.random() < .3 else [])))
    out = [N('va:top', '', top)] if top else []
    if rng.random() < .4:
        out.append(N('vb:broot', '', [N('vb:idr', rng.choice(tree.IDS))]))
    return out


def check_ident(ctx):
    setup(ctx)
    rng = ctx.rng('ident')
    k = 8 if ctx.thorough else 1
    unis = [u for u in universes(ctx) if u['name'] == 'ident']
    ps = pairs_from(ctx, unis, rng, 4000 * k)
    for _ in range(9000 * k):
        a = rnd_ident(rng)
        b = copy.deepcopy(a) if rng.random() < .5 else mutate(rng, a) if rng.random() < .5 else rnd_ident(rng)
        ps.append((a, shuffle_sys(rng, b)))
    ctx.count('pairs_random', 9000 * k)
    evs = ctx.drive(run_cmp, [dict(a=a, b=b, sa=anystyle(rng), sb=anystyle(rng)) for a, b in ps])
    ctx.validate('ConfigTrace', evs)
    probe_d4(ctx)


def probe_d4(ctx):
    """known finding D4 (known_findings.json): exactly this input, nothing else"""
    from ncdiff import Config
    if not any(isinstance(k, dict) and k['id'] == 'D4' for k in core.known_findings()):
        return
    A = Config(DEV, '<config xmlns="%s"><top xmlns="urn:vp:alpha"><iid xmlns:iva="urn:vp:alpha">'
                    '/iva:top/iva:s</iid></top></config>' % tree.NC)
    B = Config(DEV)
    try:
        ok = bool(B + (A - B) == A)
    except Exception as e:
        ok = False
    if not ok:
        ctx.known.append('D4 the prefix of an instance-identifier is lost in B + (A - B) when the same '
                         'namespace is in scope under another prefix')


# ---------------------------------------------------------------- merging (C08)
def run_merge(c):
    from ncdiff import Config
    ev = dict(kind='merge', a=c['a'], b=c['b'], st=c['st'], exc='')
    try:
        A, B, Z = cfg(c['a'], c['st']), cfg(c['b'], c['st']), Config(DEV)
        s = A + B
        pr = lambda x: project(x.ele, SCH, attrs=True)
        ev.update(sum=pr(s), self=pr(A + A), az=pr(A + Z), za=pr(Z + A), le=bool(B <= s), twice=pr(s + B))
    except Exception as e:
        ev['exc'], ev['msg'] = exc_name(e), str(e)[:300]
    return ev


def check_merge(ctx):
    setup(ctx)
    unis = universes(ctx)
    rng = ctx.rng('merge')
    k = 8 if ctx.thorough else 1
    cases = [dict(a=a, b=b, st=mkstyle(rng)) for a, b in
             pairs_from(ctx, unis, rng, 700 * k) + rnd_pairs(ctx, rng, 6000 * k)]
    evs = ctx.drive(run_merge, cases)
    ctx.validate('ConfigTrace', evs)


# ---------------------------------------------------------------- normal form (C09)
def rnd_raw(rng):
    """a config as a device may report it: defaults, empty containers, old nodes"""
    sch = part(rng)
    raw = gen(rng, sch, density(rng), skip=rng.choice(SKIPS))

    def go(ks, path):
        tags = SCH['nodes'][path]['kids'] if path else sch['roots']
        for c in ks:
            p = (path + '/' if path else '') + c['t']
            if SCH['nodes'][p]['kids']:
                go(c['k'], p)
        for t in tags:
            p = (path + '/' if path else '') + t
            i = SCH['nodes'][p]
            if any(c['t'] == t for c in ks) or i['iskey'] or not i['rw'] or rng.random() > .3:
                continue
            if i['choices'] and any(dict(map(tuple, i['choices'])).get(ch, x) != x for c in ks
                                    for ch, x in SCH['nodes'][(path + '/' if path else '') + c['t']]['choices']):
                continue
            if i['status'] != 'current':
                ks.append(N(t, 'old'))
            elif i['ty'] == 'container' and not i['pres']:
                sub = []
                if rng.random() < .5:
                    go(sub, p)
                ks.append(N(t, '', sub))
            elif i['ty'] == 'leaf' and i['def']:
                ks.append(N(t, rng.choice(i['def'] + ['9' if i['dt'] == 'uint8' else 'false' if i['dt'] == 'boolean' else '@vpids:two' if i['dt'] == 'idref' else 'nd'])))
            elif i['ty'] == 'leaf-list' and i['def']:
                d, other = list(i['def']), ('@vpids:two', '@vpids:sub') if i['dt'] == 'idref' else ('x', 'zz')
                r = rng.random()
                if r < .4:
                    rng.shuffle(d)
                elif r < .6:
                    d = d[:-1] or [other[0]]
                elif r < .8:
                    d = d + [other[1]]
                ks += [N(t, v) for v in d]
            elif i['ty'] == 'list' and rng.random() < .25:
                ks.append(N(t))
    go(raw, '')
    return raw


def run_norm(c):
    from ncdiff import Config
    ev = dict(kind='norm', a=c['a'], dep=c['dep'], check=c['check'], st=c['st'], exc='')
    try:
        A = cfg(c['a'], c['st'], validate=c['check'], remove_deprecated=c['dep'])
        ev['res'] = project(A.ele, SCH)
        ev['again'] = project(Config(DEV, A.xml, validate=c['check'], remove_deprecated=c['dep']).ele, SCH)
        B = Config(DEV, A, validate=c['check'], remove_deprecated=c['dep'])
        B.trim_defaults()
        ev['conv'] = project(B.ele, SCH)
    except Exception as e:
        ev['exc'], ev['msg'] = exc_name(e), str(e)[:300]
    return ev


def check_norm(ctx):
    setup(ctx)
    universes(ctx)
    rng = ctx.rng('norm')
    k = 8 if ctx.thorough else 1
    cases = [dict(a=rnd_raw(rng), dep=rng.random() < .5, check=rng.random() < .8, st=mkstyle(rng))
             for _ in range(9000 * k)]
    evs = ctx.drive(run_norm, cases)
    ctx.count('raw_configs', len(evs))
    ctx.count('changed_by_normalization', sum(1 for e in evs if not e['exc'] and tree_size(e['res']) != tree_size(e['a'])))
    ctx.validate('ConfigTrace', evs)


def tree_size(ks):
    return sum(1 + tree_size(c['k']) for c in ks)


# ---------------------------------------------------------------- validation (C10)
def spots_of(kids, types=None):
    """(list, index, path) of every node"""
    out = []

    def go(ks, path):
        for i, c in enumerate(ks):
            p = (path + '/' if path else '') + c['t']
            inf = SCH['nodes'].get(p)
            if types is None or (inf and inf['ty'] in types):
                out.append((ks, i, p))
            go(c['k'], p)
    go(kids, '')
    return out


def spoil(rng, kids):
    k = copy.deepcopy(kids)
    what = rng.choice(['root', 'tag', 'ns', 'key', 'op', 'op', 'ins', 'val', 'keyattr', 'moved'])
    if what == 'root':
        k.append(N(rng.choice(['va:nosuch', 'zz:nosuch', 'vi:nosuch']), 'x'))
        return k, what
    inner = [s for s in spots_of(k, ('container', 'list')) if s[0][s[1]]['k']]
    every = spots_of(k)
    if not every:
        return k, 'none'
    if what in ('tag', 'ns', 'moved') and inner:
        ks, i, p = rng.choice(inner)
        t = {'tag': 'va:nosuch', 'ns': 'zz:s', 'moved': 'va:top'}[what]
        ks[i]['k'].insert(rng.randint(0, len(ks[i]['k'])), N(t, 'x'))
        return k, what
    if what == 'key':
        ls = [s for s in spots_of(k, ('list',)) if len(s[0][s[1]]['k']) > 1]
        if ls:
            ks, i, p = rng.choice(ls)
            kt = rng.choice(SCH['nodes'][p]['keys'])
            ks[i]['k'] = [c for c in ks[i]['k'] if c['t'] != kt]
            return k, what
    ks, i, p = rng.choice(every)
    if what in ('op', 'tag', 'ns', 'moved', 'key'):
        ks[i]['op'] = rng.choice(['merge', 'create', 'replace', 'delete', 'remove'])
        return k, 'op'
    if what == 'ins':
        ks[i]['ins'] = rng.choice(['first', 'last'])
    elif what == 'val':
        ks[i]['xa'] = ['yv:value="x" xmlns:yv="%s"' % tree.YURL]
        ks[i]['anc'] = []
        ks[i]['xat'] = 'value'
    else:
        ks[i]['xa'] = ['yv:key="[k=\'x\']" xmlns:yv="%s"' % tree.YURL]
        ks[i]['xat'] = 'key'
    return k, what


def run_valid(c):
    ev = dict(kind='valid', a=c['a'], what=c['what'], st=c['st'], exc='')
    try:
        cfg(c['a'], c['st'])
    except Exception as e:
        ev['exc'], ev['msg'] = exc_name(e), str(e)[:200]
    return ev


def check_valid(ctx):
    setup(ctx)
    universes(ctx)
    rng = ctx.rng('valid')
    k = 8 if ctx.thorough else 1
    cases = []
    for _ in range(10000 * k):
        a = rnd_raw(rng) if rng.random() < .4 else rnd_cfg(rng)
        what = 'none'
        if rng.random() < .75:
            a, what = spoil(rng, a)
        cases.append(dict(a=a, what=what, st=mkstyle(rng)))
    evs = ctx.drive(run_valid, cases)
    for e in evs:
        ctx.count('defect_' + e.get('what', '?'))
    ctx.validate('ConfigTrace', evs)


# ---------------------------------------------------------------- input forms (C11)
FORMS = ['str:config', 'ele:config', 'str:data', 'ele:data', 'str:reply', 'ele:reply', 'rpc:reply',
         'str:rpc-edit', 'ele:rpc-edit', 'str:edit', 'ele:edit', 'obj:config', 'pretty', 'comment']


def run_form(c):
    from ncdiff import Config
    from lxml import etree
    from ncclient import operations
    ev = dict(kind='form', a=c['a'], st=c['st'], exc='', forms=FORMS, res=[])
    inner = to_xml(c['a'], SCH, safe(c['st']))
    body = inner[inner.index('>') + 1:inner.rindex('</')] if not inner.endswith('/>') else ''
    head = inner[len('<nc:config'):inner.index('>')]

    def wrap(*tags):
        o = ''.join('<nc:%s%s>' % (t, head if i == 0 else '') for i, t in enumerate(tags))
        return o + body + ''.join('</nc:%s>' % t for t in reversed(tags))
    shapes = {'config': wrap('config'), 'data': wrap('data'), 'reply': wrap('rpc-reply', 'data'),
              'rpc-edit': wrap('rpc', 'edit-config', 'config'), 'edit': wrap('edit-config', 'config')}
    if c['target']:
        t = '<nc:target><nc:running/></nc:target><nc:default-operation>merge</nc:default-operation>'
        for s in ('rpc-edit', 'edit'):
            shapes[s] = shapes[s].replace('<nc:config>', t + '<nc:config>', 1) if s == 'rpc-edit' else \
                shapes[s].replace('<nc:config>', t + '<nc:config>', 1)
    try:
        for f in FORMS:
            if f == 'pretty':
                x = etree.tostring(etree.fromstring(shapes['reply']), pretty_print=True, encoding='unicode')
            elif f == 'comment':
                x = re.sub(r'(</?[a-z]*:?(?:top|np|sysl|s)\b[^>]*>)(?=<)', r'\1<!-- note -->', shapes['data'])
            elif f == 'obj:config':
                x = Config(DEV, shapes['config'])
            else:
                kind, sh = f.split(':')
                x = shapes[sh]
                if kind == 'ele':
                    x = etree.fromstring(x)
                elif kind == 'rpc':
                    r = operations.rpc.RPCReply(x)
                    r.parse()
                    x = r
            before = etree.tostring(x) if etree.iselement(x) else None
            ev['res'].append(project(Config(DEV, x).ele, SCH))
            if before is not None and etree.tostring(x) != before:
                ev['exc'] = 'the input element was modified'
    except Exception as e:
        ev['exc'], ev['msg'] = exc_name(e), f + ' ' + str(e)[:300]
    return ev


def check_form(ctx):
    setup(ctx)
    unis = universes(ctx)
    rng = ctx.rng('form')
    k = 8 if ctx.thorough else 1
    cs = [c for u in unis for c in u['cfgs']]
    cases = [dict(a=a, st=mkstyle(rng), target=rng.random() < .5)
             for a in cs + [rnd_raw(rng) if rng.random() < .3 else rnd_cfg(rng) for _ in range(2500 * k)]]
    cases = [c for c in cases if not has_old(c['a'])]
    evs = ctx.drive(run_form, cases)
    ctx.count('forms_per_config', len(FORMS))
    ctx.validate('ConfigTrace', evs)


def has_old(ks, path=''):
    return any(SCH['nodes'][path + c['t']]['status'] != 'current' or has_old(c['k'], path + c['t'] + '/') for c in ks)


# ---------------------------------------------------------------- filter (C13)
def rnd_steps(rng, a):
    """a location path, mostly derived from nodes that exist"""
    every = []

    def go(ks, trail):
        for c in ks:
            every.append(trail + [c])
            go(c['k'], trail + [c])
    go(a, [])
    if not every or rng.random() < .05:
        return [dict(ax='desc', t='va:nosuchname', pk='', pv='', tv='')]
    trail = rng.choice(every)
    steps = []
    skip = rng.randint(0, len(trail) - 1) if rng.random() < .4 else 0
    for n, c in enumerate(trail):
        if n < skip:
            continue
        s = dict(ax='desc' if n == skip and skip else 'child', t=c['t'], pk='', pv='', tv='')
        if rng.random() < .15:
            s['t'] = '*'
        leaves = [x for x in c['k'] if x['v'] and not x['k'] and '@' not in x['v']]
        if leaves and rng.random() < .5:
            x = rng.choice(leaves)
            s['pk'], s['pv'] = x['t'], x['v'] if rng.random() < .9 else 'nosuch'
        if not c['k'] and c['v'] and '@' not in c['v'] and rng.random() < .4:
            s['tv'] = c['v']
        steps.append(s)
    if rng.random() < .08:
        steps.append(dict(ax='desc', t='*', pk='', pv='', tv=''))
    return steps


def rnd_alts(rng, a):
    """a union of paths; often one of them reaches inside what another one selects"""
    alts = [rnd_steps(rng, a)]
    if rng.random() < .3:
        # something, and one thing inside it
        way, ks = [], a
        while ks and rng.random() < .9:
            n = rng.choice([x for x in ks if x['k']] or ks)
            way.append(dict(ax='child', t=n['t'], pk='', pv='', tv=''))
            ks = n['k']
        if len(way) > 1:
            alts = [way, way[:rng.randint(1, len(way) - 1)]]
            rng.shuffle(alts)
    while rng.random() < .35 and len(alts) < 4:
        if rng.random() < .5:
            base = rng.choice(alts)
            r = rng.random()
            if r < .5 or len(base) == 1:
                alts.append(base + [dict(ax=rng.choice(['child', 'desc']), t='*', pk='', pv='', tv='')])
            else:
                alts.append(base[:rng.randint(1, len(base) - 1)])
        else:
            alts.append(rnd_steps(rng, a))
    return alts


def quoted(v):
    return '"%s"' % v if "'" in v else "'%s'" % v


def xpath_of(steps):
    out = '/nc:config'
    for s in steps:
        out += ('/' if s['ax'] == 'child' else '//') + s['t']
        if s['pk']:
            out += "[%s=%s]" % (s['pk'], quoted(s['pv']))
        if s['tv']:
            out += "[text()=%s]" % quoted(s['tv'])
    return out


def run_filter(c):
    ev = dict(kind='filter', a=c['a'], alts=c['alts'], what=c['what'], st=c['st'], exc='')
    xp = ' | '.join(xpath_of(s) + ('/text()' if c['what'] == 'text' else '') for s in c['alts'])
    if c['what'] == 'text':
        pass
    elif c['what'] == 'number':
        xp = 'count(%s)' % xp
    try:
        A = cfg(c['a'], c['st'])
        ns = {p: u for p, u in tree.U.items()}
        ns['nc'] = tree.NC
        r = A.xpath(xp, namespaces=ns)
        ev['n'] = len(r) if isinstance(r, list) else -1
        F = A.filter(xp, namespaces=ns)
        ev['res'] = project(F.ele, SCH)
        ev['after'] = project(A.ele, SCH)
    except Exception as e:
        ev['exc'], ev['msg'] = exc_name(e), xp + ' ' + str(e)[:300]
    return ev


def check_filter(ctx):
    setup(ctx)
    universes(ctx)
    rng = ctx.rng('filter')
    k = 8 if ctx.thorough else 1
    cases = []
    for _ in range(9000 * k):
        a = rnd_cfg(rng)
        alts = rnd_alts(rng, a)
        r = rng.random()
        what = '' if r < .92 else 'text' if r < .96 else 'number'
        cases.append(dict(a=a, alts=alts, what=what, st=mkstyle(rng)))
    evs = ctx.drive(run_filter, cases)
    ctx.count('filters_with_result', sum(1 for e in evs if e.get('n', 0) > 0))
    ctx.validate('ConfigTrace', evs)


# ---------------------------------------------------------------- extraction (C14)
def run_extract(c):
    from .device import data_reply
    ev = dict(kind='extract', a=c['a'], dep=c['dep'], st=c['st'], exc='', same=False)
    try:
        full = to_xml(c['a'], SCH, safe(c['st']), tag='data')
        from ncclient import operations
        def reply(x):
            r = operations.rpc.RPCReply(x.replace('<nc:data', '<nc:rpc-reply', 1).replace('>', '><nc:data>', 1)
                                        .replace('</nc:data>', '</nc:data></nc:rpc-reply>'))
            r.parse()
            return r
        A = DEV.extract_config(reply(full), remove_deprecated=c['dep'])
        B = DEV.extract_config(reply(to_xml(only_rw(c['a']), SCH, safe(c['st']), tag='data')),
                               remove_deprecated=c['dep'])
        ev['res'] = project(A.ele, SCH)
        ev['same'] = bool(A == B)
    except Exception as e:
        ev['exc'], ev['msg'] = exc_name(e), str(e)[:300]
    return ev


def only_rw(kids):
    def go(ks, path):
        out = []
        for c in ks:
            p = (path + '/' if path else '') + c['t']
            if SCH['nodes'][p]['rw']:
                out.append(dict(c, k=go(c['k'], p)))
        return out
    return go(kids, '')


def check_extract(ctx):
    setup(ctx)
    universes(ctx)
    rng = ctx.rng('extract')
    k = 8 if ctx.thorough else 1
    cases = []
    for _ in range(6000 * k):
        a = rnd_cfg(rng, rw=False) if rng.random() < .7 else rnd_raw(rng)
        if rng.random() < .3:
            a.append(N('va:stats', '', [N('va:total', '7')]
                       + [N('va:nokey', '', [N('va:a', 'x')])] * rng.randint(0, 1)))
        if rng.random() < .4:
            for c in a:
                if c['t'] == 'va:top' and not any(x['t'] == 'va:mix' for x in c['k']):
                    c['k'].append(N('va:mix', '', rng.choice([
                        [N('va:st', 'up')], [N('va:st', 'up'), N('va:cfg', 'x')],
                        [N('va:mstate', '', [N('va:n', '1')])],
                        [N('va:ml', '', [N('va:k', 'a'), N('va:hits', '3')])]])))
        seen, b = set(), []
        for c in a:
            if ident(c, c['t']) not in seen:
                seen.add(ident(c, c['t']))
                b.append(c)
        cases.append(dict(a=b, dep=rng.random() < .5, st=mkstyle(rng)))
    evs = ctx.drive(run_extract, cases)
    ctx.validate('ConfigTrace', evs)


# ---------------------------------------------------------------- sessions (C07)
def sim_sessions(ctx, num, depth):
    rc, out = ctx.tlc('MCSession', env={'VP_DEPTH': depth}, workers=1,
                      args=['-simulate', 'num=%d' % num, '-depth', str(depth + 2), '-seed', str(ctx.seed)])
    if rc != 0:
        raise core.Machinery('session design failed:\n' + out[-3000:])
    hs = []
    for line in out.splitlines():
        if 'VPHIST' in line:
            hs.append(json.loads(json.loads(line.strip())[len('VPHIST '):]))
    m = re.findall(r'states generated[^\d]*|([\d,]+) states checked', out)
    ctx.count('behaviours_simulated', len(hs))
    ctx.states += len(hs) * (depth + 1)
    ctx.transitions += len(hs) * depth
    if len(hs) < num // 2:
        raise core.Machinery('too few behaviours from TLC:\n' + out[-2000:])
    return hs


def rnd_session(rng, depth):
    """like the simulated ones, on configurations of the whole schema"""
    base = rnd_cfg(rng)
    out = []
    for i in range(depth):
        R = lambda: rng.randint(1, 3)
        D = lambda: rng.randint(1, 2)
        k = rng.random()
        if i < 2 or k < .15:
            out.append(dict(op='load', t=R(), cfg=mutate(rng, base)))
        elif k < .3:
            out.append(dict(op='add', r=R(), s=R(), t=R()))
        elif k < .48:
            out.append(dict(op='sub', r=R(), s=R(), d=D()))
        elif k < .56:
            out.append(dict(op='neg', x=D(), d=D()))
        elif k < .72:
            out.append(dict(op='apply', r=R(), x=D(), t=R()))
        elif k < .8:
            out.append(dict(op='edit', r=R(), d=D(), e=gen_edits(rng, mutate(rng, base), '')))
        elif k < .86:
            out.append(dict(op='cmp', r=R(), s=R()))
        elif k < .9:
            out.append(dict(op='payload', x=D()))
        else:
            out.append(dict(op='filter', r=R(), t=R(), steps=rnd_steps(rng, base)))
    return out


def run_session(c):
    from ncdiff import Config, ConfigDelta
    st = c['st']
    regs = [Config(DEV) for _ in range(3)]
    z = Config(DEV)
    dels = [ConfigDelta(z, z) for _ in range(2)]
    born = {}
    for r in regs + [z]:
        born[id(r)] = (r, r.xml)
    ns = dict(tree.U, nc=tree.NC)
    evs = [dict(kind='session', c=dict(op='begin'), sid=c['sid'])]
    for call in c['calls']:
        ev = dict(kind='session', c=call, sid=c['sid'], exc='', mut=False)
        op = call['op']
        new = newd = None
        try:
            if op == 'load':
                new = cfg(call['cfg'], st)
            elif op == 'copy':
                new = Config(DEV, regs[call['r'] - 1].xml)
            elif op == 'add':
                new = regs[call['r'] - 1] + regs[call['s'] - 1]
            elif op == 'sub':
                newd = regs[call['r'] - 1] - regs[call['s'] - 1]
            elif op == 'neg':
                newd = -dels[call['x'] - 1]
            elif op == 'apply':
                d = dels[call['x'] - 1]
                ev['nc'] = project(d.nc, SCH, attrs=True)
                new = regs[call['r'] - 1] + d
            elif op == 'edit':
                ev['nc'] = call['e']
                newd = ConfigDelta(regs[call['r'] - 1], delta=to_xml(call['e'], SCH, safe(st)))
            elif op == 'filter':
                new = regs[call['r'] - 1].filter(xpath_of(call['steps']), namespaces=ns)
            elif op == 'cmp':
                A, B = regs[call['r'] - 1], regs[call['s'] - 1]
                ev['ans'] = dict(eq=bool(A == B), le=bool(A <= B), ge=bool(A >= B))
                bool(A != B), bool(A < B), bool(A > B), bool(A), A.ns, A.models, A.roots, str(A)
            elif op == 'payload':
                d = dels[call['x'] - 1]
                ev['nc'] = project(d.nc, SCH, attrs=True)
                bool(d), str(d), d.models, d.roots, d.ns
                ev['nc2'] = project(d.nc, SCH, attrs=True)
        except Exception as e:
            ev['exc'], ev['msg'] = exc_name(e), str(e)[:200]
        if ev['exc'] == '':
            if new is not None:
                regs[call['t'] - 1] = new
            if newd is not None:
                dels[call['d'] - 1] = newd
        for o in regs + [x for d in dels for x in (d.config_src, d.config_dst)]:
            if id(o) not in born:
                born[id(o)] = (o, o.xml)
        ev['mut'] = any(o.xml != x for o, x in born.values())
        try:
            ev['regs'] = [project(r.ele, SCH) for r in regs]
            ev['dels'] = [dict(src=project(d.config_src.ele, SCH), dst=project(d.config_dst.ele, SCH)) for d in dels]
        except Exception as e:
            ev['exc'] = exc_name(e)
            ev['regs'], ev['dels'] = [[], [], []], [dict(src=[], dst=[])] * 2
        evs.append(ev)
    return evs


def run_reorder(c):
    from ncdiff import ConfigDelta
    ev = dict(kind='reorder', a=c['a'], b=c['b'], o=c['o'], st=c['st'], rd=c['rd'], rs=c['rs'], exc='')
    try:
        A, B = cfg(c['a'], c['st']), cfg(c['b'], c['st'])
        p = lambda d: project(d.nc, SCH, attrs=True)
        ev['nc'] = p(ConfigDelta(A, B, **okw(c['o'])))
        d = ConfigDelta(A, B, random_depth=c['rd'], random_seed=c['rs'], **okw(c['o']))
        ev['nc1'] = p(d)
        random.seed(c['rs'] + 17)
        ev['again'] = p(d)
        ev['nc2'] = p(ConfigDelta(cfg(c['a'], c['st']), cfg(c['b'], c['st']),
                                  random_depth=c['rd'], random_seed=c['rs'], **okw(c['o'])))
        ev['sum'] = project((A + d).ele, SCH, attrs=True)
        u = ConfigDelta(A, B, random_depth=c['rd'], **okw(c['o']))
        ev['nc3'] = p(u)
        ev['nc3again'] = p(u)
        ev['seeded'] = isinstance(u.random_seed, int)
        ev['afterA'], ev['afterB'] = project(A.ele, SCH), project(B.ele, SCH)
    except Exception as e:
        ev['exc'], ev['msg'] = exc_name(e), str(e)[:300]
    return ev


def check_session(ctx):
    setup(ctx)
    rng = ctx.rng('session')
    k = 8 if ctx.thorough else 1
    hs = sim_sessions(ctx, 700 * k, 12)
    hs += [rnd_session(rng, rng.randint(6, 14)) for _ in range(350 * k)]
    ctx.count('sessions', len(hs))
    cases = [dict(calls=h, st=mkstyle(rng), sid=i) for i, h in enumerate(hs)]
    evs = ctx.drive(run_session, cases, per_case=60)
    shards = 32
    for e in evs:
        e['sh'] = e.get('sid', 0) % shards + 1
    ctx.validate('SessionTrace', evs, shards=shards)
    pairs = rnd_pairs(ctx, rng, 1500 * k)
    cases = [dict(a=a, b=b, o=rng.choice(OPTS), st=mkstyle(rng), rd=rng.randint(0, 3), rs=rng.randint(0, 9999))
             for a, b in pairs]
    ctx.validate('ConfigTrace', ctx.drive(run_reorder, cases), label='r')
