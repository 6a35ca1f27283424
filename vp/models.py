"""Driver for compiled models and their differences (Models.tla).

An abstract schema is written as YANG in one of many ways (groupings, refinements, submodules, augments, deviations,
typedefs, shorthand cases); the model the real code makes of it is recorded."""
import copy, os, random, re, shutil, tempfile
from . import core

URL = {'urn:m:a': 'a', 'urn:m:b': 'b', 'urn:m:g': 'g', 'urn:m:c': 'c'}


def N(t, ty, k=None, **kw):
    d = dict(t=t, ty=ty, cfg='', st='', key=[], keyw=[], user=False, pres=False, mand=False, feat=[], dt='', vals=[], um=[],
             k=k or [], types='', idb='', ann=[])
    d['def'] = []
    d.update(kw)
    return d


# ------------------------------------------------------------------ abstract schemas
def leaf_type(rng, n, sibs, pfx):
    """(dt, values, union members, YANG text, value for a default)"""
    loc = lambda x: x if pfx == 'a' else 'a:' + x      # what is defined in ma, seen from elsewhere
    r = rng.random()
    if r < .3:
        n.update(dt='string', types='type string;')
        return rng.choice(['x', 'y', 'x y'])
    if r < .4:
        t = rng.choice(['uint8', 'int32'])
        n.update(dt=t, types='type %s;' % t)
        return rng.choice(['1', '7'])
    if r < .5:
        n.update(dt='boolean', vals=['true', 'false'], types='type boolean;')
        return 'true'
    if r < .6:
        n.update(dt='enumeration', vals=['red', 'green'], types='type enumeration { enum red; enum green; }')
        return 'green'
    if r < .7:
        t = rng.choice(['td-enum', 'td-two'])
        n.update(dt=loc(t), vals=['up', 'down'], types='type %s;' % loc(t))
        return 'down'
    if r < .76:
        n.update(dt='g:td-far', vals=['true', 'false'], types='type g:td-far;')
        return 'false'
    if r < .86:
        n.update(dt='union', vals=['one', 'two', 'true', 'false'], um=['enumeration', 'boolean', 'string'],
                 types='type union { type enumeration { enum one; enum two; } type boolean; type string; }')
        return 'two'
    if r < .92:
        b = rng.choice(['g:gb', loc('ab')])
        n.update(dt='identityref:' + b, idb=b.split(':')[-1], types='type identityref { base %s; }' % b)
        return None
    tgt = [s for s in sibs if s['ty'] == 'leaf' and s['t'].startswith(pfx + ':')]
    if tgt:
        nm = rng.choice(tgt)['t'].split(':')[1]
        w = rng.choice(['../', '../%s:' % pfx])
        n.update(dt='-> ../' + nm, types='type leafref { path "%s%s"; }' % (w, nm))
        return None
    n.update(dt='string', types='type string;')
    return 'z'


def new_node(rng, name, pfx, depth, cfg, sibs, data=True):
    """cfg: may it be configuration"""
    r = rng.random()
    t = pfx + ':' + name
    flag = lambda p: rng.random() < p
    ty = 'leaf' if r < .42 or depth > 3 else 'leaf-list' if r < .52 else 'container' if r < .7 else 'list' if r < .82 \
        else 'choice' if r < .95 else 'anydata'
    n = N(t, ty)
    if data and flag(.15):
        n['cfg'] = 'false'
    elif data and cfg and flag(.08):
        n['cfg'] = 'true'
    c = cfg and n['cfg'] != 'false'
    if flag(.12):
        n['st'] = rng.choice(['deprecated', 'obsolete', 'current'])
    if flag(.1) and pfx == 'a':
        n['ann'] = rng.sample([['info', 'some text'], ['hidden', 'full'], ['cli-drop', '']], rng.choice([1, 1, 2]))
    if flag(.12):
        two = ['f1', 'f2'] if pfx == 'a' else ['fb', 'fc']
        n['feat'] = rng.sample(two, rng.choice([1, 1, 2]))
    if ty == 'leaf':
        d = leaf_type(rng, n, sibs, pfx)
        if flag(.25) and d is not None:
            n['def'] = [d]
        elif flag(.2) and pfx == 'a':
            n['mand'] = True
    elif ty == 'leaf-list':
        d = leaf_type(rng, n, sibs, pfx)
        n['user'] = flag(.4)
        if d is not None and flag(.2) and n['dt'] in ('string', 'uint8'):
            n['def'] = [d] + ([{'x': 'w', 'y': 'w'}.get(d, '3')] if flag(.5) else [])
    elif ty == 'container':
        n['pres'] = flag(.3)
        n['k'] = kids(rng, pfx, depth + 1, c, data)
        if not n['k']:
            n['pres'] = True
    elif ty == 'list':
        n['k'] = kids(rng, pfx, depth + 1, c, data)
        n['user'] = flag(.4) and c
        if c or flag(.5):
            for i in range(rng.randint(1, 2)):
                kn = N('%s:key%d' % (pfx, i), 'leaf', dt='string', types='type string;')
                n['k'].insert(i, kn)
                n['key'].append(kn['t'])
            n['keyw'] = [k.split(':')[1] for k in n['key']]
            if flag(.15):
                n['keyw'] = ['%s:%s' % (pfx, k) for k in n['keyw']]
        elif not n['k']:
            n['k'] = [N(pfx + ':only', 'leaf', dt='string', types='type string;')]
    elif ty == 'choice':
        taken = 0
        for i in range(rng.randint(1, 3)):
            ks = []
            for j in range(rng.randint(1, 2)):
                ks.append(new_node(rng, '%s-%d' % (name, taken), pfx, depth + 1, c, ks, data))
                taken += 1
            short = len(ks) == 1 and flag(.5) and ks[0]['ty'] != 'choice'
            n['k'].append(N(ks[0]['t'] if short else '%s:%s-case%d' % (pfx, name, i), 'case', k=ks, short=short,
                            st=ks[0]['st'] if short else ''))     # an implicit case has the status of what is in it
        if flag(.25):
            def quiet(x):
                return not x['mand'] and all(quiet(y) for y in x['k'])
            d = rng.choice(n['k'])
            if all(quiet(x) for x in d['k']):
                n['def'] = [d['t'].split(':')[1]]
        elif flag(.2):
            n['mand'] = True
    return n


def kids(rng, pfx, depth, cfg, data=True, lo=0, hi=4):
    out = []
    for i in range(rng.randint(lo, max(lo, hi - depth))):
        out.append(new_node(rng, '%s%d' % (rng.choice('nmk'), i), pfx, depth, cfg, out, data))
    return out


def gen(rng):
    s = dict(a=kids(rng, 'a', 0, True, lo=1, hi=4), b=kids(rng, 'b', 1, True, hi=3))
    for i in range(rng.choice([0, 0, 1, 2])):
        s['a'].append(N('a:rpc%d' % i, 'rpc', k=[
            N('a:input', 'input', k=kids(rng, 'a', 2, True, data=False, lo=1)),
            N('a:output', 'output', k=kids(rng, 'a', 2, True, data=False, lo=1))]))
    for i in range(rng.choice([0, 0, 1])):
        s['a'].append(N('a:note%d' % i, 'notification', k=kids(rng, 'a', 2, True, data=False, lo=1)))
    # actions and notifications inside data nodes
    def operations(ks):
        for n in ks:
            if n['ty'] in ('container', 'list', 'choice', 'case') and not (n['ty'] == 'list' and not n['key']):
                operations(n['k'])
                if n['ty'] in ('container', 'list') and rng.random() < .12:
                    n['k'].append(N('a:act', 'action', k=[
                        N('a:input', 'input', k=kids(rng, 'a', 3, True, data=False, lo=1)),
                        N('a:output', 'output', k=kids(rng, 'a', 3, True, data=False, lo=1))],
                        feat=['f1'] if rng.random() < .3 else []))
                if n['ty'] in ('container', 'list') and rng.random() < .1:
                    n['k'].append(N('a:event', 'notification', k=kids(rng, 'a', 3, True, data=False, lo=1),
                                    st='deprecated' if rng.random() < .3 else ''))
    operations(s['a'])
    # nodes of b in a
    spots = []

    def walk(ks, path, cfg):
        for n in ks:
            p = path + [n['t']]
            c = cfg and n['cfg'] != 'false'
            if n['ty'] in ('container', 'list', 'case') and not n.get('short'):
                spots.append((n, p, c))
            if n['ty'] not in ('rpc', 'notification', 'action'):
                walk(n['k'], p, c)
    walk(s['a'], [], True)
    s['aug'] = []
    for n, p, c in rng.sample(spots, min(len(spots), rng.choice([0, 1, 1, 2]))):
        new = []
        for i in range(rng.randint(1, 2)):
            new.append(strip_mand(new_node(rng, '%s%d' % (rng.choice(['n', 'z']), i), 'b', 2, c, new)))
        if rng.random() < .25:
            f = rng.choice(['fb', 'fc'])
            for x in new:
                if rng.random() < .3 and not x['feat']:
                    x['feat'] = [rng.choice(['fb', 'fc'])]
                x['augfeat'] = f if f not in x['feat'] else ''
                if x['augfeat']:
                    x['feat'] = x['feat'] + [f]
        n['k'] += new
        s['aug'].append(p)
    return s


def strip_mand(n):
    n['mand'] = False
    for k in n['k']:
        strip_mand(k)
    return n


# ------------------------------------------------------------------ writing YANG
class Writer:
    def __init__(self, rng, s):
        self.rng, self.s = rng, s
        self.groups = {'a': [], 'g': []}
        self.n = 0
        self.dev = []
        self.aug = []

    def body(self, n, path, skip=()):
        p = n['t'].split(':')[0]
        out = []
        if n['types']:
            out.append(n['types'])
        if n['key']:
            # names of keys are separated by any white space
            sep, end = self.rng.choice([(' ', '')] * 4 + [('  ', ''), ('\n  ', ''), ('\t', ''), (' ', ' '), ('\n', '\n')])
            out.append('key "%s%s%s";' % (end, sep.join(n['keyw']), end))
        if n['cfg'] and 'cfg' not in skip:
            out.append('config %s;' % n['cfg'])
        if n['st']:
            out.append('status %s;' % n['st'])
        if n['user']:
            out.append('ordered-by user;')
        elif n['ty'] == 'list' and self.rng.random() < .2:
            out.append('ordered-by system;')
        out += ['t:%s%s;' % (a, ' "%s"' % v if v else '') for a, v in n['ann']]
        if n['pres'] and 'pres' not in skip:
            out.append('presence "p";')
        if n['mand'] and 'mand' not in skip:
            out.append('mandatory true;')
        elif n['ty'] == 'leaf' and not n['def'] and self.rng.random() < .1 and 'mand' not in skip:
            out.append('mandatory false;')
        feats = [f for f in n['feat'] if f != n.get('augfeat')]
        out += ['if-feature %s;' % f for f in feats]
        if self.rng.random() < .2 and n['ty'] not in ('input', 'output'):
            out.append('description "text; with { odd } things";')
        if 'def' not in skip and n['def']:
            out.append(' '.join('default "%s";' % d for d in n['def']))
        self.rng.shuffle(out)
        return out + self.children(n['k'], path)

    def node(self, n, path, skip=()):
        name = n['t'].split(':')[1]
        p = path + [n['t']]
        if n['ty'] == 'case' and n.get('short'):
            return self.node(n['k'][0], p)
        if n['ty'] in ('input', 'output'):
            return '%s { %s }' % (n['ty'], ' '.join(self.body(n, p)))
        return '%s %s { %s }' % (n['ty'], name, ' '.join(self.body(n, p, skip)))

    def children(self, ks, path):
        """some inline, some from a grouping, those of b by an augment"""
        out = []
        here = path[-1].split(':')[0] if path else None
        foreign = [k for k in ks if here == 'a' and k['t'].startswith('b:')]
        if foreign:
            f = foreign[0].get('augfeat')
            same = [k for k in foreign if k.get('augfeat', '') == foreign[0].get('augfeat', '')]
            for part in (same, [k for k in foreign if k not in same]):
                if part:
                    fs = part[0].get('augfeat')
                    self.aug.append('augment "%s" { %s %s }' % (
                        ''.join('/' + x for x in path), 'if-feature %s;' % fs if fs else '',
                        ' '.join(self.node(k, path) for k in part)))
        for k in ks:
            if k in foreign:
                continue
            r = self.rng.random()
            data = k['ty'] in ('container', 'list', 'leaf', 'leaf-list', 'choice', 'anydata')
            key = k['t'].split(':')[1].startswith('key')
            if r < .2 and data and path and not key and k['t'].startswith('a:'):
                out.append(self.uses(k, path))
            elif r < .26 and k['ty'] == 'leaf' and path and k['def'] and self.devable(path) and k['t'].startswith('a:'):
                self.dev.append('deviation "%s" { deviate add { default "%s"; } }' % (
                    ''.join('/' + x for x in path + [k['t']]), k['def'][0]))
                out.append(self.node(k, path, ('def',)))
            else:
                out.append(self.node(k, path))
        if path and here == 'a' and self.devable(path) and self.rng.random() < .06 and \
                not any(x.split(':')[1] in ('input', 'output') for x in path):
            self.n += 1
            nm = 'gone%d' % self.n
            out.append('leaf %s { type string; }' % nm)
            self.dev.append('deviation "%s/a:%s" { deviate not-supported; }' % (''.join('/' + x for x in path), nm))
        return out

    def devable(self, path):
        return all(x.startswith('a:') for x in path) and not self.in_group

    in_group = 0

    def uses(self, k, path):
        self.n += 1
        nm = 'grp%d' % self.n
        skip, ref = [], []
        if self.rng.random() < .5:
            if k['def'] and k['ty'] == 'leaf':
                skip.append('def')
                ref.append('default "%s";' % k['def'][0])
            if k['pres'] and (k['k'] or True):
                skip.append('pres')
                ref.append('presence "q";')
            if k['mand'] and k['ty'] in ('leaf', 'choice'):
                skip.append('mand')
                ref.append('mandatory true;')
            if k['cfg'] == 'false' and self.rng.random() < .5 and not k['k']:
                skip.append('cfg')
                ref.append('config false;')
        self.in_group += 1
        txt = self.node(k, path, skip)
        self.in_group -= 1
        self.groups['a'].append('grouping %s { %s }' % (nm, txt))
        name = k['t'].split(':')[1]
        return 'uses %s { refine %s { %s } }' % (nm, name, ' '.join(ref)) if ref else 'uses %s;' % nm

    def files(self):
        rng, s = self.rng, self.s
        roots = [self.node(n, []) for n in s['a']]
        broots = [self.node(n, []) for n in s['b']]
        idents = ['identity ab;', 'identity ax { base ab; }', 'identity ay { base %s; }' % rng.choice(['ab', 'a:ab']),
                  'identity a1 { base g:gb; }', 'identity a2 { base a1; }']
        tds = ['typedef td-enum { type enumeration { enum up; enum down; } }', 'typedef td-two { type td-enum; }']
        feats = ['feature f1;', 'feature f2;']
        parts = roots + self.groups['a'] + idents + tds
        sub = []
        if rng.random() < .4:
            # a submodule with everything that is referred to; some of the roots are there too
            sub = feats + self.groups['a'] + idents + tds + [x for x in roots if rng.random() < .5]
            parts = [x for x in roots if x not in sub]
            feats = []
            rng.shuffle(sub)
        hdr = 'yang-version 1.1; namespace "urn:m:%s"; prefix %s;'
        imp = 'import mg { prefix g; } import tailf-common { prefix t; }'
        f = {}
        f['ma'] = 'module ma { %s %s %s revision 2024-01-01; %s %s }' % (
            hdr % ('a', 'a'), imp, 'include ma-sub;' if sub else '', ' '.join(feats), '\n'.join(parts))
        if sub:
            f['ma-sub'] = 'submodule ma-sub { yang-version 1.1; belongs-to ma { prefix a; } %s revision 2024-01-01; %s }' % (imp, '\n'.join(sub))
        f['tailf-common'] = ('module tailf-common { namespace "urn:t"; prefix tailf; revision 2024-01-01; extension info { argument text; } '
                             'extension hidden { argument tag; } extension cli-drop; }')
        f['mg'] = ('module mg { %s revision 2024-01-01; identity gb; identity g1 { base %s; } typedef td-far { type boolean; } }'
                   % (hdr % ('g', 'g'), rng.choice(['gb', 'g:gb'])))
        f['mb'] = 'module mb { %s import ma { prefix a; } %s revision 2024-01-01; feature fb; feature fc; identity b1 { base g:gb; } %s }' % (
            hdr % ('b', 'b'), imp, '\n'.join(broots + self.aug))
        if self.dev:
            f['mc'] = 'module mc { %s import ma { prefix a; } revision 2024-01-01; %s }' % (hdr % ('c', 'c'), '\n'.join(self.dev))
        return f


# ------------------------------------------------------------------ recording
def tag(t):
    m = re.match(r'\{(.*)\}(.*)', t)
    return URL.get(m.group(1), '?' + m.group(1)) + ':' + m.group(2)


def project(e, drop=()):
    return [dict(t=tag(c.tag), at=sorted([k, ' '.join(sorted(v.split())) if k == 'if-feature' and 'idref' in drop else v] for k, v in c.attrib.items() if k not in drop and not
                                         (k == 'values' and 'idref' in drop and (c.get('datatype', '').startswith('identityref')
                                                                                 or c.get('type') == 'choice'))),
                 k=project(c, drop)) for c in e if isinstance(c.tag, str)]


def shown(text, prefix, marks=False):
    """the nodes a printed tree shows: paths (and marks)"""
    out, stack = [], []
    for line in text.split('\n')[1:]:
        i = line.find('+--')
        if i < 0:
            continue
        d = (i - 1) // 3
        body = line[i + 3:]
        mark = ''
        if marks:
            m = re.match(r'^(.*?)\s{2,}(added|deleted|modified)$', body)
            if m:
                body, mark = m.group(1), m.group(2)
        m = re.match(r'^(?:(?:rw|ro|-w|-x|-n|--)? )?(?::?\(([^)]+)\)\??|([^\s?*]+))', body)
        nm = m and (m.group(1) or m.group(2)) or '?' + body
        nm = nm if ':' in nm else prefix + ':' + nm
        stack = stack[:d - 1] + [nm]
        p = list(stack)
        out.append([p, mark] if marks else p)
    return out


def lines(text, prefix):
    """the nodes a printed model shows, with all that is said about them"""
    out, stack = [], []
    for line in text.split('\n')[1:]:
        if '+--' not in line:
            if line.strip() not in ('', 'rpcs:', 'notifications:'):
                out.append(dict(p=['?' + line], flag='', opt='', keys='', dt='', feat=''))
            continue
        i = line.find('+--')
        d, body = (i - 1) // 3, line[i + 3:]
        m = re.match(r'^(?:(rw|ro|-w|-x|-n|--)? )?(?::?\(([^)]+)\)|([^\s?*]+))([?*]?)(?: \[([^\]]*)\])?(?:\s+(\S.*?))??(?: \{([^}]*)\}\?)?$', body)
        if not m:
            out.append(dict(p=['?' + line], flag='', opt='', keys='', dt='', feat=''))
            continue
        nm = m.group(2) or m.group(3)
        stack = stack[:d - 1] + [nm if ':' in nm else prefix + ':' + nm]
        out.append(dict(p=list(stack), flag=m.group(1) or '', opt=m.group(4), keys=m.group(5) or '', dt=m.group(6) or '',
                        feat=' '.join(sorted((m.group(7) or '').split()))))
    return out


def workdir(files):
    base = tempfile.mkdtemp(prefix='vpm')
    for m, t in files.items():
        with open(os.path.join(base, m + '.yang'), 'w') as f:
            f.write(t)
    return base


def run_compile(c):
    from ncdiff import ModelCompiler
    rng = random.Random(c['seed'])
    s = gen(rng)
    files = Writer(rng, s).files()
    out = []
    base = workdir(files)
    base2 = workdir(files)
    try:
        order = ['ma', 'mb']
        rng.shuffle(order)
        comp = ModelCompiler(base)
        # another order of compiling, in another folder
        comp2 = ModelCompiler(base2)
        for m in (['mg'] if rng.random() < .5 else []) + order[::-1]:
            try:
                comp2.compile(m)
            except Exception:
                pass
        for m in order:
            ev = dict(kind='compile', m=m, schema=clean(s[m[1]]), exc='', seed=c['seed'])
            try:
                mod = comp.compile(m)
                ev['model'] = project(mod.tree, ('idref', 'basetype', 'basedefault'))
                ev['idv'] = idvalues(mod.tree)
                ev['cached'] = project(ModelCompiler(base).compile(m).tree, ('idref', 'basetype', 'basedefault'))
                ev['other'] = project(ModelCompiler(base2).compile(m).tree, ('idref', 'basetype', 'basedefault'))
                ev['shown'] = lines(str(mod), m[1])
            except Exception as e:
                if not core.from_code(e):
                    raise
                ev['exc'] = type(e).__name__
                ev['msg'] = str(e)[:200]
            out.append(ev)
    finally:
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(base2, ignore_errors=True)
    return out


def clean(ks):
    return [dict((x, clean(y) if x == 'k' else sorted(y) if x == 'feat' else y) for x, y in k.items() if x not in ('types', 'short', 'augfeat', 'idb')) for k in ks]


MUST = {'gb': ['g:g1', 'a:a1'], 'ab': ['a:ax', 'a:ay']}
MAY = {'gb': ['g:g1', 'a:a1', 'a:a2', 'b:b1'], 'ab': ['a:ax', 'a:ay']}


def idvalues(t):
    out = []
    for x in t.iter():
        d = x.get('datatype', '') if isinstance(x.tag, str) else ''
        if d.startswith('identityref'):
            b = d.split(':')[-1]
            out.append(dict(got=[v for v in x.get('values', '').split('|') if v], must=MUST[b], may=MAY[b]))
    return out


def check_compile(ctx):
    """C19"""
    ctx.design('MCModels')
    k = 8 if ctx.thorough else 1
    rng = ctx.rng()
    evs = ctx.drive(run_compile, [dict(seed=rng.randrange(1 << 40)) for _ in range(400 * k)], chunk=8, per_case=60)
    ctx.count('schema_nodes', sum(str(e.get('model')).count("'t':") for e in evs))
    ctx.validate('ModelTrace', evs)


# ------------------------------------------------------------------ differences
ATTRS = {'access': ['read-write', 'read-only', None], 'status': ['deprecated', 'obsolete', None], 'if-feature': ['f1', 'f2', None]}
BYTYPE = {
    'container': {'presence': ['true', None]}, 'list': {'key': ['k0', 'k1', 'k0 k1', None], 'ordered-by': ['user', None]},
    'choice': {'mandatory': ['true', None], 'default': ['c0', 'c1', None], 'values': ['c0|c1', None]},
    'case': {}, 'rpc': {}, 'notification': {}, 'input': {}, 'output': {}, 'anydata': {'mandatory': ['true', None]},
    'leaf': {'datatype': ['string', 'union', 'boolean'], 'mandatory': ['true', None], 'default': ['x', '', None],
             'is_key': ['true', None], 'values': ['a|b', None], 'unionmembertypes': ['string|int8', None],
             '{urn:m:g}hidden': ['full', '', None]},
    'leaf-list': {'datatype': ['string', 'boolean'], 'ordered-by': ['user', None], 'default': ['x', 'x,y', None]},
}


def mattrs(rng, ty, few=False):
    at = {'type': ty}
    for src in (ATTRS, BYTYPE[ty]):
        for a, vs in src.items():
            v = rng.choice(vs if not few else vs[:1])
            if v is not None and (few or rng.random() < .6 or a in ('access', 'datatype')):
                at[a] = v
    return at


def mtree(rng, depth, names, under=''):
    out = []
    for nm in rng.sample(names, rng.randint(0 if depth else 1, min(len(names), 3))):
        ty = rng.choice(['container', 'container', 'list', 'choice', 'leaf', 'leaf', 'leaf-list', 'anydata']) if depth or rng.random() < .75 \
            else rng.choice(['rpc', 'notification'])
        if under == 'choice':
            ty = 'case'
        n = dict(t=nm, at=mattrs(rng, ty), k=[])
        if ty == 'rpc':
            n['k'] = [dict(t='a:' + x, at=mattrs(rng, x), k=mtree(rng, 2, names)) for x in ('input', 'output') if rng.random() < .8]
        elif ty not in ('leaf', 'leaf-list', 'anydata') and depth < 3:
            n['k'] = mtree(rng, depth + 1, names, ty)
        out.append(n)
    return out


def mmutate(rng, ks, depth, names, p, under=''):
    out = []
    for n in ks:
        r = rng.random()
        if r < p:
            continue
        n = dict(t=n['t'], at=dict(n['at']), k=n['k'])
        ty = n['at']['type']
        if r < 2 * p:
            a = rng.choice([x for x in list(ATTRS) + list(BYTYPE[ty])])
            n['at'].pop(a, None)
            v = rng.choice((ATTRS.get(a) or BYTYPE[ty].get(a)))
            if v is not None:
                n['at'][a] = v
        elif r < 2.2 * p and depth and ty not in ('input', 'output', 'case'):
            ty = rng.choice(['container', 'leaf', 'list', 'choice'])
            n['at'] = mattrs(rng, ty)
            n['k'] = [] if ty == 'leaf' else mtree(rng, depth + 1, names, ty) if rng.random() < .3 or ty == 'choice' else \
                [x for x in n['k'] if x['at']['type'] != 'case']
        n['k'] = mmutate(rng, n['k'], depth + 1, names, p, ty)
        out.append(n)
    if under != 'rpc' and (not ks or ks[0]['at']['type'] not in ('input', 'output')):
        have = {n['t'] for n in out}
        for n in mtree(rng, max(depth, 1), names, under) if rng.random() < 2 * p else []:
            if n['t'] not in have and not (depth and n['at']['type'] in ('rpc', 'notification')) and under not in ('leaf', 'leaf-list', 'anydata'):
                out.append(n)
    if rng.random() < .2:
        rng.shuffle(out)
    return out


def build(ks, name='ma'):
    from lxml import etree
    from ncdiff import Model
    for u, p in URL.items():
        etree.register_namespace(p, u)      # as the compiler does
    st = etree.Element(name, type='module', prefix='a')
    used = {'a'}

    def add(e, ks):
        for n in ks:
            p, l = n['t'].split(':')
            used.add(p)
            c = etree.SubElement(e, '{urn:m:%s}%s' % (p, l))
            for a, v in n['at'].items():
                c.set(a, v)
            add(c, n['k'])
    add(st, ks)
    for i, p in enumerate(sorted(used)):
        ns = etree.Element('namespace', prefix=p)
        ns.text = 'urn:m:' + p
        st.insert(i, ns)
    return Model(st)


def allpaths(ks, path=()):
    for n in ks:
        p = path + (n['t'],)
        yield p
        yield from allpaths(n['k'], p)


def marked(e, path=()):
    out = []
    for c in e:
        p = list(path) + [tag(c.tag)]
        out.append([p, c.get('diff') or ''])
        out += marked(c, p)
    return out


def compared(text):
    """the two nodes of a comparison, as printed: [] or [tag, attributes]"""
    m = re.match(r"^-+ XPATH -+\n'(.*)'\n-+ MODEL 1 -+\n(.*)\n-+ MODEL 2 -+\n(.*)\n-+\n$", text, re.S)
    out = []
    for part in m.groups()[1:]:
        if part == 'None':
            out.append([])
            continue
        ls = part.split('\n')
        t = re.match(r"^tag: '(.*)'$", ls[0]).group(1)
        if not ls[1].startswith('text: ') or ls[2] != 'attributes:':
            raise ValueError(part)
        out.append([tag(t), sorted([list(re.match(r"^  (\S+) = '(.*)'$", x).groups()) for x in ls[3:]])])
    return m.group(1), out


def run_diff(c):
    from ncdiff import ModelDiff
    rng = random.Random(c['seed'])
    base = None
    try:
        if c['how'] == 'tree':
            names = rng.choice([['a:n', 'a:m', 'b:n'], ['a:n', 'a:m', 'b:z', 'a:added', 'a:modified'], ['a:x', 'a:y', 'b:x', 'b:y', 'a:deleted-z']])
            ka = mtree(rng, 0, names)
            kb = mmutate(rng, ka, 0, names, rng.choice([.02, .08, .2, .4])) if rng.random() < .9 else mtree(rng, 0, names)
            a, b = build(ka), build(kb, 'ma' if rng.random() < .98 else 'mb')
        else:
            from ncdiff import ModelCompiler
            s = gen(rng)
            f1 = Writer(rng, s).files()
            s2 = change(rng, copy.deepcopy(s))
            f2 = Writer(rng, s2).files()
            base, base2 = workdir(f1), workdir(f2)
            try:
                a, b = ModelCompiler(base).compile('ma'), ModelCompiler(base2).compile('ma')
            finally:
                shutil.rmtree(base2, ignore_errors=True)
    finally:
        if base:
            shutil.rmtree(base, ignore_errors=True)
    ev = dict(kind='mdiff', exc='', seed=c['seed'], how=c['how'], same=a.name == b.name, a=project(a.tree), b=project(b.tree))
    if ev['same'] and rng.random() < .02:
        b = a
        ev['b'] = ev['a']
    try:
        d = ModelDiff(a, b)
        ev['truth'] = bool(d)
        ev['d'] = marked(d.tree)
        ev['text'] = shown(str(d), 'a', True)
        for v in ('added', 'deleted', 'modified'):
            t = getattr(d, v)
            ev[v] = dict(none=t is None, lines=shown(t, 'a', True) if t is not None else [])
        ev['d2'] = marked(d.tree)
        ev['text2'] = shown(str(d), 'a', True)
        paths = [list(p) for p in sorted({tuple(p) for ks in (ev['a'], ev['b']) for p in allpaths(ks)})]
        ev['cmp'] = []
        for p in rng.sample(paths, min(len(paths), 3)) + [['a:nowhere']]:
            xp = './' + '/'.join(p)
            said, nodes = compared(d.compare(xp))
            ev['cmp'].append(dict(path=p, said=said == xp, one=nodes[0], two=nodes[1]))
        ev['a2'], ev['b2'] = project(a.tree), project(b.tree)
    except Exception as e:
        if not core.from_code(e):
            raise
        ev['exc'], ev['msg'] = type(e).__name__, str(e)[:200]
    return [ev]


def change(rng, s):
    """another version of the module"""
    p = rng.choice([.04, .1, .25])

    def go(ks, top):
        out = []
        for n in ks:
            key = n['t'].split(':')[1].startswith('key')
            fixed = n['ty'] in ('input', 'output', 'case') or key
            r = rng.random()
            if r < p and not fixed and len(ks) > 1 and n['ty'] not in ('rpc',) and 'ref' not in n.get('types', ''):
                continue
            if r < 2 * p and not key:
                if n['ty'] in ('leaf', 'container', 'list'):
                    n['st'] = rng.choice(['', 'obsolete', 'deprecated'])
                if n['ty'] == 'leaf' and n['dt'] == 'string' and not n['mand']:
                    n['def'] = rng.choice([[], ['x'], ['new']])
                if n['ty'] == 'container':
                    n['pres'] = not n['pres']
                if n['ty'] == 'list' and n['key'] and n['cfg'] != 'false':
                    n['user'] = not n['user']
            n['k'] = go(n['k'], False)
            out.append(n)
        return out
    s['a'] = go(s['a'], True)
    if rng.random() < .5:
        s['a'] += [x for x in kids(rng, 'a', 1, True) if x['t'] not in {y['t'] for y in s['a']}]
    return s


def check_diff(ctx):
    """C18"""
    ctx.design('MCModels')
    k = 8 if ctx.thorough else 1
    rng = ctx.rng()
    cases = [dict(seed=rng.randrange(1 << 40), how='tree') for _ in range(2500 * k)]
    cases += [dict(seed=rng.randrange(1 << 40), how='yang') for _ in range(300 * k)]
    evs = ctx.drive(run_diff, cases, chunk=20, per_case=30)
    ctx.count('differences', sum(1 for e in evs if e.get('truth')))
    ctx.count('unequal_models_of_yang', sum(1 for e in evs if e.get('truth') and e['how'] == 'yang'))
    ctx.validate('ModelTrace', evs)


# ------------------------------------------------------------------ defaults in use
def enrich(rng, ks, ok=True):
    """more defaults, wherever YANG allows one"""
    def quiet(x):
        return not x['mand'] and all(quiet(y) for y in x['k'])
    for n in ks:
        key = n['t'].split(':')[1].startswith('key')
        if n['ty'] == 'leaf' and not n['def'] and not n['mand'] and not key and n['dt'] in ('string', 'uint8') and rng.random() < .5:
            n['def'] = ['1']
        elif n['ty'] == 'leaf-list' and not n['def'] and n['dt'] in ('string', 'uint8') and rng.random() < .4:
            n['def'] = ['1', '2'][:rng.randint(1, 2)]
        elif n['ty'] == 'container' and n['pres'] and n['k'] and rng.random() < .5:
            n['pres'] = False
        enrich(rng, n['k'])
        if n['ty'] == 'choice' and not n['def'] and not n['mand'] and rng.random() < .6:
            d = [c for c in n['k'] if quiet(c) and c['t'][0] == n['t'][0]]
            if d:
                n['def'] = [rng.choice(d)['t'].split(':')[1]]


def run_defaults(c):
    from .dev import Wire
    from ncdiff.manager import ModelDevice
    from ncclient.devices.default import DefaultDeviceHandler
    rng = random.Random(c['seed'])
    s = gen(rng)
    enrich(rng, s['a'])
    enrich(rng, s['b'])
    base = workdir(Writer(rng, s).files())
    out = []
    try:
        d = ModelDevice(Wire(['urn:ietf:params:netconf:base:1.1', 'urn:m:a?module=ma&revision=2024-01-01', 'urn:m:b?module=mb&revision=2024-01-01'], lambda rpc: '<data/>'), DefaultDeviceHandler())
        d.scan_models(folder=base, download='ignore')
        order = ['ma', 'mb']
        rng.shuffle(order)
        for m in order:
            d.load_model(m)
        for m in order:
            ev = dict(kind='defaults', m=m, schema=clean(s[m[1]]), exc='', seed=c['seed'], asked=[])
            tree = d.models[m].tree
            path = {tree: []}

            def walk(e):
                for x in e:
                    path[x] = path[e] + [tag(x.tag)]
                    walk(x)
            walk(tree)
            ev['model'] = project(tree)
            nodes = list(path)
            rng.shuffle(nodes)
            try:
                for n in nodes:
                    ev['asked'].append(dict(at=path[n], got=[path.get(x, ['?']) for x in d.default_in_use(n)]))
            except Exception as e:
                if not core.from_code(e):
                    raise
                ev['exc'], ev['msg'] = type(e).__name__, str(e)[:200]
            ev['model2'] = project(tree)
            out.append(ev)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return out


def check_defaults(ctx):
    """C28"""
    ctx.design('MCDefaults')
    k = 8 if ctx.thorough else 1
    rng = ctx.rng()
    evs = ctx.drive(run_defaults, [dict(seed=rng.randrange(1 << 40)) for _ in range(1000 * k)], chunk=8, per_case=60)
    ctx.count('nodes_asked', sum(len(e.get('asked', ())) for e in evs))
    ctx.count('defaults_in_use', sum(len(a['got']) for e in evs for a in e.get('asked', ())))
    ctx.validate('ModelTrace', evs)
