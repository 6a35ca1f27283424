"""Operands without meaning (C29): see spec/Operands.tla."""
import copy
from lxml import etree
from . import cfg as C, core, tree
from .tree import N, project

project_ = lambda x: project(x.ele, C.SCH, attrs=True)


def spots(kids, types=None):
    return C.spots_of(kids, types)


def tear(rng, kids):
    """copy of kids with a defect"""
    k = copy.deepcopy(kids)
    every = spots(k)
    if not every:
        return k, 'none'
    what = rng.choice(['twin', 'twin', 'namesake', 'namesake', 'nokey', 'twokeys', 'empty-twin'])
    lists = [s for s in spots(k, ('list',)) if C.SCH['nodes'][s[2]]['keys'] and s[0][s[1]]['k']]
    if what in ('nokey', 'twokeys', 'namesake') and lists:
        ks, i, p = rng.choice(lists)
        e = ks[i]
        kt = rng.choice(C.SCH['nodes'][p]['keys'])
        if what == 'nokey':
            e['k'] = [c for c in e['k'] if c['t'] != kt]
        elif what == 'twokeys':
            x = [c for c in e['k'] if c['t'] == kt]
            if x:
                y = dict(x[0], k=[])
                if rng.random() < .5:
                    y['v'] = tree.val(rng, C.SCH['nodes'][p + '/' + kt])
                e['k'].insert(rng.randint(0, len(e['k'])), y)
        else:           # an entry of the same keys, of other content
            keys = C.SCH['nodes'][p]['keys']
            n = dict(e, k=[copy.deepcopy(c) for c in e['k'] if c['t'] in keys or rng.random() < .5])
            rng.shuffle(n['k'])
            ks.insert(rng.randint(0, len(ks)), n)
        return k, what
    ks, i, p = rng.choice(every)
    n = copy.deepcopy(ks[i])
    if what == 'empty-twin':
        n['k'] = [c for c in n['k'] if C.SCH['nodes'][p + '/' + c['t']]['iskey']]
    if C.SCH['nodes'][p]['ty'] == 'leaf' and rng.random() < .6:
        n['v'] = tree.val(rng, C.SCH['nodes'][p])
    ks.insert(rng.randint(0, len(ks)), n)
    return k, 'twin'


def outcome(f):
    try:
        return f()
    except Exception as e:
        if not core.from_code(e) and not isinstance(e, TypeError):
            raise
        return '!' + C.exc_name(e)


def run_torn(c):
    from ncdiff import Config, ConfigDelta
    ev = dict(kind='torn', exc='', what=c['what'], sa=c['sa'], sb=c['sb'], raw=[c['a'], c['b']])
    try:
        A = Config(C.DEV, C.styled(c['a'], c['sa']), validate=False)
        B = Config(C.DEV, C.styled(c['b'], c['sb']), validate=False)
        ev['a'], ev['b'] = project_(A), project_(B)
    except Exception as e:
        if not core.from_code(e):
            raise
        ev['exc'], ev['msg'] = C.exc_name(e), str(e)[:300]
        return ev
    s = lambda f: (lambda r: r if isinstance(r, str) else '')(outcome(f))
    b = lambda f: (lambda r: r if isinstance(r, str) else 'T' if r else 'F')(outcome(f))
    ev['sum'], ev['sum2'] = s(lambda: A + B), s(lambda: B + A)
    ev['nc'], ev['ncr'] = s(lambda: ConfigDelta(A, B).nc), s(lambda: (A - B).nc)
    ev['bydelta'] = s(lambda: A + ConfigDelta(A, delta=B.xml))
    ev['byele'] = s(lambda: A + B.ele)
    ev['tr'] = b(lambda: bool(ConfigDelta(A, B)))
    ev['eq'], ev['ne'] = b(lambda: A == B), b(lambda: A != B)
    ev['le'], ev['ge'], ev['lt'], ev['gt'] = b(lambda: A <= B), b(lambda: A >= B), b(lambda: A < B), b(lambda: A > B)
    ev['after'] = [project_(A), project_(B)]
    return ev


KINDS = ['config', 'delta', 'element', 'none', 'number', 'text', 'list', 'object', 'bytes', 'reply', 'true', 'dict', 'class']


def operand(kind):
    from ncdiff import Config, ConfigDelta
    A = C.cfg([N('va:top', '', [N('va:s', 'a')])])
    B = C.cfg([N('va:top', '', [N('va:s', 'b')])])
    if kind == 'config':
        return B
    if kind == 'delta':
        return ConfigDelta(A, B)
    if kind == 'element':
        return copy.deepcopy(B.ele)
    if kind == 'text':
        return B.xml
    if kind == 'reply':
        from ncclient import operations
        r = operations.rpc.RPCReply('<rpc-reply xmlns="%s" message-id="1"><data>%s</data></rpc-reply>' %
                                    (tree.NC, ''.join(etree.tostring(x, encoding='unicode') for x in B.ele)))
        r.parse()
        return r
    return {'none': None, 'number': 5, 'list': [A.ele], 'object': object(), 'bytes': B.xml.encode(), 'true': True,
            'dict': {'config': A}, 'class': Config}[kind]


def kind_of(x):
    from ncdiff import Config, ConfigDelta
    return 'config' if isinstance(x, Config) else 'delta' if isinstance(x, ConfigDelta) else \
        'truth' if isinstance(x, bool) else 'nothing' if x is None else type(x).__name__


def run_kind(c):
    from ncdiff import Config, ConfigDelta
    import operator as O
    ev = dict(kind='kinds', exc='', op=c['op'], x=c['x'], y=c['y'])
    ops = {'+': O.add, '-': O.sub, '<': O.lt, '<=': O.le, '>': O.gt, '>=': O.ge, '==': O.eq, '!=': O.ne,
           'neg': lambda x, y: -x, 'pos': lambda x, y: +x,
           'Config': lambda x, y: Config(C.DEV, x), 'Delta': lambda x, y: ConfigDelta(x, y),
           'Payload': lambda x, y: ConfigDelta(x, delta=y)}
    x, y = operand(c['x']), operand(c['y'])
    try:
        ev['r'] = kind_of(ops[c['op']](x, y))
    except Exception as e:
        ev['r'] = C.exc_name(e)
    return ev


VALUES = {'preferred_create': ['merge', 'create', 'replace', 'delete', 'remove', 'none', '', 'Merge', None, 5, ['merge'], 'mergecreate'],
          'preferred_replace': ['merge', 'replace', 'create', 'delete', '', None, True, 'REPLACE', ('merge',)],
          'preferred_delete': ['delete', 'remove', 'merge', 'create', 'replace', '', None, 'del', 0],
          'random_depth': [None, 0, 3, -1, -7, '0', '1', 1.0, [], {}],
          'random_seed': [None, 0, 7, -2, '1', 1.5, [], 'x', {}]}


def run_option(c):
    from ncdiff import ConfigDelta
    v = VALUES[c['o']][c['i']]
    ev = dict(kind='option', exc='', o=c['o'], v=v if isinstance(v, str) and v in ('merge', 'create', 'replace', 'delete', 'remove')
              else repr(v))
    kw = {c['o']: v}
    if c['o'] == 'random_seed':
        kw['random_depth'] = c['depth']
    A, B = operand('config'), C.cfg([N('va:top', '', [N('va:s', 'a'), N('va:sl', 'q')])])
    try:
        ConfigDelta(A, B, **kw).nc
        ev['r'] = ''
    except Exception as e:
        ev['r'] = C.exc_name(e)
    return ev


def check(ctx):
    C.setup(ctx)
    ctx.design('MCOperands')
    rng = ctx.rng('odd')
    k = 8 if ctx.thorough else 1
    cases = []
    for _ in range(9000 * k):
        a = C.rnd_cfg(rng)
        r = rng.random()
        b = copy.deepcopy(a) if r < .45 else C.mutate(rng, a) if r < .85 else C.rnd_cfg(rng)
        what = 'none'
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            if rng.random() < .5:
                a, what = tear(rng, a)
            else:
                b, what = tear(rng, b)
        if rng.random() < .5:
            b = C.shuffle_sys(rng, b)
        cases.append(dict(a=a, b=b, what=what, sa=C.anystyle(rng), sb=C.anystyle(rng)))
    evs = ctx.drive(run_torn, cases)
    for e in evs:
        ctx.count('torn_' + e.get('what', '?'))
        if str(e.get('sum', '')).startswith('!'):
            ctx.count('sums_refused')
    ctx.validate('ConfigTrace', evs)
    kinds = [dict(op=op, x=x, y=y) for op in ['+', '-', '<', '<=', '>', '>=', '==', '!=']
             for x in KINDS for y in KINDS if x in ('config', 'delta') or y in ('config', 'delta')]
    kinds += [dict(op=op, x=x, y='none') for op in ['neg', 'pos'] for x in ('config', 'delta')]
    kinds += [dict(op='Config', x=x, y='none') for x in KINDS]
    kinds += [dict(op=op, x=x, y=y) for op in ['Delta', 'Payload'] for x in KINDS for y in KINDS]
    opts = [dict(o=o, i=i, depth=d) for o in VALUES for i in range(len(VALUES[o])) for d in (None, 0, 1)]
    ctx.validate('ConfigTrace', ctx.drive(run_kind, kinds) + ctx.drive(run_option, opts), label='k')
