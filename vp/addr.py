"""Driver for addresses: schema nodes, xpaths, notations of tags, reloading models (Address.tla, ModelSet.tla)."""
import copy, itertools, json, os, random, re, shutil, tempfile
from lxml import etree
from . import core, cfg, tree
from .tree import N, to_ele, project, gen, ptag
from .cfg import exc_name, density, mkstyle, safe

# namespaces of the protocol, which no module of the device defines
special_prefixes = {tree.NC: 'nc', tree.YURL: 'yang', 'http://tail-f.com/ns/netconf/params/1.1': 'tailf',
                    'urn:ietf:params:xml:ns:netconf:notification:1.0': 'ncEvent'}


# ------------------------------------------------------------------ reading written paths
def literal(s, i):
    """string literal or concat(...) at s[i:] -> (value, next)"""
    if s.startswith('concat(', i):
        i += 7
        out = ''
        while s[i] != ')':
            if s[i] in ', ':
                i += 1
                continue
            v, i = literal(s, i)
            out += v
        return out, i + 1
    q = s[i]
    assert q in '\'"', s[i:]
    j = s.index(q, i + 1)
    return s[i + 1:j], j + 1


def qual(q, kind, prev):
    """(prefix of the module, left out?)"""
    if q == '':
        return prev, True
    if kind == 'name':
        return {v: k for k, v in {'va': 'vpalpha', 'vb': 'vpbeta', 'vi': 'vpids'}.items()}.get(
            q, q[2:] if re.match(r'vpw\d+$', q) else '?' + q), False
    return q, False


def steps_of(xp, kind, value=None):
    """written path -> steps [t, om, pr]"""
    out, i, prev = [], 0, '?'
    try:
        while i < len(xp):
            assert xp[i] == '/'
            m = re.compile(r'(?:([^/\[\]:=\'"]+):)?([^/\[\]:=\'"]+)').match(xp, i + 1)
            p, om = qual(m.group(1) or '', kind, prev)
            prev = p
            st = dict(t=p + ':' + m.group(2), om=om, pr=[])
            i = m.end()
            while i < len(xp) and xp[i] == '[':
                m = re.compile(r'\[\s*(text\(\)|\.|(?:([^/\[\]:=\'"]+):)?([^/\[\]:=\'"]+?))\s*=\s*').match(xp, i)
                if m is None:
                    m = re.compile(r'\[\s*not\(\s*(?:text\(\)|node\(\)|\.)\s*\)\s*\]').match(xp, i)
                    st['pr'].append(['.', ''])
                    i = m.end()
                    continue
                if m.group(1) in ('.', 'text()'):
                    name = '.'
                else:
                    name = qual(m.group(2) or '', kind, prev)[0] + ':' + m.group(3)
                v, i = literal(xp, m.end())
                while xp[i] == ' ':
                    i += 1
                assert xp[i] == ']'
                i += 1
                st['pr'].append([name, v])
            out.append(st)
    except (AssertionError, AttributeError, ValueError, IndexError):
        return [dict(t='unreadable: ' + xp, om=False, pr=[])]
    return out


def values(steps, eles, path_infos):
    """predicate values in the abstract form of the specification"""
    for st, e in zip(steps, eles):
        for pr in st['pr']:
            x = e if pr[0] == '.' else next((c for c in e if isinstance(c.tag, str) and ptag(c.tag) == pr[0]), None)
            if x is None:
                continue
            info = path_infos(x)
            if info is not None and info['dt'] == 'idref':
                pr[1] = tree._idref(x, pr[1])
            elif info is not None and info['dt'] == 'iid':
                pr[1] = tree._iid(x, pr[1])
    return steps


# ------------------------------------------------------------------ nodes of a configuration
def data_path(x):
    return '/'.join([ptag(a.tag) for a in reversed(list(x.iterancestors()))][1:] + [ptag(x.tag)])


def schema_path(s):
    """data path of a schema node: choices and cases are no data"""
    chain = [a for a in reversed(list(s.iterancestors()))][1:] + [s]
    return '/'.join(ptag(a.tag) for a in chain if a.get('type') not in ('choice', 'case'))


def run_nodes(c):
    from ncdiff.composer import Tag
    dev, sch = cfg.DEV, cfg.SCH
    root = to_ele(c['a'], sch, safe(c['st']))
    a = project(root, sch)
    ev = dict(kind='nodes', a=a, items=[], exc='')
    pos = {}

    def number(e, p):
        for i, x in enumerate(e):
            pos[x] = p + [i + 1]
            number(x, p + [i + 1])
    number(root, [])
    info = lambda x: sch['nodes'].get(data_path(x))
    rng = random.Random(c['seed'])
    nodes = list(pos)
    if len(nodes) > 14:
        nodes = rng.sample(nodes, 14)
    ns = dict(tree.U, nc=tree.NC)
    try:
        for x in nodes:
            s = dev.get_schema_node(x)
            chain = list(reversed(list(x.iterancestors())))[1:] + [x]
            it = dict(pos=pos[x], sp=schema_path(s), sty=s.get('type'), model=dev.get_model_name(x), w=[])
            sel = {}
            for inst in (True, False):
                xp = dev.get_xpath(x, type=Tag.LXML_XPATH, instance=inst)
                try:
                    sel[inst] = sorted(pos[y] for y in root.getroottree().xpath('/nc:config' + xp, namespaces=ns))
                except etree.XPathError as e:
                    ev['exc'], ev['msg'] = 'XPathError', xp
                    return ev
            it['inst'], it['kin'] = sel[True], sel[False]
            for n, t, kind, al in (('lxml', Tag.LXML_XPATH, 'prefix', True), ('xpath', Tag.XPATH, 'prefix', False),
                                   ('json-name', Tag.JSON_NAME, 'name', False), ('json-prefix', Tag.JSON_PREFIX, 'prefix', False)):
                inst = rng.random() < .7
                xp = dev.get_xpath(x, type=t, instance=inst)
                it['w'].append(dict(n=n, all=al, inst=inst, s=values(steps_of(xp, kind), chain, info)))
            ev['items'].append(it)
    except Exception as e:
        if not core.from_code(e):
            raise
        ev['exc'], ev['msg'] = exc_name(e), str(e)[:300]
    return ev


# ------------------------------------------------------------------ nodes of a schema
def instance(chain):
    """a config node of the last schema node"""
    e = etree.Element('{%s}config' % tree.NC)
    for y in chain:
        if y.get('type') in ('choice', 'case'):
            continue
        for k in e.get('keys', '').split():
            etree.SubElement(e, '{%s}%s' % (etree.QName(e).namespace, k)).text = 'v/"1"'
        e.attrib.pop('keys', None)
        if y is not chain[-1] or y.get('is_key') is None:
            e = etree.SubElement(e, y.tag)
        else:
            return e.find(y.tag)
        if y.get('key'):
            e.set('keys', ' '.join(k.split(':')[-1] for k in y.get('key').split()))
    e.attrib.pop('keys', None)
    return e


def schema_events():
    from ncdiff.composer import Tag
    from .device import make_device
    out = []
    for last in ('vpalpha', 'vpbeta'):
        dev = make_device(load=[m for m in ('vpalpha', 'vpbeta') if m != last] + [last])
        for m in ('vpalpha', 'vpbeta'):
            root = dev.models[m].tree
            nodes = [x for x in root.iter() if isinstance(x.tag, str) and x is not root]
            num = {x: i + 1 for i, x in enumerate(nodes)}
            for x in nodes:
                chain = list(reversed(list(x.iterancestors())))[1:] + [x]
                ev = dict(kind='schema', n=num[x], path=[ptag(y.tag) for y in chain], want=m, exc='', stmt='', cstmt='',
                          mods=[ptag(y.tag).split(':')[0] for y in chain])
                try:
                    xp = dev.get_xpath(x, type=Tag.LXML_XPATH)
                    ev['full'] = steps_of(xp, 'prefix')
                    ev['sel'] = [num[y] for y in root.getroottree().xpath('/*' + xp, namespaces=dict(tree.U))]
                    ev['short'] = steps_of(dev.get_xpath(x), 'prefix')
                    ev['model'] = dev.get_model_name(x)
                    if m == last:
                        st = dev.get_statement(x)
                        name = lambda st: 'none' if st is None else \
                            {'vpalpha': 'va', 'vpbeta': 'vb'}.get(st.i_module.arg, '?') + ':' + st.arg
                        ev['stmt'] = name(st)
                        if x.get('type') not in ('choice', 'case', 'rpc', 'notification', 'input', 'output'):
                            st2 = dev.get_statement(instance(chain))
                            ev['cstmt'] = name(st2) if st2 is st else 'another one'
                except Exception as e:
                    if not core.from_code(e):
                        raise
                    ev['exc'] = exc_name(e)
                out.append(ev)
    return out


# ------------------------------------------------------------------ notations of tags
def tag_events():
    from ncdiff.composer import Tag
    dev = cfg.DEV
    ns = [list(x) for x in dev.namespaces] + [['', p, u] for u, p in special_prefixes.items()]
    kinds = {'LXML_XPATH': ('prefix', False), 'XPATH': ('prefix', True), 'LXML_ETREE': ('url', False),
             'JSON_NAME': ('name', True), 'JSON_PREFIX': ('prefix', True), 'YTOOL': ('prefix', True)}
    col = {'name': 0, 'prefix': 1, 'url': 2}
    out = []
    for (s, (sk, so)), (d, (dk, do)) in itertools.product(kinds.items(), kinds.items()):
        src, dst = getattr(Tag, s), getattr(Tag, d)
        for dq in [''] + [x[col[sk]] for x in ns if x[col[sk]]]:
            for tq in ['', 'nowhere'] + [x[col[sk]] for x in ns if x[col[sk]]]:
                t = 'n' if tq == '' else ('{%s}n' % tq if s == 'LXML_ETREE' else tq + ':n')
                ev = dict(kind='tag', ns=ns, dq=dq, tq=tq, n='n', src=dict(k=sk, omit=so), dst=dict(k=dk, omit=do),
                          exc='', rns='', rq='', rn='')
                try:
                    r, x = dev.convert_tag(dq, t, src=src, dst=dst)
                    ev['rns'] = r
                    m = re.match(r'\{(.+)\}(.+)$' if d == 'LXML_ETREE' else r'(.+):(.+)$', x)
                    ev['rq'], ev['rn'] = (m.group(1), m.group(2)) if m else ('', x)
                except Exception as e:
                    if not core.from_code(e):
                        raise
                    ev['exc'] = exc_name(e)
                out.append(ev)
    return out


# ------------------------------------------------------------------ namespaces of replies
def run_ns(c):
    from ncclient import operations
    dev = cfg.DEV
    x = '<nc:rpc-reply xmlns:nc="%s"><nc:data>%s</nc:data></nc:rpc-reply>' % (tree.NC, c['xml'])
    r = operations.rpc.RPCReply(x)
    r.parse()
    dev.handler = lambda *a: r
    ev = dict(kind='ns', urls=sorted({u for y in etree.fromstring(x).iter() for u in y.nsmap.values()}),
              ns=[list(y) for y in dev.namespaces] + [['', p, u] for u, p in special_prefixes.items()], exc='')
    try:
        ev['ret'] = sorted([p, u] for p, u in dev.get().ns.items())
    except Exception as e:
        if not core.from_code(e):
            raise
        ev['exc'] = exc_name(e)
    finally:
        dev.handler = None
    return ev


def ns_cases(rng, n):
    urls = list(tree.U.values())[:3] + ['urn:x:%d' % i for i in range(4)] + ['urn:ietf:params:xml:ns:yang:1']

    def ele(d):
        decl = ''.join(' xmlns%s="%s"' % (rng.choice([':p%d' % i, ':va', ':ns00']) if i else rng.choice(['', ':q']), u)
                       for i, u in enumerate(rng.sample(urls, rng.randint(0, 2))))
        names = re.findall(r'xmlns(:\w+)?=', decl)
        if len(set(names)) != len(names):
            decl = ''
        return '<e%s>%s</e>' % (decl, ''.join(ele(d + 1) for _ in range(rng.randint(0, 3 - d))))
    return [dict(xml=''.join(ele(0) for _ in range(rng.randint(0, 2)))) for _ in range(n)]


# ------------------------------------------------------------------ loading models again
ASK = {'a1': ['va:top', 'va:sysl', 'va:v'], 'a2': ['va:top', 'vb:bx', 'vb:p'], 'a3': ['va:tl'], 'b1': ['vb:broot', 'vb:s'],
       'b2': ['vb:broot'], 'a4': ['va:top', 'va:c4x']}


def run_hist(c):
    """files are compiled models in which every node carries the version"""
    from .device import make_device
    base = tempfile.mkdtemp(prefix='vpa')
    ev = dict(kind='hist', h=[], exc='')
    try:
        dev = make_device(load=())
        ver = {'vpalpha': 0, 'vpbeta': 0}
        for s in c['steps']:
            if s['op'] == 'load':
                m = {'a': 'vpalpha', 'b': 'vpbeta'}[s['x']]
                t = etree.fromstring(COMPILED[m])
                v = ver[m] + 1
                for y in t.iter():
                    if isinstance(y.tag, str) and y.tag != 'namespace':
                        y.set('vpver', str(v))
                f = os.path.join(base, m + '.xml')
                with open(f, 'wb') as h:
                    h.write(etree.tostring(t))
                x = dict(op='load', m=m, v=v, exc='', p='', sp='', cur=True)
                try:
                    dev.load_model(f)
                    ver[m] = v
                except Exception as e:
                    x['exc'] = exc_name(e)
            else:
                tags = ASK[s['x']]
                root = etree.Element('{%s}config' % tree.NC)
                e = root
                for t in tags:
                    e = etree.SubElement(e, tree.lx(t))
                m = 'vpalpha' if tags[0].startswith('va') else 'vpbeta'
                x = dict(op='ask', m=m, v=0, exc='', p='/'.join(tags), sp='', cur=True)
                try:
                    n = dev.get_schema_node(e)
                    x['v'], x['sp'] = int(n.get('vpver', '0')), schema_path(n)
                    x['cur'] = n.getroottree().getroot() is dev.models[m].tree
                except Exception as ex:
                    x['exc'] = exc_name(ex)
            ev['h'].append(x)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return ev


COMPILED = {}


def compiled():
    """the models as the library compiles them (its cache files)"""
    from .device import make_device
    base = tempfile.mkdtemp(prefix='vpa')
    try:
        make_device(folder=base)
        for m in ('vpalpha', 'vpbeta'):
            with open(os.path.join(base, m + '.xml'), 'rb') as f:
                COMPILED[m] = f.read()
    finally:
        shutil.rmtree(base, ignore_errors=True)


def histories(ctx, rng, n):
    rc, out = ctx.tlc('MCModelSet', 'MCModelSetSim.cfg', {'VP_SCALE': '1'}, workers=1,
                      args=['-simulate', 'num=%d' % n, '-depth', '10', '-seed', str(ctx.seed + 7)])
    hs = [json.loads(x) for x in sorted(set(json.loads('"%s"' % x) for x in re.findall(r'"VPHIST (.*)"$', out, re.M)))]
    if len(hs) < 10:
        raise core.Machinery('no histories from the specification\n' + out[-2000:])
    alt = {'a1': ['a1', 'a4'], 'a2': ['a2', 'a3'], 'b1': ['b1', 'b2']}
    return [[dict(s, x=rng.choice(alt[s['x']])) if s['op'] == 'ask' else s for s in h] for h in hs]


def check_addr(ctx):
    """C15"""
    cfg.setup(ctx)
    ctx.design('MCAddress', workers=8)
    ctx.design('MCModelSet', workers=4)
    rc, out = ctx.tlc('MCModelSet', 'MCModelSetStale.cfg', {'VP_SCALE': '1'}, workers=2)
    if 'Invariant Current is violated' not in out:
        raise core.Machinery('negative control: answers that are not forgotten must be stale\n' + out[-1500:])
    compiled()
    rng = ctx.rng()
    k = 8 if ctx.thorough else 1
    cases = [dict(a=gen(rng, cfg.SCH, rng.choice([.3, .5, .7]), rw=rng.random() < .4, skip=rng.choice(cfg.SKIPS + ['all-status'])),
                  st=mkstyle(rng), seed=i) for i in range(2500 * k)]
    evs = ctx.drive(run_nodes, cases)
    ctx.count('nodes_addressed', sum(len(e.get('items', [])) for e in evs))
    evs += schema_events()
    evs += tag_events()
    evs += ctx.drive(run_ns, ns_cases(rng, 300 * k))
    hs = histories(ctx, rng, 400 * k)
    ctx.count('histories_from_spec', len(hs))
    evs += ctx.drive(run_hist, [dict(steps=h) for h in hs])
    for e in evs:
        ctx.count('events_' + e.get('kind', ''))
    ctx.validate('AddrTrace', evs)
