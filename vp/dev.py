"""Driver for sessions of a client with devices (Device.tla): the wire is replaced, everything above it is real."""
import os, random, re, shutil, tempfile
import logging
logging.disable(logging.CRITICAL)
from lxml import etree
from ncclient.operations.rpc import RPC
from ncclient.operations import EditConfig as _Edit
# ncclient as it is, before ncdiff changes it
ORIG = (RPC._wrap, _Edit.request) if RPC._wrap.__module__.startswith('ncclient') else None
from . import core, models
from .models import project, tag, URL

URL.update({'urn:m:a9': 'a9', 'urn:m:b9': 'b9', 'urn:m:s': 's', 'urn:m:r': 'r', 'urn:m:x': 'x', 'urn:m:e': 'e'})
NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
MON = 'urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring'
LIB = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
CAP = 'urn:ietf:params:netconf:capability:'

# ------------------------------------------------------------------ modules
TEXT = {
    'ma': '''identity ib; identity i1 { base ib; } identity i2 { base ib; }
     container ca { leaf x { type string; } leaf y { type uint8; }
       list l { key k; leaf k { type string; } leaf v { type string; } leaf-list w { type string; } }
       leaf idr { type identityref { base ib; } } container p { presence yes; leaf q { type string; } }
       choice ch { case c1 { leaf c1x { type string; } } leaf c2x { type string; } } }
     leaf ra { type string; } container sa { config false; leaf s { type string; } }
     rpc opa { input { leaf i { type string; } } output { leaf o { type string; } } }
     notification na { leaf n { type string; } }''',
    'mb': '''container cb { leaf x { type string; } leaf z { type boolean; } } list lb { key k; leaf k { type string; } leaf v { type string; } }
     augment "/am:ca" { leaf bx { type string; } }''',
    'ms': 'container ss { config false; leaf s { type string; } } leaf st { config false; type string; }',
    'mr': 'rpc opr { input { leaf i { type string; } } } notification nr { leaf n { type string; } }',
    'm_x.y-z': 'container cx { leaf x { type string; } }',
    'mextra': 'container ce { leaf x { type string; } }',
}
HOME = {'ma': ('a', 'urn:m:a'), 'mb': ('b', 'urn:m:b'), 'ms': ('s', 'urn:m:s'), 'mr': ('r', 'urn:m:r'), 'm_x.y-z': ('x', 'urn:m:x'),
        'mextra': ('e', 'urn:m:e')}
# other versions: what is replaced by what; some of them are the same model
EDITS = {
    'ma': [('leaf y { type uint8; }', 'leaf y { type uint16; }'), ('leaf y { type uint8; }', ''),
           ('leaf v { type string; }', 'leaf v { type string; default "d"; }'), ('presence yes;', ''),
           ('leaf-list w { type string; }', 'leaf-list w { type string; ordered-by user; }'),
           ('container p {', 'container p { status deprecated; '), ('leaf i { type string; }', 'leaf i { type string; mandatory true; }'),
           ('notification na {', 'notification nb { leaf n2 { type string; } } notification na {'), ('choice ch {', 'choice ch { mandatory true; '),
           ('key k; leaf k { type string; } leaf v { type string; }', 'key "k v"; leaf k { type string; } leaf v { type string; }'),
           ('leaf s { type string; }', 'leaf s { type string; } leaf s2 { type string; }'), ('leaf q { type string; }', 'leaf q { type string; if-feature ft; }'),
           # the same model
           ('leaf x { type string; } leaf y { type uint8; }', 'leaf y { type uint8; } leaf x { type string; }'),
           ('leaf x { type string; }', 'leaf x { type string; description "other words"; }'),
           ('leaf c2x { type string; }', 'case c2x { leaf c2x { type string; } }')],
    'mb': [('leaf z { type boolean; }', 'leaf z { type boolean; default true; }'), ('leaf bx { type string; }', 'leaf bx { type string; config false; }'),
           ('leaf bx { type string; }', 'leaf bx { type string; reference "same"; }'), ('list lb {', 'list lb { ordered-by user; ')],
    'ms': [('leaf s {', 'leaf t { type string; } leaf s {')], 'mr': [], 'm_x.y-z': [('leaf x {', 'leaf x2 { type string; } leaf x {')],
    'mextra': [],
}


def module(m, pfx, url, text):
    imp = 'import ma { prefix am; }' if m == 'mb' else ''
    return 'module %s { yang-version 1.1; namespace "%s"; prefix %s; %s revision 2024-01-01; feature ft; %s }' % (m, url, pfx, imp, text)


# ------------------------------------------------------------------ the wire
class Wire:
    """a NETCONF session whose peer is answer(rpc element) -> reply text, or raises"""

    def __init__(self, caps, answer):
        from ncclient.capabilities import Capabilities
        self._server_capabilities = self.server_capabilities = Capabilities(caps)
        self.answer, self.listeners, self.log = answer, [], []
        self.connected, self.id = True, '1'

    def get_listener_instance(self, cls):
        return next((x for x in self.listeners if isinstance(x, cls)), None)

    def add_listener(self, x):
        self.listeners.append(x)

    def remove_listener(self, x):
        pass

    def close(self):
        self.connected = False

    def send(self, text):
        from ncclient.operations.rpc import RPCReplyListener
        from ncclient.xml_ import parse_root
        rpc = etree.fromstring(text.encode() if isinstance(text, str) else text)
        self.log.append(rpc)
        body = self.answer(rpc)
        for x in self.listeners:
            if isinstance(x, RPCReplyListener):
                if isinstance(body, Exception):
                    x.errback(body)
                else:
                    raw = '<rpc-reply xmlns="%s" message-id="%s">%s</rpc-reply>' % (NC, rpc.get('message-id'), body)
                    x.callback(parse_root(raw), raw)


ERR = '<rpc-error><error-type>application</error-type><error-tag>operation-not-supported</error-tag><error-severity>error</error-severity></rpc-error>'


def server(d, seen):
    def answer(rpc):
        op = etree.QName(rpc[0]).localname
        if op in ('get', 'get-config', 'get-schema'):
            for which, path in (('mon', '{%s}netconf-state' % MON), ('lib', '{%s}modules-state' % LIB)):
                hit = rpc[0].find('{%s}filter/%s' % (NC, path))
                if hit is not None:
                    seen.append(which)
                    k = d[which]['k']
                    if k in ('error', 'no'):
                        return ERR
                    if k == 'broken':
                        if d['how'] == 'raise':
                            raise OSError('connection lost')
                        return OSError('no answer')
                    if which == 'mon':
                        if hit.find('{%s}schemas' % MON) is None and len(hit):
                            return '<data/>'
                        return '<data><netconf-state xmlns="%s"><schemas>%s</schemas></netconf-state></data>' % (MON, ''.join(
                            '<schema><identifier>%s</identifier><version>2024-01-01</version><format>yang</format></schema>' % m for m in d['mon']['l']))
                    if hit.find('{%s}module' % LIB) is None and len(hit):
                        return '<data/>'
                    return '<data><modules-state xmlns="%s">%s</modules-state></data>' % (LIB, ''.join(
                        '<module><name>%s</name><revision>2024-01-01</revision></module>' % m for m in d['lib']['l']))
            return '<data>%s</data>' % d['data']
        return '<ok/>'
    return answer


def bind(e, text):
    """prefixes in a value mean what they are bound to"""
    if not text or ':' not in text:
        return text or ''
    return re.sub(r'\b([A-Za-z_][\w.-]*):(?=[A-Za-z_])', lambda m: '{%s}' % e.nsmap[m.group(1)] if m.group(1) in e.nsmap else m.group(0), text)


def canon(e, bind=bind):
    return '<%s%s>%s%s</>' % (e.tag, ''.join(' %s=%r' % (k, bind(e, v)) for k, v in sorted(e.attrib.items())),
                              bind(e, ''.join([e.text or ''] + [c.tail or '' for c in e if not isinstance(c.tag, str)]).strip()),
                              ''.join(canon(c, bind) for c in e if isinstance(c.tag, str)))


def asis(log):
    """values as written: ncclient by itself (lxml) loses bindings of prefixes"""
    return ''.join(canon(r[0], lambda e, v: v or '') for r in log)


DATA = ['<ca xmlns="urn:m:a"><x>1</x></ca>', '<q:cb xmlns:q="urn:m:b"><q:x>q:v</q:x></q:cb>', '<u xmlns="urn:u1"><y:z xmlns:y="urn:u2" y:at="1"/></u>',
        '<!-- words --><cx xmlns="urn:m:x"><x>  two\n words </x></cx>', '<a:ca xmlns:a="urn:m:s"><a:s xmlns:a="urn:m:a">a:s</a:s></a:ca>',
        '<ns00:m xmlns:ns00="urn:u3"><ns01:m xmlns:ns01="urn:u4">1</ns01:m></ns00:m>', '<x xmlns="urn:m:a9"><x xmlns="urn:m:b9"/></x>']


def look(root, obj, x):
    """what a reply or a notification says of itself"""
    import warnings
    x['doc'] = canon(root)
    x['urls'] = sorted({u for y in root.iter() for u in y.nsmap.values()})
    x['ns'] = sorted([p, u] for p, u in obj.ns.items())
    x['shown'] = canon(etree.fromstring(str(obj)))
    tags = sorted({y.tag for y in root.iter() if isinstance(y.tag, str)})
    pfx = {u: p for p, u in obj.ns.items()}
    x['hits'] = []
    for t in tags:
        q = etree.QName(t)
        got = obj.xpath('//%s:%s' % (pfx.get(q.namespace, 'none'), q.localname))
        x['hits'].append([len(got), sum(1 for y in root.iter() if y.tag == t)])
    x['own'] = [len(obj.xpath('//zz:%s' % etree.QName(tags[-1]).localname, namespaces={'zz': etree.QName(tags[-1]).namespace})),
                sum(1 for y in root.iter() if y.tag == tags[-1])]


def describe(rpc):
    op = rpc[0]
    name = etree.QName(op).localname
    r = dict(op={'get-config': 'get_config'}.get(name, name), source='', target='', ftype='', roots=[], bare=True, payload='')
    for x in op:
        n = etree.QName(x).localname
        if n in ('source', 'target'):
            r[n] = ''.join(etree.QName(y).localname for y in x)
        elif n == 'filter':
            r['ftype'] = x.get('type', 'subtree')
            r['roots'] = [tag(y.tag) for y in x]
            r['bare'] = all(len(y) == 0 and not (y.text or '').strip() and not y.attrib for y in x)
        elif n == 'config':
            r['payload'] = ''.join(canon(y) for y in x if isinstance(y.tag, str))
    return r


# ------------------------------------------------------------------ worlds
def gen_world(rng, mix):
    devs, folders, own = [], [], {1: [], 2: []}
    names = ['ma', 'mb', 'ms', 'mr', 'm_x.y-z']
    for i in (1, 2):
        pick = lambda: [m for m in names if rng.random() < (.9 if mix != 'find' else .7)]
        mon, lib = rng.choice(['no', 'ok', 'ok', 'error', 'broken']), rng.choice(['no', 'ok', 'error', 'broken'])
        if mix != 'find' and rng.random() < .6:
            mon = 'ok'
        caps = pick()
        monl, libl = pick(), pick()
        for l in (monl, libl, caps):
            if rng.random() < .4:
                l += rng.sample(['ghost-1', 'ghost_2', 'g.3', 'A-Long_name.v1-2'], 2)
        if rng.random() < .3 and monl:
            monl.append(monl[0])
        rng.shuffle(monl)
        rng.shuffle(libl)
        cand, wr = rng.random() < .5, rng.random() < .6
        strs = ['urn:ietf:params:netconf:base:1.0', 'urn:ietf:params:netconf:base:1.1']
        strs += [CAP + 'candidate:1.0'] * cand + [CAP + 'writable-running:1.0'] * wr
        extra = rng.sample([CAP + 'xpath:1.0', CAP + 'startup:1.0', CAP + 'validate:1.1', CAP + 'confirmed-commit:1.1', CAP + 'rollback-on-error:1.0', CAP + 'url:1.0?scheme=http,ftp',
                            CAP + 'with-defaults:1.0?basic-mode=explicit'], rng.randint(0, 5))
        strs += extra
        if mon != 'no':
            if rng.random() < .5:
                strs.append(MON)
            else:
                strs.append(MON + '?module=ietf-netconf-monitoring&revision=2010-10-04')
                caps.append('ietf-netconf-monitoring')
        if lib != 'no':
            strs.append(CAP + 'yang-library:1.0?revision=2016-06-21&module-set-id=abc%d' % rng.randint(0, 9))
        for m in caps:
            if m == 'ietf-netconf-monitoring':
                continue
            u = HOME.get(m, ('', 'urn:ghost:' + m))[1]
            parts = ['module=' + m, 'revision=2024-01-01'] + (['features=f1,f2'] if rng.random() < .3 else []) + \
                (['deviations=m-dev,n-dev'] if rng.random() < .3 else [])
            if rng.random() < .4:
                rng.shuffle(parts)
            if rng.random() < .1:
                parts = ['module=' + m]
            strs.append(u + '?' + '&'.join(parts))
        rng.shuffle(strs)
        devs.append(dict(mon=dict(k=mon, l=monl), lib=dict(k=lib, l=libl), caps=caps, cand=cand, wr=wr, strs=strs,
                         how=rng.choice(['raise', 'tell']), mode=rng.choice([0, 1, 2]),
                         data=''.join(rng.sample(DATA, rng.randint(0, 3))), iosxe=rng.random() < .3))
    much = rng.choice([0, .06, .06, .15, .4])
    for i in (1, 2):
        home = dict(HOME)
        if i == 2 and rng.random() < .15:
            m = rng.choice(['ma', 'mb'])
            p, u = HOME[m]
            home[m] = rng.choice([(p + 'q', u), (p, u + '9'), (p + 'q', u + '9')])
        for f in (1, 2):
            mods = {}
            for m in names + (['mextra'] if rng.random() < .5 else []):
                t = TEXT[m]
                for a, b in rng.sample(EDITS[m], min(len(EDITS[m]), rng.choice([1, 1, 2]) if rng.random() < much else 0)):
                    t = t.replace(a, b, 1)
                mods[m] = (home[m][0], home[m][1], t)
            folders.append(mods)
            own[i].append(len(folders))
    return dict(devs=devs, folders=folders, own=own)


def config_text(rng, ms, homes):
    out = ''
    v = lambda: rng.choice(['1', 'two', 'three words'])
    for m in ms:
        u = homes[m][1]
        if m == 'ma':
            inner = ''
            if rng.random() < .7:
                inner += '<x>%s</x>' % v()
            for k in rng.sample(['k1', 'k2', 'k3'], rng.randint(0, 2)):
                inner += '<l><k>%s</k><v>%s</v></l>' % (k, v())
            if rng.random() < .4:
                inner += '<c2x>%s</c2x>' % v()
            if rng.random() < .4:
                inner += '<idr xmlns:%s="%s">%s:%s</idr>' % (('nn', u, 'nn', 'i1') if rng.random() < .6 else (homes[m][0], u, homes[m][0], 'i2'))
            out += '<ca xmlns="%s">%s</ca>' % (u, inner or '<x>1</x>')
            if rng.random() < .4:
                out += '<ra xmlns="%s">%s</ra>' % (u, v())
        elif m == 'mb':
            out += '<cb xmlns="%s"><x>%s</x></cb>' % (u, v())
        else:
            out += '<cx xmlns="%s"><x>%s</x></cx>' % (u, v())
    return '<nc:config xmlns:nc="%s">%s</nc:config>' % (NC, out)


# ------------------------------------------------------------------ sessions
def run_session(c):
    from ncdiff import Config, ModelCompiler
    from ncdiff.manager import ModelDevice
    from ncclient.manager import Manager
    from ncclient.devices.default import DefaultDeviceHandler
    from ncclient.devices.iosxe import IosxeDeviceHandler
    from ncclient import operations
    rng = random.Random(c['seed'])
    w = gen_world(rng, c['mix'])
    base = tempfile.mkdtemp(prefix='vpd')
    try:
        dirs, fol = [], []
        for n, mods in enumerate(w['folders']):
            d = os.path.join(base, 'f%d' % (n + 1))
            os.mkdir(d)
            for m, (p, u, t) in mods.items():
                with open(os.path.join(d, m + '.yang'), 'w') as f:
                    f.write(module(m, p, u, t))
            dirs.append(d)
            comp = ModelCompiler(d)
            rec = []
            for m, (p, u, t) in sorted(mods.items()):
                tr = comp.compile(m).tree
                os.remove(os.path.join(d, m + '.xml')) if rng.random() < .5 else None
                rec.append(dict(m=m, pfx=p, url=u, tree=project(tr),
                                roots=[dict(t=tag(x.tag), acc=x.get('access'), ty=x.get('type')) for x in tr]))
            fol.append(rec)
        seen = {1: [], 2: []}
        dev, wire, plain, pwire = {}, {}, {}, {}
        for i in (1, 2):
            d = w['devs'][i - 1]
            wire[i] = Wire(d['strs'], server(d, seen[i]))
            pwire[i] = Wire(d['strs'], server(d, []))
            hd = (lambda: IosxeDeviceHandler({'name': 'iosxe'})) if d['iosxe'] else DefaultDeviceHandler
            dev[i] = ModelDevice(wire[i], hd(), raise_mode=d['mode'])
            plain[i] = Manager(pwire[i], hd())
            plain[i].raise_mode = d['mode']
        steps = []
        st = {i: dict(folder=0, loaded={}) for i in (1, 2)}
        for op in plan(rng, c['mix']):
            x = step(rng, op, w, dirs, dev, wire, plain, pwire, seen, st)
            if x is not None:
                steps.append(x)
        devs = [dict((k, d[k]) for k in ('mon', 'lib', 'caps', 'cand', 'wr')) for d in w['devs']]
        return [dict(devs=devs, folders=fol, steps=steps, seed=c['seed'], mix=c['mix'])]
    finally:
        shutil.rmtree(base, ignore_errors=True)


MIX = {'find': ['loadable'] * 3 + ['scan'] * 3 + ['names'] * 4 + ['load'] * 5 + ['load file', 'get'],
       'ask': ['load'] * 4 + ['get'] * 5 + ['get_config'] * 5 + ['edit'] * 4 + ['other'] * 2 + ['note', 'note', 'unknown', 'scan', 'load file'],
       'two': ['load'] * 3 + ['load file'] + ['combine'] * 9 + ['scan']}


def plan(rng, mix):
    out = []
    if mix != 'find' or rng.random() < .5:
        out += [('scan', 1), ('scan', 2)]
    if mix == 'two' and rng.random() < .8:
        out += [('load', i, m) for i in (1, 2) for m in ('ma', 'mb', 'm_x.y-z') if rng.random() < .85]
    if mix == 'ask' and rng.random() < .7:
        out += [('load', 1, m) for m in TEXT if rng.random() < .6]
    return out + [(rng.choice(MIX[mix]), rng.choice([1, 1, 2])) for _ in range(rng.randint(6, 16))]


def step(rng, op, w, dirs, dev, wire, plain, pwire, seen, st):
    from ncdiff import Config
    from ncclient import operations
    from ncclient.operations import GetConfig, Get, EditConfig
    kind, i = op[0], op[1]
    d = dev[i]
    x = dict(op=kind, i=i, exc='')
    del seen[1][:], seen[2][:]
    del wire[i].log[:]

    def attempt(fn):
        try:
            return fn()
        except Exception as e:
            x['exc'] = type(e).__name__
            x['msg'] = str(e)[:160]

    def reference(ref):
        del pwire[i].log[:]
        now = RPC._wrap, _Edit.request
        if ORIG is None:
            raise core.Machinery('ncclient was changed before the driver was loaded')
        RPC._wrap, _Edit.request = ORIG
        try:
            ref(plain[i])
            x['refexc'] = ''
        except Exception as e:
            x['refexc'] = type(e).__name__
        finally:
            RPC._wrap, _Edit.request = now

    def both(fn, ref):
        """the same through ncclient alone"""
        attempt(fn)
        reference(ref)
        x['raw'], x['ref'] = asis(wire[i].log), asis(pwire[i].log)
    if kind == 'loadable':
        x['got'] = attempt(lambda: list(d.models_loadable)) or []
        x['asked'] = list(seen[i])
    elif kind == 'scan':
        x['f'] = op[2] if len(op) > 2 else rng.choice(w['own'][i])
        attempt(lambda: d.scan_models(folder=dirs[x['f'] - 1], download='ignore'))
        x['asked'] = list(seen[i])
        st[i]['folder'] = x['f']
    elif kind == 'names':
        x['got'] = [list(n) for n in attempt(lambda: d.namespaces) or []]
    elif kind == 'load':
        f = st[i]['folder']
        x['m'] = op[2] if len(op) > 2 else rng.choice(['ma', 'mb', 'ms', 'mr', 'm_x.y-z', 'ma', 'mb', 'mextra', 'no-such-module'])
        attempt(lambda: d.load_model(x['m']))
        x['loaded'] = list(d.models_loaded)
        x['roots'] = [[tag(k), v] for k, v in d.roots.items()]
        x['asked'] = list(seen[i])
        if not x['exc']:
            st[i]['loaded'][x['m']] = f
    elif kind == 'load file':
        if not st[i]['folder']:
            return None
        x['f'] = rng.choice(w['own'][i])
        x['m'] = rng.choice(['ma', 'mb', 'ms', 'mr'])
        path = os.path.join(dirs[x['f'] - 1], x['m'] + '.xml')
        if not os.path.exists(path):
            from ncdiff import ModelCompiler
            ModelCompiler(dirs[x['f'] - 1]).compile(x['m'])
        attempt(lambda: d.load_model(path))
        x['loaded'] = list(d.models_loaded)
        if not x['exc']:
            st[i]['loaded'][x['m']] = x['f']
    elif kind in ('get', 'get_config'):
        if not st[i]['folder']:
            return None
        cls = dict(get=Get, get_config=GetConfig)[kind]
        how = rng.choice(['method', 'class', 'name'])
        call = lambda m, *a, **k: getattr(m, kind)(*a, **k) if how == 'method' else \
            m.execute(cls if how == 'class' or m is plain[i] else kind, *a, **k)
        x['source'] = rng.choice(['', '', 'running', 'candidate', 'startup']) if kind == 'get_config' else ''
        kw, a = {}, ()
        if x['source'] and rng.random() < .5:
            a = (x['source'],)
        elif x['source']:
            kw['source'] = x['source']
        x['bymodels'] = rng.random() < .75
        x['sent'], x['ms'] = [], []
        flt = rng.choice([('subtree', '<a xmlns="urn:q"><b/></a>'), '<filter type="subtree"><top xmlns="urn:q"/></filter>', None])
        if x['bymodels']:
            have = list(st[i]['loaded'])
            x['ms'] = rng.sample(have, rng.randint(1, len(have))) if have and rng.random() < .85 else \
                rng.sample(['ma', 'mb', 'ms', 'mr', 'none'], rng.randint(1, 2))
            if rng.random() < .04:
                x['ms'] = []
            arg = list(x['ms'])
            if len(arg) == 1 and rng.random() < .6:
                arg = arg[0]
            elif rng.random() < .3:
                arg = tuple(arg)
            kw['models'] = arg
            if rng.random() < .1:
                kw['filter'] = ('subtree', '<ignored xmlns="urn:q"/>')
            rep = attempt(lambda: call(d, *a, **kw))
            x['sent'] = [describe(r) for r in wire[i].log]
        else:
            if flt is not None:
                kw['filter'] = flt
            ref = dict(kw)
            if kind == 'get_config' and not a and 'source' not in kw:
                ref['source'] = 'running'
            rep = []
            both(lambda: rep.append(call(d, *a, **kw)), lambda m: call(m, *a, **ref))
            rep = rep[0] if rep else None
        x['got'] = rep is not None
        if rep is not None:
            attempt(lambda: look(etree.fromstring(rep._raw), rep, x))
    elif kind == 'edit':
        have = [m for m in ('ma', 'mb', 'm_x.y-z') if m in st[i]['loaded']]
        if not have or not st[i]['folder']:
            return None
        homes = w['folders'][st[i]['folder'] - 1]
        txt = config_text(rng, rng.sample(have, rng.randint(1, len(have))), homes)
        form = rng.choice(['config', 'config', 'config', 'element', 'string', 'delta', 'comment', 'bare', 'text', 'url'])
        cfg = Config(d, txt)
        ele = etree.fromstring(txt)
        obj = dict(config=cfg, element=ele, string=txt, delta=(cfg - Config(d)).nc, text='interface x', url=rng.choice(['http://h/c', 'nothing']),
                   comment=re.sub('><', lambda m: '><!-- <no:v a="1"> --><' if rng.random() < .3 else '><', txt), bare=txt.replace('nc:config', 'config'))[form]
        if form == 'comment' and rng.random() < .5:
            obj = etree.fromstring(obj)
        inner = lambda e: ''.join(canon(y) for y in e if isinstance(y.tag, str))
        src = cfg.ele if form == 'config' else '' if form in ('text', 'url') else etree.fromstring(obj) if isinstance(obj, str) else obj
        want = inner(src)
        x['want'] = want
        x['target'] = rng.choice(['', '', 'running', 'candidate', 'startup'])
        a, kw = (), {}
        fmt = form if form in ('text', 'url') else 'xml'
        if rng.random() < .6 and fmt == 'xml':
            a = (obj,)
            if x['target'] and rng.random() < .3:
                a = (obj, 'xml', x['target'])
        else:
            kw['config'] = obj
        if x['target'] and len(a) < 3:
            kw['target'] = x['target']
        opt = {} if fmt == 'xml' else dict(format=fmt)
        for o, vs in (('default_operation', ['merge', 'replace', 'none']), ('test_option', ['test-then-set', 'set']),
                      ('error_option', ['stop-on-error', 'continue-on-error', 'rollback-on-error'])):
            if rng.random() < .25:
                opt[o] = rng.choice(vs)
        kw.update(opt)
        how = rng.choice(['method', 'class', 'name'])
        refobj = etree.fromstring(etree.tostring(cfg.ele)) if form == 'config' else obj if isinstance(obj, str) else etree.fromstring(etree.tostring(obj))
        attempt(lambda: d.edit_config(*a, **kw) if how == 'method' else d.execute(EditConfig if how == 'class' else 'edit_config', *a, **kw))
        x['sent'] = [describe(r) for r in wire[i].log]
        tg = x['sent'][0]['target'] if x['sent'] else x['target']
        reference(lambda m: m.edit_config(refobj, target=tg or 'candidate', **opt))
        x['raw'], x['ref'] = asis(wire[i].log), asis(pwire[i].log)
        if src != '' and inner(src) != want:
            x['want'] = 'what was given is changed'
    elif kind == 'other':
        which = rng.choice([('lock', 'running'), ('unlock', 'candidate'), ('commit',), ('discard_changes',), ('validate', 'candidate'),
                            ('copy_config', 'running', 'startup'), ('delete_config', 'startup'), ('get_schema', 'ma')])
        how = rng.random() < .5
        both(lambda: getattr(d, which[0])(*which[1:]) if how else d.execute(which[0], *which[1:]), lambda m: getattr(m, which[0])(*which[1:]))
    elif kind == 'note':
        from ncclient.transport.notify import Notification
        if not st[i]['folder']:
            return None
        raw = '<notification xmlns="urn:ietf:params:xml:ns:netconf:notification:1.0"><eventTime>2024-01-01T00:00:00Z</eventTime>%s</notification>' % (
            ''.join(rng.sample(DATA, rng.randint(0, 2))))
        there = rng.random() < .9
        asked = []
        wire[i].take_notification = lambda *a, **k: asked.append([list(a), k]) or (Notification(raw) if there else None)
        args = rng.choice([{}, dict(block=False), dict(timeout=5), dict(block=True, timeout=1)])
        x['there'] = there
        n = attempt(lambda: d.take_notification(**args))
        x['none'] = n is None
        x['args'] = [str(asked[0][0][0]), str(asked[0][0][1])] if asked and len(asked[0][0]) == 2 else []
        x['want'] = [str(args.get('block', True)), str(args.get('timeout', None))]
        if n is not None:
            attempt(lambda: look(etree.fromstring(raw), n, x))
    elif kind == 'unknown':
        attempt(lambda: d.execute(rng.choice(['get-config', 'nonsense', '']), 'running'))
        x['sent'] = [describe(r) for r in wire[i].log]
    elif kind == 'combine':
        i, j = rng.choice([(1, 2), (1, 2), (2, 1), (2, 1), (1, 1)])
        x.update(i=i, j=j)
        if not st[i]['folder'] or not st[j]['folder']:
            return None
        fi, fj = w['folders'][st[i]['folder'] - 1], w['folders'][st[j]['folder'] - 1]
        # a config can only be made of models that are loaded
        mi = [m for m in ('ma', 'mb', 'm_x.y-z') if m in st[i]['loaded'] and rng.random() < .6]
        mj = [m for m in ('ma', 'mb', 'm_x.y-z') if m in st[j]['loaded'] and rng.random() < .6]
        if rng.random() < .3:
            mi = [m for m in mj if m in st[i]['loaded']]
        how = rng.choice(['sub', 'add', 'delta', 'minus delta', 'class'])
        ti, tj, tj2 = config_text(rng, mi, fi), config_text(rng, mj, fj), config_text(rng, mj, fj)
        if how in ('delta', 'minus delta'):
            if not all(m in st[i]['loaded'] for m in mj):
                return None
            ti = config_text(rng, [], fi)
            mi = []
            same = {u: fi[m][1] for m, (p, u, t) in fj.items() if m in fi}
        x['ms'] = sorted(set(mi) | set(mj))
        x['how'] = how
        try:
            ci, cj, cj2 = Config(dev[i], ti), Config(dev[j], tj), Config(dev[j], tj2)
        except Exception as e:
            x['exc'] = 'making a config: %r' % e
            return x

        def go(a, b, b2, back):
            from ncdiff.config import ConfigDelta
            if how == 'sub':
                return canon((a - b).nc)
            if how == 'class':
                return canon(ConfigDelta(config_src=a, config_dst=b).nc)
            if how == 'add':
                return canon((a + b).ele)
            if how == 'delta':
                return canon((back + (b2 - b)).ele)
            return canon((back - (b - b2)).ele)
        try:
            bi, bi2 = Config(dev[i], tj), Config(dev[i], tj2)
            x['ref'] = go(ci, bi, bi2, bi)
        except Exception as e:
            x['ref'] = 'no reference: %r' % e
            bi = ci
        before = (canon(ci.ele), canon(cj.ele), canon(bi.ele))
        x['res'] = attempt(lambda: go(ci, cj, cj2, bi)) or ''
        x['asks'] = [list(seen[1]), list(seen[2])]
        if (canon(ci.ele), canon(cj.ele), canon(bi.ele)) != before:
            x['res'] = 'a config was changed'
    return x


def check(ctx, mix, n):
    ctx.design('MCDevice')
    rng = ctx.rng()
    evs = ctx.drive(run_session, [dict(seed=rng.randrange(1 << 40), mix=mix) for _ in range(n * (8 if ctx.thorough else 1))],
                    chunk=4, per_case=60)
    for k in sorted({s['op'] for e in evs for s in e['steps']}):
        ctx.count('steps_' + k.replace(' ', '_'), sum(1 for e in evs for s in e['steps'] if s['op'] == k))
    ctx.count('refused', sum(1 for e in evs for s in e['steps'] if s['exc']))
    ctx.validate('DevTrace', evs)


def check_ask(ctx):
    """C16"""
    check(ctx, 'ask', 500)


def check_two(ctx):
    """C17"""
    check(ctx, 'two', 600)


def check_find(ctx):
    """C27"""
    check(ctx, 'find', 500)
