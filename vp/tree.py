"""Abstract configs (the JSON form the specification sees) and their XML renderings.

node = {"t": "va:top", "v": text, "k": [nodes], optional "op"/"ins"/"anc"}.
identityref values are written "@module:identity", whatever prefixes the XML uses."""
import random, re
from lxml import etree
NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
YURL = 'urn:ietf:params:xml:ns:yang:1'
OPTAG, INSTAG, VALTAG, KEYTAG = '{%s}operation' % NC, '{%s}insert' % YURL, '{%s}value' % YURL, '{%s}key' % YURL
U = {'va': 'urn:vp:alpha', 'vb': 'urn:vp:beta', 'vi': 'urn:vp:ids', 'vc': 'urn:vp:gamma'}
MOD = {'vpalpha': U['va'], 'vpbeta': U['vb'], 'vpids': U['vi'], 'vpgamma': U['vc']}
URL2P = {v: k for k, v in U.items()}
URL2M = {v: k for k, v in MOD.items()}


def N(t, v='', k=None, **kw):
    d = {'t': t, 'v': v, 'k': k or []}
    d.update(kw)
    return d


class Style:
    """How a tree is spelled as XML.
    mode: element names with the default namespace, with prefixes, or mixed;
    decl: 'local' declares a prefix where it is needed, 'root' declares all at the top;
    idp:  'own' gives identity values prefixes of their own, 'share' reuses one in scope,
          'json' names the module as RFC 7951 does."""
    def __init__(self, rng=None, mode='default', pfx='', decl='local', idp='own',
                 bare=True, dflt=None):
        self.dflt = dflt        # default namespace declared at the root
        self.rng, self.mode, self.pfx, self.decl, self.idp = rng, mode, pfx, decl, idp
        self.bare = bare        # identities of the default namespace may be written bare

    def pick(self):
        if self.mode == 'mixed':
            return self.rng.choice(['default', 'prefix'])
        return self.mode

    @staticmethod
    def random(rng):
        return Style(rng, rng.choice(['default', 'prefix', 'mixed']), rng.choice(['', 'p', 'zz']),
                     rng.choice(['local', 'root']), rng.choice(['own', 'share']))


def url_of(tag):
    p = tag.split(':', 1)[0]
    return U.get(p, 'urn:vp:unknown-' + p)


def lx(tag):
    return '{%s}%s' % (url_of(tag), tag.split(':', 1)[1])


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def _emit(node, sch, path, style, scope):
    url, name = url_of(node['t']), node['t'].split(':', 1)[1]
    p = (path + '/' if path else '') + node['t']
    info = sch['nodes'].get(p)
    scope = dict(scope)
    decl = {}

    def declare(pref, u):
        if scope.get(pref) != u:
            decl[pref] = u
            scope[pref] = u
    mode = style.pick()
    if mode == 'default':
        declare(None, url)
        q = name
    else:
        pref = style.pfx + URL2P.get(url, 'unk')
        declare(pref, url)
        q = pref + ':' + name

    def idp(murl):
        if style.idp == 'share':
            for k, v in scope.items():
                if v == murl and k is not None:
                    return k
        pref = style.pfx + 'i' + URL2P.get(murl, 'unk')
        declare(pref, murl)
        return pref

    def text_of(dt, text):
        if dt == 'idref' and text.startswith('@'):
            m, i = text[1:].split(':')
            if style.bare and scope.get(None) == MOD[m] and (style.rng is None or style.rng.random() < .5):
                return i
            return (m if style.idp == 'json' else idp(MOD[m])) + ':' + i
        if dt == 'iid':
            if style.rng is not None and style.bare and '"' not in text and style.rng.random() < .3:
                text = text.replace("'", '"')
            if style.idp == 'json':
                last = ['']

                def short(mm):
                    # only the leftmost name and changes of module are qualified
                    m, cur = mm.group(1), last[0]
                    if text[mm.start() - 1] == '/':
                        last[0] = m
                    return '' if m == cur else m + ':'
                return re.sub(r'@(\w+):', short, text)
            return re.sub(r'@(\w+):', lambda mm: idp(MOD[mm.group(1)]) + ':', text)
        return text
    dt = info['dt'] if info is not None else ''
    text = text_of(dt, node['v'])
    at = ''
    if node.get('op'):
        at += ' nc:operation="%s"' % esc(node['op'])
    if node.get('ins'):
        declare('yang', YURL)
        at += ' yang:insert="%s"' % esc(node['ins'])
    a = node.get('anc')
    if a:
        declare('yang', YURL)
        if info is not None and info['ty'] == 'leaf-list':
            at += ' yang:value="%s"' % esc(text_of(dt, a[0][1]))
        else:
            s = ''
            for t, val in a:
                u = url_of(t)
                if scope.get(None) == u:
                    nm = t.split(':')[1]
                else:
                    pr = [k for k, v in scope.items() if v == u]
                    if not pr:
                        pr = ['k' + URL2P[u]]
                        declare(pr[0], u)
                    nm = pr[0] + ':' + t.split(':')[1]
                ki = sch['nodes'].get(p + '/' + t)
                val = text_of(ki['dt'] if ki else '', val)
                qu = '"' if "'" in val else "'"
                s += '[%s=%s%s%s]' % (nm, qu, val, qu)
            at += ' yang:key="%s"' % esc(s)
    for k in node.get('xa', []):
        at += ' ' + k
    ns = ''.join(' xmlns%s="%s"' % ('' if k is None else ':' + k, v) for k, v in decl.items())
    body = esc(text) + ''.join(_emit(c, sch, p, style, scope) for c in node['k'])
    return '<%s%s%s>%s</%s>' % (q, ns, at, body, q)


def inner_xml(kids, sch, style=None, scope=None):
    style = style or Style()
    return ''.join(_emit(c, sch, '', style, scope or {'nc': NC}) for c in kids)


def to_xml(kids, sch, style=None, tag='config', per_child=False):
    style = style or Style()
    scope = {'nc': NC}
    extra = ''
    if style.decl == 'root':
        for k, u in U.items():
            for pre in (style.pfx + k, style.pfx + 'i' + k):
                scope[pre] = u
                extra += ' xmlns:%s="%s"' % (pre, u)
    if style.dflt:
        scope[None] = U[style.dflt]
        extra += ' xmlns="%s"' % U[style.dflt]
    inner = ''.join(_emit(c, sch, '', style, scope) for c in kids)
    if style.decl == 'root' and per_child:
        # the same declarations, repeated on every child of the envelope
        inner = ''.join(re.sub(r'^(<[^\s>/]+)', lambda m: m.group(1) + extra,
                               _emit(c, sch, '', style, scope)) for c in kids)
        extra = ''
    return '<nc:%s xmlns:nc="%s"%s>%s</nc:%s>' % (tag, NC, extra, inner, tag)


def to_ele(kids, sch, style=None):
    return etree.fromstring(to_xml(kids, sch, style))


# ---------------------------------------------------------------- projection
def ptag(tag):
    q = etree.QName(tag)
    return URL2P.get(q.namespace, '{%s}' % q.namespace) + ':' + q.localname


def _idref(ele, text):
    if text is None:
        return ''
    if ':' in text:
        p, i = text.split(':', 1)
        u = ele.nsmap.get(p)
        if u is None and p in MOD:       # RFC 7951 style name
            u = MOD[p]
    else:
        u, i = ele.nsmap.get(None), text
    return '@%s:%s' % (URL2M.get(u, '?%s' % u), i)


def _iid(ele, text):
    """Canonical instance-identifier: every node name qualified by module, literals kept."""
    if text is None:
        return ''
    out, i, n = '', 0, len(text)
    cur = None
    while i < n:
        ch = text[i]
        if ch in '\'"':
            j = text.index(ch, i + 1)
            q = '"' if "'" in text[i + 1:j] else "'"
            out += q + text[i + 1:j] + q
            i = j + 1
        elif ch in '/[]=. ':
            out += ch
            i += 1
        else:
            j = i
            while j < n and text[j] not in '/[]= ':
                j += 1
            name = text[i:j]
            if ':' in name:
                p, nm = name.split(':')
                u = ele.nsmap.get(p) or MOD.get(p)
                q = '@%s:%s' % (URL2M.get(u, '?%s' % u), nm)
                if text[i - 1:i] == '/':
                    cur = q.split(':')[0]
            else:       # RFC 7951 style: of the same module as the node before
                q = name if name.isdigit() else (cur or '?') + ':' + name
            out += q
            i = j
    return out


_PRED = re.compile(r"\[\s*([^=\]]+?)\s*=\s*(?:'([^']*)'|\"([^\"]*)\")\]")


def project(ele, sch, path='', attrs=False):
    """lxml element children -> abstract kids."""
    out = []
    for c in ele:
        if not isinstance(c.tag, str):
            continue
        t = ptag(c.tag)
        p = (path + '/' if path else '') + t
        info = sch['nodes'].get(p)
        if info is not None and info['ty'] in ('container', 'list'):
            v = ''
        elif info is not None and info['dt'] == 'idref':
            v = _idref(c, c.text)
        elif info is not None and info['dt'] == 'iid':
            v = _iid(c, c.text)
        else:
            v = c.text or ''
        d = N(t, v, project(c, sch, p, attrs))
        if attrs:
            d['op'] = c.get(OPTAG, '')
            d['ins'] = c.get(INSTAG, '')
            d['anc'] = []
            if c.get(VALTAG) is not None:
                x = c.get(VALTAG)
                if info is not None and info['dt'] == 'idref':
                    x = _idref(c, x)
                elif info is not None and info['dt'] == 'iid':
                    x = _iid(c, x)
                d['anc'] = [['.', x]]
            if c.get(KEYTAG) is not None:
                anc = []
                for m in _PRED.finditer(c.get(KEYTAG)):
                    nm = m.group(1)
                    val = m.group(2) if m.group(2) is not None else m.group(3)
                    if ':' in nm:
                        pr, nn = nm.split(':')
                        u = c.nsmap.get(pr)
                    else:
                        u, nn = c.nsmap.get(None), nm
                    kt = URL2P.get(u, '?') + ':' + nn
                    kinfo = sch['nodes'].get(p + '/' + kt)
                    if kinfo is not None and kinfo['dt'] == 'idref':
                        val = _idref(c, val)
                    elif kinfo is not None and kinfo['dt'] == 'iid':
                        val = _iid(c, val)
                    anc.append([kt, val])
                d['anc'] = anc
            known = {OPTAG, INSTAG, VALTAG, KEYTAG}
            d['xat'] = ','.join(sorted(a for a in c.attrib if a not in known))
        else:
            d['xat'] = ','.join(sorted(c.attrib))
        out.append(d)
    return out


# ---------------------------------------------------------------- random configs
IDS = ['@vpids:one', '@vpids:two', '@vpalpha:one', '@vpbeta:beta-one', '@vpids:sub']
IIDS = ["/@vpalpha:top/@vpalpha:np/@vpalpha:x",
        "/@vpalpha:top/@vpalpha:sysl[@vpalpha:k='k1']/@vpalpha:v",
        "/@vpbeta:broot/@vpbeta:s",
        "/@vpalpha:top/@vpalpha:np/@vpbeta:c/@vpbeta:y/@vpbeta:z",
        "/@vpalpha:top/@vpbeta:l[@vpbeta:k='k1'][@vpalpha:j='k2']/@vpbeta:y/@vpalpha:np/@vpalpha:x",
        "/@vpalpha:top/@vpbeta:s",
        "/@vpalpha:top/@vpalpha:usrl[@vpalpha:k1='a/b.c'][@vpalpha:k2='x]=y']/@vpalpha:v",
        "/@vpalpha:top/@vpalpha:sysl[@vpalpha:k=\"it's\"]",
        "/@vpalpha:top/@vpalpha:sysl[@vpalpha:k='a\"b']/@vpbeta:x",
        "/@vpalpha:top/@vpalpha:sl[.='vpalpha:a']",
        "/@vpbeta:broot/@vpbeta:log[1]/@vpbeta:s",
        "/@vpbeta:broot/@vpbeta:log[12]/@vpalpha:v1.2-x",
        "/@vpbeta:broot/@vpbeta:log.d[@vpbeta:k.1='k1']"]

SPECIAL = ["it's", 'a"b', 'x]y', '', 'p q', 'a&<b', '\u00fc', 'a,b', "[k='a']"]


def val(rng, info):
    dt = info['dt']
    if info['def'] and rng.random() < .3:
        return rng.choice(info['def'])
    if dt == 'idref':
        return rng.choice(IDS)
    if dt == 'iid':
        return rng.choice(IIDS)
    if dt == 'boolean':
        return rng.choice(['true', 'false'])
    if dt == 'uint8':
        return rng.choice(['1', '5', '7', '9'])
    if dt == 'enumeration':
        return rng.choice(['red', 'green', 'blue'])
    if dt == 'empty':
        return ''
    if rng.random() < .08:
        return rng.choice(SPECIAL)
    return rng.choice(['a', 'b', 'c', 'd'])


def gen(rng, sch, dens=.35, maxlist=3, rw=True, defaults=True, skip=()):
    def kids(tags, base):
        out = []
        chosen = {}
        tags = list(tags)
        order = tags[:]
        rng.shuffle(order)
        present = {}
        for t in order:
            p = (base + '/' if base else '') + t
            info = sch['nodes'][p]
            if info['iskey'] or p in skip or any(p.startswith(s + '/') for s in skip):
                continue
            if rw and not info['rw']:
                continue
            if info['status'] != 'current' and not skip == 'all-status':
                continue
            if rng.random() > dens:
                continue
            ok = True
            for c, k in info['choices']:
                if chosen.get(c, k) != k:
                    ok = False
            if not ok:
                continue
            ns = one(p, info)
            if not ns:
                continue
            for c, k in info['choices']:
                chosen[c] = k
            present[t] = ns
        for t in tags:
            out += present.get(t, [])
        return out

    def keyvals(p, info):
        return [N(k, val(rng, sch['nodes'][p + '/' + k])) for k in info['keys']]

    def one(p, info):
        t = info['tag']
        ty = info['ty']
        if ty == 'leaf':
            v = val(rng, info)
            if not defaults and v in info['def']:
                return []
            return [N(t, v)]
        if ty == 'leaf-list':
            vs = []
            for _ in range(rng.randint(1, maxlist)):
                v = val(rng, info)
                if v not in vs:
                    vs.append(v)
            return [N(t, v) for v in vs]
        if ty == 'container':
            ks = kids(info['kids'], p)
            if not ks and not info['pres']:
                return []
            return [N(t, '', ks)]
        if ty == 'list':
            out, seen = [], set()
            for _ in range(rng.randint(1, maxlist)):
                kv = keyvals(p, info)
                key = tuple(x['v'] for x in kv)
                if key in seen and info['keys']:
                    continue
                seen.add(key)
                out.append(N(t, '', kv + kids(info['kids'], p)))
            return out
        return []
    return kids(sch['roots'], '')
