"""Random YANG modules beside the fixed ones: the properties hold for every schema.

World i is module vpw<i> (prefix w<i>); odd ones also augment the world before.  Names come from a
small pool, so that nodes of one name occur at several places of a schema and in several modules."""
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']
TYPES = ['string'] * 6 + ['uint8', 'boolean', 'enumeration', 'empty', 'identityref', 'instance-identifier']
SPELL = {'enumeration': 'enumeration { enum red; enum green; enum blue; }', 'identityref': 'identityref { base vi:base-id; }'}
DEF = {'string': ['dd', 'a', ''], 'uint8': ['5', '7'], 'boolean': ['true', 'false'], 'enumeration': ['red', 'blue'],
       'identityref': ['vi:one', 'vi:sub', 'va:one', 'wid@', 'w@:wid@']}


LEAFREF = 'leafref { path "/va:top/va:%s"; }'
BEHIND = {'identityref': ['tid', 'va:t-id2', LEAFREF % 'idr', LEAFREF % 'tid'], 'instance-identifier': ['va:t-iid', LEAFREF % 'iid'],
          'string': ['va:identityref-like', LEAFREF % 's']}


def ty(t, rng):
    s = SPELL.get(t, t)
    if t in BEHIND and rng.random() < (.1 if t == 'string' else .4):
        s = rng.choice(BEHIND[t])
    return 'type %s%s' % (s, '' if s.endswith('}') else ';')


class World:
    def __init__(self, rng, i, before=None):
        self.rng, self.i, self.p = rng, i, 'w%d' % i
        self.spots = []          # where others may add nodes: (path, config)
        self.size = 0
        body = self.kids('', 0, True, 2, 3, set())
        if before is not None:
            for path, cfg in rng.sample(before.spots, min(len(before.spots), 2)):
                n = len(self.spots)
                body.append('augment "%s" { %s }' % (path, ' '.join(self.kids('', 2, cfg, 1, 3, set()))))
                del self.spots[n:]
        rng.shuffle(body)
        self.text = ('module vpw%d { yang-version 1.1; namespace "urn:vp:w%d"; prefix w%d; import vpids { prefix vi; } import vpalpha { prefix va; } %s'
                     'revision 2024-01-01; identity wid%d { base vi:base-id; } typedef tid { type identityref { base vi:base-id; } } %s }' % (
                         i, i, i, 'import vpw%d { prefix w%d; } ' % (before.i, before.i) if before is not None else '',
                         i, '\n'.join(body)))

    def name(self, used):
        n = self.rng.choice([x for x in NAMES if x not in used] or ['x%d' % len(used)])
        used.add(n)
        return n

    def kids(self, path, depth, cfg, lo, hi, used):
        return [self.node(path, depth, cfg, used) for _ in range(self.rng.randint(lo, hi))]

    def node(self, path, depth, cfg, used, data=True):
        """one more node below path; used: names taken by its siblings, through choices"""
        rng = self.rng
        self.size += 1
        if self.size > 45:
            depth = 9
        r = rng.random()
        if depth == 0:
            r = .5 + r / 2
        c = cfg
        own = ''
        if depth and cfg and rng.random() < .06:
            own, c = 'config false; ', False
        if r < .38 or depth > 3:
            t = rng.choice(TYPES)
            d = ''
            if t in DEF and rng.random() < .35:
                d = 'default "%s"; ' % rng.choice(DEF[t]).replace('@', str(self.i))
            s = ''
            if t == 'string' and not d and rng.random() < .1 and depth:
                s = 'status %s; ' % rng.choice(['obsolete', 'deprecated'])
            return 'leaf %s { %s %s%s%s}' % (self.name(used), ty(t, rng), own, d, s)
        if r < .52:
            t = rng.choice(['string', 'string', 'string', 'uint8', 'identityref', 'instance-identifier'])
            d = ''
            if t == 'string' and rng.random() < .25:
                d = ' '.join('default "%s";' % x for x in rng.sample(['x', 'y', 'z'], rng.randint(1, 3)))
            if t == 'identityref' and rng.random() < .4:
                d = ' '.join('default "%s";' % x for x in rng.sample(['vi:one', 'va:one', 'wid%d' % self.i], rng.randint(1, 3)))
            return 'leaf-list %s { %s %s%s%s }' % (self.name(used), ty(t, rng), own, 'ordered-by user; ' if c and rng.random() < .45 else '', d)
        if r < .72:
            n = self.name(used)
            p = '%s/%s:%s' % (path, self.p, n)
            if path or depth == 0:
                self.spots.append((p, c))
            return 'container %s { %s%s%s }' % (n, own, 'presence "p"; ' if rng.random() < .35 else '',
                                              ' '.join(self.kids(p if path or depth == 0 else '', depth + 1, c, 1, 4, set())))
        if r < .9 or not depth:
            n = self.name(used)
            p = '%s/%s:%s' % (path, self.p, n)
            sub, keys, out = set(), [], []
            if c or rng.random() < .6:
                for _ in range(rng.choice([1, 1, 2])):
                    k = self.name(sub)
                    keys.append(k)
                    out.append('leaf %s { %s }' % (k, ty(rng.choice(['string', 'string', 'string', 'uint8', 'identityref', 'enumeration']), rng)))
            if path or depth == 0:
                self.spots.append((p, c))
            out += self.kids(p if path or depth == 0 else '', depth + 1, c, 0 if keys else 1, 4, sub)
            rng.shuffle(out)
            keys = keys[::-1] if rng.random() < .4 else keys
            return 'list %s { %s%s%s%s }' % (n, own, 'key "%s"; ' % ' '.join(keys) if keys else '',
                                           'ordered-by user; ' if c and rng.random() < .45 else '', ' '.join(out))
        # a choice; names inside are siblings of the names outside
        out, cases = [], []
        cn = self.name(used)
        for _ in range(rng.randint(2, 3)):
            if rng.random() < .35:
                before = set(used)
                s = self.node('', depth + 1, c, used)
                if s.startswith('choice'):
                    s = 'case s%s { %s }' % (len(cases), s)
                    cases.append('s%d' % len(cases))
                elif 'config false' not in s[:60]:
                    cases.append(s.split()[1])
                out.append(s)
            else:
                k = 'k%d' % len(cases)
                cases.append(k)
                out.append('case %s { %s }' % (k, ' '.join(self.kids('', depth + 1, c, 1, 2, used))))
        return 'choice %s { %s%s%s }' % (cn, own, 'default %s; ' % rng.choice(cases) if cases and rng.random() < .25 else '', ' '.join(out))


def worlds(rng, n):
    ws = []
    for i in range(n):
        ws.append(World(rng, i, ws[-1] if i % 2 else None))
    return ws
