"""Driver for the running-config part of ncdiff (RunningConfigDiff).

A config is a list of [line, children]; the vocabulary below is this project's own record of
which commands ncdiff documents as orderless, overwritable and so on."""
import json, os, random, re, copy
from . import core

# ---------------------------------------------------------------- vocabulary
# depth, pattern (words, * = any word), example tails
ORDERLESS = [
    (0, 'aaa authentication', ['login a local', 'login b local']),
    (0, 'aaa accounting system default', ['start-stop', 'none']),
    (0, 'aaa attribute list', ['a', 'b']), (0, 'aaa group server', ['radius r', 'tacacs+ t']),
    (0, 'radius server', ['r1', 'r2']), (0, 'logging host', ['1.1.1.1', '1.1.1.10']),
    (0, 'flow exporter', ['e1', 'e2']), (0, 'flow record', ['r1', 'r2']), (0, 'flow monitor', ['m1', 'm2']),
    (0, 'flow file-export', ['f1', 'f2']), (1, 'exporter', ['e1', 'e2']), (0, 'dot1x', ['a b', 'c d']),
    (0, 'service-template', ['s1', 's2']), (0, 'username', ['joe', 'ann']),
    (0, 'parameter-map type', ['webauth a', 'webauth b']), (1, 'match ipv4', ['tos', 'protocol']),
    (1, 'match ipv6', ['tos', 'protocol']), (1, 'match protocol', ['http', 'ftp']),
    (1, 'collect connection', ['initiator', 'new']), (0, 'l2nat instance', ['i1', 'i2']),
    (1, 'inside from host', ['1.1.1.1', '2.2.2.2']), (1, 'outside from host', ['1.1.1.1', '2.2.2.2']),
    (1, 'inside from network', ['1.1.1.0', '2.2.2.0']), (1, 'outside from network', ['1.1.1.0', '2.2.2.0']),
    (1, 'inside from range', ['1 2', '3 4']), (1, 'outside from range', ['1 2', '3 4']),
    (1, 'neighbor', ['1.1.1.1 remote-as 1', '2.2.2.2 remote-as 2']),
    (2, 'neighbor', ['1.1.1.1 activate', '2.2.2.2 activate']),
    (2, 'no neighbor', ['3.3.3.3 activate', '4.4.4.4 activate']), (0, 'crypto keyring', ['k1', 'k2']),
    (0, 'crypto tls-tunnel', ['t1', 't2']), (1, 'ip helper-address', ['9.9.9.9', '8.8.8.8']),
    (1, 'route-target import', ['1:1', '2:2']), (1, 'route-target export', ['1:1', '2:2']),
    (1, 'default-router', ['1.1.1.1', '2.2.2.2']), (1, 'dns-server', ['1.1.1.1', '2.2.2.2']),
    (1, 'domain-name', ['a.b', 'c.d']), (1, 'option', ['42 ip 1.1.1.1', '43 hex 01']), (1, 'lease', ['1', '2']),
    (0, 'vlan group', ['g1', 'g2']), (1, 'ip ospf message-digest-key', ['1 md5 a', '2 md5 b']),
    (1, 'ospfv3 neighbor', ['a', 'b']), (1, 'ospfv3 * ipv4 neighbor', ['x', 'y']),
    (1, 'ospfv3 * ipv6 neighbor', ['x', 'y']), (1, 'ospfv3 * neighbor', ['x', 'y']),
    (4, 'mobile-network pool', ['1.1.1.1', '2.2.2.2']), (4, 'mobile-network v6pool', ['a', 'b']),
    (0, 'router', ['bgp 1', 'ospf 1']), (1, 'area', ['0 nssa', '1 nssa']), (1, 'redistribute', ['static', 'connected']),
    (2, 'redistribute', ['static', 'connected']), (3, 'redistribute', ['static', 'connected']),
    (1, 'distribute-list prefix-list', ['a in', 'b in']), (0, 'ip dns', ['server', 'spoofing']),
    (0, 'ip route', ['1.0.0.0 255.0.0.0 Null0', '2.0.0.0 255.0.0.0 Null0']),
    (0, 'ipv6 route', ['a::/16 Null0', 'b::/16 Null0']), (0, 'ip multicast-routing', ['vrf a', 'vrf b']),
    (0, 'ipv6 multicast-routing', ['vrf a', 'vrf b']), (0, 'ip pim vrf', ['a', 'b']), (0, 'ipv6 pim vrf', ['a', 'b']),
    (0, 'ip pim rp-address', ['1.1.1.1', '2.2.2.2']), (0, 'ipv6 pim rp-address', ['a::1', 'b::1']),
    (0, 'ip access-list', ['standard 1', 'extended e']), (0, 'ipv6 access-list', ['a', 'b']),
    (0, 'ip dhcp pool', ['p1', 'p2']), (0, 'ipv6 dhcp pool', ['p1', 'p2']),
    (2, 'bandwidth remaining ratio', ['1', '2']), (0, 'ntp server', ['1.1.1.1', '2.2.2.2']),
    (0, 'mpls mldp static', ['a', 'b']), (0, 'mpls ldp advertise-labels for', ['1', '2']),
    (0, 'device-tracking binding', ['vlan 1', 'vlan 2']), (0, 'device classifier', ['a', 'b']),
    (1, '* tlv-type', ['1', '2']), (1, 'mac Regex', ['a', 'b']), (0, 'netconf-yang', ['', 'feature x']),
    (0, 'redundancy', ['', 'inter-device']),
    (1, 'summary-address', ['1.0.0.0', '2.0.0.0']), (1, 'member vni', ['1', '2']),
]
PLAIN = ['hostname r1', 'ip cef', 'boot marker', 'spanning-tree mode mst', 'vtp mode off', 'mtu 9000', 'speed 10',
         'vlan 1', 'vlan 10', 'bgp log', 'maximum-paths 2', 'permit ip any any', 'deny ip any any', 'shutdown',
         'no shutdown', 'no ip http server', 'record rec']
HEADS = {0: ['interface Gi1', 'interface Gi2', 'class-map c', 'policy-map p', 'router bgp 1', 'flow monitor m1',
             'ip access-list extended e', 'redundancy', 'aaa group server radius r'],
         1: ['address-family ipv4', 'address-family ipv6', 'class c1', 'neighbor 5.5.5.5 peer'],
         2: ['topology base', 'police cir'], 3: ['exceed a', 'violate b']}


def words(line):
    return line.split()


EX = {}
for d, p, tails in ORDERLESS:
    for t in tails:
        EX.setdefault(d, []).append((p.replace('*', '7') + ' ' + t).strip())

# settings: groups of lines of which a section shows at most one (always one unless optional)
SETTINGS = [
    (0, True, ['username joe privilege 15 password 0 aa', 'username joe privilege 15 password 7 bb']),
    (0, True, ['username ann privilege 15 password 0 aa', 'username ann privilege 15 password 0 cc']),
    (0, True, ['username joe2 privilege 1 password 0 aa', 'username joe2 privilege 1 password 7 bb']),
    (0, True, ['exception crashinfo', 'exception crashinfo file bootflash:x', 'exception crashinfo file bootflash:y']),
    (0, True, ['service timestamps debug datetime msec', 'service timestamps debug datetime msec localtime show-timezone']),
    (0, True, ['license boot level network-advantage addon dna-advantage', 'license boot level network-essentials']),
    (0, True, ['no ip http server']), (0, True, ['no service pad']),
    (0, False, ['platform punt-keepalive disable-kernel-core', 'no platform punt-keepalive disable-kernel-core']),
    (0, True, ['banner motd a', 'banner motd a b']),
    (1, True, ['description a', 'description b c', 'description a d']),
    (1, False, ['no ip address', 'ip address dhcp', 'ip address 1.1.1.1 255.0.0.0', 'ip address 1.1.1.10 255.0.0.0']),
    (1, True, ['transport input all', 'transport input ssh']),
    (1, True, ['transport output all', 'transport output none']),
    (1, True, ['ipv6 address 2001::1/64', 'ipv6 address 2002::1/64']),
    (1, False, ['shutdown', 'no shutdown']),
    (1, True, ['password 0 a', 'password 7 b']),
    (2, True, ['description z', 'description y']), (2, False, ['synchronization', 'no synchronization']),
    (2, True, ['no auto-summary']),
]
CPLAIN = {0: ['vlan 1', 'vlan 10', 'snmp-server host 1.1.1.1', 'snmp-server host 1.1.1.10', 'ip cef', 'ip cefx',
              'ntp server 2.2.2.2', 'ip route 1.0.0.0 255.0.0.0 Null0', 'logging host 1.1.1.1'],
          1: ['mtu 1', 'mtu 10', 'bgp log', 'neighbor 1.1.1.1 remote-as 1', 'neighbor 1.1.1.10 remote-as 1',
              'exporter e1', 'exporter e10'],
          2: ['maximum-paths 2', 'neighbor 1.1.1.1 activate', 'neighbor 1.1.1.10 activate', 'no neighbor 4.4.4.4 activate']}
CHEADS = {0: ['interface Vlan1', 'interface Vlan10', 'interface Gi1', 'router bgp 1', 'line vty 0 4', 'flow monitor m'],
          1: ['address-family ipv4', 'address-family ipv6', 'address-family l2vpn evpn'], 2: []}
TWINS = ('snmp-server manager', 'snmp-server manager session-timeout 100')   # the longer one needs the shorter
SMALL = dict(o1='ntp server 1.1.1.1', o2='logging host 2.2.2.2', p1='ip cef', p2='hostname r1', s1='router bgp 1',
             q1='neighbor 1.1.1.1 remote-as 1', q2='neighbor 2.2.2.2 remote-as 2', r1='bgp log')


def setup(ctx):
    f = ctx.path('rc.json')
    voc = dict(orderless=[dict(d=d, p=words(p), more=0 if '' in t else 1) for d, p, t in ORDERLESS],
               settings=[dict(d=d, optional=o, s=[words(x) for x in s]) for d, o, s in SETTINGS]
               + [dict(d=2, optional=True, s=[words('no neighbor 4.4.4.4 activate')])],
               small={k: words(v) for k, v in SMALL.items()})
    json.dump(voc, open(f, 'w'))
    os.environ['VP_RC'] = f
    try:
        from . import device        # checks that the code is /repo's
        import ncdiff.runningconfig
    except AssertionError as e:
        raise core.Machinery('not the code of /repo: %s' % e)
    except Exception as e:
        raise core.Violation('the package cannot be imported', repr(e))


def universes(ctx):
    out = ctx.path('universe.json')
    ctx.design('MCRunSync', env={'VP_OUT': out})

    def back(t):
        return [[' '.join(n['l']), back(n['c'])] for n in t]
    return [dict(name=u['name'], cfgs=[back(c) for c in u['cfgs']]) for u in json.load(open(out))]


# ---------------------------------------------------------------- generation
def gen(rng, d=0, size=None):
    size = size or rng.choice([3, 5, 8])
    pool = [(x, 0) for x in rng.sample(EX.get(d, []), min(len(EX.get(d, [])), rng.choice([2, 4, 6])))]
    pool += [(x, 0) for x in rng.sample(PLAIN, 4)]
    other = [x for k, v in EX.items() if k != d for x in v]
    pool += [(x, 0) for x in rng.sample(other, 1)]
    if rng.random() < .4:       # an orderless command of another level
        dd, p, tails = rng.choice(ORDERLESS)
        pool += [((p.replace('*', '7') + ' ' + t).strip(), 0) for t in tails]
    pool += [(x, 1) for x in rng.sample(HEADS.get(d, []), min(3, len(HEADS.get(d, []))))]
    out, seen = [], set()
    for l, s in rng.sample(pool, rng.randint(0, min(size, len(pool)))):
        if l in seen:
            continue
        seen.add(l)
        out.append([l, gen(rng, d + 1, size) if s and rng.random() < .85 else []])
    return out


def mutate(rng, t, d=0):
    t = [[l, mutate(rng, c, d + 1) if c and rng.random() < .6 else c] for l, c in t]
    r = rng.random()
    if r < .25 and t:
        t.pop(rng.randrange(len(t)))
    elif r < .45:
        rng.shuffle(t)
    elif r < .65 and len(t) > 1:
        x = t.pop(rng.randrange(len(t)))
        t.insert(rng.randrange(len(t) + 1), x)
    elif r < .85:
        for x in gen(rng, d):
            if x[0] not in [l for l, c in t]:
                t.insert(rng.randrange(len(t) + 1), x)
                break
    elif t:
        n = rng.choice(t)
        n[1] = [] if n[1] and rng.random() < .5 else n[1]
    return t


def is_orderless(l, d):
    w = words(l)
    for dd, p, tails in ORDERLESS:
        p = words(p)
        if dd == d and len(w) >= len(p) + (0 if '' in tails else 1) and all(x in ('*', y) for x, y in zip(p, w)):
            return True
    return False


def permute_runs(rng, t, d=0):
    out, run = [], []
    for l, c in t:
        c = permute_runs(rng, c, d + 1)
        if is_orderless(l, d):
            run.append([l, c])
        else:
            rng.shuffle(run)
            out += run + [[l, c]]
            run = []
    rng.shuffle(run)
    return out + run


def pair(rng):
    a = gen(rng)
    r = rng.random()
    if r < .2:
        b = permute_runs(rng, a)
    elif r < .4:
        b = mutate(rng, permute_runs(rng, a))
    elif r < .7:
        b = mutate(rng, copy.deepcopy(a))
    elif r < .85:
        b = mutate(rng, mutate(rng, copy.deepcopy(a)))
    else:
        b = gen(rng)
    return (a, b) if rng.random() < .5 else (b, a)


def repeat(rng, t):
    """the same ordered lines more than once, as in banners"""
    t = [[l, repeat(rng, c)] for l, c in t]
    for x in ('exit', '*****'):
        for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
            t.insert(rng.randrange(len(t) + 1), [x, []])
    return t


def repeats(t):
    return len({l for l, c in t}) < len(t) or any(repeats(c) for l, c in t)


def render(t, ind=0, step=1):
    return ''.join(' ' * ind + l + '\n' + render(c, ind + step, step) for l, c in t)


def tla(t):
    return [dict(l=words(l), c=tla(c)) for l, c in t]


def entries(d):
    return [dict(l=words(k), m=i, c=entries(v)) for k, v, i in d or []]


def printed(text):
    """the printed diff: mark, indentation, line"""
    root = []
    stack = [(-1, root)]
    for line in text.splitlines():
        m, rest = line[0], line[1:]
        ind = len(rest) - len(rest.lstrip())
        while stack[-1][0] >= ind:
            stack.pop()
        n = dict(l=words(rest), m='' if m == ' ' else m, c=[])
        stack[-1][1].append(n)
        stack.append((ind, n['c']))
    return root


def commands(text):
    """a script of commands, sections by indentation; '!' leaves all sections"""
    root = []
    stack = [(-1, root)]
    for line in text.splitlines():
        if line.strip() in ('', '!'):
            stack = stack[:1]
            continue
        ind = len(line) - len(line.lstrip())
        while stack[-1][0] >= ind:
            stack.pop()
        n = dict(l=words(line), c=[])
        stack[-1][1].append(n)
        stack.append((ind, n['c']))
    return root


# ---------------------------------------------------------------- C23, C24
def run_diff(c):
    from ncdiff.runningconfig import RunningConfigDiff
    ev = dict(kind='dup' if repeats(c['a']) or repeats(c['b']) else 'diff', a=tla(c['a']), b=tla(c['b']), exc='')
    try:
        r = RunningConfigDiff(render(c['a']), render(c['b']))
        order = list(range(4))
        random.Random(c['seed']).shuffle(order)
        get = [lambda: ev.__setitem__('diff', entries(r.diff)), lambda: ev.__setitem__('rev', entries(r.diff_reverse)),
               lambda: ev.__setitem__('text', printed(str(r))), lambda: (r.cli, r.cli_reverse)]
        for i in order:
            get[i]()
        ev['bool'] = bool(r)
        again = RunningConfigDiff(render(c['a']), render(c['b']))
        ev['stable'] = entries(r.diff) == ev['diff'] and entries(r.diff_reverse) == ev['rev'] and str(again) == str(r) and bool(again == r)
    except Exception as e:
        ev['exc'] = type(e).__name__
        ev['msg'] = str(e)[:300]
    return ev


def swaps():
    """every orderless command, and lines that only resemble one, at every level: two lines change places"""
    for d in range(6):
        for dd, p, tails in ORDERLESS:
            ls = [(p.replace('*', '7') + ' ' + t).strip() for t in tails]
            for v in (ls, ['x ' + l for l in ls], ['no ' + l for l in ls],
                      [' '.join(words(p)[:-1] + ['zz'] + words(t)) for t in tails]):
                if v[0] == v[1]:
                    continue
                a, b = [[l, []] for l in v], [[l, []] for l in reversed(v)]
                for n in range(d):
                    a, b = [['section %d' % n, a]], [['section %d' % n, b]]
                yield a, b


def check_diff(ctx):
    setup(ctx)
    unis = universes(ctx)
    rng = ctx.rng('diff')
    k = 8 if ctx.thorough else 1
    cases = []
    for u in unis:
        cs = u['cfgs']
        ps = [(a, b) for a in cs for b in cs]
        if len(ps) > 2500 * k:
            ps = rng.sample(ps, 2500 * k)
        ctx.count('pairs_%s' % u['name'], len(ps))
        cases += ps
    sw = list(swaps())
    ctx.count('pairs_exchanged_at_every_level', len(sw))
    cases += sw
    cases += [pair(rng) for _ in range(7000 * k)]
    ctx.count('pairs_random', 7000 * k)
    for _ in range(1500 * k):
        a, b = pair(rng)
        a = repeat(rng, a)
        r = rng.random()
        b = repeat(rng, b) if r < .3 else permute_runs(rng, a) if r < .6 else mutate(rng, copy.deepcopy(a))
        cases.append((a, b))
    ctx.count('pairs_with_repeated_lines', 1500 * k)
    ctx.validate('RunTrace', ctx.drive(run_diff, [dict(a=a, b=b, seed=rng.randrange(1 << 30)) for a, b in cases]))


# ---------------------------------------------------------------- C25
def cgen(rng, d=0, dens=None):
    dens = dens or rng.choice([.15, .3, .5, .8])
    out = [[p, []] for p in CPLAIN[d] if rng.random() < dens]
    for dd, opt, s in SETTINGS:
        if dd == d and (not opt or rng.random() < dens):
            out.append([rng.choice(s), []])
    if d == 0 and rng.random() < dens:
        out += [[x, []] for x in TWINS[:rng.randint(1, 2)]]
    for h in CHEADS[d]:
        if rng.random() < dens:
            out.append([h, cgen(rng, d + 1)])
    if rng.random() < .4:
        rng.shuffle(out)
    return out


def cmutate(rng, t, d=0):
    """a config near t: settings change, lines come and go"""
    new = cgen(rng, d)
    have = {l: c for l, c in t}
    out = []
    keep = rng.choice([.5, .8, .95])
    chosen = {}
    for i, (dd, opt, s) in enumerate(SETTINGS):
        if dd != d:
            continue
        old = [l for l in have if l in s]
        fresh = [l for l, c in new if l in s]
        chosen[i] = (old if rng.random() < keep else fresh) or (old if not opt else [])
    sets = {l for v in chosen.values() for l in v}
    allset = {x for dd, o, s in SETTINGS if dd == d for x in s}
    for l, c in t:
        if l in allset:
            if l in sets:
                out.append([l, []])
                sets.discard(l)
        elif l in TWINS:
            out.append([l, []])
        elif rng.random() < keep:
            out.append([l, cmutate(rng, c, d + 1) if c and rng.random() < .6 else copy.deepcopy(c)])
    for l in sets:
        out.insert(rng.randrange(len(out) + 1), [l, []])
    for l, c in new:
        if l not in allset and l not in TWINS and l not in [x for x, y in out] and rng.random() > keep:
            out.insert(rng.randrange(len(out) + 1), [l, c])
    if rng.random() < .15:
        rng.shuffle(out)
    return out


def run_cli(c):
    from ncdiff.runningconfig import RunningConfigDiff
    ev = dict(kind='cli', a=tla(c['a']), b=tla(c['b']), exc='')
    try:
        r = RunningConfigDiff(render(c['a']), render(c['b']))
        x, y = r.cli, r.cli_reverse
        ev['cli'], ev['back'] = commands(x), commands(y)
        ev['stable'] = r.cli == x and r.cli_reverse == y
    except Exception as e:
        ev['exc'] = type(e).__name__
        ev['msg'] = str(e)[:300]
    return ev


def check_cli(ctx):
    setup(ctx)
    unis = universes(ctx)
    rng = ctx.rng('cli')
    k = 8 if ctx.thorough else 1
    cases = [(a, b) for u in unis if u['name'] in ('set', 'nest') for a in u['cfgs'] for b in u['cfgs']]
    ctx.count('pairs_universe', len(cases))
    for _ in range(7000 * k):
        a = cgen(rng)
        cases.append((a, cmutate(rng, a) if rng.random() < .7 else cgen(rng)))
    ctx.count('pairs_random', 7000 * k)
    ctx.validate('RunTrace', ctx.drive(run_cli, [dict(a=a, b=b) for a, b in cases]))


# ---------------------------------------------------------------- C26
def spell(rng, t, plain=False):
    """a text of t: indentation widths, comments, blank lines, headers, trailing spaces"""
    out = []

    def noise(ind):
        while rng.random() < .25 and not plain:
            out.append(rng.choice(['!', '', ' ' * ind + '!', '! a remark', '   ', '% unrecognized', ' ' * ind + '% note', ' ' * rng.randint(0, ind + 3) + rng.choice('!%') + ' x']))

    def go(ks, ind):
        for l, c in ks:
            noise(ind)
            out.append(' ' * ind + l + ('' if plain or rng.random() < .8 else '  '))
            if l == 'aaa server radius proxy':
                # clients after the first one are indented as its children, and their own children are not
                for n, (k, sub) in enumerate(c):
                    out.append(' ' * (1 if n == 0 else 2) + k)
                    out.extend('  ' + x for x, _ in sub)
                    out.append('  !')
                continue
            if l.startswith('ip dhcp class'):
                out.append(' ' * (ind + 3) + c[0][0])
                out.extend(' ' * (ind + 1) + x for x, _ in c[0][1])
                continue
            if c and c[-1][0] == 'exit-address-family':
                go(c[:-1], ind + 1)
                out.append(' ' * ind + 'exit-address-family')
            elif c:
                go(c, ind + (1 if plain else rng.choice([1, 1, 2, 3])))
    if not plain and rng.random() < .5:
        out += ['Building configuration...', '', 'Current configuration : 1234 bytes', '!']
    go(t, 0)
    noise(0)
    return '\n'.join(out) + rng.choice(['', '\n', '\n\n'])


def exits(rng, t, d=0):
    """sections closed with an explicit exit line, as lisp and bgp print them; odd sections"""
    out = []
    for l, c in t:
        c = exits(rng, c, d + 1)
        if c and rng.random() < .3:
            c = c + [['exit', []]]
        elif d == 1 and l.startswith('address-family') and rng.random() < .6:
            c = c + [['exit-address-family', []]]
        out.append([l, c])
    if d == 0 and rng.random() < .2:
        kids = ['accounting port 34', 'timer disconnect acct-stop 22', 'authentication port 5']
        out.insert(rng.randrange(len(out) + 1), ['aaa server radius proxy', [
            ['client 1%d.0.0.0 255.0.0.0' % n, [[x, []] for x in rng.sample(kids, rng.randint(0, 3))]]
            for n in range(rng.randint(1, 5))]])
    if d == 0 and rng.random() < .2:
        out.insert(rng.randrange(len(out) + 1), ['ip dhcp class C', [['relay agent information', [
            ['relay-information hex 0%d' % n, []] for n in range(rng.randint(1, 3))]]]])
    return out


def run_read(c):
    from ncdiff.runningconfig import RunningConfigDiff
    ev = dict(kind='read', a=tla(c['a']), exc='')
    rng = random.Random(c['seed'])
    try:
        x = spell(rng, c['a'], plain=True)
        y = spell(rng, c['b'])
        y = re.sub(r'^( +)exit$', lambda m: m.group(1) + rng.choice(['exit', 'exit-locator-set', 'exit-router-lisp']), y, flags=re.M)
        ev['x'], ev['y'] = x, y
        ev['tree'] = entries(RunningConfigDiff('', x).diff)
        ev['tree2'] = entries(RunningConfigDiff(y, '').diff)
        ev['diff'] = entries(RunningConfigDiff(x, y).diff)
    except Exception as e:
        ev['exc'] = type(e).__name__
        ev['msg'] = str(e)[:300]
    return ev


def check_read(ctx):
    setup(ctx)
    unis = universes(ctx)
    rng = ctx.rng('read')
    k = 8 if ctx.thorough else 1
    cases = []
    for t in [c for u in unis for c in u['cfgs']] + [gen(rng) for _ in range(6000 * k)]:
        a = exits(rng, t)
        cases.append(dict(a=a, b=permute_runs(rng, a), seed=rng.randrange(1 << 30)))
    ctx.validate('RunTrace', ctx.drive(run_read, cases))
