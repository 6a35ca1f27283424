"""Independent reading of the YANG modules (pyang only, no ncdiff): the schema constant of the
TLA+ specification.  Maps data paths ("va:top/va:np/va:x", choices and cases elided) to facts."""
import os, io
from pyang.context import Context
from pyang.repository import FileRepository

DATA = ('container', 'list', 'leaf', 'leaf-list', 'choice', 'case', 'anyxml', 'anydata')


def load(folder, modules, root_modules):
    repo = FileRepository(folder, use_env=False, no_path_recurse=True)
    ctx = Context(repo)
    mods = {}
    for m in modules:
        with open(os.path.join(folder, m + '.yang')) as f:
            mods[m] = ctx.add_module(m + '.yang', f.read(), in_format='yang')
    ctx.validate()
    sch = {}
    roots = []
    prefix_of = {m: mods[m].search_one('prefix').arg for m in mods
                 if mods[m].keyword == 'module'}

    def tag(st):
        return prefix_of[st.i_module.i_modulename] + ':' + st.arg

    def dtype(st):
        t = st.search_one('type')
        while t is not None and (t.i_typedef is not None or t.arg == 'leafref'):
            if t.i_typedef is not None:
                t = t.i_typedef.search_one('type')
            else:
                st = st.i_leafref_ptr[0]
                t = st.search_one('type')
        if t is None:
            return 'string'
        if t.arg == 'identityref':
            return 'idref'
        if t.arg == 'instance-identifier':
            return 'iid'
        return t.arg

    def dvalue(st, d):
        """identities are written with the prefixes of the (sub)module where the default is"""
        if st.keyword not in ('leaf', 'leaf-list') or dtype(st) != 'idref':
            return d.arg
        pre, _, name = d.arg.rpartition(':')
        m = getattr(d, 'i_orig_module', d.i_module)
        own = {m.i_prefix: m.i_modulename, '': m.i_modulename}
        return '@%s:%s' % (own.get(pre) or m.i_prefixes[pre][0], name)

    def walk(st, parent, choices, kidlist):
        if st.keyword in ('choice', 'case'):
            cid = '/'.join([parent, tag(st)]) + '#' + ','.join(c[1] for c in choices)
            for c in st.i_children:
                if st.keyword == 'choice':
                    # every child of a choice is a case (pyang inserts implicit ones)
                    walk_case(c, parent, choices, cid, kidlist)
                else:
                    walk(c, parent, choices, kidlist)
            return
        if st.keyword not in DATA:
            return
        path = (parent + '/' if parent else '') + tag(st)
        kidlist.append(tag(st))
        kids = []
        keys = []
        if st.keyword == 'list' and st.search_one('key') is not None:
            for k in st.search_one('key').arg.split():
                k = k.split(':')[-1]
                ch = [c for c in st.i_children if c.arg == k and c.keyword == 'leaf'
                      and c.i_module.i_modulename == st.i_module.i_modulename]
                keys.append(tag(ch[0]))
        ob = st.search_one('ordered-by')
        stt = st.search_one('status')
        sch[path] = {
            'ty': st.keyword, 'tag': tag(st), 'keys': keys,
            'user': bool(ob is not None and ob.arg == 'user'),
            'pres': st.keyword == 'container' and st.search_one('presence') is not None,
            'def': [dvalue(st, d) for d in st.search('default')],
            'dt': dtype(st) if st.keyword in ('leaf', 'leaf-list') else '',
            'iskey': bool(getattr(st, 'i_is_key', False)),
            'rw': bool(getattr(st, 'i_config', True)),
            'status': stt.arg if stt is not None else 'current',
            'choices': [[a, b] for a, b in choices],
            'kids': kids, 'pre': tag(st).split(':')[0], 'mod': st.i_module.i_modulename,
        }
        for c in getattr(st, 'i_children', []):
            walk(c, path, [], kids)

    def walk_case(case, parent, choices, choice_id, kidlist):
        cs = choices + [(choice_id, tag(case))]
        if case.keyword == 'case':
            for c in case.i_children:
                walk(c, parent, cs, kidlist)
        else:
            walk(case, parent, cs, kidlist)

    for m in root_modules:
        for c in mods[m].i_children:
            if c.keyword in DATA:
                walk(c, '', [], roots)
    return {'roots': roots, 'nodes': sch}
