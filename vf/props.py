"""Which contracts decide which property."""
import importlib

MODULES = ['core', 'common', 'vec', 'plist', 'str', 'span', 'cmp', 'mallocator', 'math', 'conv', 'datetime', 'sockets', 'fileio', 'path', 'diag', 'argopt']
STR = ('strbase', 'stredit', 'strrepl', 'strstrip', 'strfind', 'strsplit', 'strslide')
# id -> (tags of the contracts that state it, categories that matter (None: all))
PROPS = {
    'C01': (('vec',), None),
    'C02': (('plist',), None),
    'C03': (('vec', 'plist', 'array', 'slide'), ('mem', 'own', 'inv', 'pre')),
    'C04': (('vec', 'plist', 'array', 'slide', 'alloc', 'prim'), ('exit', 'mem')),
    'C05': (('slide', 'strslide'), None),
    'C06': (('alloc', 'prim'), None),
    'C07': (('index',), None),
    'C08': (STR, ('mem', 'own', 'inv', 'pre')),
    'C09': (('strbase', 'stredit'), None),
    'C10': (('strfind',), None),
    'C11': (('strrepl',), None),
    'C12': (('strstrip',), None),
    'C13': (('strsplit',), None),
    'C14': (STR, ('exit', 'mem', 'own')),
    'C15': (('malloctr',), None),
    'C16': (('cmp',), None),
    'C17': (('number',), None),
    'C18': (('conv',), None),
    'C19': (('calendar', 'seconds'), None),
    'C20': (('stamp',), None),
    'C21': (('pathtext',), None),
    'C22': (('pathfs',), None),
    'C23': (('fileio',), None),
    'C24': (('span',), None),
    'C25': (('argopt',), None),
    'C26': (('socket',), None),
    'C27': (('diag',), None),
    'C28': (('dirtree',), None),
}

# calls to the reporting functions are replaced by their contract; C27 verifies them, and so do the properties about terminating on misuse
# decided (in part) by bounded runs
BOUNDED = ('C25', 'C28')
REPORTING = ('vt_debug_assert', 'vt_debug_printf')
ENDING = ('C04', 'C14')


def load():
    for m in MODULES:
        importlib.import_module('contracts.' + m)


def calls_of(prog, name, _cache={}):
    """functions named in the body of a function"""
    if name in _cache:
        return _cache[name]
    out = set()
    node = prog.funcs.get(name)
    st = [node] if node else []
    while st:
        n = st.pop()
        if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
            out.add(n['referencedDecl']['name'])
        st.extend(n.get('inner', []))
    _cache[name] = out
    return out


def functions(prog, reg, pid):
    """(functions stating the property, functions they depend on)"""
    tags, _cats = PROPS[pid]
    own = [n for n, c in reg.items() if c.prop in tags and not c.trusted and not c.inline]
    seen = set(own)
    work = list(own)
    while work:
        for k in calls_of(prog, work.pop()):
            if k in seen or (k in REPORTING and 'diag' not in tags):
                continue
            if k in reg and not reg[k].trusted and not reg[k].inline:
                seen.add(k)
                work.append(k)
            elif k in prog.funcs:
                seen.add(k)
                work.append(k)
    if pid in ENDING:
        seen.add('vt_debug_assert')
    deps = [n for n in reg if n in seen and n not in set(own) and not reg[n].trusted and not reg[n].inline]
    return own, deps
