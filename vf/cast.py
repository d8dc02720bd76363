"""Front end: the real /repo sources through clang's JSON AST (no hand-copied code).

`Program` holds, for a set of translation units, every function with a body, record
layouts, enum constants, typedefs and global variables, straight from clang.
"""
import json, os, re, subprocess, hashlib, pickle

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang'
FLAGS = ['-std=gnu11', '-I' + REPO + '/inc', '-D__NO_CTYPE', '-fsyntax-only', '-w',
         '-Xclang', '-ast-dump=json']


class Unsupported(Exception):
    """The verifier's front end or memory model does not cover this construct."""


# ---------------------------------------------------------------- types
# ('int', bits, signed) ('bool',) ('float', bits) ('ptr', T) ('struct', tag) ('array', T, n) ('func', ret, params) ('void',)
VOID = ('void',)
BOOL = ('bool',)
CHAR = ('int', 8, True)
UCHAR = ('int', 8, False)
INT = ('int', 32, True)
UINT = ('int', 32, False)
LONG = ('int', 64, True)
ULONG = ('int', 64, False)
FLOAT = ('float', 32)
DOUBLE = ('float', 64)
LDOUBLE = ('float', 80)

BASIC = {
    'void': VOID, '_Bool': BOOL, 'bool': BOOL, 'char': CHAR, 'signed char': CHAR, 'unsigned char': UCHAR,
    'short': ('int', 16, True), 'unsigned short': ('int', 16, False), 'int': INT, 'unsigned int': UINT,
    'unsigned': UINT, 'long': LONG, 'unsigned long': ULONG, 'long long': LONG, 'unsigned long long': ULONG,
    'float': FLOAT, 'double': DOUBLE, 'long double': LDOUBLE, '__int128': ('int', 128, True),
    'unsigned __int128': ('int', 128, False), 'short int': ('int', 16, True), 'long int': LONG,
    'long unsigned int': ULONG, 'short unsigned int': ('int', 16, False),
    '__builtin_va_list': ('struct', '__va_list_tag'), 'va_list': ('struct', '__va_list_tag'),
    'struct __va_list_tag': ('struct', '__va_list_tag'), '__va_list_tag': ('struct', '__va_list_tag'),
}
QUALS = re.compile(r'\b(const|volatile|restrict|__restrict|register|static|extern|_Nonnull|_Nullable)\b')


class Program:
    def __init__(self):
        self.typedefs = {}
        self.records = {}      # tag -> dict(fields=[(name, offset, type, declid)], size, align)
        self.recnodes = {}     # id -> tag
        self.fieldoff = {}     # field decl id -> (offset, type)
        self.enums = {}        # const name -> value
        self.enumtags = set()
        self.funcs = {}        # name -> (node, tu)
        self.protos = {}       # name -> type string
        self.globals = {}      # decl id -> node
        self.gnames = {}
        self.files = {}
        self._tcache = {}

    # ---- types
    def parse_type(self, s):
        if s in self._tcache:
            return self._tcache[s]
        t = self._parse_type(s)
        self._tcache[s] = t
        return t

    def _parse_type(self, s):
        s0 = s
        s = QUALS.sub('', s).strip()
        s = re.sub(r'\s+', ' ', s)
        # function pointers: ret (*)(params) or ret (*name)(...)
        m = re.match(r'^(.*?)\(\*\s*\)\s*\((.*)\)$', s)
        if m and m.group(1).count('(') == m.group(1).count(')'):
            return ('ptr', ('func', self.parse_type(m.group(1)), m.group(2)))
        if s.endswith(')'):
            # function type 'ret (params)'
            depth = 0
            for i in range(len(s) - 1, -1, -1):
                if s[i] == ')':
                    depth += 1
                elif s[i] == '(':
                    depth -= 1
                    if depth == 0:
                        return ('func', self.parse_type(s[:i]), s[i + 1:-1])
        m = re.match(r'^(.*)\(\*\s*\)\s*\[(\d+)\]$', s)
        if m:
            return ('ptr', ('array', self.parse_type(m.group(1)), int(m.group(2))))
        if s.endswith(']'):
            # C arrays: outermost dimension is leftmost
            m = re.match(r'^(.*?)((?:\s*\[\d*\])+)$', s)
            base = self.parse_type(m.group(1))
            dims = re.findall(r'\[(\d*)\]', m.group(2))
            for d in reversed(dims):
                base = ('array', base, int(d) if d else None)
            return base
        if s.endswith('*'):
            return ('ptr', self.parse_type(s[:-1]))
        if s in BASIC:
            return BASIC[s]
        if s.startswith('struct ') or s.startswith('union '):
            return ('struct', s.split(' ', 1)[1])
        if s.startswith('enum '):
            return UINT
        if s in self.typedefs:
            return self.parse_type(self.typedefs[s])
        if s in self.enumtags:
            return UINT
        if s in self.records:
            return ('struct', s)
        raise Unsupported('type %r' % s0)

    def sizeof(self, t):
        k = t[0]
        if k == 'int':
            return t[1] // 8
        if k == 'bool':
            return 1
        if k == 'float':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'array':
            if t[2] is None:
                raise Unsupported('incomplete array')
            return self.sizeof(t[1]) * t[2]
        if k == 'struct':
            if t[1] == '__va_list_tag':
                return 24
            if t[1] not in self.records:
                raise Unsupported('incomplete struct ' + t[1])
            return self.records[t[1]]['size']
        if k == 'void' or k == 'func':
            return 1
        raise Unsupported('sizeof %r' % (t,))

    def alignof(self, t):
        k = t[0]
        if k == 'array':
            return self.alignof(t[1])
        if k == 'struct':
            return 8 if t[1] == '__va_list_tag' else self.records[t[1]]['align']
        return self.sizeof(t)

    def leaves(self, t, base=0):
        """scalar leaves (offset, type) of an object type; unions keep every member."""
        k = t[0]
        if k == 'array':
            out = []
            es = self.sizeof(t[1])
            for i in range(t[2]):
                out += self.leaves(t[1], base + i * es)
            return out
        if k == 'struct':
            out = []
            for (_n, off, ft, _i) in self.records[t[1]]['fields']:
                out += self.leaves(ft, base + off)
            return out
        return [(base, t)]

    # ---- loading
    def _record(self, node, tag):
        fields = []
        off = 0
        align = 1
        size = 0
        union = node.get('tagUsed') == 'union'
        anon = {}
        for ch in node.get('inner', []):
            if ch['kind'] == 'RecordDecl':
                sub = ch.get('name') or ('@' + ch['id'])
                if ch.get('completeDefinition'):
                    self._record(ch, sub)
                anon[ch['id']] = sub
            elif ch['kind'] == 'EnumDecl':
                self._enum(ch)
            elif ch['kind'] == 'FieldDecl':
                if ch.get('isBitfield'):
                    # layout of records with bitfields is not modelled
                    self.records.pop(tag, None)
                    self.recnodes[node['id']] = tag
                    return
                q = ch['type']['qualType']
                try:
                    if 'unnamed' in q or 'anonymous' in q:
                        sub = list(anon.values())[-1]
                        m = re.search(r'((\s*\[\d+\])+)$', q)
                        ft = ('struct', sub)
                        if m:
                            for d in reversed(re.findall(r'\[(\d+)\]', m.group(1))):
                                ft = ('array', ft, int(d))
                    else:
                        ft = self.parse_type(ch['type'].get('desugaredQualType') or q)
                        if ft[0] == 'struct' and ft[1] not in self.records and ft[1] != '__va_list_tag':
                            ft = self.parse_type(q)
                    sz, al = self.sizeof(ft), self.alignof(ft)
                except (Unsupported, KeyError):
                    self.recnodes[node['id']] = tag
                    return
                if union:
                    o = 0
                    size = max(size, sz)
                else:
                    o = (off + al - 1) // al * al
                    off = o + sz
                    size = off
                align = max(align, al)
                fields.append((ch.get('name', ''), o, ft, ch['id']))
                self.fieldoff[ch['id']] = (o, ft)
        size = (size + align - 1) // align * align
        self.records[tag] = dict(fields=fields, size=size, align=align, union=union)
        self.recnodes[node['id']] = tag

    def _enum(self, node):
        v = 0
        if node.get('name'):
            self.enumtags.add(node['name'])
        for c in node.get('inner', []):
            if c['kind'] != 'EnumConstantDecl':
                continue
            val = _find_const(c)
            if val is not None:
                v = val
            self.enums[c['name']] = v
            v += 1

    def load(self, path):
        p = subprocess.run([CLANG] + FLAGS + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise Unsupported('clang cannot parse %s: %s' % (path, p.stderr.decode()[:400]))
        top = json.loads(p.stdout)
        prefix = os.path.basename(path) + '#'
        _fix_locs(top)
        _prefix_ids(top, prefix)
        last_rec = None
        for n in top['inner']:
            k = n['kind']
            if k == 'TypedefDecl':
                q = n['type']['qualType']
                if ('unnamed' in q or 'anonymous' in q) and last_rec:
                    self.typedefs[n['name']] = last_rec
                else:
                    if q != n['name'] and q != 'struct ' + n['name']:
                        self.typedefs[n['name']] = q
                    elif q.startswith('struct '):
                        self.typedefs[n['name']] = q
                        if n['name'] not in self.records and last_rec and '@' in last_rec and last_rec[7:] in self.records:
                            # typedef struct { .. } name;
                            self.records[n['name']] = self.records[last_rec[7:]]
                            if last_rec[7:] in self.recnodes:
                                self.recnodes[n['name']] = self.recnodes[last_rec[7:]]
            elif k == 'RecordDecl':
                tag = n.get('name') or ('@' + n['id'])
                if n.get('completeDefinition'):
                    self._record(n, tag)
                last_rec = 'struct ' + tag
            elif k == 'EnumDecl':
                self._enum(n)
                last_rec = 'unsigned int'
            elif k == 'FunctionDecl':
                self.protos[n['name']] = n['type']['qualType']
                if any(c['kind'] == 'CompoundStmt' for c in n.get('inner', [])):
                    f = n.get('_file') or ''
                    if f.startswith(REPO):
                        self.funcs[n['name']] = n
                        n['_tu'] = path
            elif k == 'VarDecl':
                old = self.gnames.get(n['name'])
                self.globals[n['id']] = n
                if old is None or 'init' in n or n.get('storageClass') != 'extern':
                    self.gnames[n['name']] = n

    def fn_params(self, node):
        return [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']

    def fn_body(self, node):
        return [c for c in node['inner'] if c['kind'] == 'CompoundStmt'][0]

    def fn_ret(self, node):
        t = self.parse_type(node['type']['qualType'])
        return t[1]

    def node_type(self, n):
        t = n['type']
        q = t.get('desugaredQualType') or t['qualType']
        try:
            return self.parse_type(q)
        except Unsupported:
            return self.parse_type(t['qualType'])


def _find_const(n):
    if n.get('kind') == 'ConstantExpr' and 'value' in n:
        return int(n['value'])
    if n.get('kind') == 'IntegerLiteral':
        return int(n['value'])
    for c in n.get('inner', []):
        v = _find_const(c)
        if v is not None:
            return v
    return None


def _fix_locs(top):
    """clang's JSON omits unchanged file/line; restore them on every node (dump order)."""
    cur = {'file': None, 'line': None}

    def upd(loc):
        if not loc:
            return
        if 'spellingLoc' in loc or 'expansionLoc' in loc:
            upd(loc.get('spellingLoc'))
            upd(loc.get('expansionLoc'))
            return
        if 'file' in loc:
            cur['file'] = loc['file']
        if 'line' in loc:
            cur['line'] = loc['line']

    stack = [top]
    # iterative pre-order walk
    while stack:
        n = stack.pop()
        upd(n.get('loc'))
        r = n.get('range')
        if r:
            upd(r.get('begin'))
            n['_line'] = cur['line']
            n['_file'] = cur['file']
            upd(r.get('end'))
        else:
            n['_line'] = cur['line']
            n['_file'] = cur['file']
        for c in reversed(n.get('inner', [])):
            stack.append(c)


def _prefix_ids(top, prefix):
    stack = [top]
    while stack:
        n = stack.pop()
        if 'id' in n:
            n['id'] = prefix + n['id']
        if 'referencedMemberDecl' in n:
            n['referencedMemberDecl'] = prefix + n['referencedMemberDecl']
        d = n.get('referencedDecl')
        if d and 'id' in d and not d['id'].startswith(prefix):
            d['id'] = prefix + d['id']
        for key in ('targetLabelDeclId', 'declId'):
            if key in n:
                n[key] = prefix + n[key]
        stack.extend(n.get('inner', []))


def sources():
    out = []
    for root, _d, fs in os.walk(REPO + '/src'):
        for f in sorted(fs):
            if f.endswith('.c'):
                out.append(os.path.join(root, f))
    return sorted(out)


_prog = None


def _load_one(path):
    p = Program()
    p.load(path)
    return p


def load_program(jobs=8):
    """All of /repo/src, parsed in parallel and merged."""
    global _prog
    if _prog is not None:
        return _prog
    from concurrent.futures import ProcessPoolExecutor
    progs = []
    errs = []
    with ProcessPoolExecutor(jobs) as ex:
        futs = [(p, ex.submit(_load_one, p)) for p in sources()]
        for p, f in futs:
            progs.append(f.result())
    m = Program()
    for p in progs:
        for k, v in p.typedefs.items():
            m.typedefs.setdefault(k, v)
        for k, v in p.records.items():
            m.records.setdefault(k, v)
        m.recnodes.update(p.recnodes)
        m.fieldoff.update(p.fieldoff)
        m.enums.update(p.enums)
        m.enumtags |= p.enumtags
        for k, v in p.funcs.items():
            m.funcs.setdefault(k, v)
        m.protos.update(p.protos)
        m.globals.update(p.globals)
        for k, v in p.gnames.items():
            o = m.gnames.get(k)
            if o is None or 'init' in v:
                m.gnames[k] = v
    _prog = m
    return m
