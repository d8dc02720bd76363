"""Concrete side: run the real compiled code on a concrete memory image and check the same
contract text against what it did.  Used to turn a failed obligation into a failing input, and as
the labelled, bounded stand-in for functions the prover cannot decide."""
import hashlib, os, random, shutil, struct, subprocess, sys, tempfile, time, json
from concurrent.futures import ThreadPoolExecutor
from .tm import *
from .mem import *
from .mem import _ver
from . import cast, contract, models, world, fs
from .cast import Unsupported, VOID, BOOL, CHAR, INT, LONG, ULONG, UCHAR
from .contract import *
from .ex import Engine, Infeasible, ExitEx, PathEnd, UNINIT, int_bounds

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FNCODE = {'@alloc': 0, '@realloc': 1, '@free': 2, '@callback': 3}
WRAPS = ['malloc', 'calloc', 'realloc', 'free', 'exit', 'abort', '__assert_fail', 'fopen', 'fopen64', 'remove', 'rename', 'mkdir', 'rmdir', 'unlink',
         'opendir', 'readlink', 'socket', 'connect', 'bind', 'listen', 'accept', 'send', 'sendto', 'recv', 'recvfrom',
         'setsockopt', 'close', 'shutdown', 'poll', 'system', 'popen', 'chdir', 'truncate', 'fclose', 'closedir', 'getcwd',
         'unlinkat', 'renameat', 'nftw', 'execve', 'execvp', 'symlink', 'link', 'chmod', 'chown', 'kill', 'time', 'clock_gettime']
OUTCOME = {0: 'return', 1: 'exit', 2: 'crash', 3: 'timeout', 4: 'badfree', 6: 'env', 7: 'limit', 8: 'runaway', 99: 'crash'}


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for top in ('src', 'inc'):
        for d, _ds, fs in sorted(os.walk(os.path.join(REPO, top))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    for f in ('drv.c', 'drv.h', 'env.c'):
        h.update(open(os.path.join(HERE, 'driver', f), 'rb').read())
    return h.hexdigest()[:24]


def c_type(q):
    return '__typeof__(%s)' % q


def trampolines(prog, names):
    out = ['#include "vita/vita.h"', '#include <string.h>', '#include "drv.h"']
    body = []
    for i, n in enumerate(names):
        con = contract.REG[n]
        if con.tramp:
            out.append('static void t_%d(union val *a, union val *r) {\n%s\n}' % (i, con.tramp))
            body.append('case %d: t_%d(a, r); break;' % (i, i))
            continue
        node = prog.funcs[n]
        ps = prog.fn_params(node)
        args = ', '.join('%s(%s %s)&a[%d]' % (('**', c_type(p['type']['qualType']), '**', k) if prog.node_type(p)[0] == 'struct' else
                                              ('*', c_type(p['type']['qualType']), '*', k)) for k, p in enumerate(ps))
        rt = prog.fn_ret(node)
        if rt[0] == 'struct':
            st = '__auto_type x = %s(%s); memcpy(*(void **)&a[%d], &x, sizeof x);' % (n, args, len(ps))
        elif rt == VOID:
            st = '%s(%s);' % (n, args)
        else:
            st = '__auto_type x = %s(%s); memcpy(r, &x, sizeof x < 16 ? sizeof x : 16);' % (n, args)
            if rt == ('ptr', CHAR):
                st += ' drv_text(x);'
        out.append('static void t_%d(union val *a, union val *r) { (void)a; (void)r; %s }' % (i, st))
        body.append('case %d: t_%d(a, r); break;' % (i, i))
    out.append('void drv_call(uint32_t fn, union val *a, union val *r) { switch (fn) { %s default: drv_finish(7); } }' % '\n'.join(body))
    return '\n'.join(out) + '\n'


def testable(prog, con):
    if con.trusted or con.inline or con.conc is False:
        return False
    node = prog.funcs.get(con.name)
    if node is None:
        return False
    if con.tramp:
        return True
    if node.get('storageClass') == 'static' or node.get('variadic'):
        return False
    if any('va_list' in p['type']['qualType'] for p in prog.fn_params(node)):
        return False
    return all(type(k) in GEN or hasattr(k, 'gen') for k in con.kinds)


class Driver:
    def __init__(self, prog, root=None):
        self.prog = prog
        self.names = sorted(n for n, c in contract.REG.items() if testable(prog, c))
        self.idx = {n: i for i, n in enumerate(self.names)}
        gen = trampolines(prog, self.names)
        key = hashlib.sha256((tree_hash() + gen).encode()).hexdigest()[:24]
        root = root or os.path.join(HERE, 'build')
        self.dir = os.path.join(root, key)
        self.exe = os.path.join(self.dir, 'drv')
        if not os.path.exists(self.exe):
            self.build(gen)

    def build(self, gen):
        root = os.path.dirname(self.dir)
        os.makedirs(root, exist_ok=True)
        for d in os.listdir(root):
            p = os.path.join(root, d)
            try:
                if os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            except OSError:
                pass
        tmp = tempfile.mkdtemp(prefix='b', dir=root)
        with open(os.path.join(tmp, 'gen.c'), 'w') as f:
            f.write(gen)
        srcs = [(p, True) for p in cast.sources()] + [(os.path.join(tmp, 'gen.c'), True)] + \
               [(os.path.join(HERE, 'driver', f), False) for f in ('drv.c', 'env.c')]
        objs = []

        def comp(a):
            k, (p, lib) = a
            o = os.path.join(tmp, '%d.o' % k)
            cmd = ['gcc', '-std=gnu11', '-O1', '-g', '-w', '-fno-builtin', '-I' + os.path.join(REPO, 'inc'),
                   '-I' + os.path.join(HERE, 'driver'), '-c', p, '-o', o]
            if lib:
                cmd += ['-fsanitize=address,undefined', '-fno-sanitize=alignment,pointer-overflow', '-fno-sanitize-recover=all']
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-2000:])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, enumerate(srcs)))
        cmd = ['gcc', '-fsanitize=address,undefined', '-o', os.path.join(tmp, 'drv')] + objs + \
              ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS), '-lm', '-lpthread']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-2000:])
        try:
            os.rename(tmp, self.dir)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)

    def run(self, blobs, timeout=120, limit=None, trees=None):
        """list of encoded cases -> list of raw results"""
        d = tempfile.mkdtemp(prefix='vitarun')
        dumps = {}
        try:
            if trees and any(t is not None for t in trees):
                root = os.geteuid() == 0
                os.chmod(d, 0o711)
                for k, t in enumerate(trees):
                    if t is not None:
                        fs.build_tree(os.path.join(d, 'c%d' % k), t, fs.NOBODY if root else None)
            fi, fo, fe = (os.path.join(d, x) for x in ('in', 'out', 'err'))
            with open(fi, 'wb') as f:
                f.write(struct.pack('<I', len(blobs)))
                for b in blobs:
                    f.write(b)
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1024:handle_abort=0'
            env['UBSAN_OPTIONS'] = 'exitcode=99'
            env['LC_ALL'] = 'C'
            env['TZ'] = 'UTC'
            if limit:
                env['DRV_TIMEOUT'] = str(limit)
            try:
                subprocess.run([self.exe, fi, fo, fe], env=env, timeout=timeout, cwd=d,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                pass
            data = open(fo, 'rb').read() if os.path.exists(fo) else b''
            for k, t in enumerate(trees or ()):
                c = os.path.join(d, 'c%d' % k)
                if t is not None and os.path.isdir(c):
                    dumps[k] = fs.dump_tree(c)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        out = []
        p = 0
        while p + 16 <= len(data):
            oc, oom, ln = struct.unpack_from('<IIQ', data, p)
            p += 16
            body = data[p:p + ln]
            p += ln
            (ne,) = struct.unpack_from('<I', data, p)
            err = data[p + 4:p + 4 + ne]
            p += 4 + ne
            out.append((OUTCOME.get(oc, 'crash'), oom, body, err.decode('latin1'), dumps.get(len(out))))
        return out


# ---------------------------------------------------------------- concrete engine
class CFail(Exception):
    def __init__(self, cat, desc):
        self.cat, self.desc = cat, desc


class CEngine(Engine):
    def __init__(self, prog, con):
        Engine.__init__(self, prog, contract.REG, models.M, con.name, {})
        self.con = con
        self.concrete_mode = True
        self.fail_ok = False
        self.relocs = None
        self.cats = None
        self.soft = None
        self.script, self.spec_log = [], []
        self.twin, self.env, self.limit = None, {}, -1

    def oblige(self, cat, desc, goal, line=None):
        goal = simp(goal) if sym(goal) else goal
        if not isinstance(goal, bool):
            raise Unsupported('symbolic obligation in replay: %s' % desc)
        if not goal:
            if self.cats is not None and cat not in self.cats:
                # another property's obligation: note it and look on
                self.soft = self.soft or (cat, desc)
                return False
            raise CFail(cat, desc)
        return True

    def assume(self, c):
        c = simp(c) if sym(c) else c
        if not isinstance(c, bool):
            raise Unsupported('symbolic assumption in replay')
        if not c:
            raise Infeasible()

    def branch(self, c):
        c = simp(c) if sym(c) else c
        if not isinstance(c, bool):
            raise Unsupported('symbolic branch in replay')
        return c

    def valid(self, goal, timeout=None, cache=True):
        goal = simp(goal) if sym(goal) else goal
        return goal is True

    def fresh_int(self, base, ty=None, lo=None, hi=None):
        raise Unsupported('unresolved choice in replay: ' + base)

    def elem_content(self, t, init, name):
        if init == 'zero':
            return Content(lambda k: 0 if t[0] != 'bool' else False, uniform=0)
        return Content(lambda k: 0, uniform='junk', defined=lambda k: False)

    def new_block(self, kind, size, name, bid=None, heap=False, owner=None):
        if bid is None:
            self.n += 1
            bid = 's%d' % self.n
        b = Block(bid, kind, size, name)
        b.heap, b.owner = heap, owner
        self.st.mem[bid] = b
        return b

    def zero_of(self, ty):
        if ty[0] == 'float':
            return F(bytes({32: 4, 64: 8, 80: 16}[ty[1]]), ty)
        return Engine.zero_of(self, ty)

    def val_byte(self, v, ty, j):
        if isinstance(v, F):
            if isinstance(v.t, float):
                return struct.pack('<f' if ty[1] == 32 else '<d', v.t)[j]
            return v.t[j] if j < len(v.t) else 0
        return Engine.val_byte(self, v, ty, j)

    def load_bytes(self, b, off, ty):
        if ty[0] == 'float':
            n = {32: 4, 64: 8, 80: 16}[ty[1]]
            if ty[1] == 80:
                return F(bytes(b.content(off + j) for j in range(10)) + bytes(6), ty)
            return F(bytes(b.content(off + j) for j in range(n)), ty)
        if ty[0] == 'ptr':
            a = 0
            for j in range(8):
                a |= b.content(off + j) << (8 * j)
            return self.ptr_of(a)
        return Engine.load_bytes(self, b, off, ty)

    def ptr_of(self, a):
        if a == 0:
            return NULL
        fn = self.fnaddr.get(a)
        if fn:
            return P(fn=fn)
        hit = None
        for b in self.st.mem.values():
            c = b.caddr
            if c is None or a < c:
                continue
            if a < c + b.size or a == c:
                return P(b.bid, a - c)
            if a == c + b.size:
                hit = P(b.bid, b.size)
        return hit or P(addr=a)

    fnaddr = {}

    def addr(self, p):
        if p.fn is not None:
            for a, f in self.fnaddr.items():
                if f == p.fn:
                    return a
            return -1
        if p.bid is not None:
            b = self.st.mem.get(p.bid)
            if b is None or b.caddr is None:
                return ('blk', p.bid, p.off)
            return b.caddr + p.off
        return p.addr if p.addr is not None else 0

    def shape(self, p, ty):
        b = self.blk(p.bid)
        if b.kind == 'bytes' and ty[0] in ('ptr', 'struct'):
            nb = self.cshape(b, ty, p.off == 0 and ty[0] == 'struct' and b.size == self.prog.sizeof(ty))
            self.st.mem[p.bid] = nb
            return nb
        return b

    def cshape(self, b, ty, one):
        if b.content.uniform is not None and b.content.conc is None:
            init = 'zero' if b.content.uniform == 0 else 'junk'
        else:
            init = None
        nb = b.clone()
        src = b
        if one:
            nb.kind, nb.content, nb.cells, nb.ty = 'cells', None, {}, ty
            for (o, t) in self.prog.leaves(ty):
                if o in nb.cells:
                    continue
                if init == 'zero':
                    v = self.zero_of(t)
                elif init == 'junk':
                    v = UNINIT
                else:
                    v = self.load_bytes(src, o, t)
                nb.cells[o] = (t, v)
            return nb
        self.make_elems(nb, ty, init or 'junk', b.name)
        if init is None:
            st = nb.stride
            n = b.size // st
            for fo in list(nb.fields):
                t = nb.fields[fo][0]
                vals = []
                for k in range(n):
                    v = self.load_bytes(src, k * st + fo, t)
                    vals.append(self.addr(v) if isinstance(v, P) else (v.b if isinstance(v, B) else v.t))
                nb.fields[fo] = (t, Content((lambda vals: lambda k: vals[k] if 0 <= k < len(vals) else 0)(vals)))
        return nb


# ---------------------------------------------------------------- generation
BIG = [10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 70, 100, 127, 128, 129, 200, 255, 256, 257, 300]
HUGE = [511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]
SIZECAP = 6000


def consts(prog, name, _cache={}):
    """integer and character constants in a function and the helpers it calls (boundary values to try)"""
    if name in _cache:
        return _cache[name]
    out, chars, seen = set(), set(), set()
    work = [name]
    while work:
        f = work.pop()
        if f in seen or (f != name and f in contract.REG and not contract.REG[f].inline):
            continue
        seen.add(f)
        st = [prog.funcs[f]] if f in prog.funcs else []
        while st:
            n = st.pop()
            k = n.get('kind')
            if k == 'IntegerLiteral':
                v = int(n.get('value', 0))
                if v > 2:
                    out.add(v)
                    if v < 256:
                        chars.add(v)
            elif k == 'CharacterLiteral':
                v = n.get('value', 0)
                if 0 < v < 256:
                    chars.add(v)
            elif k == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
                work.append(n['referencedDecl']['name'])
            st.extend(n.get('inner', []))
    _cache[name] = (sorted(out), sorted(chars))
    return _cache[name]


class Chooser:
    """source of concrete values: random, with solver-model overrides by name"""

    def __init__(self, rng, over=None, small=5, consts=((), ()), wide=False):
        self.rng = rng
        self.wide = wide
        self.over = over or {}
        self.small = small
        self.ints, self.chars = consts
        x = rng.random()
        self.big = 2 if x < 0.02 else (1 if x < 0.14 else 0)
        self.few = rng.choice([0, 0, 0, 1, 2, 2, 3])
        self.subset = {}

    def flag(self, name, p=0.5):
        if name in self.over:
            return bool(self.over[name])
        return self.rng.random() < p

    def near(self):
        return self.rng.choice(self.ints) + self.rng.choice([-1, 0, 0, 1])

    def int(self, name, lo, hi, smallhi=None):
        if name in self.over and isinstance(self.over[name], int):
            return min(max(self.over[name], lo), hi)
        r = self.rng
        s = self.small if smallhi is None else smallhi
        x = r.random()
        if x < (0.25 if self.wide else 0.12) and self.ints:
            v = self.near()
            if lo < 0 and r.random() < 0.3:
                v = -v
        elif x < 0.2 and self.big:
            v = r.choice(BIG)
        elif x < 0.85:
            if lo >= 0:
                v = lo + r.randrange(0, s + 2) if lo < 1 << 20 else r.choice([lo, lo + 1])
            else:
                v = r.randrange(-s - 1, s + 2)
        elif x < 0.93:
            v = r.choice([hi, hi - 1, lo, lo + 1, hi // 2, hi // 2 + 1])
        else:
            v = r.randrange(lo, hi + 1)
        return min(max(v, lo), hi)

    def size(self, name, lo, hi):
        if name in self.over and isinstance(self.over[name], int):
            v = self.over[name]
            if v <= SIZECAP:
                return max(v, lo)
        r = self.rng
        if self.big and r.random() < 0.6:
            if self.ints and r.random() < 0.3:
                v = self.near()
                if lo <= v <= SIZECAP:
                    return v
            return max(lo, r.choice(HUGE if self.big == 2 else BIG))
        if self.wide:
            if self.ints and r.random() < 0.15:
                v = self.near()
                if lo <= v <= 4 * SIZECAP // 5:
                    return v
            hi = hi + r.choice([0, 4, 12, 30])
        return self.rng.randrange(lo, hi + 1)

    def data(self, name, n, alpha=None):
        f = self.over.get(name)
        r = self.rng
        out = bytearray()
        chars = self.chars
        if alpha and self.few:
            # few different characters: repeated and overlapping patterns
            if alpha not in self.subset:
                self.subset[alpha] = bytes(r.choices(alpha, k=self.few))
            alpha = self.subset[alpha]
            chars = ()
        if alpha and n >= 3 and not callable(f) and n <= 64 and r.random() < (0.5 if self.wide else 0.25):
            # runs of few characters in front and at the end
            h = r.randrange(n + 1)
            t = r.randrange(n - h + 1)
            ends = bytes(r.choices(alpha, k=r.choice([1, 1, 2])))
            return bytearray(r.choices(ends, k=h) + r.choices(alpha, k=n - h - t) + r.choices(ends, k=t))
        if not callable(f) and n > 64:
            a = alpha or bytes([0, 1, 1, 2, 3, r.randrange(256)])
            return bytearray(r.choices(a, k=n))
        for k in range(n):
            x = None
            if callable(f):
                x = f(k)
            if x is None and chars and r.random() < 0.08:
                x = r.choice(chars)
            if x is None:
                x = r.choice(alpha) if alpha else r.choice([0, 1, 1, 2, 3, r.randrange(256)])
            out.append(x & 255)
        return out


TEXT = b'aab c\tAB.,x/-1 0'


def cblock(eng, name, bid, data, heap=False, owner=None):
    b = eng.new_block('bytes', len(data), name, bid=bid, heap=heap, owner=owner)
    b.initial = True
    b.content = const_content(data)
    return b


def g_int(k, ctx, i, g):
    if k.ty[0] == 'bool':
        return B(g.flag(k.name), k.ty)
    lo, hi = int_bounds(k.ty)
    if k.pick:
        return I(g.rng.choice(k.pick) if k.name not in g.over or g.rng.random() < 0.5 else g.int(k.name, lo, hi), k.ty)
    return I(g.int(k.name, lo if k.lo is None else k.lo, hi if k.hi is None else k.hi), k.ty)


def g_flt(k, ctx, i, g):
    r = g.rng
    v = r.choice([0.0, 1.0, -1.0, 0.5, 2.5, -3.25, 1e30, r.uniform(-10, 10)])
    if k.ty[1] == 32:
        return F(struct.pack('<f', v), k.ty)
    if k.ty[1] == 64:
        return F(struct.pack('<d', v), k.ty)
    import ctypes
    b = bytes(ctypes.c_longdouble(v))[:10]
    return F(b + bytes(6), k.ty)


def calloctr(eng, name):
    b = eng.alloc_type(ALLOC, name, 'zero', bid='alloc:' + name)
    b.initial = True
    for o, (t, v) in list(b.cells.items()):
        if t[0] == 'int':
            b.cells[o] = (t, I(0, t))
        elif t[0] == 'ptr' and t[1][0] == 'func':
            nm = [f for f in eng.prog.records['VitaBaseAllocatorType']['fields'] if f[1] == o][0][0]
            b.cells[o] = (t, P(fn='@' + nm))
        elif t[0] == 'ptr':
            b.cells[o] = (t, NULL)
    return P(b.bid, 0)


def g_alloc(k, ctx, i, g):
    if g.flag('arg%d_alloctr_is_null' % i, 0.6):
        return NULL
    return calloctr(ctx.eng, 'A%d' % i)


def g_arr(k, ctx, i, g):
    eng = ctx.eng
    n = k.name
    if k.nullable and g.flag(n + '_is_null', 0.06):
        return NULL
    is_view = False
    if k.viewk == 'maybe':
        is_view = g.flag(n + '_is_view', 0.3)
    elif k.viewk:
        is_view = True
    al = NULL
    off = 0
    if k.alloc and not is_view and not g.flag(n + '_alloctr_is_null', 0.65):
        al = calloctr(eng, n + '_alloctr')
    ln = g.size(n + '_len', 0, g.rng.choice([0, 1, 2, 3, 4, 6, 9, 14, 24] if k.shape == 'str' else [0, 1, 2, 3, 4, 6, 9, 14]))
    cap = max(1, ln, g.size(n + '_cap', 1, ln + g.rng.choice([0, 1, 3, 8]) if ln else 4))
    if is_view:
        cap = 0 if k.shape == 'str' else ln
    if k.shape == 'span':
        cap = g.rng.choice([0, 0, ln, ln + 3])
    if k.shape == 'plist':
        es = 8
    elif k.shape == 'str':
        es = 1
    elif k.es:
        es = k.es
    else:
        es = g.size(n + '_es', 1, 3)
        if es * max(cap, ln) > (20000 if k.shape == "span" else 200000):
            es = 1
        if ctx.con.elsize:
            es = ctx.con.elsize
    b = eng.alloc_type(ARR, n, 'zero', bid='arg:' + n)
    b.initial = True
    b.heap = not is_view
    b.owner = al.bid
    if k.nodata and g.flag(n + '_data_is_null', 0.03):
        cs = {0: I(ln, ULONG), 8: I(cap, ULONG), 16: I(es, ULONG), 24: I(0, ULONG), 32: B(is_view, BOOL), 40: NULL, 48: al}
        for o, v in cs.items():
            b.cells[o] = (b.cells[o][0], v)
        return P(b.bid, 0)
    if k.shape == 'plist':
        vals = [g.rng.choice([0, 1, 2, 3, 0x1000 + g.rng.randrange(64)]) for _ in range(cap)]
        data = b''.join(struct.pack('<Q', x) for x in vals)
        d = cblock(eng, n + '->data', 'data:' + n, data, heap=True, owner=al.bid)
        eng.st.mem[d.bid] = eng.cshape(d, ('ptr', VOID), False)
    else:
        if k.shape == 'str':
            t = g.data(n + '_data', ln, k.alpha or TEXT)
            if k.sub and g.rng.random() < 0.6:
                w = bytearray(substring(ctx, g) or b'')
                if w and n + '_len' not in g.over:
                    at = g.rng.randrange(len(t) + 1)
                    t = t[:at] + w + t[at:]
                    ln = len(t)
                    cap = max(cap, ln) if not is_view else cap
            t = bytearray(x or 97 for x in t)
            data = bytes(t) + b'\0' + (bytes(g.rng.choice([0, 0, 0x78]) for _ in range(cap - ln)) if not is_view else b'')
            if not k.text:
                data = bytes(x if g.rng.random() < 0.8 else 0 for x in data)
        elif k.shape == 'span':
            off = g.size(n + '_off', 0, 3)
            data = bytes(g.data(n + '_data', off + ln * es + g.rng.choice([0, 0, 2])))
        else:
            data = bytes(g.data(n + '_data', cap * es))
        d = cblock(eng, n + '->data', 'data:' + n, data, heap=not is_view and k.shape != 'span', owner=al.bid)
    sl = g.int(n + '_slider', 0, (1 << 64) - 1)
    cs = {0: I(ln, ULONG), 8: I(cap, ULONG), 16: I(es, ULONG), 24: I(sl, ULONG), 32: B(is_view, BOOL), 40: P(d.bid, off), 48: al}
    for o, v in cs.items():
        b.cells[o] = (b.cells[o][0], v)
    return P(b.bid, 0)


def g_cstr(k, ctx, i, g):
    eng = ctx.eng
    n = k.name
    if k.nullable and g.flag(n + '_is_null', 0.06):
        return NULL
    w = substring(ctx, g) if k.sub and g.rng.random() < 0.65 and n + '_len' not in g.over else None
    if k.only or k.pick and g.rng.random() < 0.7 and n + '_len' not in g.over:
        t = bytearray(g.rng.choice(k.pick))
    elif w is not None:
        t = w
    else:
        ln = g.size(n + '_len', 0, g.rng.choice([0, 1, 1, 2, 3, 5, 8]))
        t = g.data(n + '_data', ln, k.alpha or TEXT)
    t = bytes(x or 97 for x in t)
    b = cblock(eng, n, 'cstr:' + n, t + b'\0')
    return P(b.bid, 0)


def substring(ctx, g):
    """a piece of an argument generated before"""
    pool = []
    for a in ctx.args:
        if isinstance(a, AV) and not a.null and not a.elems and a.elsize == 1 and a.len:
            c = a.content()
            pool.append(bytes(c(j) for j in range(a.len)))
        elif isinstance(a, CV) and not a.null and a.len:
            pool.append(a.chars_bytes())
    if not pool:
        return None
    t = g.rng.choice(pool)
    x = g.rng.random()
    if x < 0.1:
        return t
    n = g.rng.choice([1, 1, 1, 2, 2, 3])
    at = g.rng.choice([0, max(0, len(t) - n), g.rng.randrange(len(t))])
    return t[at:at + n]


def g_chars(k, ctx, i, g):
    eng = ctx.eng
    n = k.name
    if k.nullable and g.flag(n + '_is_null', 0.06):
        return NULL
    sz = k.size(ctx.args)
    if sz > SIZECAP:
        raise Infeasible()
    b = cblock(eng, n, 'buf:' + n, bytes(x or 97 for x in g.data(n + '_data', sz, k.alpha or TEXT)))
    return P(b.bid, 0)


def g_owned(k, ctx, i, g):
    n = k.name
    if g.flag(n + '_is_null', 0.1):
        return NULL
    t = bytes(x or 97 for x in g.data(n + '_data', g.size(n + '_len', 0, 6), TEXT))
    return P(cblock(ctx.eng, n, 'cstr:' + n, t + b'\0', heap=True).bid, 0)


def g_allocof(k, ctx, i, g):
    al = g_alloc(k, ctx, i, g)
    o = ctx.args[k.of]
    if not o.null:
        ctx.eng.mut(o.p.bid).owner = al.bid
    return al


def g_buf(k, ctx, i, g):
    eng = ctx.eng
    n = k.name
    if k.nullable and g.flag(n + '_is_null', 0.06):
        return NULL
    sz = 64 if k.size is None else k.size(ctx.args) if callable(k.size) else k.size
    if sz > 1 << 20:
        raise Infeasible()
    data = bytes(g.data(n + '_data', sz))
    # often equal to something that is already there
    for a in ctx.args:
        if isinstance(a, AV) and not a.null and a.len and g.rng.random() < 0.5 and not a.elems:
            c = a.content()
            k0 = g.rng.randrange(a.len) * a.elsize
            if k0 + sz <= a.capacity * a.elsize:
                data = bytes(c(k0 + j) for j in range(sz))
    b = cblock(eng, n, 'buf:' + n, data)
    return P(b.bid, 0)


def g_ptr(k, ctx, i, g):
    if k.nullable and g.flag(k.name + '_is_null', 0.1):
        return NULL
    return P(addr=g.rng.choice([1, 2, 3, 0x1000 + g.rng.randrange(64)]))


def g_out(k, ctx, i, g):
    eng = ctx.eng
    if k.nullable and g.flag(k.name + '_is_null', 0.06):
        return NULL
    b = eng.alloc_type(k.ty, k.name, 'zero', bid='out:' + k.name)
    b.initial = True
    for o, (t, _v) in list(b.cells.items()):
        if t[0] == 'int':
            lo, hi = int_bounds(t)
            b.cells[o] = (t, I(g.int(k.name + '_%d' % o, lo, hi), t))
        elif t[0] == 'float':
            b.cells[o] = (t, g_flt(Flt(t), ctx, i, g))
    return P(b.bid, 0)


def g_any(k, ctx, i, g):
    eng = ctx.eng
    if k.ty[0] == 'ptr':
        bid = 'lit:any%d' % i
        r = g.rng
        t = b'f' if r.random() < 0.2 else bytes(r.choice(r.choice([b'ab', b' a', b'a.c/_', b'src/x.c'])) for _ in range(r.choice([0, 1, 2, 3, 3, 3, 4, 6, 9, 20])))
        cblock(eng, 'text', bid, t + b'\0')
        return P(bid, 0)
    return I(0, k.ty)


def g_heap(k, ctx, i, g):
    eng = ctx.eng
    if k.nullable and g.flag(k.name + '_is_null', 0.15):
        return NULL
    sz = g.size(k.name + '_size', 1, 9)
    b = cblock(eng, k.name, 'heap:' + k.name, bytes(g.data(k.name + '_data', sz)), heap=True)
    return P(b.bid, 0)


def g_region(k, ctx, i, g):
    eng = ctx.eng
    n = k.name
    if g.flag(n + '_is_null', 0.05):
        return NULL
    m = ctx.args[k.sz]
    if m > SIZECAP:
        raise Infeasible()
    if k.alias is not None:
        o = ctx.args[k.alias]
        if not o.null and g.flag(n + '_aliases', 0.4):
            b = eng.blk(o.p.bid)
            off = g.size(n + '_off', 0, max(0, b.size - m))
            if off + m > b.size:
                raise Infeasible()
            if k.disjoint and not (off + m <= o.p.off or o.p.off + m <= off or off == o.p.off):
                raise Infeasible()
            return P(b.bid, off)
    off = g.size(n + '_off', 0, 3)
    size = off + m + g.rng.choice([0, 0, 1, 4])
    data = bytearray(g.data(n + '_data', size))
    if k.name in ('rhs', 'b', 'src') and g.rng.random() < 0.5:
        a = ctx.args[0]
        if isinstance(a, PtrView) and not a.null:
            for j in range(m):
                data[off + j] = a.byte(j)
    b = cblock(eng, n, 'buf:' + n, bytes(data))
    return P(b.bid, off)


def g_cb(k, ctx, i, g):
    if g.flag(k.name + '_is_null', 0.06):
        return NULL
    return P(fn='@callback')


GEN = {Int: g_int, Flt: g_flt, Alloc: g_alloc, Arr: g_arr, CStr: g_cstr, Buf: g_buf, Ptr: g_ptr, Out: g_out, Any: g_any,
       HeapPtr: g_heap, Region: g_region, Callback: g_cb, Chars: g_chars,
       OwnedStr: g_owned, AllocOf: g_allocof, SpanVal: lambda k, ctx, i, g: g_arr(k.arr, ctx, i, g)}


def gen_of(k):
    if hasattr(k, 'gen'):
        return lambda k, ctx, i, g: k.gen(ctx, i, g)
    return GEN[type(k)]


class Case:
    pass


def make_case(prog, con, g):
    """a concrete argument list satisfying the precondition, or None"""
    eng = CEngine(prog, con)
    _ver[0] = 0
    ctx = Ctx(eng, 'pre', con)
    vals = [None] * len(con.kinds)
    ctx.args = [None] * len(con.kinds)
    try:
        for first in (True, False):
            for i, k in enumerate(con.kinds):
                if isinstance(k, Int) == first:
                    vals[i] = gen_of(k)(k, ctx, i, g)
                    ctx.args[i] = k.view(ctx, vals[i])
        if con.gen:
            con.gen(ctx, g, *ctx.args)
            for i, k in enumerate(con.kinds):
                ctx.args[i] = k.view(ctx, vals[i])
        for i, k in enumerate(con.va):
            v = gen_of(k)(k, ctx, len(con.kinds) + i, g)
            vals.append(v)
            ctx.extra.append(k.view(ctx, v))
        ctx.views = []
        con.body(ctx, *ctx.args)
    except StopSpec:
        pass
    except (Infeasible, CFail):
        return None
    else:
        return None
    c = Case()
    c.con, c.eng, c.vals, c.s0 = con, eng, vals, eng.st.copy()
    c.script = con.script(g) if con.script else []
    c.failat = -1
    c.tree = fs.gen_tree(g) if con.fs else None
    c.limit = g.rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 20, 4096, 5000]) if con.opts.get('disk') and g.rng.random() < 0.4 else -1
    c.unbuf = g.rng.randrange(2) if con.opts.get('disk') else 0
    c.gone = bool(con.fs) and con.fs == 'gone' and not c.tree and g.rng.random() < 0.7
    c.home = None if not con.fs or g.rng.random() < 0.2 else g.rng.choice([b'/home/me', b'/h', b'', b'/root/~x', b'~'])
    return c


def val_raw(eng, v, ty, order):
    """(16 bytes, reloc)"""
    if isinstance(v, P):
        if v.fn:
            return bytes(16), (-1, FNCODE[v.fn])
        if v.bid is not None:
            return bytes(16), (order[v.bid], v.off)
        a = v.addr or 0
        return struct.pack('<QQ', a, 0), (-2, 0)
    if isinstance(v, B):
        return struct.pack('<QQ', 1 if v.b else 0, 0), (-2, 0)
    if isinstance(v, F):
        return (bytes(v.t) + bytes(16))[:16], (-2, 0)
    if isinstance(v, S):
        b = bytearray(16)
        for o, x in v.cells.items():
            r, _ = val_raw(eng, x, None, order)
            b[o:o + 4] = r[:4]
        return bytes(b[:16]), (-2, 0)
    return struct.pack('<QQ', v.t & ((1 << 64) - 1), 0), (-2, 0)


def encode(drv, case):
    eng, s0 = case.eng, case.s0
    blocks = [b for b in s0.mem.values()]
    order = {b.bid: i for i, b in enumerate(blocks)}
    case.order = [b.bid for b in blocks]
    out = [struct.pack('<II', drv.idx[case.con.name], len(blocks))]
    relocs = []
    for b in blocks:
        data = bytearray(b.size)
        if b.kind == 'bytes':
            for k in range(b.size):
                data[k] = b.content(k) & 255
        elif b.kind == 'elems':
            for fo, (t, c) in b.fields.items():
                n = eng.prog.sizeof(t)
                for k in range(b.size // b.stride):
                    v = c(k)
                    if isinstance(v, tuple):
                        relocs.append((order[b.bid], k * b.stride + fo, order[v[1]], v[2]))
                        v = 0
                    if isinstance(v, bytes):
                        data[k * b.stride + fo:k * b.stride + fo + n] = v[:n]
                        continue
                    data[k * b.stride + fo:k * b.stride + fo + n] = (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        else:
            for o, (t, v) in b.cells.items():
                n = eng.prog.sizeof(t)
                if v is UNINIT:
                    continue
                raw, (tb, to) = val_raw(eng, v, t, order)
                data[o:o + n] = raw[:n]
                if tb != -2:
                    relocs.append((order[b.bid], o, tb, to))
        own = order[b.owner] if b.owner in order else -1
        out.append(struct.pack('<QIi', b.size, 1 if b.heap else 0, own))
        out.append(bytes(data))
    out.append(struct.pack('<I', len(relocs)))
    for r in relocs:
        out.append(struct.pack('<IQiQ', *r))
    out.append(struct.pack('<I', len(case.vals)))
    for v in case.vals:
        raw, (tb, to) = val_raw(eng, v, None, order)
        out.append(raw + struct.pack('<iQ', tb, to))
    out.append(struct.pack('<I', len(case.script)))
    for x in case.script:
        out.append(struct.pack('<q', x))
    out.append(struct.pack('<i', case.failat))
    out.append(struct.pack('<qI', case.limit, case.unbuf))
    out.append(struct.pack('<Ii', 0 if case.tree is None else (3 if case.gone else 1), -1 if case.home is None else len(case.home)))
    out.append(case.home or b'')
    return b''.join(out)


def decode_ret(eng, rty, raw):
    if rty == VOID:
        return None
    b = Block('ret', 'bytes', 16)
    b.content = const_content(raw)
    return eng.load_bytes(b, 0, rty)


def judge(prog, case, res, cats=None):
    """None if the contract holds on this run, else (category, description)"""
    con, eng = case.con, case.eng
    outcome, oom, body, err, dump = res
    if oom and outcome == 'exit':
        return None
    if outcome in ('env', 'limit'):
        return None
    if outcome == 'crash':
        return ('mem', 'crash: ' + summarise(err))
    if outcome == 'timeout':
        if con.opts.get('noterm'):
            return None
        return ('term', 'does not terminate within the time limit')
    if outcome == 'runaway':
        return ('mem', 'allocates memory or calls back without end')
    if outcome == 'badfree':
        return ('own', 'frees memory it does not own, or through the wrong allocator')
    node = prog.funcs[con.name]
    rty = con.rty or prog.fn_ret(node)
    if rty[0] == 'struct':
        rty = VOID
    _ver[0] = 1 << 20
    act = case.s0.copy()
    ret = None
    s0 = case.s0.copy()
    if outcome == 'return':
        p = 16
        (nb,) = struct.unpack_from('<I', body, p)
        p += 4
        raw = {}
        for i in range(nb):
            a, alive, sz = struct.unpack_from('<QIQ', body, p)
            p += 20
            raw[case.order[i]] = (a, alive, body[p:p + sz])
            p += sz
        (nn,) = struct.unpack_from('<I', body, p)
        p += 4
        new = []
        for i in range(nn):
            a, own, sz = struct.unpack_from('<QiQ', body, p)
            p += 20
            new.append((a, own, body[p:p + sz]))
            p += sz
        (ncb,) = struct.unpack_from('<I', body, p)
        p += 4
        cbs = []
        for i in range(ncb):
            cbs.append(struct.unpack_from('<QQ', body, p))
            p += 16
        (nf,) = struct.unpack_from('<I', body, p)
        p += 4
        fns = struct.unpack_from('<%dQ' % nf, body, p)
        p += 8 * nf
        (nl,) = struct.unpack_from('<I', body, p)
        case.log = body[p + 4:p + 4 + nl].split(b'\0')[:-1]
        act.ghost = dict(act.ghost, console=consoles(body, p + 4 + nl))
        eng.fnaddr = {a: f for f, i in FNCODE.items() for a in [fns[i]]}
        for bid, (a, alive, data) in raw.items():
            for st in (act, s0):
                b = st.mem[bid].clone()
                b.caddr = a
                st.mem[bid] = b
        for st in (act, s0):
            for b in st.mem.values():
                if b.kind == 'elems':
                    for fo, (t, c) in list(b.fields.items()):
                        vals = [c(k) for k in range(b.size // b.stride)]
                        if any(isinstance(x, tuple) for x in vals):
                            vals = [raw[x[1]][0] + x[2] if isinstance(x, tuple) else x for x in vals]
                            b.fields = dict(b.fields)
                            b.fields[fo] = (t, Content((lambda vals: lambda k: vals[k] if 0 <= k < len(vals) else 0)(vals)))
        eng.st = act
        for k, (a, own, data) in enumerate(new):
            b = Block('n%d' % k, 'bytes', len(data), 'allocated')
            b.content = const_content(data)
            b.heap = True
            b.owner = case.order[own] if own >= 0 else None
            b.caddr = a
            act.mem[b.bid] = b
        for x in case.log:
            if x[:1] == b'T':
                a, t = x[1:].split(b':', 1)
                bid = 'lit:' + repr(t + b'\0')
                b = Block(bid, 'bytes', len(t) + 1, 'text')
                b.content = const_content(t + b'\0')
                b.caddr = int(a, 16)
                b.const = True
                for st in (act, s0):
                    st.mem[bid] = b
        for bid, (a, alive, data) in raw.items():
            b = act.mem[bid]
            if not alive:
                b.alive = False
                continue
            rb = Block('raw', 'bytes', len(data))
            rb.content = const_content(data)
            if b.kind == 'bytes':
                if bytes(b.content(k) & 255 for k in range(b.size)) != data:
                    b.content = const_content(data)
            elif b.kind == 'elems':
                rb2 = rb.clone()
                rb2.size = b.size
                nb2 = eng.cshape(rb2, b.ty[1], False)
                b.fields = nb2.fields
            else:
                for o in list(b.cells):
                    t, v0 = b.cells[o]
                    v = eng.load_bytes(rb, o, t)
                    b.cells[o] = (t, v)
        for bid in list(s0.mem):
            # pointers to other initial blocks compare by block
            pass
        act.ghost = dict(act.ghost)
        act.ghost['cb_n'] = len(cbs)
        act.ghost['cb_args'] = cbs
        act.ghost['log'] = case.log
        ret = decode_ret(eng, rty, body[:16])
    elif outcome == 'exit':
        act.ghost = dict(act.ghost, console=consoles(body, 0))
    from .verify import run_spec, check_post
    entry = set(s0.mem)
    eng.entry = entry
    eng.cats, eng.soft = cats, None
    eng.script, eng.spec_log = list(case.script), []
    eng.env = {} if case.home is None else {'HOME': case.home}
    if case.tree is not None and (outcome == 'return' or con.opts.get('console')):
        eng.twin = fs.Twin(case.tree)
        eng.limit = case.limit
    try:
        ctx, r, stop = run_spec(eng, con, case.vals, s0, act, outcome, ret, rty)
        if stop:
            return None
        # blocks existing only on the code side are visible to the specification's comparisons
        check_post(eng, con, ctx, r, act, entry)
        if ctx.ending and eng.twin:
            eng.oblige('sys', tree_diff(eng.twin.dump(), dump or []), eng.twin.dump() == (dump or []))
        if outcome == 'return':
            open_ = [x for x in case.log if x[:1] == b'H']
            eng.oblige('own', 'every opened file or directory is closed', not open_)
            if eng.twin:
                eng.oblige('sys', tree_diff(eng.twin.dump(), dump or []), eng.twin.dump() == (dump or []))
    except CFail as x:
        return (x.cat, x.desc)
    except Infeasible:
        return None
    except Exception:
        if eng.soft is None:
            raise
    finally:
        eng.cats = None
        if eng.twin:
            eng.twin.close()
            eng.twin = None
    return eng.soft


def consoles(body, p):
    out = {}
    for nm in ('stdout', 'stderr'):
        (n,) = struct.unpack_from('<I', body, p)
        out[nm] = body[p + 4:p + 4 + n]
        p += 4 + n
    return out


def tree_diff(s, a):
    x, y = [t for t in s if t not in a], [t for t in a if t not in s]
    return 'files and directories: specified %r, found %r' % (x[:2], y[:2])


def summarise(err):
    for ln in err.splitlines():
        if 'ERROR: AddressSanitizer' in ln or 'runtime error' in ln:
            return ln.split('ERROR: ')[-1].split('on address')[0].strip()[:160]
    return 'the process was killed by a signal'


def describe(case, res):
    eng = case.eng
    eng.st = case.s0
    d = dict(function=case.con.name, args=[], objects={}, outcome=res[0])
    for v in case.vals:
        d['args'].append(show(v))
    for bid, b in case.s0.mem.items():
        if b.kind == 'bytes':
            data = bytes(b.content(k) & 255 for k in range(b.size))
            d['objects'][str(bid)] = dict(size=b.size, hex=data.hex(), text=data.decode('latin1'), heap=b.heap)
        elif b.kind == 'cells':
            d['objects'][str(bid)] = {field_name(eng.prog, b.ty, o): show(v) for o, (t, v) in b.cells.items()}
        else:
            d['objects'][str(bid)] = dict(size=b.size, elements=[[str(c(k)) for k in range(b.size // b.stride)] for _t, c in b.fields.values()])
    if case.script:
        d['system_answers'] = case.script
    if case.tree is not None:
        d['directory_before'] = [repr(t) for t in case.tree]
        d['directory_after'] = [repr(t)[:300] for t in res[4] or []]
        d['HOME'] = repr(case.home)
    if res[0] == 'crash':
        d['sanitizer'] = res[3][:1500]
    return d


def show(v):
    if isinstance(v, I):
        return v.t
    if isinstance(v, B):
        return v.b
    if isinstance(v, F):
        return v.t.hex() if isinstance(v.t, bytes) else v.t
    if isinstance(v, P):
        if v.isnull:
            return 'NULL'
        if v.fn:
            return v.fn
        return '&%s+%s' % (v.bid, v.off) if v.bid is not None else hex(v.addr)
    return str(v)


def confirm_hang(drv, case):
    """the case still runs after ten times the usual processor time"""
    r = drv.run([encode(drv, case)], timeout=200, limit=30, trees=[case.tree])
    return bool(r) and r[0][0] == 'timeout'


def search(*a, **k):
    from . import mem
    mem.EAGER[0] = True
    try:
        return search1(*a, **k)
    finally:
        mem.EAGER[0] = False


def search1(drv, con, n=300, seed=1, overs=(), known=None, budget=30, cats=None):
    """look for an input on which the real code violates the contract.
    Returns (tried, failure or None, note)"""
    prog = drv.prog
    if con.name not in drv.idx:
        return 0, None, 'not reachable by the replay driver'
    t0 = time.time()
    cases = []
    rng = random.Random('%s:%s' % (seed, con.name))
    cs = consts(prog, con.name)
    for ov in overs:
        for _ in range(6):
            c = make_case(prog, con, Chooser(random.Random(rng.random()), ov, consts=cs))
            if c:
                cases.append(c)
    done = skipped = 0
    unsup = None
    seen = set()
    search.stats = dict(distinct=0, samples=[])
    made = tries = 0
    while True:
        chunk, cases = cases[:200], cases[200:]
        while len(chunk) < 200 and made < n and tries < n * 8 and time.time() - t0 < budget:
            tries += 1
            # after the usual sizes, every other batch is generated wider
            wide = made >= 1000 and made // 200 % 2
            c = make_case(prog, con, Chooser(random.Random(rng.random()), small=24 if wide else 5, consts=cs, wide=wide))
            if c:
                made += 1
                chunk.append(c)
        if not chunk:
            break
        blobs = [encode(drv, c) for c in chunk]
        rs = drv.run(blobs, timeout=max(20, budget), trees=[c.tree for c in chunk])
        for c, r, blob in zip(chunk, rs, blobs):
            if r[0] == 'return' and (c.tree is None or c.tree):
                seen.add(hash((blob, repr(c.tree))))
                search.stats['distinct'] = len(seen)
                if len(search.stats['samples']) < 1 and len(seen) > 5:
                    search.stats['samples'].append(describe(c, r))
            if r[0] in ('env', 'limit'):
                skipped += 1        # the run asked for something the sandbox refuses, or is too large to record
                continue
            try:
                bad = judge(prog, c, r, cats)
            except Unsupported as x:
                unsup = str(x)
                continue
            done += 1
            if bad and bad[0] == 'term' and not confirm_hang(drv, c):
                continue
            if bad and (cats is None or bad[0] in cats) and not (known and known(con, c, bad)):
                return done, (c, r, bad), ''
        if time.time() - t0 > budget:
            break
    return done, None, unsup or ('%d runs outside the sandbox or too large' % skipped if skipped else '')
