"""Contracts of system/path.c: questions about paths, changes to the file system, and path text."""
import os, shutil
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from vf import fs
from vf.mem import Content
from vf.ex import Infeasible
from .str import new_str, S_, RET, fill_list
from .fileio import Path
MOD = 'path'
SEP = 47


def ask(name, what, prop='pathfs'):
    @spec(name, Path('z'), prop=prop, fs=True)
    def f(c, z):
        c.exit_if(z.null)
        c.start()
        return what(c, c.text(z))


ask('vt_path_exists', lambda c, t: c.fs.exists(t))
ask('vt_path_is_dir', lambda c, t: c.fs.is_dir(t))
ask('vt_path_is_file', lambda c, t: c.fs.is_file(t))
ask('vt_path_get_file_size', lambda c, t: c.fs.size(t) if c.case(c.fs.exists(t)) else -1)
# creating what exists already is a success; removing or renaming what does not exist is a failure
ask('vt_path_mkdir', lambda c, t: True if c.case(c.fs.exists(t)) else c.fs.change('mkdir', t, 0o775))
ask('vt_path_rmdir', lambda c, t: c.fs.change('rmdir', t) if c.case(c.fs.exists(t)) else False)
ask('vt_path_remove', lambda c, t: c.fs.change('remove', t) if c.case(c.fs.exists(t)) else False)


@spec('vt_path_rename', Path('z1'), Path('z2'), prop='pathfs', fs=True)
def rename(c, z1, z2):
    c.exit_if(z1.null, z2.null)
    c.start()
    t = c.text(z1)
    return c.fs.change('rename', t, c.text(z2)) if c.case(c.fs.exists(t)) else False


# ---------------------------------------------------------------- path text
@spec('vt_path_get_cwd', Alloc(), prop='pathtext', fs='gone')
def get_cwd(c, al):
    c.start()
    w = c.fs.cwd()
    if w is None:
        return NULL
    n, f = w
    return new_str(c, al, n, simp(Max(n, 1)), f)


@spec('vt_path_expand_tilda', CStr('z', pick=[b'~', b'~/a', b'a~', b'~~', b'', b'/x/~', b'~a/b', b'a']), Alloc(), prop='pathtext', fs=True)
def expand_tilda(c, z, al):
    c.exit_if(z.null)
    c.start()
    s = new_str(c, al, z.len, simp(Max(z.len, 1)), z.chars())
    if c.case(And(z.len > 0, Eq(z.byte(0), 126))):
        h = c.fs.getenv('HOME')
        if h is not None:
            n, f = h
            src = z.chars()
            ln = simp(Add(Sub(z.len, 1), n))
            cap = c.any_result_cap(ln)
            s.grow(Add(cap, 1))
            s.capacity = cap
            s.put(0, n, f)
            s.put(n, Sub(z.len, 1), lambda j: src(Add(j, 1)))
            s.end(ln)
    return s


@spec('vt_path_validate', CStr('z', writable=True, alpha=b'a/\\b'), prop='pathtext',
      hints=[content(lambda c, z: None if z.null else {z.p.bid: (lambda old: lambda k: If(And(k < z.len, Eq(old(k), 92)), SEP, old(k)))(z.bytes())})])
def validate(c, z):
    c.exit_if(z.null)
    c.start()
    old = z.bytes()
    n = z.len
    z.write(n, lambda j: If(Eq(old(j), 92), SEP, old(j)))


@spec('vt_path_pop', CStr('z', writable=True, alpha=b'a/b/', pick=[b'', b'/', b'a', b'a/', b'/a', b'a/b', b'a/b/', b'//']), prop='pathtext',
      hints=[scan(lambda c, z: None if z.null else (lambda old: lambda k: Ne(old(k), SEP))(z.bytes()))])
def pop(c, z):
    """cut at the last separator"""
    c.exit_if(z.null)
    c.start()
    old = z.bytes()
    w = c.last_index(z.len, lambda k: Eq(old(k), SEP))
    if c.case(w >= 0):
        z.write(1, lambda j: 0, at=w)


@spec('vt_path_basename', S_('s', nodata=False), CStr('z', apart=0, alpha=b'a/b', pick=[b'a/b', b'/', b'a/', b'/a', b'a//', b'//', b'a/b/', b'/usr/local/bin']), ret=RET,
      prop='pathtext', hints=[scan(lambda c, s, z: None if z.null else (lambda old: lambda k: Ne(old(k), SEP))(z.bytes()))])
def basename(c, s, z):
    """the text after the last separator that is not the final character"""
    c.exit_if(z.null)
    if not z.null:
        c.exit_if(Eq(z.len, 0))
    if not s.null:
        c.requires(Not(s.is_view), 'the result string is not a view')
    c.start()
    src = z.bytes()
    isep = lambda k: Eq(src(k), SEP)
    if c.case(c.first_index(z.len, isep) < 0):
        return s
    w = c.last_index(simp(Sub(z.len, 1)), isep)
    lo = simp(Add(w, 1))
    n = simp(Sub(z.len, lo))
    text = lambda j: src(Add(lo, j))
    if s.null:
        return new_str(c, NULL, n, c.any_result_cap(n), text)
    c.may_grow(s, n)
    s.put(0, n, text)
    s.end(n)
    return s


def joined(c, s, words):
    exact = lambda: (s.text() if not s.null else b'') + b'/'.join(words())
    if s.null:
        return c.any_new_text(NULL, exact)
    n0 = s.len
    c.any_text(s, exact)
    c.ensure(s.len >= n0, 'the text does not get shorter')
    return s


@spec('vt_path_build', S_('s', nodata=False), Arr('plist', 'p'), ret=RET, prop='pathtext', opts={'cstr_elems': True},
      gen=lambda ctx, g, s, p: fill_list(ctx, g, p))
def build(c, s, p):
    c.exit_if(p.null)
    if not p.null:
        c.exit_if(Eq(p.len, 0))
        if not s.null:
            c.requires(Not(s.is_view), 'the result string is not a view')
        c.requires(c.cstr_elems(p), 'every element is a C string')
    c.start()

    def words():
        el = p.content()
        return [c.text(PtrView(c, c.eng.ptr_of(el(k)) if not isinstance(el(k), tuple) else P(el(k)[1], el(k)[2]))).bytes() for k in range(p.len)]
    return joined(c, s, words)


@spec('vt_path_build_n', S_('s', nodata=False), Int(ULONG, 'n', pick=[1, 2, 3]), ret=RET, prop='pathtext', varargs=True,
      va=[CStr('w1', null=False), CStr('w2', null=False), CStr('w3', null=False)],
      tramp='vt_str_t *x = vt_path_build_n(*(vt_str_t **)&a[0], *(size_t *)&a[1], *(char **)&a[2], *(char **)&a[3], *(char **)&a[4]); memcpy(r, &x, sizeof x);')
def build_n(c, s, n):
    c.exit_if(Eq(n, 0))
    if not s.null:
        c.requires(Not(s.is_view), 'the result string is not a view')
    c.requires(n <= (3 if c.eng.concrete_mode else 1 << 32), 'number of arguments')
    c.start()
    return joined(c, s, lambda: [c.text(x).bytes() for x in c.extra[:n]])


# ---------------------------------------------------------------- directories as a whole (concrete runs only)
def concrete_only(c):
    if not c.eng.concrete_mode:
        raise Unsupported('directory traversal')


def listing(z, deep, nodots):
    """what a directory holds; links are listed, never followed"""
    out = []
    for n in os.listdir(z):
        if nodots and n.startswith(b'.'):
            continue
        p = z + b'/' + n
        if deep:
            if os.path.isdir(p) and not os.path.islink(p):
                out += listing(p, True, nodots)
            out.append(p)
        else:
            out.append(n)
    return out


def lister(name, deep):
    @spec(name, Arr('plist', 'p', nodata=False), Path('z'), Int(BOOL, 'nodots'), ret=Arr('plist', 'ret'), prop='dirtree', bounded='directory traversal', fs=True)
    def f(c, p, z, nodots):
        c.exit_if(z.null)
        c.start()
        concrete_only(c)
        t = c.text(z).bytes()
        xs = c.eng.twin.do(lambda: listing(t, deep, nodots) if os.path.isdir(t) else None)
        if xs is None:
            return NULL
        at = p.len if deep and not p.null else 0
        xs = c.in_any_order(xs, at)
        al = NULL if p.null else p.alloctr
        new = [new_str(c, al, len(x), max(len(x), 1), const_content(x)) for x in xs]
        if p.null:
            p = c.new_array(NULL, 0, c.any_result_cap(len(new)), 8, elems=True)
        else:
            c.may_grow(p, at + len(new))
        c.list_of(p, new, at)
        return p


lister('vt_path_dir_list', False)
lister('vt_path_dir_list_recurse', True)


def fill_strs(ctx, g, p):
    """list elements become string containers of the list's allocator"""
    if p.null:
        return
    n = p.len
    if n > 60:
        raise Infeasible()
    eng = ctx.eng
    db = eng.mut(p.data_ptr.bid)
    refs = []
    for k in range(n):
        t = bytes(g.rng.choice(b'ab/c') for _ in range(g.rng.choice([0, 1, 3, 6])))
        refs.append(('blk', ctx.string_object('el%d' % k, t, p.alloctr), 0))
    m = db.size // 8
    db.fields[0] = (db.fields[0][0], Content(lambda k: refs[k] if 0 <= k < n else 0))


@spec('vt_path_dir_free', Arr('plist', 'p'), prop='dirtree', bounded='directory traversal', gen=lambda ctx, g, p: fill_strs(ctx, g, p))
def dir_free(c, p):
    """the list and every string in it are released, each to its allocator"""
    c.exit_if(p.null)
    c.start()
    concrete_only(c)
    el = p.content()
    for k in range(p.len):
        s = c.container(c.eng.ptr_of(el(k)) if not isinstance(el(k), tuple) else P(el(k)[1], el(k)[2]))
        s.free_data()
        s.free()
    p.free_data()
    p.free()


@spec('vt_path_mkdir_parents', Path('z'), prop='dirtree', bounded='directory traversal', fs=True)
def mkdir_parents(c, z):
    c.exit_if(z.null)
    if not z.null:
        c.exit_if(Eq(z.len, 0))
    c.start()
    concrete_only(c)
    t = c.text(z).bytes()

    def f():
        if os.path.exists(t):
            return True
        path = b'/' if t[:1] == b'/' else b''
        for x in t.split(b'/'):
            if x:
                path += x + b'/'
                if not os.path.exists(path) and not fs._ok(os.mkdir, path, 0o775):
                    return False
        return True
    return c.eng.twin.do(f)


def by_name(g, z):
    """the path is that of a directory (not of a link), given by name"""
    t = z.bytes().rstrip(b'/')
    w = fs.Twin(fs.gen_tree(g))
    try:
        if t.split(b'/')[-1] in (b'.', b'..') or w.do(lambda: os.path.islink(t)):
            raise Infeasible()
    finally:
        w.close()


@spec('vt_path_rmdir_recurse', Path('z'), prop='dirtree', bounded='directory traversal', fs=True, gen=lambda ctx, g, z: z.null or by_name(g, ctx.text(z)))
def rmdir_recurse(c, z):
    """the directory and everything in it is gone; what links in it lead to is untouched"""
    c.exit_if(z.null)
    c.start()
    concrete_only(c)
    t = c.text(z).bytes()

    def f():
        if not os.path.isdir(t):
            return False
        shutil.rmtree(t)
        return True
    return c.eng.twin.do(f)


@spec('vt_path_get_this_exe_location', Alloc(), ret=RET, prop='pathtext',
      script=lambda g: [g.rng.choice([-1, 0, 1, 5, 100, 4094, 4095, 4096, 5000])])
def exe(c, al):
    c.start()
    n, f = c.fs.link('/proc/self/exe')
    if c.case(n <= 0):
        return NULL
    n = simp(Min(n, 4096))
    return new_str(c, al, n, c.any_result_cap(n), f)
