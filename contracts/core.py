"""Contracts of core/core.c: checked allocation, memory primitives, swaps, status names."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from vf.models import same_bytes
MOD = 'core'

F3 = [Any(('ptr', CHAR), 'file'), Any(('ptr', CHAR), 'func'), Int(ULONG, 'line')]


@spec('vt_malloc', Int(ULONG, 'bytes'), *F3, prop='alloc')
def s_malloc(c, n, *_):
    c.exit_if(Eq(n, 0))
    c.start()
    return c.eng.heap_alloc(n, False)


@spec('vt_calloc', Int(ULONG, 'bytes'), *F3, prop='alloc')
def s_calloc(c, n, *_):
    c.exit_if(Eq(n, 0))
    c.start()
    return c.eng.heap_alloc(n, True)


@spec('vt_realloc', HeapPtr('ptr'), Int(ULONG, 'bytes'), *F3, prop='alloc')
def s_realloc(c, p, n, *_):
    c.exit_if(Eq(n, 0))
    c.start()
    if p.null:
        return c.eng.heap_alloc(n, False)
    return c.eng.heap_realloc(p.p, n)


@spec('vt_free', HeapPtr('ptr'), prop='alloc')
def s_free(c, p):
    c.start()
    if not p.null:
        c.eng.heap_free(p.p)


@spec('vt_memmove', Region('dest', 2), Region('src', 2, alias=0), Int(ULONG, 'bytes'), prop='prim')
def s_memmove(c, d, s, n):
    c.exit_if(d.null, s.null)
    c.start()
    c.eng.copy(d.p, s.p, n)
    return d


@spec('vt_memcopy', Region('dest', 2), Region('src', 2), Int(ULONG, 'bytes'), prop='prim')
def s_memcopy(c, d, s, n):
    c.exit_if(d.null, s.null)
    c.start()
    c.eng.copy(d.p, s.p, n, overlap_ok=False)
    return d


@spec('vt_memset', Region('ptr', 2), Int(INT, 'value'), Int(ULONG, 'bytes'), prop='prim')
def s_memset(c, d, v, n):
    c.exit_if(d.null)
    c.start()
    c.eng.fill(d.p, v, n)
    return d


@spec('vt_memcmp', Region('lhs', 2), Region('rhs', 2), Int(ULONG, 'bytes'), prop='prim')
def s_memcmp(c, a, b, n):
    c.exit_if(a.null, b.null)
    c.start()
    if c.case(Eq(n, 0)):
        return False
    return same_bytes(c.eng, a.p, b.p, n)


@spec('vt_gswap', Region('a', 2), Region('b', 2, alias=0, disjoint=True), Int(ULONG, 'elsize'), prop='prim')
def s_gswap(c, a, b, n):
    c.exit_if(a.null, b.null, Eq(n, 0))
    c.start()
    if a.p.bid == b.p.bid and c.case(Eq(a.p.off, b.p.off)):
        return
    x, y = a.bytes(), b.bytes()
    a.write(n, y)
    b.write(n, x)


@spec('vt_pswap', Out(('ptr', VOID), 'a'), Out(('ptr', VOID), 'b'), prop='prim')
def s_pswap(c, a, b):
    c.exit_if(a.null, b.null)
    c.start()
    x, y = a.load(('ptr', VOID)), b.load(('ptr', VOID))
    a.store(('ptr', VOID), y)
    b.store(('ptr', VOID), x)


def status_names(prog):
    return {v: k for k, v in prog.enums.items() if k.startswith('VT_STATUS_')}


@spec('vt_status_to_str', Int(UINT, 'e'), prop='prim')
def s_status(c, e):
    c.start()
    names = status_names(c.eng.prog)
    n = c.eng.prog.enums['VT_STATUS_COUNT']
    for i in range(n):
        if c.case(Eq(e, i)):
            return c.eng.literal(names[i].encode() + b'\0')
    return NULL
