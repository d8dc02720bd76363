"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), level='proof', note=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                  level=level, note=note))


ST = 'container header: length, capacity, element size, slider, data pointer, allocator'
prop('C01', 'A vector behaves as a mathematical sequence of fixed-size elements',
     'Every vector operation changes the vector exactly as the corresponding sequence operation would: the affected elements are as requested, all other elements keep their value and order, and length and capacity are what the operation promises. Queries return what the sequence contains (first matching index, element address, emptiness) and change nothing. Growth never loses or alters an element.',
     ['inputs', 'histories'], 'all vectors (any length, capacity, element size, content, allocator), all arguments, hence all histories of operations',
     'tests push a few dozen ints and look at some of them; the claim is about every length, element size, position and growth boundary',
     ['src/vita/container/vec.c', 'src/vita/container/common.c', 'inc/vita/container/vec.h'],
     [('insert shifts the tail then copies the value', 'vec.c: vt_vec_insert'), ('growth by reserve before writing', 'vec.c: vt_vec_push_back'), ('stable / swap removal', 'vec.c: vt_vec_remove')])
prop('C02', 'A pointer list behaves as a sequence of pointers',
     'Every pointer-list operation has exactly the effect of the corresponding operation on a sequence of pointers: inserted, removed, replaced, found and popped elements are the requested ones, and all other elements keep their value and order. The pointed-to objects are never read, written or freed.',
     ['inputs', 'histories'], 'all lists, all pointer values, all positions and both removal strategies',
     'tests use a handful of literal strings and never cross every growth and removal boundary',
     ['src/vita/container/plist.c', 'src/vita/container/common.c', 'inc/vita/container/plist.h'],
     [('typed element stores and memmove on the pointer array', 'plist.c: vt_plist_insert, vt_plist_remove'), ('linear search for the first occurrence', 'plist.c: vt_plist_can_find')])
prop('C03', 'Vectors and pointer lists stay valid, in bounds and leak-free',
     'Starting from a valid container, every operation touches only memory belonging to its arguments, leaves the container valid (length within capacity, storage large enough for the capacity, same element size and allocator), and frees each block exactly once through the allocator it came from. No operation leaks memory or leaves a dangling data pointer.',
     ['inputs', 'histories'], 'all valid containers with and without an allocator, all arguments, all histories',
     'out-of-bounds accesses and leaks are invisible to assertion tests and depend on the exact length/capacity relation',
     ['src/vita/container/vec.c', 'src/vita/container/plist.c', 'src/vita/container/common.c'],
     [('representation invariant re-established by every function', 'common.c, vec.c, plist.c'), ('allocator used for every allocation, reallocation and free', 'common.c: vt_array_new, vt_array_free')])
prop('C04', 'Misuse of containers and memory helpers terminates, valid use never does',
     'A call with a null object, an out-of-range position, a zero size or count, or an unknown removal strategy terminates the process before any memory is touched, and never returns. A call with valid arguments never terminates the process (other than for lack of memory) and never has undefined behaviour.',
     ['inputs'], 'all arguments of every vector, pointer-list, array and memory-helper function',
     'tests only make valid calls: a terminating call would end the test program',
     ['src/vita/container/vec.c', 'src/vita/container/plist.c', 'src/vita/container/common.c', 'src/vita/core/core.c'],
     [('argument checks at the head of each function', 'VT_DEBUG_ASSERT in each function')])
prop('C05', 'Sliding iteration visits every element exactly once, in order',
     'Repeatedly sliding forwards yields the elements from first to last and then a null once, after which iteration restarts; sliding backwards yields them from last to first in the same way. Resetting restarts iteration, and iterating never changes the contents.',
     ['inputs', 'histories'], 'all containers, all slider positions, all sequences of slide calls',
     'the tests slide over one short vector in one direction',
     ['src/vita/container/common.c', 'src/vita/container/vec.c', 'src/vita/container/plist.c'],
     [('slider index in the container header', 'common.c: vt_array_slide_front, vt_array_slide_back')])
prop('C06', 'Memory helpers allocate, move, fill, compare and swap exactly as asked',
     'The allocation helpers return a block of the requested size (zeroed where promised, contents kept on reallocation) or terminate. Moving, copying, filling, comparing and swapping affect or examine exactly the requested bytes and nothing else, including for overlapping moves, and every status code maps to its own text.',
     ['inputs'], 'all sizes, contents, offsets and overlaps',
     'tests move one small buffer; the claim is for every overlap and size',
     ['src/vita/core/core.c', 'inc/vita/core/core.h'],
     [('checked wrappers around libc', 'core.c: vt_malloc .. vt_memcmp'), ('byte swap through a temporary', 'core.c: vt_gswap')])
prop('C07', 'Flattened and multi-dimensional indices are inverse to each other',
     'Flattening a 2D or 3D position gives the row-major index, and unflattening an index gives the one in-range position whose flattening is that index, for every grid shape.',
     ['inputs'], 'all indices and grid shapes whose sizes are representable',
     'tests try a few points of one grid',
     ['src/vita/container/common.c'],
     [('division and remainder by the row and plane size', 'common.c: vt_index_*')])
NA = []
exec(open(os.path.join(HERE, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'more.py')) else None

TECH = 'contract-based deductive verification of the real C code (weakest-precondition style symbolic execution over the clang AST, z3/cvc5)'
NOTE = ('Every obligation of every function the property depends on is generated from the current source and discharged for all inputs; '
        'trusted: the verifier, clang AST, solvers, libc models, conforming user allocators/callbacks. Functions the prover cannot decide '
        'on a changed tree fall back to a bounded concrete check, labelled as such in the evidence.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            if p['state']:
                d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(d) + '\n')
    na = {x['property'] for x in NA}
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py',
             checks=[dict(property=p['id'], quick_cmd='python3-vt check.py --property %s --tier quick' % p['id'],
                          thorough_cmd='python3-vt check.py --property %s --tier thorough' % p['id'],
                          technique=TECH, level=p['level'], level_note=p['note'] or NOTE) for p in P if p['id'] not in na],
             not_applicable=NA)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
