"""Graphs of lists, dicts and sets with sharing and cycles."""
import pointless

import plfmt
import pv
from harness import Fail, expect

RULE = 'the graph has a shared container or a cycle; distinct by image bytes'
LEVEL = 'exploration'


def graph(d, maxn=12):
    n = 1 + d.size(4, maxn)
    nodes = []
    for _ in range(n):
        k = d.int(5)
        nodes.append([] if k < 3 else {} if k == 3 else set())
    for x in nodes:
        m = d.size(3, 8)
        if type(x) is set:
            x.update(pv.g_key(d, pv.G(nodes=5), 1) for _ in range(m))
            continue
        for _ in range(m):
            v = d.choice(nodes) if d.int(3) else pv.g_scalar(d, pv.G(nan=False))
            w = d.int(10)
            if w == 9:
                v = (v, d.choice(nodes))
            elif w == 8:
                v = [v, d.choice(nodes)]
            if type(x) is list:
                x.append(v)
            else:
                x[pv.g_key(d, pv.G(nodes=5), 1)] = v
    if d.int(6) == 5:
        # a long ring or chain
        ring = [[] for _ in range(d.int(90))]
        for a, b in zip(ring, ring[1:]):
            if d.int(4) == 3:
                a.append(d.choice(nodes))
            a.append(b)
        if ring:
            ring[-1].append(d.choice(ring + nodes))
            nodes[0].append(ring[0]) if type(nodes[0]) is list else None
    for x in nodes:
        if type(x) is list and x and d.int(12) == 11:
            del x[1:]
    return nodes


def sharing(root):
    """(some container is shared, some is in a cycle) by walking from root"""
    shared = cyc = False
    state = {}

    def walk(x):
        nonlocal shared, cyc
        k = id(x)
        if type(x) not in (list, dict, set, tuple):
            return
        if k in state:
            shared = shared or type(x) is not tuple and len(x) > 0
            cyc = cyc or state[k] == 1
            return
        state[k] = 1
        for y in (x.values() if type(x) is dict else x):
            walk(y)
        state[k] = 2
    walk(root)
    return shared, cyc


def prop(d, c):
    nodes = graph(d)
    root = nodes[0] if d.int(3) else (list(nodes) if d.bool() else tuple(nodes))
    one(root, d, c)


def one(root, d, c):
    real = pv.real(root)
    how = d.int(3)
    img = bytes(pointless.serialize_to_bytearray(real) if how < 2 else memoryview(pointless.serialize_to_buffer(real)).cast('B'))
    v, why = plfmt.verdict(img)
    expect(v is not False, 'the image is malformed', why)
    p = pointless.Pointless(bytearray(img))
    view = p.GetRoot()
    bad = pv.iso(root, view)
    if bad:
        c.note('graph', lambda: repr(root))
        raise Fail('the structure differs', bad)
    s, r = str(view), repr(view)
    expect(s == r, 'str and repr differ')
    shared, cyc = sharing(root)
    if shared or cyc:
        c.label('cycle' if cyc else 'shared only')
        c.nontrivial(img, lambda: repr(root))


def example_self(c):
    from harness import Draw
    a = []
    a.append(a)
    one(a, Draw(tape=[]), c)
    b = {}
    b['x'] = b
    one(b, Draw(tape=[]), c)
    x, y, z = [], {}, []
    x += [y, z, 1]
    y[1] = x
    z += [z, y, [x]]
    one([x, y, z, (x, (y, z))], Draw(tape=[]), c)
    e1, e2 = {}, {}
    one([e1, e2, e1, [], []], Draw(tape=[]), c)


# every directed graph on 3 lists (each list holds a subset of the lists), and on 2 dicts and a list
def enum_count(tier):
    return 2 * 512 if tier == 'quick' else 2 * 512 + 65536


def enum_case(i, c):
    from harness import Draw
    if i < 1024:
        n, bits, third = 3, i % 512, i // 512
    else:
        n, bits, third = 4, i - 1024, 0
    ns = [[] for _ in range(n)]
    if third:
        ns[1:] = [{}, {}]
    for a in range(n):
        for b in range(n):
            if bits >> (a * n + b) & 1:
                if type(ns[a]) is list:
                    ns[a].append(ns[b])
                else:
                    ns[a][b] = ns[b]
    one(ns[0], Draw(tape=[]), c)
    one([ns[-1], ns[0]], Draw(tape=[]), c)
