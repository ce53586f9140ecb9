"""C07, C08: redeclipse.vector and redeclipse.vector.orientations"""
import math

from harness.driver import BAD, call, num

TRACE = {'vector': 'VectorTrace'}
TRACECFG = {'vector': 'VectorTrace.cfg'}
SHARDS = {'vector': 4}
U = 64
NONE = {'c': 'B', 'p': [0, 0, 0]}
DIRS = ['EAST', 'NORTH', 'WEST', 'SOUTH']


def mc(pid, tier):
    return [{'module': 'VectorMC', 'cfg': 'VectorMC.cfg' if tier == 'quick' else 'VectorMCT.cfg', 'workers': 6}]


def gen(pid, tier):
    return [{'name': 'chain', 'module': 'VectorMC', 'cfg': 'VectorGen.cfg', 'num': 60 if tier == 'quick' else 1500, 'depth': 13}]


def enc(v):
    from redeclipse.vector import BaseVector, CoarseVector, FineVector
    c = {BaseVector: 'B', FineVector: 'F', CoarseVector: 'C'}.get(type(v), 'other')
    try:
        return {'c': c, 'p': [num(v.x, U), num(v.y, U), num(v.z, U)]}
    except AttributeError:
        return {'c': 'other', 'p': [BAD, BAD, BAD]}


def mk(c, p, fl=False):
    from redeclipse.vector import BaseVector, CoarseVector, FineVector
    q = [x if isinstance(x, float) and x != int(x) else (float(x) if fl else int(x)) for x in p]
    return {'B': BaseVector, 'F': FineVector, 'C': CoarseVector}[c](*q)


def named(k):
    from redeclipse.vector import orientations
    return getattr(orientations, DIRS[k % 4])


class Rec:
    def __init__(self, ctx):
        self.ctx, self.ev = ctx, []

    def op(self, op, v, b=None, n=0, chain=False):
        rnd = self.ctx.rnd
        a0, b0 = enc(v), enc(b) if b is not None else NONE
        turn = n
        if op in ('rot', 'offrot'):
            how = rnd.random()
            if how < .6:
                turn = 90 * (n + 4 * rnd.choice([0, 0, 0, -1, 1, -2, 2]))
            elif how < .9:
                turn = named(n)
            else:
                from redeclipse.vector import orientations
                turn = getattr(orientations, DIRS[n % 4] + '_FINE')
        f = {'rot': lambda: v.rotate(turn), 'offrot': lambda: v.offset_rotate(turn, offset=b), 'add': lambda: v + b,
             'sub': lambda: v - b, 'fine': lambda: v.fine(), 'coarse': lambda: v.coarse(), 'entity': lambda: v.entity(),
             'mul': lambda: v * n, 'div': lambda: v / n, 'floordiv': lambda: v // n, 'vox': lambda: v.vox()}[op]
        r = call(f)
        res = enc(r[1]) if r[0] == 'ok' else {'c': r[0], 'p': [0, 0, 0]}
        self.ev.append({'op': op, 'a': a0, 'b': b0, 'n': n, 'r': res, 'a2': enc(v),
                        'b2': enc(b) if b is not None else NONE, 'chain': chain, 'key': op})
        return r[1] if r[0] == 'ok' else None

    def pair(self, a, b):
        from redeclipse.vector import CoarseVector, FineVector
        same = type(a) is type(b)
        d = {'op': 'pair', 'a': enc(a), 'b': enc(b), 'lt': False, 'gt': False, 'le': False,
             'eq': call(lambda: a == b) == ('ok', True), 'qe': call(lambda: b == a) == ('ok', True),
             'ne': call(lambda: a != b) == ('ok', True),
             'samehash': call(lambda: hash(a) == hash(b)) == ('ok', True),
             'found': call(lambda: b in {a: 1} and a in {b}) == ('ok', True),
             'key': 'pair-%s' % ('same-kind' if same else 'fine-and-coarse'
                                 if {type(a), type(b)} == {FineVector, CoarseVector} else 'other')}
        if same:
            d['lt'] = call(lambda: a < b) == ('ok', True)
            d['gt'] = call(lambda: a > b) == ('ok', True)
            d['le'] = call(lambda: a <= b) == ('ok', True)
        self.ev.append(d)

    def access(self, v):
        other = self.ctx.rnd.choice([3, 4, -1, -4, 255, 'x', 'y', None, 'p'])
        self.ev.append({'op': 'access', 'a': enc(v), 'items': [num(v[k], U) for k in range(3)],
                        'refused': call(lambda: v[other])[0] == 'raise',
                        'iter': [num(x, U) for x in v], 'len': len(v), 'key': 'access'})


def half(rnd):
    r = rnd.random()
    if r < .5:
        return rnd.randint(-9, 9)
    if r < .8:
        return rnd.randint(-300, 300) / 2
    return rnd.choice([0, 1, -1, .5, -.5, 7, 8, -8, 7.5, 15.5, 16, -7.5, 255, 256, 127.5, 1024])


def rvec(rnd, kinds='FCFCB'):
    return mk(rnd.choice(kinds), [half(rnd) for _ in range(3)], rnd.random() < .3)


def chains(ctx):
    for g in ctx.gens['chain']:
        r = Rec(ctx)
        u = g['u']

        def v(d):
            return mk(d['c'], [x / u for x in d['p']], ctx.rnd.random() < .3)
        cur = v(g['ops'][0]['b'])
        first = True
        for o in g['ops'][1:]:
            b = v(o['b']) if o['op'] in ('add', 'sub', 'offrot') else None
            nxt = r.op(o['op'], cur, b, o['n'], chain=not first)
            first = False
            if nxt is None:
                break
            cur = nxt
        if r.ev:
            ctx.scen('vector', 'chain', r.ev)


def c07(ctx):
    from redeclipse.vector import BaseVector, CoarseVector, FineVector, orientations as o
    rnd = ctx.rnd
    chains(ctx)
    n = 1 if ctx.quick else 12
    for rep in range(20 * n):
        r = Rec(ctx)
        for _ in range(20):
            v = rvec(rnd)
            k = rnd.randrange(4)
            r.op('rot', v, n=k)
            r.op('offrot', v, rvec(rnd, 'FC') if not type(v) is BaseVector else mk('B', [half(rnd) for _ in range(3)]), rnd.randrange(4))
            r.access(v)
        ctx.scen('vector', 'rotate', r.ev)
    # all directions by all turns, and tile-centre rotation of all 64 ground positions
    r = Rec(ctx)
    for k in range(4):
        for j in range(4):
            for cls in 'FCB':
                r.op('rot', mk(cls, [[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0]][j]), n=k)
        for x in range(8):
            for y in range(8):
                r.op('offrot', mk('F', [x, y, (x * y) % 8]), o.TILE_VOX_OFF, k)
                if (x + y) % 4 == 0:
                    r.op('offrot', mk('C', [4 * x, 4 * y, 3]), CoarseVector(-16, -16, 0), k)
    ctx.scen('vector', 'turns', r.ev)
    for rep in range(20 * n):
        r = Rec(ctx)
        pool = [rvec(rnd) for _ in range(4)]
        for v in list(pool):
            c = 'FCB'[[FineVector, CoarseVector, BaseVector].index(type(v))]
            pool.append(mk(c, list(v), True))
            w = list(v)
            w[rnd.randrange(3)] += rnd.choice([-1, 1, .5, -.5])
            pool.append(mk(c, w))
            pool.append(mk(c, [v.y, v.x, v.z]))
            pool.append(mk(c, [v.x, v.z, v.y]))
            if c == 'C':
                pool.append(v.fine())
        for _ in range(60):
            r.pair(rnd.choice(pool), rnd.choice(pool))
        for v in pool:
            r.pair(v, v)
        ctx.scen('vector', 'pairs', r.ev)
    r = Rec(ctx)
    for a in pool[:6]:
        for b in (None, 3, 'x', (a.x, a.y, a.z)):
            x, y = call(lambda: a == b), call(lambda: a != b)
            r.ev.append({'op': 'const', 'vec': {'c': 'eq', 'p': [x == ('ok', True), y == ('ok', True)]},
                         'want': {'c': 'eq', 'p': [False, True]}, 'key': 'eq-other'})
    for k, name in enumerate(DIRS):
        r.ev.append({'op': 'dir', 'n': k, 'name': str(o.n(getattr(o, name))), 'vec': enc(getattr(o, name)),
                     'fine': enc(getattr(o, name + '_FINE')), 'deg': int(o.get_vector_rotation(getattr(o, name))), 'key': 'dir'})
        for a in list(range(0, 360, 45)) + [359, 360, 361, -90, 720, rnd.randrange(1000)]:
            y = call(o.rotate_yaw, a, getattr(o, name))
            r.ev.append({'op': 'yaw', 'angle': a, 'n': k, 'out': num(y[1]) if y[0] == 'ok' else BAD, 'key': 'yaw'})
            y = call(o.rotate_yaw, a, named(0).rotate(90 * k))
            r.ev.append({'op': 'yaw', 'angle': a, 'n': k, 'out': num(y[1]) if y[0] == 'ok' else BAD, 'key': 'yaw'})
    consts = {'SELF': ('C', (0, 0, 0)), 'ABOVE': ('C', (0, 0, 1)), 'BELOW': ('C', (0, 0, -1)),
              'NORTHWEST': ('C', (-1, 1, 0)), 'NORTHEAST': ('C', (1, 1, 0)), 'SOUTHWEST': ('C', (-1, -1, 0)),
              'SOUTHEAST': ('C', (1, -1, 0)), 'TILE_CENTER': ('F', (4, 4, 0)), 'HALF_HEIGHT': ('F', (0, 0, 4)),
              'VOXEL_OFFSET': ('F', (.5, .5, .5)), 'TILE_VOX_OFF': ('F', (-3.5, -3.5, .5)),
              'ABOVE_FINE': ('F', (0, 0, 1)), 'BELOW_FINE': ('F', (0, 0, -1))}
    for name, (c, p) in consts.items():
        r.ev.append({'op': 'const', 'vec': enc(getattr(o, name)), 'want': {'c': c, 'p': [num(x, U) for x in p]}, 'key': name})
    r.ev.append({'op': 'const', 'vec': {'c': 'list', 'p': sorted(enc(x)['p'] for x in o.CARDINALS)},
                 'want': {'c': 'list', 'p': sorted([[U, 0, 0], [0, U, 0], [-U, 0, 0], [0, -U, 0]])}, 'key': 'CARDINALS'})
    ctx.scen('vector', 'names', r.ev)


def c08(ctx):
    rnd = ctx.rnd
    chains(ctx)
    n = 1 if ctx.quick else 12
    for rep in range(40 * n):
        r = Rec(ctx)
        for _ in range(10):
            v, b = rvec(rnd), rvec(rnd)
            r.op('add', v, b)
            r.op('add', b, v)
            r.op('sub', v, b)
            for op in ('fine', 'coarse', 'entity', 'vox'):
                r.op(op, v)
            r.op('mul', v, n=rnd.choice([-3, -1, 0, 1, 2, 4, 8, 11]))
            r.op('div', v, n=rnd.choice([1, 2, 4, 8, 16]))
            r.op('floordiv', v, n=rnd.choice([1, 2, 3, 4, 8]))
        ctx.scen('vector', 'arith', r.ev)
    for rep in range(10 * n):
        r = Rec(ctx)
        for _ in range(10):
            v, b = [mk(rnd.choice('FCFCB'), [rnd.choice([rnd.randint(-300, 300), rnd.randint(-9000, 9000)]) / 32 for _ in range(3)], True) for _ in range(2)]
            r.op('add', v, b)
            r.op('sub', v, b)
            for op in ('fine', 'coarse', 'entity', 'vox'):
                r.op(op, v)
            r.op('mul', v, n=rnd.choice([-3, -1, 0, 1, 2, 8]))
            r.op('div', v, n=rnd.choice([1, 2]))
            r.op('floordiv', v, n=rnd.choice([1, 2, 4, 8]))
        ctx.scen('vector', 'fractions', r.ev)
    r = Rec(ctx)
    for x in range(-17, 18):
        for fl in (False, True):
            r.op('coarse', mk('F', [x, -x, x + .5], fl))
            r.op('fine', mk('C', [x, -x, x], fl))
            r.op('entity', mk('C', [x, -x, x], fl))
            r.op('entity', mk('F', [x, -x, x + .5], fl))
    ctx.scen('vector', 'borders', r.ev)


def drive(ctx):
    {'C07': c07, 'C08': c08}[ctx.pid](ctx)
