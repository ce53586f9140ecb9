"""C34: redeclipse.vector.re, the integer and real vectors of the map format"""
from harness.driver import BAD, call, num

TRACE = {'ivec': 'IvecTrace'}
SHARDS = {'ivec': 2}
ZERO = [0, 0, 0]


def mc(pid, tier):
    return [{'module': 'IvecMC', 'cfg': 'IvecMC.cfg' if tier == 'quick' else 'IvecMCT.cfg', 'workers': 4}]


def gen(pid, tier):
    return [{'name': 'chain', 'module': 'IvecMC', 'cfg': 'IvecGen.cfg', 'num': 60 if tier == 'quick' else 1500, 'depth': 23}]


def enc(v):
    try:
        return [num(v.x), num(v.y), num(v.z)]
    except AttributeError:
        return [BAD, BAD, BAD]


class Rec:
    def __init__(self, ctx):
        self.ctx, self.ev = ctx, []

    def mk(self, p, fl=None):
        from redeclipse.vector.re import ivec3
        fl = self.ctx.rnd.random() < .2 if fl is None else fl
        return ivec3(*[float(x) if fl else x for x in p])

    def op(self, op, v, b=None, n=0, chain=False):
        from redeclipse.vector import re
        a0, b0 = enc(v), list(b) if b is not None else ZERO
        w = self.mk(b) if op in ('sub', 'add', 'cross') else None
        f = {'mask': lambda: v.mask(n), 'shl': lambda: v.shl(n), 'sub': lambda: v.sub(w), 'add': lambda: v.add(w), 'mul': lambda: v.mul(n),
             'cross': lambda: re.cross(v, w), 'octant': lambda: re.ivec3.ivec5(b[0], v.x, v.y, v.z, n)}[op]
        r = call(f)
        x = r[1] if r[0] == 'ok' else None
        self.ev.append({'op': op, 'a': a0, 'b': b0, 'n': n, 'r': enc(x), 'kind': type(x).__name__, 'a2': enc(v), 'b2': enc(w) if w is not None else b0,
                        'chain': chain, 'key': op})
        if x is not None:
            self.read(x, self.mk([self.ctx.rnd.randint(-9, 9) for _ in range(3)]))
        return x

    def read(self, v, w):
        a0 = enc(v)
        d = call(v.to_dict)
        xs = d[1] if d[0] == 'ok' and isinstance(d[1], list) and len(d[1]) == 3 else [BAD] * 3
        whole = all(type(x) is int for x in xs) and [call(v.X), call(v.Y), call(v.Z)] == [('ok', x) for x in xs]
        it = [call(v.gg, k) for k in range(3)]
        dot = call(v.dot, w)
        z = call(v.iszero)
        self.ev.append({'op': 'read', 'a': a0, 'b': enc(w), 'r': [num(x) for x in xs], 'items': [num(x[1]) if x[0] == 'ok' else BAD for x in it],
                        'zero': bool(z[1]) if z[0] == 'ok' else not all(x == 0 for x in a0), 'whole': whole,
                        'dot': num(dot[1]) if dot[0] == 'ok' else BAD, 'a2': enc(v), 'key': 'read'})

    def plain(self, cls, p):
        """the other vectors keep what they are given: integers or halves"""
        v = cls(*p)
        flt = cls.__name__.startswith('vec')
        d = call(v.to_dict)
        xs = d[1] if d[0] == 'ok' and isinstance(d[1], list) and len(d[1]) == len(p) else [None] * len(p)
        acc = [call(getattr(v, k)) for k in 'XYZ'[:len(p)]]
        self.ev.append({'op': 'plain', 'a': [num(x, 2) for x in p], 'r': [num(x, 2) for x in xs],
                        'types': all(type(x) is (float if flt else int) for x in xs) and acc == [('ok', x) for x in xs] and len(xs) == len(p), 'key': cls.__name__})


def drive(ctx):
    ctx.guard('chains', chains, ctx)
    ctx.guard('arith', arith, ctx)
    ctx.guard('plain', plain, ctx)


def chains(ctx):
    for g in ctx.gens['chain']:
        r, cur, first = Rec(ctx), None, True
        for o in g['ops']:
            if o['op'] == 'start' or cur is None:
                cur, first = r.mk(o['b']), True
                continue
            cur = r.op(o['op'], cur, o['b'], o['n'], chain=not first)
            first = False
        if r.ev:
            ctx.scen('ivec', 'chain', r.ev)


def arith(ctx):
    rnd = ctx.rnd
    for _ in range(20 if ctx.quick else 300):
        r = Rec(ctx)
        for _ in range(8):
            def v(n=rnd.choice([1, 9, 300, 4000])):
                return [rnd.randint(-n, n) for _ in range(3)]
            for op in ('sub', 'add', 'cross'):
                r.op(op, r.mk(v()), v())
            r.op('mask', r.mk(v()), n=rnd.choice([0, 1, 7, -8, 255, -256, 4095, rnd.randrange(4096), -rnd.randrange(1, 4096)]))
            r.op('shl', r.mk(v()), n=rnd.randrange(9))
            r.op('mul', r.mk(v()), n=rnd.randint(-20, 20))
            r.op('octant', r.mk(v(), False), [rnd.randrange(8), 0, 0], rnd.choice([1, 2, 4, 64, 512]))
        r.read(r.mk(ZERO), r.mk(v()))
        for k in range(3):
            r.read(r.mk([int(k == j) for j in range(3)]), r.mk(v()))
        ctx.scen('ivec', 'arith', r.ev)
    r = Rec(ctx)
    for k in range(8):
        r.op('octant', r.mk([8, -16, 24], False), [k, 0, 0], 8)
    ctx.scen('ivec', 'octants', r.ev)


def plain(ctx):
    from redeclipse.vector import re
    rnd = ctx.rnd
    r = Rec(ctx)
    for _ in range(30):
        def h():
            return rnd.choice([rnd.randint(-99, 99), rnd.randint(-99, 99) / 2])
        r.plain(re.ivec2, [rnd.randint(-99, 99), rnd.randint(-99, 99)])
        r.plain(re.vec2, [h(), h()])
        r.plain(re.vec3, [h(), h(), h()])
        a, b = [rnd.randint(-99, 99) for _ in range(3)], [rnd.randint(-99, 99) for _ in range(3)]
        x = call(re.cross, re.vec3(*a), re.vec3(*b))
        r.ev.append({'op': 'real', 'a': a, 'b': b, 'r': enc(x[1]) if x[0] == 'ok' else [BAD] * 3, 'kind': type(x[1]).__name__, 'key': 'cross'})
    ctx.scen('ivec', 'plain', r.ev)
