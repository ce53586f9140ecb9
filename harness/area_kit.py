"""C09: redeclipse.prefabs.construction_kit; C24: redeclipse.aftereffects"""
from fractions import Fraction

from harness.driver import BAD, call, num, vec

TRACE = {'kit': 'KitTrace', 'effects': 'EffectsTrace'}
TRACECFG = {'kit': 'KitTrace.cfg'}
SHARDS = {'kit': 6, 'effects': 6}
DIR = {(1, 0, 0): 'EAST', (0, 1, 0): 'NORTH', (-1, 0, 0): 'WEST', (0, -1, 0): 'SOUTH', (0, 0, 1): 'ABOVE', (0, 0, -1): 'BELOW'}
DIRS = list(DIR)


def mc(pid, tier):
    m = 'KitMC' if pid == 'C09' else 'EffectsMC'
    return [{'module': m, 'cfg': m + ('.cfg' if tier == 'quick' else 'T.cfg'), 'workers': 6}]


def gen(pid, tier):
    q = tier == 'quick'
    if pid == 'C09':
        return [{'name': 'kit', 'module': 'KitMC', 'cfg': 'KitGen.cfg', 'num': 40 if q else 800, 'depth': 9}]
    return [{'name': 'eff', 'module': 'EffectsMC', 'cfg': 'EffectsGen.cfg', 'num': 25 if q else 500, 'depth': 8}]


def texid(c):
    """one number for the look of a cube"""
    try:
        t = [num(x) for x in c.texture]
        if c.children or c.octsav != 35 or c.surfmask != 63 or len(t) != 6:
            return BAD
        if len(set(t)) == 1:
            return t[0]
        return 1000 + t[0] if t[1:] == [11, 12, 13, 14, 300 + t[0]] else BAD
    except Exception:
        return BAD


def dump(w):
    return [[vec(k), texid(v)] for k, v in w.world.items()]


def status(r):
    return r[0] if r[0] != 'raise' else r[1]


NOCMD = {'n': '', 'o': [0, 0, 0], 'd': [0, 0, 0], 'a': [0, 0, 0]}


def kit_ev(**k):
    e = {'op': '', 'c': NOCMD, 'tex': 0, 'sub': False, 'prob': 100, 'n': '', 'a': [0, 0, 0], 'd': [0, 0, 0], 'pts': [],
         'res': 'ok', 'dump': []}
    e.update(k)
    return e


class Room:
    def __init__(self, ctx, k, pos, filled=()):
        from redeclipse.objects import cube
        from redeclipse.prefabs import Room as R
        from redeclipse.vector import CoarseVector, orientations as o
        from redeclipse.voxel import VoxelWorld
        self.ctx, self.k, self.pos = ctx, k, list(pos)
        name = ['EAST', 'NORTH', 'WEST', 'SOUTH'][k]
        ori = getattr(o, name) if ctx.rnd.random() < .5 else o.EAST.rotate(90 * k)
        self.room = R(pos=CoarseVector(*pos), orientation=ori)
        self.w = VoxelWorld(size=256)
        for p, t in filled:
            self.w.set_point(p[0], p[1], p[2], cube.newtexcube(tex=t))
        self.start, self.ev = dump(self.w), []

    def draw(self, n, o, d=(0, 0, 1), a=(0, 0, 0), tex=None, sub=False, prob=None, lst=False):
        from redeclipse.vector import CoarseVector, FineVector, orientations
        rnd = self.ctx.rnd
        off = FineVector(*o)
        if all(c % 8 == 0 for c in o) and rnd.random() < .4:
            off = CoarseVector(*[c // 8 for c in o])
        dv = getattr(orientations, DIR[tuple(d)])
        args = {'cube': [off], 'column': [off, dv, a[0]], 'dotted_column': [off, dv, a[0]], 'floor': [off], 'ceiling': [off],
                'wall': [off, dv], 'low_wall': [off, dv], 'ring': [off, a[0]],
                'rectangular_prism': [off, FineVector(*a)]}[n]
        kw = {}
        if n == 'dotted_column' and (a[1:] != [2, 2] or rnd.random() < .5):
            kw.update(on=a[1], off=a[2])
        if n in ('floor', 'ceiling') and (a[0] != 8 or rnd.random() < .5):
            kw['size'] = a[0]
        if n == 'wall' and (a[0] != 8 or rnd.random() < .5):
            kw['limit_j'] = a[0]
        if n == 'column' and rnd.random() < .3:
            kw['length'] = args.pop()
        if tex is not None:
            kw['tex'] = [tex, 11, 12, 13, 14, 300 + tex] if lst else tex
        if sub or rnd.random() < .2:
            kw['subtract'] = sub
        if prob is not None:
            kw['prob'] = prob
        r = call(self.room.x, n, self.w, *args, **kw)
        self.ev.append(kit_ev(op='draw', c={'n': n, 'o': list(o), 'd': list(d), 'a': list(a)},
                              tex=(2 if tex is None else 1000 + tex if lst else tex), sub=sub,
                              prob=100 if prob is None or prob >= 1 else int(prob * 100), res=status(r), dump=dump(self.w), key=n))

    def refuse(self, n):
        from redeclipse.vector import FineVector
        r = call(self.room.x, n, self.w, FineVector(0, 0, 0))
        self.ev.append(kit_ev(op='refuse', n=n, res=status(r), dump=dump(self.w), key='refuse'))

    def done(self, name):
        self.ctx.scen('kit', name, self.ev, k=self.k, pos=self.pos, start=self.start)


def random_cmd(rnd):
    o = [rnd.randint(-9, 17), rnd.randint(-9, 17), rnd.randint(0, 12)]
    if rnd.random() < .3:
        o = [8 * rnd.randint(-1, 2), 8 * rnd.randint(-1, 2), 8 * rnd.randint(0, 1)]
    n = rnd.choice(['cube', 'column', 'dotted_column', 'floor', 'ceiling', 'wall', 'low_wall', 'ring', 'rectangular_prism'])
    d = rnd.choice(DIRS if n not in ('wall', 'low_wall') or rnd.random() < .15 else DIRS[:4])
    a = {'cube': [0, 0, 0], 'column': [rnd.randint(0, 14), 0, 0],
         'dotted_column': [rnd.randint(1, 20), rnd.randint(1, 4), rnd.randint(0, 4)],
         'floor': [rnd.choice([8, 8, 1, 3, 7, 16, 0]), 0, 0], 'ceiling': [rnd.choice([8, 8, 1, 5, 9]), 0, 0],
         'wall': [rnd.choice([8, 8, 1, 3, 5, 9]), 0, 0], 'low_wall': [0, 0, 0], 'ring': [rnd.choice([1, 2, 3, 5, 8, 12]), 0, 0],
         'rectangular_prism': [rnd.randint(-6, 9), rnd.randint(-6, 9), rnd.randint(-4, 9)]}[n]
    return n, o, d, a


def c09(ctx):
    rnd = ctx.rnd
    big = 1 if ctx.quick else 12
    for g in ctx.gens['kit']:
        r = Room(ctx, g['k'], g['pos'])
        for op in g['ops']:
            c = op['c']
            r.draw(c['n'], c['o'], c['d'], c['a'], tex=op['t'], sub=op['s'])
        r.done('tlc')
    # every primitive in all four orientations, drawn one over the other with random settings
    for rep in range(16 * big):
        pos = [rnd.randint(0, 12), rnd.randint(0, 12), rnd.randint(0, 5)]
        pre = [([8 * pos[0] + rnd.randint(-4, 11), 8 * pos[1] + rnd.randint(-4, 11), 8 * pos[2] + rnd.randint(0, 9)], rnd.randint(5, 9))
               for _ in range(30)]
        r = Room(ctx, rep % 4, pos, pre)
        for _ in range(12):
            n, o, d, a = random_cmd(rnd)
            r.draw(n, o, d, a, tex=rnd.choice([None, None, 1, 3, 7, 644]), sub=rnd.random() < .25,
                   prob=rnd.choice([None, None, None, 1, 0, .5, .5, 1.0]), lst=rnd.random() < .3)
        r.refuse(rnd.choice(['', 'nothing', 'Cube', 'walls', 'x_cube']))
        r.done('random')
    # big blocks for the chance of drawing a voxel
    for k in range(4):
        r = Room(ctx, k, [2, 3, 1])
        for n, a in (('rectangular_prism', [8, 8, 2]), ('floor', [8, 0, 0]), ('wall', [8, 0, 0]), ('ceiling', [10, 0, 0])):
            r.draw(n, [0, 0, 0], (1, 0, 0), a, tex=4, prob=.5)
            r.draw(n, [0, 0, 0], (1, 0, 0), a, tex=6, prob=.5)
            r.draw(n, [0, 0, 0], (1, 0, 0), a, tex=6, prob=0)
        r.done('chance')
    points(ctx)


def points(ctx):
    from redeclipse.prefabs import construction_kit as ck
    from redeclipse.vector import orientations
    rnd = ctx.rnd
    ev = []
    for d in DIRS:
        dv = getattr(orientations, DIR[d])
        for size in (1, 2, 5, 8):
            for li, lj in ((100, 100), (3, 100), (100, 2), (0, 0), (4, 7)):
                kw = {}
                if lj != 100:
                    kw['limit_j'] = lj
                if li != 100:
                    kw['limit_i'] = li
                r = call(lambda: [vec(p) for p in ck.wall_points(size, dv, **kw)])
                ev.append(kit_ev(op='points', n='wall_points', a=[size, li, lj], d=list(d), pts=r[1] if r[0] == 'ok' else [[BAD] * 3],
                                 key='wall_points'))
        for ln in (0, 1, 4, 9):
            r = call(lambda: [vec(p) for p in ck.column_points(ln, dv)])
            ev.append(kit_ev(op='points', n='column_points', a=[ln, 0, 0], d=list(d), pts=r[1] if r[0] == 'ok' else [[BAD] * 3],
                             key='column_points'))
    for _ in range(25):
        a = [rnd.randint(-5, 6) for _ in range(3)]
        r = call(lambda: [vec(p) for p in ck.cube_points(*a)])
        ev.append(kit_ev(op='points', n='cube_points', a=a, pts=r[1] if r[0] == 'ok' else [[BAD] * 3], key='cube_points'))
    ctx.scen('kit', 'points', ev, k=0, pos=[0, 0, 0], start=[])


FATE = {'one': lambda x, y, z: 1, 'two': lambda x, y, z: 2, 'zero': lambda x, y, z: 0, 'neg': lambda x, y, z: -1.5,
        'half': lambda x, y, z: .5, 'checker': lambda x, y, z: 1 if (x + y + z) % 2 == 0 else 0,
        'low': lambda x, y, z: 1.0 if z < 2 else 0.0,
        'skew': lambda x, y, z: 1 if x < 2 * y else .5 if x == 2 * y else 0}


class Eff:
    def __init__(self, ctx, size, filled):
        from redeclipse.objects import cube
        from redeclipse.voxel import VoxelWorld
        self.ctx, self.size, self.ev = ctx, size, []
        self.w = VoxelWorld(size=size)
        for p, t in filled:
            self.w.set_point(p[0], p[1], p[2], cube.newtexcube(tex=t))
        self.event('start', ('ok', 0))

    def event(self, op, res, a=0, f='', top=0, cells=(), vals=(), other=(), key=None):
        self.ev.append({'op': op, 'a': a, 'f': f, 'top': top, 'cells': list(cells), 'vals': list(vals), 'other': list(other),
                        'res': status(res), 'dump': dump(self.w), 'key': key or op})

    def apply(self, op, a=0, f=''):
        from redeclipse import aftereffects as ae
        top = int(self.w.zmax)
        rnd = self.ctx.rnd
        if op == 'grid':
            r = call(ae.grid, self.w, a) if rnd.random() < .5 else call(ae.grid, self.w, size=a)
        elif op in ('box', 'outline'):
            fn = ae.box if op == 'box' else ae.box_outline
            r = call(fn, self.w, height=a or None) if a or rnd.random() < .5 else call(fn, self.w)
        else:
            r = call({'decay': ae.decay, 'growth': ae.growth}[op], self.w, FATE[f])
        self.event(op, r, a, f, top)

    def endcap(self, cells):
        from redeclipse import aftereffects as ae
        from redeclipse.vector import CoarseVector, orientations

        class U:
            unoccupied = [(CoarseVector(*c), None, orientations.EAST) for c in cells]
        r = call(ae.endcap, self.w, U())
        self.event('endcap', r, cells=[list(c) for c in cells])


def c24(ctx):
    from redeclipse import aftereffects as ae
    rnd = ctx.rnd
    big = 1 if ctx.quick else 15
    starts = {0: [], 1: [((5, 0, 0), 6)], 2: [((0, 1, 2), 7), ((1, 1, 1), 5)]}
    for g in ctx.gens['eff']:
        e = Eff(ctx, g['size'], starts[g['ops'][0]['a']])
        for o in g['ops'][1:]:
            e.apply(o['op'], o['a'], o['f'])
        ctx.scen('effects', 'tlc', e.ev, size=g['size'])
    for rep in range(12 * big):
        size = rnd.choice([4, 5, 8, 8, 12, 16])
        dens = rnd.choice([5, 60, 300])
        pts = [([rnd.randint(-1, size), rnd.randint(-1, size), rnd.randint(0, size)], rnd.randint(5, 9)) for _ in range(dens)]
        e = Eff(ctx, size, pts)
        for _ in range(5):
            op = rnd.choice(['grid', 'box', 'outline', 'decay', 'decay', 'growth', 'growth'])
            e.apply(op, rnd.choice([2, 3, 5]) if op == 'grid' else rnd.choice([0, 0, 1, 3, size]) if op in ('box', 'outline') else 0,
                    rnd.choice(list(FATE)) if op in ('decay', 'growth') else '')
        ctx.scen('effects', 'random', e.ev, size=size)
    # worlds that reach higher than they are full, then the default spacing
    e = Eff(ctx, 30, [([3, 4, 26], 7), ([24, 0, 1], 6)])
    e.apply('grid', 24)
    e.apply('decay', 0, 'skew')
    ctx.scen('effects', 'tall', e.ev, size=30)
    for rep in range(4 * big):
        cells = [[rnd.randint(0, 3), rnd.randint(0, 3), rnd.randint(0, 2)] for _ in range(rnd.randint(0, 3))]
        e = Eff(ctx, 32, [([8 * c[0] + rnd.randint(-2, 9), 8 * c[1] + rnd.randint(-2, 9), 8 * c[2] + rnd.randint(-2, 9)], 7)
                          for c in cells for _ in range(20)])
        e.endcap(cells)
        if rep % 2:
            e.endcap([])
        ctx.scen('effects', 'endcap', e.ev, size=32)
    e = Eff(ctx, 4, [])

    def micro(v):
        f = Fraction(v)
        return int(f * 1000000) if -2000 < f < 2000 else BAD
    for slope in (16, 64, 256, 1024):
        vals = [micro(ae.vertical_gradient(rnd.randint(0, 9), rnd.randint(0, 9), z, slope=slope)) for z in range(0, slope + 1, slope // 16)]
        e.event('gradient', ('ok', 0), a=slope, f='vertical_gradient', vals=vals, key='vertical_gradient')
    e.event('gradient', ('ok', 0), a=256, f='vertical_gradient',
            vals=[micro(ae.vertical_gradient(1, 2, z)) for z in range(0, 257, 16)], key='vertical_gradient')
    for n in ('gradient3', 'vertical_gradient2', 'vertical_gradient2inv'):
        pts = [(rnd.randint(0, 255), rnd.randint(0, 255), z) for z in range(0, 257)]
        e.event('gradient', ('ok', 0), f=n, vals=[micro(getattr(ae, n)(*p)) for p in pts],
                other=[micro(ae.vertical_gradient2(p[0], p[1], p[2])) for p in pts], key=n)
    ctx.scen('effects', 'gradient', e.ev, size=4)


def drive(ctx):
    {'C09': c09, 'C24': c24}[ctx.pid](ctx)
