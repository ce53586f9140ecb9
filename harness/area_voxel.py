"""C04, C06: redeclipse.voxel.VoxelWorld"""
import math

from harness.driver import BAD, call, num, vec

TRACE = {'voxel': 'VoxelTrace'}
SHARDS = {'voxel': 4}


def mc(pid, tier):
    return [{'module': 'VoxelRun', 'cfg': 'VoxelRun.cfg' if tier == 'quick' else 'VoxelRunT.cfg', 'workers': 4}]


def gen(pid, tier):
    n = 25 if tier == 'quick' else 400
    return [{'name': 'size2', 'module': 'VoxelRun', 'cfg': 'VoxelGen2.cfg', 'num': n, 'depth': 15},
            {'name': 'size8', 'module': 'VoxelRun', 'cfg': 'VoxelGen8.cfg', 'num': n, 'depth': 15}]


class World:
    """a VoxelWorld, and the record of what happened to it"""

    def __init__(self, ctx, size, ints=False):
        from redeclipse.voxel import VoxelWorld
        self.ctx, self.size, self.ints = ctx, size, ints
        self.w = VoxelWorld(size=size)
        self.ev = []
        self.tex = {}

    # the values: cubes with one of a few looks, or plain numbers
    def value(self, v):
        from redeclipse.objects import cube
        if self.ints:
            return v
        tex = 10 + v if v % 2 else [10 + v, 11, 12, 13, 14, 300 + v]
        return cube.newtexcube(tex=tex)

    def back(self, c):
        from redeclipse.enums import Faces
        if self.ints:
            return num(c)
        try:
            t = list(c.texture)
            v = t[0] - 10
            want = [t[0]] * 6 if v % 2 else [t[0], 11, 12, 13, 14, 300 + v]
            ok = t == want and v > 0 and not c.children and c.octsav == 35 and c.surfmask == 63 and \
                c.faces == [Faces.F_SOLID] * 3 and len(c.ext.surfaces) == 6 and not c.totalverts and \
                all(x.lmid == [2, 0] and x.verts == 0 and x.numverts == 32 for x in c.ext.surfaces)
            return v if ok else BAD
        except Exception:
            return BAD

    def dump(self):
        return [[vec(k, 2), self.back(v)] for k, v in self.w.world.items()]

    def event(self, op, items, res, probe, nodes=()):
        w = self.w
        self.ev.append({'op': op, 'items': items, 'res': res[0] if res[0] != 'raise' else res[1],
                        'dump': self.dump(), 'probe': probe, 'nodes': list(nodes),
                        'ext': {'max': [num(w.xmax, 2), num(w.ymax, 2), num(w.zmax, 2)],
                                'min': [num(w.xmin, 2), num(w.ymin, 2), num(w.zmin, 2)]}})

    def probes(self, pts, forms=False):
        out = []
        for p in pts:
            q = [float(c) if forms and self.ctx.rnd.random() < .5 else c for c in p]
            r = call(self.w.get_point, *q)
            out.append([[num(c, 2) for c in p],
                        (-1 if r[1] is None else self.back(r[1])) if r[0] == 'ok' else BAD])
        return out

    def args(self, p, form):
        from redeclipse.vector import BaseVector, CoarseVector, FineVector
        if form == 0:
            return 'point', tuple(p)
        if form == 1:
            return 'point', tuple(float(c) for c in p)
        cls = {2: FineVector, 3: CoarseVector, 4: FineVector, 5: BaseVector}[form]
        return 'pointv', (cls(*[float(c) if form == 4 else c for c in p]),)

    def set(self, p, v, form, probe=()):
        name, a = self.args(p, form)
        r = call(getattr(self.w, 'set_' + name), *a, self.value(v))
        self.event('set', [[[num(c, 2) for c in p], v]], r, self.probes(probe, True))

    def rem(self, p, form, probe=()):
        name, a = self.args(p, form)
        if name == 'pointv' and form == 5:
            a = (tuple(p),)
        r = call(getattr(self.w, 'del_' + name), *a)
        self.event('del', [[[num(c, 2) for c in p], 0]], r, self.probes(probe, True))

    def bulk(self, pts):
        for p, v in pts:
            self.w.set_point(p[0], p[1], p[2], self.value(v))
        last = {tuple(p): v for p, v in pts}
        self.event('bulk', [[[num(c, 2) for c in p], v] for p, v in last.items()], ('ok', 0), [])

    def octree(self, **kw):
        r = call(self.w.to_octree, **kw)
        nodes = []
        if r[0] == 'ok':
            if not isinstance(r[1], (list, tuple)) or len(r[1]) != 8:
                nodes.append({'n': [], 'k': '?', 'v': 0})
            else:
                self.walk(r[1], [], nodes)
        self.event('oct', [], r, [], nodes)

    def walk(self, kids, path, nodes):
        from redeclipse.enums import Faces
        for o, c in enumerate(kids):
            n = path + [o]
            kind, v = '?', 0
            try:
                if c.children:
                    kind = 'C' if len(c.children) == 8 and c.octsav == 0 else '?'
                elif c.octsav == 1 and c.faces == [Faces.F_EMPTY] * 3:
                    kind = 'E'
                else:
                    kind, v = 'V', self.back(c)
                nodes.append({'n': n, 'k': kind, 'v': v})
                if c.children and len(n) < 12:
                    self.walk(c.children, n, nodes)
            except AttributeError:
                nodes.append({'n': n, 'k': '?', 'v': 0})

    def done(self, name):
        self.ctx.scen('voxel', name, self.ev, size=self.size)


def grid(size):
    return [(x, y, z) for x in range(-1, size + 1) for y in range(-1, size + 1) for z in range(-1, size + 1)]


def replay(ctx, name, g, forms, ints, octs):
    w = World(ctx, g['size'], ints)
    pts = sorted({tuple(o['p']) for o in g['ops']})
    for o in g['ops']:
        if o['op'] == 'set':
            w.set(o['p'], o['v'], ctx.rnd.choice(forms), pts)
        elif o['op'] == 'del':
            w.rem(o['p'], ctx.rnd.choice(forms), pts)
        elif octs:
            w.octree()
        if octs and ctx.rnd.random() < .3:
            w.octree()
    if octs:
        w.octree()
    if w.ev:
        w.done(name)


def c04(ctx):
    # every world of size 2
    cells = [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
    for m in range(256):
        w = World(ctx, 2)
        w.bulk([(p, 1 + (m + k) % 3) for k, p in enumerate(cells) if m >> k & 1])
        w.octree()
        w.done('size2-all')
    for name in ('size2', 'size8'):
        for g in ctx.gens[name]:
            replay(ctx, 'gen-' + name, g, [0, 1, 2], False, True)
    # single voxels: each octant at each depth
    for size in (4, 16, 32):
        for k in range(8 if ctx.quick else 60):
            w = World(ctx, size)
            p = tuple(ctx.rnd.choice([0, size - 1, size // 2, size // 2 - 1, ctx.rnd.randrange(size)]) for _ in range(3))
            w.set(p, 1 + k % 3, 0)
            w.octree()
            w.rem(p, 0)
            w.octree()
            w.done('single-%d' % size)
    # random worlds, with strays outside
    for size, n, reps in ((4, 20, 20), (8, 60, 12), (16, 120, 6), (32, 80, 5), (64, 80, 2), (128, 100, .2), (256, 300, .2)):
        for rep in range(math.ceil(reps if ctx.quick else reps * 10)):
            w = World(ctx, size)
            pts = []
            for _ in range(ctx.rnd.randint(1, n)):
                if pts and ctx.rnd.random() < .5:
                    b = pts[ctx.rnd.randrange(len(pts))][0]
                    p = tuple(c + ctx.rnd.choice([-1, 0, 1]) for c in b)
                else:
                    p = tuple(ctx.rnd.randrange(size) for _ in range(3))
                if ctx.rnd.random() < .05:
                    p = tuple(ctx.rnd.choice([-1, -size, size, size + 3, c]) for c in p)
                pts.append((p, ctx.rnd.randint(1, 4)))
            w.bulk(pts)
            w.octree()
            if size > 64:
                w.done('random-%d' % size)
                continue
            for p, v in pts[:3]:
                w.rem(p, 0)
            w.octree()
            w.octree(layers=True)
            # other data at the same points, then at other points, as many as before
            for p, v in pts[3:6]:
                w.set(p, v % 4 + 1, 2)
            w.octree()
            for p, v in pts[:2]:
                w.set(p, v % 4 + 1, 1)
                w.octree()
            if pts[3:]:
                w.rem(pts[-1][0], 2)
                w.set([c ^ 1 for c in pts[-1][0]], 2, 0)
                w.octree()
            w.done('random-%d' % size)
    # a solid block and a full small world
    w = World(ctx, 16)
    w.bulk([((x, y, z), 1 + (x + y + z) % 2) for x in range(4, 8) for y in range(8, 12) for z in range(0, 4)])
    w.octree()
    w.done('block')
    w = World(ctx, 4)
    w.bulk([((x, y, z), 1) for x in range(4) for y in range(4) for z in range(4)])
    w.octree()
    w.done('full')


def c06(ctx):
    for name in ('size2', 'size8'):
        for n, g in enumerate(ctx.gens[name]):
            replay(ctx, 'gen-' + name, g, [0, 1, 2, 3, 4, 5], n % 3 == 0, n % 4 == 1)
    for rep in range(30 if ctx.quick else 400):
        size = ctx.rnd.choice([2, 4, 8, 128, 256])
        w = World(ctx, size, ints=rep % 3 == 0)
        base = [tuple(ctx.rnd.randrange(-2, min(size, 6) + 2) for _ in range(3)) for _ in range(6)]
        half = [tuple(c + ctx.rnd.choice([0, .5]) for c in p) for p in base[:2]]
        far = [tuple(ctx.rnd.choice([0, size - 1, size, 3 * size, -size]) for _ in range(3)) for _ in range(2)]
        pts = base + half + far
        pr = pts + [tuple(p[:2]) + (p[2] + 1,) for p in base[:3]] + [(p[1], p[0], p[2]) for p in base[:3]]
        for _ in range(16):
            p = ctx.rnd.choice(pts)
            k = ctx.rnd.random()
            if k < .6:
                w.set(p, ctx.rnd.randint(0 if w.ints else 1, 3), ctx.rnd.randint(0, 5), pr)
            elif k < .95:
                w.rem(p, ctx.rnd.randint(0, 5), pr)
            elif size <= 8 and not w.ints:
                w.octree()
        w.done('random')
    # default size
    from redeclipse.voxel import VoxelWorld
    w = World(ctx, 128)
    w.w = VoxelWorld()
    w.set((5, 6, 7), 1, 0, [(5, 6, 7), (7, 6, 5)])
    w.rem((5, 6, 7), 2, [(5, 6, 7), (7, 6, 5)])
    w.rem((5, 6, 7), 0, [(5, 6, 7)])
    w.done('default-size')


def drive(ctx):
    {'C04': c04, 'C06': c06}[ctx.pid](ctx)
