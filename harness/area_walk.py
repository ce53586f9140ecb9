"""C36: walking through rooms and maps (redeclipse.prefabs, redeclipse.upm)"""
import itertools
import random
import types
from collections import deque

from harness.area_rooms import columns, direction, room_classes
from harness.driver import call, vec

TRACE = {'walk': 'WalkTrace'}
SHARDS = {'walk': 8}
W, H = 2, 4
POLES = {'PoleRoom'}                     # poles anywhere, by chance
TWO = {'castle_gate_simple'}
STEPS = ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))


def mc(pid, tier):
    return [{'module': 'WalkMC', 'cfg': c, 'workers': 4} for c in (('WalkMC.cfg', 'WalkMC2.cfg') if tier == 'quick' else ('WalkMCT.cfg', 'WalkMCT2.cfg'))]


def gen(pid, tier):
    return []


class Space:
    def __init__(self, cells, world):
        solid = {tuple(vec(p)) for p in world.world}
        free = {(8 * a + x, 8 * b + y, 8 * c + z) for a, b, c in cells for x in range(8) for y in range(8) for z in range(8)} - solid
        self.fit = {p for p in free if all((p[0] + i, p[1] + j, p[2] + k) in free for i in range(W) for j in range(W) for k in range(H))}

    def walk(self, starts):
        """position -> the one before, from all positions of starts that are joined to the first"""
        before = {starts[0]: None}
        todo = deque(before)
        while todo:
            p = todo.popleft()
            for d in STEPS:
                q = (p[0] + d[0], p[1] + d[1], p[2] + d[2])
                if q in self.fit and q not in before:
                    before[q] = p
                    todo.append(q)
        return before


def tree(before, root, targets):
    num, out = {root: 1}, [list(root) + [0]]
    for t in targets:
        way = []
        while t not in num:
            way.append(t)
            t = before[t]
        for p in reversed(way):
            out.append(list(p) + [num[before[p]]])
            num[p] = len(out)
    return out


def at_door(cell, d):
    x, y, z = (8 * a for a in cell)
    far = 8 - W
    for t in range(far + 1):
        for k in range(8 - H + 1):
            yield {(1, 0, 0): (x + far, y + t, z + k), (-1, 0, 0): (x, y + t, z + k), (0, 1, 0): (x + t, y + far, z + k)}.get(tuple(d), (x + t, y, z + k))


def cols(world):
    cs = columns(world, True)
    return {'cols': [c[:2] for c in cs], 'runs': {'%d,%d' % (c[0], c[1]): [r[:2] for r in c[2]] for c in cs} or {'': []}}


def room(cls, fl, k, pos):
    from redeclipse.vector import CoarseVector
    from redeclipse.voxel import VoxelWorld
    kw = {'orientation': direction(k)}
    if fl is not None:
        kw['randflags'] = list(fl)
    r = cls(pos=CoarseVector(*pos), **kw)
    w = VoxelWorld(size=256)
    res = call(r.render, w, types.SimpleNamespace(ents=[]), limit=60)
    cells = [vec(p) for p in r.get_positions()]
    doors = [(vec(d['offset']), vec(d['orientation'])) for d in r.get_doorways()]
    doors = [[a - b for a, b in zip(o, d)] + d for o, d in doors]
    sp = Space(cells, w)
    faces = [[p for p in at_door(d[:3], d[3:]) if p in sp.fit] for d in doors]
    trees, seen = [], set()
    for p in itertools.chain.from_iterable(faces):
        if p not in seen:
            before = sp.walk([p])
            got = [q for q in itertools.chain.from_iterable(faces) if q in before]
            seen |= set(got)
            trees.append(tree(before, p, got))
    closed = sum(1 for f in faces if not f)
    return dict({'op': 'room', 'name': cls.__name__, 'ok': res[0] == 'ok', 'cells': cells, 'doors': doors, 'trees': trees,
                 'key': cls.__name__ + ('/closed%d' % closed if closed else '')}, **cols(w))


def drive(ctx):
    for k in (range(1) if ctx.quick else range(4)):
        ctx.guard('rooms', rooms, ctx, k, limit=600)
    for n in range(6 if ctx.quick else 60):
        ctx.guard('map', maps, ctx, n, limit=300)


def rooms(ctx, k0):
    """all kinds of rooms with all their options, in parts that are compared with the same first rooms"""
    rnd = ctx.rnd
    jobs = []
    for cls in room_classes():
        if cls.__name__ in POLES:
            continue
        flags = getattr(cls, '_randflags', None)
        combos = [None]
        if flags:
            combos += [list(f) for f in itertools.product([True, False], repeat=len(flags))]
            if ctx.quick and len(combos) > 5:
                combos = [None] + rnd.sample(combos[1:], 4)
        jobs += [(cls, f) for f in combos]
    rnd.shuffle(jobs)
    rank = {'castle_wall_tower': 0, 'MultiPlatform': 0, 'Corridor2way': 0, 'castle_wall_corner': 0, 'dungeon_2x2': 0, 'station_tube1': 0}
    first = [(c, f) for c, f in jobs if c.__name__ in rank and f is None]
    rest = [j for j in jobs if j not in first]
    shared = None
    for part in range(8):
        mine = [room(c, f, (k0 + rnd.randrange(4)) % 4, [rnd.randint(1, 25) for _ in range(3)]) for c, f in rest[part::8]]
        if shared is None:
            shared = [room(c, f, k0, [9, 9, 9]) for c, f in first]
        ctx.scen('walk', 'rooms', shared + mine)


def maps(ctx, n):
    from redeclipse.prefabs import STARTING_POSITION
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector.orientations import EAST
    from redeclipse.voxel import VoxelWorld
    random.seed(ctx.rnd.randrange(10 ** 6))
    cs = [c for c in room_classes() if isinstance(getattr(c, 'room_type', None), str) and c.__name__ not in POLES | TWO | {'TestRoom', 'TestRoom2'}]
    caps = [c for c in cs if c.room_type == 'endcap']
    cs = [c for c in cs if c.room_type != 'endcap']
    if n % 3:
        packs = ctx.rnd.sample(sorted({c.__module__ for c in cs}), n % 3)
        cs = [c for c in cs if c.__module__ in packs]
    u = UnusedPositionManager(256, mirror=[1, 2, 4][n % 3])
    u.register_room(random.choice(cs)(pos=STARTING_POSITION, orientation=EAST))
    k = len(u.rooms)
    u.place_rooms(False, cs, rooms=ctx.rnd.choice([12, 25]))
    u.endcap(debug=False, possible_endcaps=caps)
    w = VoxelWorld(size=256)
    ok = all([call(r.render, w, types.SimpleNamespace(ents=[]), limit=60)[0] == 'ok' for r in u.rooms])
    where = [[vec(p) for p in r.get_positions()] for r in u.rooms]
    sp = Space([c for cells in where for c in cells], w)
    owner = {tuple(c): j for j, cells in enumerate(where) for c in cells}
    trees, reached = [], set()
    for j in range(k):
        doors = [[a - b for a, b in zip(vec(d['offset']), vec(d['orientation']))] + vec(d['orientation']) for d in u.rooms[j].get_doorways()]
        start = [p for d in doors for p in at_door(d[:3], d[3:]) if p in sp.fit]
        if j in reached or not start:
            continue
        before = sp.walk(start)
        first = {}
        for p in before:
            first.setdefault(owner.get(tuple(x // 8 for x in p)), p)
        reached |= set(first)
        trees.append(tree(before, start[0], list(first.values())))
    ctx.scen('walk', 'map', [dict({'op': 'map', 'm': k, 'ok': ok, 'rooms': where, 'trees': trees, 'key': 'map-%d' % k}, **cols(w))])
