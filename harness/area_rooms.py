"""C10, C11: every kind of room in redeclipse.prefabs"""
import copy
import itertools
import random
import types

from harness.driver import BAD, call, num, vec

TRACE = {'rooms': 'RoomsTrace'}
SHARDS = {'rooms': 8}
EASY = {'PoleRoom', 'DigitalRoom'}       # shape drawn by chance, voxel by voxel
TEAM = {'castle_flag_room', 'station_flagroom'}      # coloured after the team of the orientation


def mc(pid, tier):
    return [{'module': 'RoomsMC', 'workers': 4}]


def gen(pid, tier):
    return [{'name': 'moves', 'module': 'RoomsMC', 'cfg': 'RoomsGen.cfg', 'num': 60 if tier == 'quick' else 600, 'depth': 5}]


def room_classes():
    from redeclipse import prefabs
    from redeclipse.prefabs import castle, dungeon, egypt, magica, original, spacestation
    out = []

    def walk(c):
        for d in c.__subclasses__():
            if d.__module__.startswith('redeclipse.prefabs') and d not in out:
                out.append(d)
                walk(d)
    walk(prefabs.Room)
    skip = {'MagicaRoom', 'OriginalRoom'}
    out = [c for c in out if not c.__name__.startswith('_') and c.__name__ not in skip]
    return [prefabs.Room] + sorted(out, key=lambda c: (c.__module__, c.__name__))


def direction(k):
    from redeclipse.vector import orientations as o
    return [o.EAST, o.NORTH, o.WEST, o.SOUTH][k % 4]


def columns(world, plain):
    cols = {}
    for p, c in world.world.items():
        x, y, z = vec(p)
        try:
            t = c.texture
            t = num(t[0]) if len(set(t)) == 1 else BAD
        except Exception:
            t = BAD
        cols.setdefault((x, y), []).append((z, 1 if plain else t))
    out = []
    for (x, y), zs in cols.items():
        runs = []
        for z, t in sorted(zs):
            if runs and runs[-1][1] == z - 1 and runs[-1][2] == t:
                runs[-1][1] = z
            else:
                runs.append([z, z, t])
        out.append([x, y, runs])
    return out


def entity(e):
    """type, position in quarters of a voxel, yaw (-1: no yaw that turns)"""
    try:
        t = int(e.type.value)
        a = dict(zip(e.attr_annotations, e.attrs))
        turns = e.type.name in ('ET_PUSHER', 'ET_MAPMODEL') or (e.type.name == 'ET_PLAYERSTART' and a['yaw'] != 0)
        return [t] + vec(e.o) + [num(a['yaw']) if turns else -1]
    except Exception:
        return [BAD] * 5


def observe(room, k, pos, how, ctx, render, plain, key):
    from redeclipse.voxel import VoxelWorld
    w = VoxelWorld(size=256)
    m = types.SimpleNamespace(ents=[])
    if render:
        random.seed(7)
        room.render(w, m)
    cells = [vec(p) for p in room.get_positions()]
    cols = columns(w, plain)
    cs = {tuple(c) for c in cells}
    stray = sum(1 for x, y, rs in cols for a, b, _ in rs for z in range(a, b + 1) if (x // 8, y // 8, z // 8) not in cs)
    return {'how': how, 'k': k, 'pos': pos, 'anchor': vec(room.pos), 'cells': cells,
            'doors': [vec(d['offset']) + vec(d['orientation']) for d in room.get_doorways()], 'cols': cols,
            'ents': [entity(e) for e in m.ents], 'key': key + ('/stray%d' % stray if stray else '')}


def drive(ctx):
    rnd = ctx.rnd
    render = ctx.pid == 'C10'
    ng = 0
    for cls in room_classes():
        flags = getattr(cls, '_randflags', None)
        combos = [None]
        if flags:
            combos = [None] + [list(f) for f in itertools.product([True, False], repeat=len(flags))]
            if ctx.quick and len(combos) > 9:
                combos = [None, [False] * len(flags)] + rnd.sample(combos[1:-1], 7)
        for fl in combos:
            moves = ctx.gens['moves'][ng % len(ctx.gens['moves'])]
            ng += 1
            ctx.guard(cls.__name__, one, ctx, cls, fl, moves, render)


def build(cls, fl, k, pos):
    from redeclipse.vector import CoarseVector
    kw = {'orientation': direction(k)}
    if fl is not None:
        kw['randflags'] = list(fl)
    return cls(pos=CoarseVector(*pos), **kw)


def one(ctx, cls, fl, moves, render):
    from redeclipse.vector import CoarseVector
    key = cls.__name__
    plain = key in TEAM
    pos = [10, 12, 4]
    ref = build(cls, fl, 0, pos)
    untouched = copy.deepcopy(ref)
    ev = [observe(ref, 0, pos, 'new', ctx, render, plain, key)]
    seq = [('new', k, pos) for k in (1, 2, 3)] + [(m['how'], m['k'], m['pos']) for m in (moves[:2] if ctx.quick else moves)]
    for how, k, p in seq:
        if how == 'new':
            r = build(cls, fl, k, p)
        else:
            r = copy.deepcopy(untouched)
            r.pos = CoarseVector(*p)
            r.orientation = direction(k)
        ev.append(observe(r, k, p, how, ctx, render, plain, key))
    # one room, asked (and built) before, moved and turned in place
    r = copy.deepcopy(ref) if ctx.rnd.random() < .5 else ref
    q = [10 + ctx.rnd.choice([-3, 2]), 12 + ctx.rnd.choice([-2, 4]), 4 + ctx.rnd.choice([-1, 2])]
    for k, p in [(0, q), (ctx.rnd.choice([1, 2, 3]), q)] + ([] if render and ctx.quick else [(2, pos)]):
        r.pos = CoarseVector(*p)
        r.orientation = direction(k)
        ev.append(observe(r, k, p, 'move', ctx, render, plain, key))
    ctx.scen('rooms', key, ev, rigid=key not in EASY, flags=['%s' % fl])
