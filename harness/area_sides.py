"""C35: maps for several sides, what rooms bring, flags and colours of the teams (redeclipse.upm, redeclipse.prefabs)"""
import os
import random
import types

from harness.area_e2e import texture_of
from harness.area_repro import INPUTS
from harness.area_rooms import columns, direction, entity, room_classes
from harness.driver import BAD, REPO, call, num, vec

TRACE = {'sides': 'SidesTrace'}
SHARDS = {'sides': 8}
CHANCE = {'PoleRoom', 'DigitalRoom', 'ImposingBlockRoom'}        # drawn by chance, so images differ
DEBUG = {'TestRoom', 'TestRoom2'}
FLAGS = ['castle_flag_room', 'station_flagroom']
OWN = {'team', 'yaw', 'id', 'red', 'green', 'blue'}                 # differ between the sides


def mc(pid, tier):
    return [{'module': 'SidesMC', 'cfg': 'SidesMC%d.cfg' % m, 'workers': 4} for m in (1, 2, 4)]


def gen(pid, tier):
    return []


def drive(ctx):
    ctx.guard('rooms', rooms, ctx, limit=600)
    ctx.guard('colours', colours, ctx, limit=600)
    for cls in room_classes():
        if cls.__name__ not in CHANCE | DEBUG and not cap(cls):
            for rep in range(1 if ctx.quick else 8):
                ctx.guard(cls.__name__, several, ctx, cls, limit=120)
    for n in range(9 if ctx.quick else 90):
        ctx.guard('map', maps, ctx, n, limit=300)
    for n in range(4 if ctx.quick else 30):
        ctx.guard('generated', generated, ctx, n, limit=300)


def types_of(ents, name):
    return [e for e in ents if getattr(e.type, 'name', None) == name]


def flags_of(ents):
    return [num(dict(zip(e.attr_annotations, e.attrs))['team']) for e in types_of(ents, 'ET_AFFINITY')]


def render(r, size=256):
    from redeclipse.voxel import VoxelWorld
    v = VoxelWorld(size=size)
    m = types.SimpleNamespace(ents=[])
    return call(r.render, v, m, limit=60)[0] == 'ok', v, m.ents


def rooms(ctx):
    from redeclipse.vector import CoarseVector
    rnd = ctx.rnd
    ev = []
    for cls in room_classes():
        # a class whose rooms have several sorts (by chance) is built several times
        for k in range(4):
            ok, v, ents = render(cls(pos=CoarseVector(*[rnd.randint(1, 25) for _ in range(3)]), orientation=direction(k)))
            ev.append({'op': 'room', 'name': cls.__name__, 'k': k, 'ok': ok, 'lights': len(types_of(ents, 'ET_LIGHT')), 'flags': flags_of(ents),
                       'spawns': len(types_of(ents, 'ET_PLAYERSTART')), 'weapons': len(types_of(ents, 'ET_WEAPON')),
                       'pushers': len(types_of(ents, 'ET_PUSHER')), 'key': cls.__name__})
    for j in range(0, len(ev), 40):
        ctx.scen('sides', 'rooms', ev[j:j + 40])


def tones(world):
    from redeclipse import prefabs
    a, out = prefabs.TEXMAN.atlas, {}
    for d in world.world.values():
        try:
            t = a[texture_of(d)]
            c = tuple(round(x * 255) if abs(x * 255 - round(x * 255)) < 1e-6 else BAD for x in (t.r, t.g, t.b))
        except Exception:
            c = (BAD,) * 3
        out[c] = out.get(c, 0) + 1
    return [list(c) + [n] for c, n in sorted(out.items())]


def colours(ctx):
    from redeclipse.vector import CoarseVector
    for cls in [c for c in room_classes() if c.__name__ in FLAGS]:
        def shown(k):
            return tones(render(cls(pos=CoarseVector(*[ctx.rnd.randint(1, 25) for _ in range(3)]), orientation=direction(k)))[1])
        plain = shown(3)
        # the order in which the teams are drawn must not matter
        for k in ctx.rnd.sample(range(4), 4) + [ctx.rnd.randrange(4)]:
            ctx.scen('sides', 'colours', [{'op': 'colours', 'k': k, 'plain': plain, 'worn': shown(k), 'key': cls.__name__}])


def thing(e):
    t = entity(e)
    team = e.type.name == 'ET_AFFINITY'
    try:
        rest = sorted((k, str(v)) for k, v in zip(e.attr_annotations, e.attrs) if k not in OWN)
    except Exception:
        rest = ['odd']
    return t[:4] + [-1 if team else t[4], repr(rest)]


def event(m, ctf, ok, v, ents, key):
    cols = columns(v, True)
    return {'op': 'map', 'm': m, 'ctf': ctf, 'ok': ok, 'cols': cols, 'things': [thing(e) for e in ents], 'flags': flags_of(ents), 'key': key}


def cap(room):
    """every side chooses its own end caps"""
    return getattr(room, 'room_type', None) == 'endcap'


def maps(ctx, n):
    """rooms of some kinds, placed by a manager for one, two or four sides"""
    from redeclipse.prefabs import STARTING_POSITION
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector.orientations import EAST
    from redeclipse.voxel import VoxelWorld
    rnd = ctx.rnd
    random.seed(rnd.randrange(10 ** 6))
    every = room_classes()
    caps = [c for c in every if getattr(c, 'room_type', None) == 'endcap']
    cs = [c for c in every if isinstance(getattr(c, 'room_type', None), str) and c.room_type != 'endcap' and c.__name__ not in CHANCE | DEBUG | set(FLAGS)]
    if n % 2:
        packs = rnd.sample(sorted({c.__module__ for c in cs}), rnd.choice([1, 2]))
        cs = [c for c in cs if c.__module__ in packs]
    ctf = n % 3 != 0 or rnd.random() < .5
    first = rnd.choice([c for c in every if c.__name__ in FLAGS] if ctf else cs)
    m = [2, 4, 1][n % 3]
    u = UnusedPositionManager(256, mirror=m)
    u.register_room(first(pos=STARTING_POSITION, orientation=EAST))
    u.place_rooms(False, cs, rooms=rnd.choice([4, 12, 25]))
    if rnd.random() < .8:
        u.endcap(debug=False, possible_endcaps=caps)
    v, things = VoxelWorld(size=256), types.SimpleNamespace(ents=[])
    ok = all([call(r.render, v, things, limit=60)[0] == 'ok' for r in u.rooms if not cap(r)])
    ctx.scen('sides', 'map', [event(m, ctf, ok, v, things.ents, 'map-%d%s' % (m, '-ctf' if ctf else ''))])


def several(ctx, cls):
    """rooms of one kind, at places of our own choice, for two or four sides"""
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    from redeclipse.voxel import VoxelWorld
    rnd = ctx.rnd
    random.seed(rnd.randrange(10 ** 6))
    flag = cls.__name__ in FLAGS
    m = rnd.choice([2, 4])
    u = UnusedPositionManager(256, mirror=m)
    want = 1 if flag else 6 if cls.__name__ in ('SpawnRoom', 'spawn_room') else 2
    for _ in range(60):
        r = cls(pos=CoarseVector(rnd.randint(1, 30), rnd.randint(1, 30), rnd.randint(1, 25)), orientation=direction(rnd.randrange(4)), **cls.randOpts(None))
        if u.preregister_room(r):
            u.register_room(r)
            want -= 1
            if not want:
                break
    v, things = VoxelWorld(size=256), types.SimpleNamespace(ents=[])
    ok = all([call(r.render, v, things, limit=60)[0] == 'ok' for r in u.rooms])
    ctx.scen('sides', 'map', [event(m, flag, ok, v, things.ents, '%s-%d' % (cls.__name__, m))])


def generated(ctx, n):
    """the maps of redeclipse.cli.magica_rooms"""
    from redeclipse.cli import magica_rooms, parse
    rnd = ctx.rnd
    name = os.path.join(REPO, rnd.choice(INPUTS))
    m, ctf = [2, 4, 1, 2][n % 4], n % 2 == 0
    from redeclipse import worldflavors
    with open(name) as f:
        res = call(magica_rooms.main, f, size=256, seed=rnd.randrange(10 ** 6), rooms=rnd.choice([5, 15, 30]), mirror=m, ctf=ctf,
                   flavor=rnd.choice([None, [rnd.choice(list(worldflavors.choices))]]), limit=120)
    if res[0] != 'ok':
        ctx.scen('sides', 'map', [{'op': 'map', 'm': m, 'ctf': ctf, 'ok': False, 'cols': [], 'things': [], 'flags': [], 'key': 'main'}])
        return
    v, xmap, upm = res[1]
    cells, gone = set(), []
    for r in upm.rooms:
        if cap(r):
            cells |= {tuple(vec(p)) for p in r.get_positions()}
            gone += [entity(e)[:4] for e in render(r)[2]]
    for p in list(v.world):
        if tuple(x // 8 for x in vec(p)) in cells:
            v.del_pointv(p)
    before = [repr(e.to_dict()) for e in parse(name).ents]
    ents = []
    for e in xmap.ents:
        d = repr(e.to_dict())
        if d in before:
            before.remove(d)
        elif entity(e)[:4] in gone:
            gone.remove(entity(e)[:4])
        elif e.type.name != 'ET_SUNLIGHT':
            ents.append(e)
    ctx.scen('sides', 'map', [event(m, ctf, True, v, ents, 'main-%d%s' % (m, '-ctf' if ctf else ''))])
