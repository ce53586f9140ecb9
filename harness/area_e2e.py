"""C05: generated worlds and the map files saved from them (redeclipse.cli)"""
import os
import random
import types

from harness.area_mpz import items, unzipped
from harness.area_rooms import direction, room_classes
from harness.driver import REPO, call, vec

TRACE = {'world': 'MpzWorld'}
SHARDS = {'world': 8}
INPUTS = ['maps/empty-night.mpz', 'tests/files/empty-medium.mpz', 'tests/files/empty-large.mpz', 'maps/empty-day.mpz']


def mc(pid, tier):
    return [{'module': 'MpzMC', 'cfg': 'MpzMC.cfg' if tier == 'quick' else 'MpzMCT.cfg', 'workers': 8}]


def gen(pid, tier):
    return []


def texture_of(data):
    """texture number of a voxel, or -1 when it is not a cube of one texture"""
    t = {getattr(x, 'value', x) for x in data.texture}
    return t.pop() if len(t) == 1 else -1


def preorder(q, size):
    """where the octree lists a voxel; what is outside comes last"""
    if not all(0 <= x < size for x in q[:3]):
        return (1, 0)
    return (0, sum(((q[j] >> b) & 1) << (3 * b + j) for j in range(3) for b in range(9)))


def save(ctx, v, m, key, upm=None):
    from redeclipse import cli, prefabs
    prefabs.TEXMAN.copy_data = lambda: None      # would copy pictures to a directory of the author
    its = items(m)
    k = next(j for j, x in enumerate(its) if x['k'] == 'node')
    world = [vec(p) + [texture_of(d)] for p, d in v.world.items()]
    world.sort(key=lambda q: preorder(q, v.size))
    with open('out.mpz', 'w') as f:
        a = types.SimpleNamespace(magica=None, graph=None, mpz_out=f)
        r = call(cli.output, v, m, upm, prefabs, a, limit=120)
    b = unzipped('out.mpz') if r[0] == 'ok' else []
    cfg = []
    if os.path.exists('out.cfg'):
        for ln in open('out.cfg'):
            w = ln.split()
            if w and not w[0].startswith('//'):
                cfg.append(' '.join(w[:2]) if w[0] == 'texture' else w[0])
    ctx.scen('world', key, [], key=key, size=v.size, items=its[:k], world=world, b=b, cfg=cfg)


def drive(ctx):
    rnd = ctx.rnd
    big = 1 if ctx.quick else 6
    for rep in range(12 * big):
        ctx.guard('small', small, ctx, rep)
    for rep in range(2 * big):
        ctx.guard('palette', palette, ctx, [8, 16][rep % 2])
    if ctx.quick:
        ctx.guard('main', main, ctx, 128, 6, 2, ['space_station'])
        ctx.guard('main', main, ctx, 128, 4, 4, None)
    else:
        for m in (1, 2, 4):
            for ctf in (False, True):
                ctx.guard('main', main, ctx, 256, 12, m, ['maliwan', 'crushed_blacks'], ctf, limit=600)


def main(ctx, size, rooms, mirror, flavor, ctf=False):
    from redeclipse.cli import magica_rooms
    with open(os.path.join(REPO, ctx.rnd.choice(INPUTS))) as f:
        v, m, upm = magica_rooms.main(f, size=size, seed=ctx.rnd.randrange(1000), rooms=rooms, mirror=mirror, flavor=flavor, ctf=ctf)
    save(ctx, v, m, 'main', upm)


def small(ctx, rep):
    """rooms drawn into a small world, partly outside of it, with effects"""
    rnd = ctx.rnd
    from redeclipse import MapParser, aftereffects
    from redeclipse.vector import CoarseVector
    from redeclipse.voxel import VoxelWorld
    m = MapParser().read(os.path.join(REPO, rnd.choice(INPUTS[:3])))
    size = [8, 16, 32, 64][rep % 4]
    v = VoxelWorld(size=size)
    random.seed(rnd.randrange(10 ** 6))
    classes = [c for c in room_classes() if c.__name__ != 'TestRoom2']
    for _ in range(rnd.randint(1, 4) if size > 8 else 1):
        c = rnd.choice(classes)
        room = c(pos=CoarseVector(*[rnd.randint(-1 if size > 16 else 0, size // 8 - 1) for _ in range(3)]), orientation=direction(rnd.randrange(4)))
        room.render(v, m)
    if rep % 3 == 0 and v.world:
        fx = rnd.randrange(5)
        if fx == 0:
            aftereffects.grid(v, size=3)
        elif fx == 1:
            aftereffects.box_outline(v, height=min(size, 20))
        elif fx == 2:
            aftereffects.decay(v, lambda x, y, z: .3)
        elif fx == 3:
            aftereffects.growth(v, lambda x, y, z: .2)
        else:
            aftereffects.box(v)
    save(ctx, v, m, 'small-%d' % size)


def palette(ctx, size):
    """a world of more textures than a byte can count"""
    rnd = ctx.rnd
    from redeclipse import MapParser
    from redeclipse.objects import cube
    from redeclipse.prefabs import TEXMAN
    from redeclipse.vector import FineVector
    from redeclipse.voxel import VoxelWorld
    m = MapParser().read(os.path.join(REPO, INPUTS[0]))
    v = VoxelWorld(size=size)
    numbers = [TEXMAN.get_colour(k % 256, 7 * k % 256, size + k // 256) for k in range(330)]
    cells = [(x, y, z) for x in range(size) for y in range(size) for z in range(size)]
    for k, p in zip(numbers, rnd.sample(cells, len(numbers))):
        v.set_pointv(FineVector(*p), cube.newtexcube(tex=k))
    save(ctx, v, m, 'palette')
