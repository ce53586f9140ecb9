"""C20, C21: redeclipse.magicavoxel and redeclipse.prefabs.magica"""
import glob
import io
import os
import random
import types
from fractions import Fraction

from harness.area_e2e import texture_of
from harness.area_rooms import direction, room_classes
from harness.driver import BAD, REPO, call, num, vec

TRACE = {'vox': 'VoxTrace'}
TRACECFG = {'vox': 'VoxTrace.cfg'}
SHARDS = {'vox': 8}


def mc(pid, tier):
    return [{'module': 'VoxMC', 'cfg': 'VoxMC.cfg' if tier == 'quick' else 'VoxMCT.cfg', 'workers': 4}]


def gen(pid, tier):
    return [{'name': 'model', 'module': 'VoxGen', 'cfg': 'VoxGen.cfg', 'num': 60 if tier == 'quick' else 600, 'depth': 40}]


def pair(v):
    return [v % 65536, v // 65536] if isinstance(v, int) and v >= 0 else [-1, -1]


def read(b):
    from redeclipse.magicavoxel.reader import Magicavoxel
    r = call(Magicavoxel.from_bytes, bytes(b))
    if r[0] != 'ok':
        return {'ok': False, 'why': r[1] if r[0] == 'raise' else r[0]}
    m = r[1]
    return {'ok': True, 'size': [pair(m.model_size.x), pair(m.model_size.y), pair(m.model_size.z)],
            'vox': [[v.x, v.y, v.z, v.c] for v in m.model_voxels.voxels],
            'pal': [[c.r, c.g, c.b, c.a] for c in m.palette.colours]}


def ends(c):
    """the bytes that may stand for a colour component"""
    f = Fraction(c) * 255
    if abs(f - round(f)) < Fraction(1, 10 ** 9):
        return [round(f)] * 2
    return [int(f // 1), int(f // 1) + 1]


def colours(man):
    a = man.atlas
    a = list(a.values()) if hasattr(a, 'values') else list(a)
    return [[ends(t.r), ends(t.g), ends(t.b)] for t in a]


def export(v, man, how, key, whole):
    """one export event"""
    from redeclipse import cli, prefabs
    from redeclipse.magicavoxel.writer import to_magicavoxel
    world = [vec(p) + [texture_of(d)] for p, d in v.world.items()]
    if how == 'writer':
        h = io.BytesIO()
        r = call(to_magicavoxel, v, h, man, limit=60)
        b = h.getvalue()
    elif how == 'cli':
        with open('out.vox', 'wb') as f:
            a = types.SimpleNamespace(magica=f, graph=None, mpz_out=None)
            r = call(cli.output, v, None, None, types.SimpleNamespace(TEXMAN=man), a, limit=60)
        b = open('out.vox', 'rb').read()
    else:
        old = prefabs.TEXMAN
        prefabs.TEXMAN = man
        try:
            r = call(v.to_magicavoxel, 'out.vox', limit=60)
        finally:
            prefabs.TEXMAN = old
        b = open('out.vox', 'rb').read()
    return {'op': 'export', 'res': r[0], 'b': list(b), 'whole': whole, 'world': sorted(world), 'atlas': colours(man), 'rd': read(b), 'key': key}


def manager(rnd, n):
    from redeclipse.textures import AutomatedMagicaTextureManager
    m = AutomatedMagicaTextureManager()
    while len(m.atlas) < n:
        k = rnd.random()
        if k < .6:
            m.get_colour(*[rnd.randrange(256) / 255 for _ in range(3)])
        elif k < .8:
            m.get_colour(*[rnd.choice([0, 1, .5, .1, .2, .9]) for _ in range(3)])
        else:
            m.get_colour(*[rnd.random() for _ in range(3)])
    return m


def drive(ctx):
    random.seed(ctx.seed)
    if ctx.pid == 'C20':
        for g in ctx.gens['model']:
            ctx.guard('worlds', worlds, ctx, g)
        for k in range(6 if ctx.quick else 40):
            ctx.guard('rooms', rooms, ctx, k)
    else:
        ctx.guard('read', reads, ctx)
        for g in ctx.gens['model']:
            ctx.guard('render', renders, ctx, g['b'], g['k'], g['pos'], 'generated')
        files = sorted(glob.glob(os.path.join(REPO, 'redeclipse/**/*.vox'), recursive=True))
        ctx.rnd.shuffle(files)
        n = 0
        for f in files:
            b = list(open(f, 'rb').read())
            ctx.scen('vox', 'file', [{'op': 'read', 'b': b, 'rd': read(b), 'key': 'file-' + os.path.basename(f)}])
            if read(b)['ok'] and len(b) < (6000 if ctx.quick else 40000) and n < (8 if ctx.quick else 80):
                n += 1
                ctx.guard('render', renders, ctx, b, ctx.rnd.randrange(4), [ctx.rnd.randrange(5) for _ in range(3)], 'file')
        ctx.guard('classes', classes, ctx)


def worlds(ctx, g):
    from redeclipse.objects import cube
    from redeclipse.vector import FineVector
    from redeclipse.voxel import VoxelWorld
    rnd = ctx.rnd
    v = VoxelWorld(size=rnd.choice([8, 128, 256]))
    man = manager(rnd, g['natlas'])
    n = len(man.atlas)
    ev = []
    hows = ['writer', 'cli', 'world']
    for o in g['ops'] + [{'op': 'export'}]:
        if o['op'] == 'export':
            ev.append(export(v, man, rnd.choice(hows), 'world', False))
            continue
        p = [float(x) for x in o['p']] if rnd.random() < .3 else o['p']
        t = [0, 1, n - 1, o['t'] % n][o['t'] % 4]
        c = cube.newtexcube(tex=t)
        if o['op'] == 'set':
            r = call(v.set_pointv, FineVector(*p), c) if rnd.random() < .5 else call(v.set_point, p[0], p[1], p[2], c)
        else:
            r = call(v.del_pointv, FineVector(*p)) if rnd.random() < .5 else call(v.del_point, *p)
        ev.append({'op': o['op'], 'p': o['p'], 't': t, 'res': r[0], 'key': 'edit'})
    ctx.scen('vox', 'world', ev)


def rooms(ctx, k):
    """rooms drawn into a world, partly outside of what a file can hold"""
    from redeclipse import MapParser, prefabs
    from redeclipse.vector import CoarseVector
    from redeclipse.voxel import VoxelWorld
    rnd = ctx.rnd
    m = MapParser().read(os.path.join(REPO, 'maps/empty-night.mpz'))
    v = VoxelWorld(size=256)
    cs = [c for c in room_classes() if c.__name__ != 'TestRoom2']
    for _ in range(rnd.randint(1, 3)):
        r = rnd.choice(cs)(pos=CoarseVector(*[rnd.choice([-1, 0, 5, 31, 32, 30]) for _ in range(3)]), orientation=direction(rnd.randrange(4)))
        r.render(v, m)
        if len(v.world) > 1500:
            break
    if len(v.world) < 6000:
        ctx.scen('vox', 'rooms', [export(v, prefabs.TEXMAN, ['writer', 'cli', 'world'][k % 3], 'rooms', True)])


def reads(ctx):
    from redeclipse.magicavoxel.writer import to_magicavoxel  # noqa
    ev = []
    for g in ctx.gens['model']:
        for b in (g['b'], g['d']):
            ev.append({'op': 'read', 'b': b, 'rd': read(b), 'key': 'read'})
    b = ctx.gens['model'][0]['b']
    cuts = list(range(0, 80)) + [len(b) - k for k in range(1, 30)] + ctx.rnd.sample(range(len(b)), 30)
    for c in cuts:
        ev.append({'op': 'read', 'b': b[:c], 'rd': read(b[:c]), 'key': 'read-cut'})
    marks = [1, 2, 3, 4, 9, 10, 11, 12, 21, 22, 23, 24, 45, 46, 47, 48]
    n = next(k for k in range(48, len(b)) if b[k:k + 4] == list(b'RGBA'))
    for k in [x - 1 for x in marks] + [n, n + 1, n + 2, n + 3]:
        for d in (1, 32, 128):
            c = list(b)
            c[k] ^= d
            ev.append({'op': 'read', 'b': c, 'rd': read(c), 'key': 'read-marker'})
    for k in range(0, len(ev), 12):
        ctx.scen('vox', 'read', ev[k:k + 12])


def renders(ctx, b, k, pos, name):
    with open('model.vox', 'wb') as f:
        f.write(bytes(b))
    from redeclipse.prefabs.magica import MagicaRoom

    class Imported(MagicaRoom):
        name = 'imported'
        vox_file = os.path.abspath('model.vox')
    for q in ([k] if name == 'file' else [k, (k + 1) % 4]):
        if name != 'file' or ctx.rnd.random() < .3:
            add = {w: ctx.rnd.randint(1, 9) for w in ctx.rnd.choice([(), ('WEST',), ('SOUTH',), ('WEST', 'SOUTH')])}
            Imported = type('Imported', (MagicaRoom,), {'name': 'imported', 'vox_file': os.path.abspath('model.vox'), 'boundary_additions': add})
        ctx.scen('vox', 'render', [render(Imported, b, q, pos, 'render-' + name, ctx.rnd)])


def render(cls, b, q, pos, key, rnd):
    from redeclipse import MapParser, prefabs
    from redeclipse.vector import CoarseVector
    from redeclipse.voxel import VoxelWorld
    v = VoxelWorld(size=256)
    m = types.SimpleNamespace(ents=[])
    at = rnd.choice([CoarseVector(*pos), CoarseVector(*[float(x) for x in pos])])
    room = cls(pos=at, orientation=direction(q))
    if rnd.random() < .5:
        call(room.get_positions)
    r = call(room.render, v, m, limit=60)
    a = prefabs.TEXMAN.atlas
    dump = []
    for p, d in v.world.items():
        try:
            t = a[texture_of(d)]
            col = [round(x * 255) if abs(x * 255 - round(x * 255)) < 1e-6 else BAD for x in (t.r, t.g, t.b)]
        except Exception:
            col = [BAD] * 3
        dump.append(vec(p) + col)
    c = call(lambda: list(room.get_positions()))
    # the stairs of the egypt set also reserve the free cell above their lower half
    return {'op': 'render', 'more': cls.__name__ in ('stair', 'stair_toplatform'), 'b': list(b), 'q': q, 'pos': [num(x) for x in pos],
            'add': [cls.boundary_additions.get(w, 0) for w in ('WEST', 'SOUTH')], 'res': r[0], 'dump': dump,
            'cells': [vec(x) for x in c[1]] if c[0] == 'ok' else [], 'key': key}


def classes(ctx):
    """the room classes of the package that keep the colours of their file"""
    from redeclipse.prefabs.magica import MagicaRoom
    cs = [c for c in room_classes() if issubclass(c, MagicaRoom) and c.vox_file
          and c.colour_to_texture is MagicaRoom.colour_to_texture]
    ctx.rnd.shuffle(cs)
    done = 0
    for c in cs:
        b = list(open(c.vox_file, 'rb').read())
        if len(b) > (5000 if ctx.quick else 40000):
            continue
        done += 1
        if ctx.quick and done > 8:
            break
        for q in ([ctx.rnd.randrange(4)] if ctx.quick else range(4)):
            ctx.scen('vox', 'class', [render(c, b, q, [ctx.rnd.randrange(9) for _ in range(3)], 'class-' + c.__name__, ctx.rnd)])
