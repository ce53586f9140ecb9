"""C29: corners of faces (redeclipse.objects.cube.genfaceverts)"""
from harness.driver import BAD, call, num

TRACE = {'faces': 'FacesTrace'}
SHARDS = {'faces': 4}


def mc(pid, tier):
    return [{'module': 'FacesMC', 'cfg': 'FacesMC.cfg' if tier == 'quick' else 'FacesMCT.cfg', 'workers': 8}]


def gen(pid, tier):
    return [{'name': 'cubes', 'module': 'FacesGen', 'cfg': 'FacesGen.cfg', 'num': 50 if tier == 'quick' else 3000, 'depth': 100}]


def point(p):
    try:
        return [num(v) for v in (p.x, p.y, p.z)]
    except Exception:
        return [BAD]


def cube_event(c, key):
    edges = list(c.edges)
    order = list(range(6))
    got = {}
    res = 'ok'
    for o in order:
        r, v = call(c.genfaceverts, o)
        if r == 'ok':
            got[o] = [point(p) for p in v] if isinstance(v, (list, tuple)) else []
        else:
            res, got[o] = r, []
    return {'op': 'cube', 'key': key, 'edges': edges, 'after': [num(v) for v in c.edges], 'res': res, 'faces': [got[o] for o in order]}


def drive(ctx):
    for g in ctx.gens['cubes']:
        ctx.guard('cubes', cubes, ctx, g)
    ctx.guard('numbers', numbers, ctx)
    ctx.guard('worlds', worlds, ctx)


def cubes(ctx, g):
    from redeclipse.objects import cube
    ev = []
    one = cube()
    for j, edges in enumerate(g):
        c = one if j % 3 == 0 else cube()
        c.edges = list(edges)
        ev.append(cube_event(c, 'cube'))
    ctx.scen('faces', 'cubes', ev)


def numbers(ctx):
    from redeclipse.objects import dimcoord, dimension, opposite
    ctx.scen('faces', 'numbers', [{'op': 'face', 'key': str(o), 'o': o, 'dim': num(dimension(o)), 'side': num(dimcoord(o)), 'opp': num(opposite(o))} for o in range(6)])


def worlds(ctx):
    """cubes as the code itself makes them"""
    from redeclipse.objects import cube
    from redeclipse.voxel import VoxelWorld
    ev = [cube_event(cube(), 'new')]
    for c in cube.newcubes():
        ev.append(cube_event(c, 'newcubes'))
    w = VoxelWorld(size=4)
    for p in ((0, 0, 0), (1, 2, 3), (3, 3, 3)):
        w.set_pointv(_vec(p), cube.newtexcube(tex=5))
    todo = list(w.to_octree())
    while todo:
        c = todo.pop()
        if c.children:
            todo.extend(c.children)
        else:
            ev.append(cube_event(c, 'octree'))
    ctx.scen('faces', 'worlds', ev)


def _vec(p):
    from redeclipse.vector import FineVector
    return FineVector(*p)
