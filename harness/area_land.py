"""C33: the landscape generators redeclipse.cli.snow_forest and redeclipse.cli.perlin"""
import os
import subprocess
import sys

from harness.driver import REPO, call, num

TRACE = {'land': 'LandTrace'}
SHARDS = {'land': 4}
TOOLS = {'snow': ('snow_forest', 256, 256, 0), 'town': ('perlin', 128, 128, 50)}


def mc(pid, tier):
    return [{'module': 'LandMC', 'cfg': 'LandMC.cfg' if tier == 'quick' else 'LandMCT.cfg', 'workers': 4}]


def gen(pid, tier):
    return []


def columns(world, size):
    """(x, y) -> runs of layers; world is the list of the eight root cubes"""
    cols = {}

    def walk(n, x, y, z, s):
        kids = getattr(n, 'children', None)
        if kids:
            h = s // 2
            for k, q in enumerate(kids):
                walk(q, x + h * (k & 1), y + h * (k >> 1 & 1), z + h * (k >> 2 & 1), h)
        elif n.octsav & 7 in (2, 3):
            t = ','.join(map(str, n.texture))
            for a in range(x, x + s):
                for b in range(y, y + s):
                    c = cols.setdefault((a, b), [])
                    c.append([z, z + s - 1, t])
    h = size // 2
    for k, q in enumerate(world):
        walk(q, h * (k & 1), h * (k >> 1 & 1), h * (k >> 2 & 1), h)
    for c in cols.values():
        c.sort()
        out = [c[0]]
        for r in c[1:]:
            if r[0] == out[-1][1] + 1 and r[2] == out[-1][2]:
                out[-1] = [out[-1][0], r[1], r[2]]
            else:
                out.append(r)
        c[:] = out
    return cols


def load(path):
    from redeclipse import MapParser
    return MapParser().read(path)


def ekey(e):
    return (e.type.name, num(e.o.x), num(e.o.y), num(e.o.z), tuple(str(getattr(a, 'value', a)) for a in e.attrs), tuple(e.links))


def kind(e):
    if e.type.name == 'ET_PLAYERSTART':
        return 'spawn'
    if e.type.name == 'ET_MAPMODEL':
        return {137: 'tree', 122: 'rock'}.get(e.attrs[0], 'other')
    return 'other'


def mvars(m):
    return {(k if isinstance(k, bytes) else k.encode()): (v if isinstance(v, (bytes, int, float)) else str(v).encode()) for k, v in m.map_vars.items()}


def drive(ctx):
    jobs = [('snow', 'empty-day'), ('town', 'empty-night')]
    if not ctx.quick:
        jobs += [('town', 'empty-day'), ('snow', 'empty-night'), ('snow', 'empty2'), ('town', 'empty2'), ('snow', 'colourTest1'), ('town', 'colourTest1')]
    procs = []
    for n, (land, src) in enumerate(jobs):
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(n))
        procs.append(subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'redeclipse.cli.' + TOOLS[land][0], os.path.join(REPO, 'maps', src + '.mpz'),
                                       os.path.abspath('land%d.mpz' % n)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for n, (land, src) in enumerate(jobs):
        ctx.guard('%s-%s' % (land, src), one, ctx, land, src, procs[n], 'land%d.mpz' % n, limit=400)


def one(ctx, land, src, proc, out):
    _, world, size, top = TOOLS[land]
    try:
        rc = proc.wait(timeout=380)
    except subprocess.TimeoutExpired:
        proc.kill()
        rc = -1
    r = call(load, out, limit=100) if rc == 0 else ('raise', '')
    ev = [{'op': 'run', 'ok': r[0] == 'ok', 'key': 'run-' + land, 'vars': False, 'rest': 1}]
    if r[0] == 'ok':
        m, o = r[1], load(os.path.join(REPO, 'maps', src + '.mpz'))
        cols = columns(m.world, world)
        ev[0]['vars'] = mvars(m) == mvars(o)
        ev[0]['rest'] = sum(1 for a, b in cols if a >= size or b >= size)
        for i in range(size):
            ev.append({'op': 'row', 'i': i, 'cols': [cols.get((i, j), []) for j in range(size)], 'key': 'row-' + land})
        k = len(o.ents)
        new = [{'kind': kind(e), 'x': num(e.o.x), 'y': num(e.o.y), 'z': num(e.o.z)} for e in m.ents[k:]]
        ev.append({'op': 'ents', 'kept': [ekey(e) for e in m.ents[:k]] == [ekey(e) for e in o.ents], 'new': new, 'key': 'ents-' + land})
    ctx.scen('land', '%s-%s' % (land, src), ev, land=land, size=size, top=top)
