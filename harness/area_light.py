"""C26: lights (redeclipse.lighting)"""
import json
import os
import subprocess
import sys

from harness.driver import BAD, REPO, call, num

TRACE = {'light': 'LightTrace'}
SHARDS = {'light': 8}


def mc(pid, tier):
    return [{'module': 'LightMC', 'cfg': 'LightMC.cfg' if tier == 'quick' else 'LightMCT.cfg', 'workers': 8}]


def gen(pid, tier):
    return [{'name': 'lights', 'module': 'LightGen', 'cfg': 'LightGen.cfg', 'num': 120 if tier == 'quick' else 2000, 'depth': 100}]


class Xmap:
    def __init__(self, ents=()):
        self.ents = list(ents)


def position(p, coarse):
    from redeclipse.vector import CoarseVector, FineVector
    half = [v // 2 if v % 2 == 0 else v / 2 for v in p]
    if coarse and all(v % 16 == 0 for v in p):
        return CoarseVector(*[v // 16 for v in p])
    return FineVector(*half)


def light(e):
    from redeclipse.enums import EntType
    try:
        return {'t': e.type.value, 'o': [num(v, 64) for v in (e.o.x, e.o.y, e.o.z)],
                'a': [num(v) if not (j and isinstance(v, float)) else BAD for j, v in enumerate(e.attrs)],
                'd': e.type is EntType.ET_LIGHT and list(e.links) == [] and list(e.reserved) == [0, 0, 0]}
    except Exception:
        return {'t': BAD, 'o': [], 'a': [], 'd': False}


def pure(p, centre):
    """the colour of a position at full brightness and saturation"""
    from redeclipse.lighting import PositionBasedLightManager
    x = Xmap()
    PositionBasedLightManager(brightness=1.0, saturation=1.0).light(x, position(p, False), autocenter=centre)
    return light(x.ents[0])['a'][1:4]


def pures(path):
    """runs in a process of its own"""
    with open(path) as f:
        todo = json.load(f)
    out = [pure(p, c) for p, c in reversed(todo)]
    with open(path, 'w') as f:
        json.dump(out[::-1], f)


def drive(ctx):
    todo = [[x['p'], x['centre']] for g in ctx.gens['lights'] for x in g if x['op'] == 'light']
    with open('todo.json', 'w') as f:
        json.dump(todo, f)
    env = dict(os.environ, PYTHONHASHSEED='77', PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys\nsys.path.insert(0, %r)\nfrom harness import area_light as a\na.pures("todo.json")' % REPO],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    other = {}
    if r.returncode == 0:
        with open('todo.json') as f:
            for t, c in zip(todo, json.load(f)):
                other[json.dumps(t)] = c
    for g in ctx.gens['lights']:
        ctx.guard('lights', history, ctx, g, other)


def history(ctx, g, other):
    from redeclipse.entities import PlayerSpawn
    from redeclipse.lighting import LightManager, PositionBasedLightManager
    from redeclipse.vector import FineVector
    rnd = ctx.rnd
    xmap = Xmap([PlayerSpawn(xyz=FineVector(1, 2, 3))])
    first = xmap.ents[0]
    mans, ev = [], []
    for x in g:
        op = x['op']
        e = {'x': x, 'h': [], 'h2': [], 'key': op}
        if op == 'manager':
            cls = LightManager if x['cls'] == 'plain' else PositionBasedLightManager
            kw = {'brightness': x['b'] / 64, 'saturation': x['s'] / 64, 'world_size': x['ws']}
            for k, d in (('brightness', 1.0), ('saturation', 1.0), ('world_size', 128)):
                if kw[k] == d and rnd.random() < .6:
                    del kw[k]
            r = call(lambda: mans.append(cls(**kw)))
        elif op == 'bright':
            mans[x['n'] - 1].brightness = x['v'] / 64
            r = ('ok', '')
        elif op == 'saturate':
            mans[x['n'] - 1].saturation = x['v'] / 64
            r = ('ok', '')
        else:
            kw = {}
            if x['over']:
                kw['colour_override'] = tuple(x['over'][0])
            if not x['centre'] or rnd.random() < .3:
                kw['autocenter'] = x['centre']
            if x['f'] != 4 or rnd.random() < .3:
                kw['size_factor'] = x['f'] // 4 if x['f'] % 4 == 0 else x['f'] / 4
            pos = position(x['p'], x['coarse'])
            r = call(lambda: mans[x['n'] - 1].light(xmap, pos, **kw))
            e['h'] = call(pure, x['p'], x['centre'])[1]
            e['h2'] = other.get(json.dumps([x['p'], x['centre']]), [])
            e['key'] = 'own' if x['over'] else g[0]['cls'] if not mans else type(mans[x['n'] - 1]).__name__
        e['res'] = r[0]
        e['others'] = bool(xmap.ents) and xmap.ents[0] is first
        e['lights'] = [light(v) for v in xmap.ents[1:]]
        ev.append(e)
        if r[0] != 'ok':
            break
    ctx.scen('light', 'light', ev)
