"""C25: the same arguments give the same map, in any process (redeclipse.cli.magica_rooms)"""
import concurrent.futures
import gzip
import hashlib
import json
import os
import random
import subprocess
import sys
import types

from harness.driver import REPO, vec

TRACE = {'repro': 'ReproTrace'}
SHARDS = {'repro': 4}
INPUTS = ['maps/empty-night.mpz', 'tests/files/empty-medium.mpz', 'maps/empty-day.mpz']
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EMPTY = {'outcome': '', 'rooms': [], 'links': [], 'voxels': '', 'entities': '', 'mpz': '', 'cfg': '', 'graph': []}


def mc(pid, tier):
    return [{'module': 'ReproMC', 'cfg': 'ReproMC.cfg' if tier == 'quick' else 'ReproMCT.cfg', 'workers': 8}]


def gen(pid, tier):
    return [{'name': 'runs', 'module': 'ReproGen', 'cfg': 'ReproGen.cfg', 'num': 9 if tier == 'quick' else 120, 'depth': 30}]


def drive(ctx):
    jobs = []
    for n, g in enumerate(ctx.gens['runs']):
        for k, env in enumerate(g['envs']):
            jobs.append((n, k, g['args'], env))
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        done = list(pool.map(run, jobs))
    for n, g in enumerate(ctx.gens['runs']):
        ev = [e for (m, k, args, env), e in zip(jobs, done) if m == n]
        ctx.scen('repro', g['args']['kind'], ev)


def run(job):
    n, k, args, env = job
    home = os.path.abspath('run-%d-%d' % (n, k))
    os.makedirs(home)
    e = dict(os.environ, PYTHONHASHSEED=str(env['hash']), TZ='Etc/GMT+%d' % (env['zone'] % 12), PYTHONPATH=VERIF, HOME=home, LANG=['C', 'C.UTF-8'][k % 2],
             **{'JUNK%d' % j: 'x' * env['garbage'] for j in range(env['draws'])})
    with open(os.path.join(home, 'job.json'), 'w') as f:
        json.dump({'args': args, 'env': env}, f)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys\nsys.path.insert(0, %r)\nfrom harness import area_repro as a\na.generate()' % REPO],
                       cwd=home, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
    try:
        with open(os.path.join(home, 'result.json')) as f:
            result, res = json.load(f), 'ok'
    except Exception:
        result, res = EMPTY, p.stderr[-300:].decode('utf8', 'replace')
    return {'op': 'run', 'key': args['kind'], 'args': args, 'env': env, 'res': res, 'result': result}


def generate():
    """in a process of its own"""
    with open('job.json') as f:
        job = json.load(f)
    a, env = job['args'], job['env']
    garbage = [object() for _ in range(env['garbage'])]
    for _ in range(env['draws']):
        random.random()
    from redeclipse.cli import magica_rooms
    del garbage[::2]
    if env['late']:
        for _ in range(env['draws']):
            random.gauss(0, 1)
    if env['seeded']:
        random.seed(env['hash'])
    own = random.Random(env['hash'] * 1000 + env['garbage'])    # objects lie elsewhere in the memory
    heap = [bytes(16 * own.randint(1, 31) - 15) for _ in range(own.randint(1, 20000))]
    own.shuffle(heap)
    del heap[:own.randrange(len(heap))]
    result = dict(EMPTY)
    try:
        v, m, u = (main if a['kind'] == 'main' else rooms)(a, magica_rooms)
    except Exception as e:
        result['outcome'] = 'raised ' + type(e).__name__
    else:
        tell(result, v, m, u)
    with open('result.json', 'w') as f:
        json.dump(result, f)


def main(a, magica_rooms):
    with open(os.path.join(REPO, INPUTS[a['input']])) as f:
        return magica_rooms.main(f, size=a['size'], seed=a['seed'], rooms=a['rooms'], debug=a['debug'], ctf=a['ctf'], mirror=a['mirror'],
                                 flavor=a['flavor'] or None)


def rooms(a, magica_rooms):
    """as main, with all kinds of rooms, options and effects"""
    from harness.area_rooms import room_classes
    from redeclipse import aftereffects
    from redeclipse.cli import parse
    from redeclipse.prefabs import STARTING_POSITION
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector.orientations import EAST
    from redeclipse.voxel import VoxelWorld
    import redeclipse.worldflavors
    random.seed(a['seed'])
    classes = [c for c in room_classes() if isinstance(getattr(c, 'room_type', None), str) and c.__name__ != 'TestRoom2']
    caps = [c for c in classes if c.room_type == 'endcap']
    possible = [c for c in classes if c.room_type != 'endcap']
    m = redeclipse.worldflavors.update(parse(os.path.join(REPO, INPUTS[a['input']])), a['flavor'])
    v = VoxelWorld(size=a['size'])
    u = UnusedPositionManager(a['size'], mirror=a['mirror'])
    u.register_room(possible[a['seed'] % len(possible)](pos=STARTING_POSITION, orientation=EAST))
    u.place_rooms(a['debug'], possible, rooms=a['rooms'])
    u.endcap(debug=a['debug'], possible_endcaps=caps)
    for room in u.rooms:
        room.render(v, m)
    fx = a['fx']
    if fx == 1:
        aftereffects.decay(v, lambda x, y, z: .3)
    elif fx == 2:
        aftereffects.growth(v, lambda x, y, z: .2)
    elif fx == 3:
        aftereffects.decay(v, aftereffects.vertical_gradient)
        aftereffects.grid(v, size=5)
    return v, m, u


def digest(x):
    return hashlib.sha256(x if isinstance(x, bytes) else repr(x).encode()).hexdigest()[:24] + ' of %d' % len(x)


def tell(result, v, m, u):
    from harness.area_e2e import texture_of
    from redeclipse import cli, prefabs
    prefabs.TEXMAN.copy_data = lambda: None      # would copy pictures to a directory of the author
    result['rooms'] = ['%s %s %s %s %s' % (type(r).__name__, vec(r.pos), vec(r.orientation), getattr(r, '_randflags', ''), sorted(vec(p) for p in r.get_positions()))
                       for r in u.rooms]
    result['links'] = [[vec(a), vec(b)] for a, b in u.links]
    result['voxels'] = digest(sorted((vec(p), texture_of(d)) for p, d in v.world.items()))
    result['entities'] = digest([(e.type.name, repr(e.o.x), repr(e.o.y), repr(e.o.z), list(map(repr, e.attrs)), repr(e.links)) for e in m.ents])
    with open('out.mpz', 'w') as f, open('out.json', 'w') as h:
        cli.output(v, m, u, prefabs, types.SimpleNamespace(magica=None, graph=h, mpz_out=f))
    with gzip.open('out.mpz') as f:              # the packed file holds the time it was written
        result['mpz'] = digest(f.read())
    with open('out.cfg', 'rb') as f:
        result['cfg'] = digest(f.read())
    with open('out.json') as f:
        g = json.load(f)
    at = {n['id']: k for k, n in enumerate(g['nodes'])}
    result['graph'] = [n['name'] for n in g['nodes']] + ['%s-%s' % (at.get(x['source']), at.get(x['target'])) for x in g['links']]
    result['outcome'] = 'done'
