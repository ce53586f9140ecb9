"""C12-C18, C31: redeclipse.upm.UnusedPositionManager and the exported graph"""
import io
import itertools
import json
import random
import types

from harness.area_rooms import direction, room_classes
from harness.driver import BAD, call, num, vec

TRACE = {'upm': 'UpmTrace'}
TRACECFG = {'upm': 'UpmTrace.cfg'}
SHARDS = {'upm': 8}
EMPTY = {'t': '', 'f': '', 'k': 0, 'c': [[0, 0, 0]], 'd': []}


def mc(pid, tier):
    return [{'module': 'UpmMC', 'cfg': 'UpmMCQ.cfg' if tier == 'quick' else 'UpmMCT.cfg', 'workers': 6}]


def gen(pid, tier):
    return [{'name': 'hist', 'module': 'UpmGen', 'cfg': 'UpmGen.cfg', 'num': 40 if tier == 'quick' else 800, 'depth': 30}]


DIRS = [(1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0)]


def describe(room):
    o = tuple(vec(room.orientation))
    return {'t': str(getattr(room, 'name', type(room).__name__)), 'f': str(getattr(room, '_randflags', '')),
            'k': DIRS.index(o) if o in DIRS else -1, 'c': [vec(p) for p in room.get_positions()],
            'd': [vec(d['offset']) + vec(d['orientation']) for d in room.get_doorways()]}


def fake(entry, probs):
    """a kind of room after an entry of the catalogue"""
    from redeclipse.prefabs import Room
    from redeclipse.vector import CoarseVector
    from redeclipse.vector.orientations import EAST
    shapes = [([CoarseVector(*c) for c in s['c']], [(CoarseVector(*d[0]), CoarseVector(*d[1])) for d in s['d']]) for s in entry['shs']]

    class Fake(Room):
        name = entry['t']
        room_type = entry['t']

        def __init__(self, pos, orientation=EAST, randflags=None):
            self.pos = CoarseVector(*pos)
            self.orientation = orientation
            self.tag = [0]
            if randflags:
                self._randflags = randflags

        def _shape(self):
            return shapes[0 if len(shapes) == 1 or self._randflags[0] else 1]

        def get_positions(self):
            return [self.pos + c.rotate(self.orientation) for c in self._shape()[0]]

        def get_doorways(self):
            return [{'orientation': f.rotate(self.orientation), 'offset': self.pos + t.rotate(self.orientation)}
                    for t, f in self._shape()[1]]

        def get_transition_probs(self):
            return probs

        def render(self, world, xmap):
            pass
    if len(shapes) > 1:
        Fake._randflags = (True,)
    Fake.__name__ = 'Fake_' + entry['t']
    return Fake


def cat_json(cat):
    return [{'t': c['t'], 'shs': [{'f': s['f'], 'c': s['c'], 'd': [d[0] + d[1] for d in s['d']]} for s in c['shs']]} for c in cat]


def real_entry(cls):
    """catalogue entry of a class of the package"""
    from redeclipse.vector import CoarseVector
    flags = getattr(cls, '_randflags', None)
    shs, seen = [], set()
    for fl in ([None] if not flags else itertools.product([True, False], repeat=len(flags))):
        kw = {} if fl is None else {'randflags': list(fl)}
        r = cls(pos=CoarseVector(0, 0, 0), orientation=direction(0), **kw)
        d = describe(r)
        s = {'f': d['f'], 'c': d['c'], 'd': [[x[:3], x[3:]] for x in d['d']]}
        key = json.dumps([sorted(s['c']), sorted(s['d'])])
        if key not in seen:
            seen.add(key)
            shs.append(s)
    return {'t': str(getattr(cls, 'name', cls.__name__)), 'shs': shs}


class Rec:
    def __init__(self, ctx, m, cat, classes):
        from redeclipse.upm import UnusedPositionManager
        self.ctx, self.m, self.cat, self.classes = ctx, m, cat, classes
        self.u = UnusedPositionManager(256, mirror=m)
        self.ev, self.old, self.desc, self.occ, self.nlinks = [], [], [], {}, 0
        self.first = 0
        random.seed(ctx.rnd.randrange(10 ** 6))

    def event(self, op, res, base=None, n=0, offered=(), given=(), last=False, key=None, **more):
        u = self.u
        rooms = list(u.rooms)
        desc = [describe(r) for r in rooms]
        same = len(rooms) >= len(self.old) and all(a is b for a, b in zip(rooms, self.old)) and desc[:len(self.old)] == self.desc
        ids = {id(r): i + 1 for i, r in enumerate(rooms)}
        indep = len(ids) == len(rooms) and all(id(r) not in ids for r in given)
        tags = [r.tag for r in rooms + list(given) if hasattr(r, 'tag')]
        indep = indep and len({id(t) for t in tags}) == len(tags)
        occ = {tuple(vec(p)): ids.get(id(r), BAD) for p, r in u.occupied.items()}
        add = [list(c) + [i] for c, i in occ.items() if self.occ.get(c) != i]
        dele = [list(c) + [i] for c, i in self.occ.items() if occ.get(c) != i]
        links = [vec(a) + vec(b) for a, b in u.links[self.nlinks:]]
        e = {'op': op, 'res': res, 'base': base or EMPTY, 'n': n, 'offered': list(offered), 'add': desc[len(self.old):],
             'occadd': add, 'occdel': dele, 'fr': [vec(p) + [ids.get(id(r), BAD)] + vec(o) for p, r, o in u.unoccupied],
             'links': links, 'same': same, 'indep': indep, 'last': last, 'nodes': [], 'edges': [], 'key': key or op}
        e.update(more)
        self.ev.append(e)
        self.old, self.desc, self.occ, self.nlinks = rooms, desc, occ, len(u.links)

    def make(self, x, v, k, p):
        from redeclipse.vector import CoarseVector
        cls = self.classes[x - 1]
        kw = {'randflags': [v == 1]} if hasattr(cls, '_randflags') and len(cls._randflags) == 1 else {}
        return cls(pos=CoarseVector(*p), orientation=direction(k), **kw)

    def pre(self, room):
        d = describe(room)
        r = call(self.u.preregister_room, room)
        self.event('pre', ('yes' if r[1] is True else 'no' if r[1] is False else '?') if r[0] == 'ok' else r[0], d)

    def reg(self, room):
        d = describe(room)
        r = call(self.u.register_room, room)
        self.event('reg', r[0], d, given=[room])
        if r[0] == 'ok' and len(self.ev) == 1:
            self.first = self.m

    def place(self, offered, n, last=False, key=None, debug=False):
        r = call(self.u.place_rooms, debug, [self.classes[x - 1] for x in offered], rooms=n, limit=60)
        self.event('place', r[0], n=n, offered=offered, last=last, key=key or 'place-m%d' % self.m)

    def cap(self, offered):
        r = call(self.u.endcap, possible_endcaps=[self.classes[x - 1] for x in offered])
        self.event('cap', r[0], offered=offered)

    def debugcap(self):
        r = call(self.u.endcap, debug=True)
        self.event('debugcap', r[0])

    def legal(self, p):
        from redeclipse.vector import CoarseVector
        r = call(self.u.is_legal, CoarseVector(*p))
        self.event('legal', ('yes' if r[1] is True else 'no' if r[1] is False else '?') if r[0] == 'ok' else r[0],
                   dict(EMPTY, c=[list(p)]), key='legal')

    def graph(self):
        from redeclipse import cli, prefabs
        f = io.StringIO()
        a = types.SimpleNamespace(magica=None, mpz_out=None, graph=f)
        r = call(cli.output, None, None, self.u, prefabs, a)
        nodes, edges = [], []
        if r[0] == 'ok':
            try:
                g = json.loads(f.getvalue())
                ids = {id(x): i + 1 for i, x in enumerate(self.u.rooms)}
                ids[id(None)] = 0
                nodes = [{'i': ids.get(x['id'], BAD), 'name': str(x['name']), 'label': str(x['label'])} for x in g['nodes']]
                edges = [[ids.get(x['source'], BAD), ids.get(x['target'], BAD)] for x in g['links']]
            except Exception:
                r = ('bad', None)
        self.event('graph', r[0], nodes=nodes, edges=edges)

    def done(self, name):
        self.ctx.scen('upm', name, self.ev, m=self.m, cat=cat_json(self.cat), first=self.first or self.m)


def drive(ctx):
    rnd = ctx.rnd
    gens = ctx.gens['hist']
    probs = {c['t']: 1.0 for c in gens[0]['cat']}
    probs.update(dot=.5, big=.25, long=2)
    cat = gens[0]['cat']
    classes = [fake(c, probs) for c in cat]
    for g in gens:
        ctx.guard('tlc', history, ctx, g, classes)
    big = 1 if ctx.quick else 10
    for rep in range(10 * big):
        ctx.guard('run', run, ctx, cat, classes, rep)
    for rep in range(6 * big):
        ctx.guard('crowd', crowd, ctx, cat, classes, rep)
    for rep in range(4 * big):
        ctx.guard('centre', centre, ctx, cat, classes, rep)
    for rep in range(4 * big):
        ctx.guard('tentative', tentative, ctx, cat, classes, rep)
    for rep in range(6 * big):
        ctx.guard('contest', contest, ctx, cat, classes, rep)
        ctx.guard('nook', nook, ctx, cat, classes, rep)
        ctx.guard('rim', rim, ctx, cat, classes, rep)
    ctx.guard('many', many, ctx, cat, classes)
    real(ctx, big)
    ctx.guard('legal', legal, ctx, cat, classes)


def history(ctx, g, classes):
    r = Rec(ctx, g['m'], g['cat'], classes)
    for o in g['ops']:
        if o['op'] in ('pre', 'reg'):
            room = r.make(o['x'], o['v'], o['k'], o['p'])
            if o['op'] == 'pre':
                r.pre(room)
            else:
                r.reg(room)
        elif o['op'] == 'place':
            if not r.u.unoccupied and not r.u.rooms:
                continue
            r.place(sorted({o['x'], o['v']}), o['n'])
        else:
            r.cap([3] if o['n'] == 0 else [11, 12, 13][:o['n']])
    r.graph()
    r.done('tlc')


def run(ctx, cat, classes, rep):
    """a start room, placed step by step, then in one go, then capped"""
    rnd = ctx.rnd
    m = [1, 2, 4][rep % 3]
    r = Rec(ctx, m, cat, classes)
    x = rnd.randint(1, len(cat))
    start = rnd.choice([(8, 8, 3), (9, 17, 4), (14, 15, 0), (3, 20, 30), (1, 1, 3), (20, 22, 7)])
    room = r.make(x, rnd.randint(1, 2), rnd.randrange(4), start)
    if not r.u.preregister_room(room):
        room = r.make(1, 1, rnd.randrange(4), (8, 8, 3))
    r.reg(room)
    offered = sorted(rnd.sample(range(1, len(cat) + 1), rnd.randint(1, 5)))
    for _ in range(6 if m > 1 else 10):
        r.place(offered, 1)
    for _ in range(4):
        r.pre(r.make(rnd.randint(1, len(cat)), 1, rnd.randrange(4),
                     [v + rnd.randint(-2, 2) for v in vec(rnd.choice(list(r.u.occupied)))]))
    r.graph()
    r.place(offered, rnd.choice([2, 5, 9]), last=True)
    r.cap(rnd.choice([[3], [11], [12], [13], [11, 3], [12, 13]]))
    if rep % 4 == 1:
        r.cap([3])
    r.graph()
    r.debugcap()
    r.graph()
    r.done('run-m%d' % m)


def crowd(ctx, cat, classes, rep):
    """few kinds of rooms until no open door is left"""
    rnd = ctx.rnd
    m = [1, 2, 4][rep % 3]
    r = Rec(ctx, m, cat, classes)
    byname = {c['t']: i + 1 for i, c in enumerate(cat)}
    r.reg(r.make(byname['dot'], 1, 0, rnd.choice([(29, 30, 3), (4, 2, 2), (15, 13, 1), (17, 14, 30)])))
    offered = [byname[t] for t in rnd.choice([['hall'], ['long'], ['end', 'down'], ['corner', 'end'], ['long', 'end'], ['stair'], ['opt']])]
    for _ in range(5):
        r.place(offered, 1, debug=True)
    r.place(offered, 60, last=True)
    r.place(offered, 3)
    r.cap([byname[c] for c in rnd.choice([['end'], ['cap2'], ['cap3', 'end'], ['cap5'], ['cap5', 'cap2']])])
    r.done('crowd-m%d' % m)


def centre(ctx, cat, classes, rep):
    """every kind of room around the centre, where images may touch each other"""
    rnd = ctx.rnd
    m = [2, 4, 4, 1][rep % 4]
    r = Rec(ctx, m, cat, classes)
    for _ in range(30):
        x = rnd.randint(1, len(cat))
        a = r.make(x, rnd.randint(1, 2), rnd.randrange(4), [rnd.randint(12, 19), rnd.randint(12, 19), rnd.randint(3, 5)])
        r.pre(a)
        if rnd.random() < .3:
            r.reg(a)
        if len(r.u.rooms) > 24:
            break
    r.done('centre-m%d' % m)


def tentative(ctx, cat, classes, rep):
    """one kind of room at every place around the centre"""
    rnd = ctx.rnd
    m = [4, 2, 4][rep % 3]
    r = Rec(ctx, m, cat, classes)
    byname = {c['t']: i + 1 for i, c in enumerate(cat)}
    x = byname['gap'] if rep < 2 else rnd.randint(1, len(cat))
    for px in range(13, 20):
        for py in range(13, 20):
            for k in (range(4) if rep < 2 else [rnd.randrange(4)]):
                r.pre(r.make(x, rnd.randint(1, 2), k, [px, py, rnd.randint(1, 30)]))
    r.done('tentative-m%d' % m)


def contest(ctx, cat, classes, rep):
    """dead ends close to each other whose doors lead into the same cells, then rooms that fit at some of them"""
    rnd = ctx.rnd
    m = [1, 1, 2][rep % 3]
    r = Rec(ctx, m, cat, classes)
    byname = {c['t']: i + 1 for i, c in enumerate(cat)}
    for z in rnd.sample(range(0, 31, 3), 3):
        c = [rnd.randint(5, 27), rnd.randint(5, 27), z]
        if rnd.random() < .5:
            c = [rnd.randint(5, 9), rnd.randint(5, 9), z]
        sides = rnd.sample(range(4), rnd.randint(2, 3))
        near = [(c[0] + DIRS[k][0], c[1] + DIRS[k][1], z) for k in sides]
        for k, p in zip(sides, near):                 # doors onto c
            r.reg(r.make(byname['end'], 1, k, p))
        for _ in range(rnd.randint(1, 3)):            # and what is in the way
            p = (c[0] + rnd.randint(-2, 2), c[1] + rnd.randint(-2, 2), z)
            if p != tuple(c) and p not in [tuple(vec(q)) for q in r.u.occupied]:
                r.reg(r.make(byname['end'], 1, rnd.randrange(4), p))
    for _ in range(12):
        r.place([byname[t] for t in rnd.choice([['long'], ['long', 'corner'], ['gap'], ['stair'], ['cap3']])], 1)
    r.done('contest-m%d' % m)


def nook(ctx, cat, classes, rep):
    """rooms with two doors onto the same cell, through one of which a long room fits"""
    rnd = ctx.rnd
    m = [1, 2, 4][rep % 3]
    r = Rec(ctx, m, cat, classes)
    byname = {c['t']: i + 1 for i, c in enumerate(cat)}
    for z in rnd.sample(range(0, 31, 2), 4):
        c = [rnd.randint(4, 10), rnd.randint(4, 10), z]
        k = rnd.randrange(4)
        r.reg(r.make(byname['nook'], 1, k, c))
        for j in rnd.sample([2, 3], rnd.randint(1, 2)) if rnd.random() < .9 else []:
            d = DIRS[(j + k) % 4]                     # in the way of the one or the other
            n = rnd.randint(1, 2)
            p = [c[0] + n * d[0], c[1] + n * d[1], z]
            if tuple(p) not in [tuple(vec(q)) for q in r.u.occupied]:
                r.reg(r.make(byname['end'], 1, rnd.choice([x for x in range(4) if x != (j + k) % 4]), p))
    for _ in range(14):
        r.place([byname[t] for t in rnd.choice([['long'], ['long'], ['gap'], ['cap2'], ['long', 'stair']])], 1)
    if rep % 2:
        r.cap([byname['end']])
        r.debugcap()
    r.done('nook-m%d' % m)


def rim(ctx, cat, classes, rep):
    """end caps near the edges of the world and between rooms"""
    rnd = ctx.rnd
    r = Rec(ctx, 1, cat, classes)
    byname = {c['t']: i + 1 for i, c in enumerate(cat)}
    done = set()
    for _ in range(14):
        p = [rnd.choice([0, 1, 2, 3, 28, 29, 30, 31]), rnd.choice([0, 1, 2, 3, 14, 28, 29, 30, 31]), rnd.choice([0, 1, 15, 30, 31])]
        if rnd.random() < .5:
            p = [p[1], p[0], p[2]]
        if tuple(p) not in done and tuple(p) not in [tuple(vec(c)) for c in r.u.occupied]:
            done.add(tuple(p))
            r.reg(r.make(byname['dot'], 1, 0, p))
    r.cap([byname[c] for c in [['cap2'], ['cap3'], ['cap5'], ['cap3', 'cap2'], ['cap5', 'end'], ['end']][rep % 6]])
    if rep % 2:
        r.cap([byname['end']])
        r.debugcap()
    r.done('rim')


def many(ctx, cat, classes):
    """more than five hundred rooms"""
    r = Rec(ctx, 4, cat, classes)
    byname = {c['t']: i + 1 for i, c in enumerate(cat)}
    r.reg(r.make(byname['dot'], 1, 0, [8, 8, 3]))
    r.place([byname['dot'], byname['hall'], byname['long'], byname['stair']], 560, key='many')
    r.graph()
    r.cap([byname['end']])
    r.done('many')


SMALL = ['station_tube1', 'station_tube3', 'station_stair2', 'station_right', 'station_sbend', 'station_uturn', 'station_endcap',
         'castle_wall_corner', 'castle_wall_section', 'castle_wall_entry', 'castle_wall_section_x', 'castle_gate_simple',
         'castle_wall_end_cliff', 'castle_wall_section_endcap', 'dungeon_walkway', 'dungeon_stair2', 'spawn_room', 'stair']


def real(ctx, big):
    rnd = ctx.rnd
    byname = {c.__name__: c for c in room_classes()}
    plain = [c for n, c in byname.items() if not hasattr(c, 'vox_file') and n not in ('TestRoom2',)]
    small = [byname[n] for n in SMALL if n in byname]
    for rep in range(6 * big):
        m = [4, 2, 1][rep % 3]
        if rep % 2:
            classes = rnd.sample(small, 5)
        else:
            classes = rnd.sample(plain, 5)
        caps = [byname[n] for n in ('castle_wall_end_cliff', 'castle_wall_section_endcap', 'station_endcap') if n in byname]
        ctx.guard('real', real_run, ctx, classes, caps, m)


def real_run(ctx, classes, caps, m):
    rnd = ctx.rnd
    cls = classes + [c for c in caps if c not in classes]
    cat = [real_entry(c) for c in cls]
    r = Rec(ctx, m, cat, cls)
    from redeclipse.vector import CoarseVector
    room = classes[0](pos=CoarseVector(*rnd.choice([(8, 8, 3), (20, 9, 5), (10, 12, 2)])), orientation=direction(rnd.randrange(4)))
    r.reg(room)
    offered = list(range(1, len(classes) + 1))
    for _ in range(5):
        r.place(offered, 1)
    r.place(offered, 6, last=True)
    r.graph()
    r.cap([cls.index(c) + 1 for c in caps])
    r.debugcap()
    r.graph()
    r.done('real-m%d' % m)


def legal(ctx, cat, classes):
    rnd = ctx.rnd
    r = Rec(ctx, 1, cat, classes)
    vals = [-33, -1, 0, 1, 15, 16, 30, 31, 32, 33, 64]
    for a in vals:
        for j in range(3):
            p = [rnd.randint(0, 31) for _ in range(3)]
            p[j] = a
            r.legal(p)
            r.legal([rnd.choice(vals) for _ in range(3)])
    r.done('legal')
