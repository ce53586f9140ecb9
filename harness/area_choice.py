"""C28: random choices (redeclipse.upm)"""
from harness.area_rooms import direction, room_classes
from harness.area_upm import fake
from harness.driver import call, vec

TRACE = {'choice': 'ChoiceTrace'}
SHARDS = {'choice': 8}
UNITS = [1, 0.1, 0.25, 0.001, 1000, 7.3]
EXACT = [1, 0.25, 0.5, 0.125, 1000, 3]
FLAVOURS = {'plain': 'nrp_flavour_plain', 'vertical': 'nrp_flavour_vertical', 'hole': 'nrp_flavour_center_hole'}


def mc(pid, tier):
    return [{'module': 'ChoiceMC', 'cfg': 'ChoiceMC.cfg' if tier == 'quick' else 'ChoiceMCT.cfg', 'workers': 8}]


def gen(pid, tier):
    return [{'name': 'choices', 'module': 'ChoiceGen', 'cfg': 'ChoiceGen.cfg', 'num': 40 if tier == 'quick' else 400, 'depth': 100}]


def drive(ctx):
    for g in ctx.gens['choices']:
        ctx.guard('choices', history, ctx, g, 2000 if ctx.quick else 4000)
    ctx.guard('rooms', real_rooms, ctx)


class Item:
    """something to choose, no two of them alike"""

    def __init__(self, v, t=''):
        self.v = v
        self.room_type = t


class Before:
    def __init__(self, probs):
        self.probs = probs

    def get_transition_probs(self):
        return self.probs


def tally(fn, n, name):
    """name maps what was returned to what is counted, None for anything else"""
    counts, others, raised = {}, 0, 0
    for j in range(n):
        r, got = call(fn)
        if r != 'ok':
            raised += 1
            continue
        v = name(got)
        if v is None:
            others += 1
        else:
            counts[v] = counts.get(v, 0) + 1
    return {'n': n, 'counts': [{'v': v, 'c': c} for v, c in sorted(counts.items())], 'others': others, 'raised': raised}


def history(ctx, g, n):
    from redeclipse.upm import UnusedPositionManager
    u = UnusedPositionManager(256, mirror=1)
    ev = []
    for j, x in enumerate(g):
        ev.extend(OPS[x['op']](ctx, u, x, n, j))
    ctx.scen('choice', 'choices', ev)


def weights(ctx, u, x, n, j):
    unit = UNITS[x['unit']]
    byv = {}
    choices = []
    for it in x['items']:
        o = byv.setdefault(it['v'], it['v'] if j % 2 else Item(it['v']))
        choices.append((o, it['w'] * unit))
    kept = list(choices)

    def name(got):
        return next((v for v, o in byv.items() if o is got or (isinstance(o, str) and o == got)), None)
    e = tally(lambda: type(u).weighted_choice(choices) if j % 3 else u.weighted_choice(list(choices)), n, name)
    e.update(op='weights', key='weights', offer=x['items'])
    if choices != kept:
        e['others'] += 1
    return [e]


def options(x):
    return [Item(o['v'], o['t']) for o in x['opts']]


def room(ctx, u, x, n, j):
    opts = options(x)
    before = Before({r['t']: r['w'] / 10 for r in x['tab']})
    e = tally(lambda: u.random_room(before, list(opts)), n, lambda got: got.v if any(got is o for o in opts) else None)
    e.update(op='room', key='room', tab=x['tab'], opts=x['opts'])
    return [e]


def listed(opts, got):
    return [o.v if any(o is p for p in opts) else 'unknown' for o in got]


def stream(ctx, u, x, n, j):
    opts = options(x)
    orders = []
    unit = 0.1
    known = {r['t'] for r in x['tab']}
    exact = all(o.room_type in known for o in opts)
    if exact:
        unit = EXACT[x['unit']]
    before = Before({r['t']: r['w'] * unit for r in x['tab']})
    raised = 0
    for k in range(20):
        r, got = call(lambda: list(u.random_room_stream(before, list(opts))))
        if r != 'ok':
            raised += 1
        else:
            orders.append(listed(opts, got))
    out = [{'op': 'stream', 'key': 'stream', 'tab': x['tab'], 'opts': x['opts'], 'raised': raised, 'orders': orders}]
    of = {r['t']: r['w'] for r in x['tab']}
    if exact and min(of[o.room_type] for o in opts) == 1:
        e = tally(lambda: next(iter(u.random_room_stream(before, list(opts)))), n, lambda got: got.v if any(got is o for o in opts) else None)
        e.update(op='first', key='first', tab=x['tab'], opts=x['opts'])
        out.append(e)
    return out


DIRS = [(1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0)]


def place(ctx, u, x, n, j):
    doors = [[list(DIRS[k]), list(DIRS[k])] for k in range(4) if x['doors'] >> k & 1]
    cls = fake({'t': 'door%d' % j, 'shs': [{'f': '', 'c': [[0, 0, 0]], 'd': doors}]}, {})
    from redeclipse.vector import CoarseVector
    r = cls(pos=CoarseVector(*x['at']))
    if u.preregister_room(r):
        u.register_room(r)
    return []


def fill(ctx, u, x, n, j):
    """fill the cells behind doors until few are left"""
    from redeclipse.vector import CoarseVector
    cls = fake({'t': 'fill', 'shs': [{'f': '', 'c': [[0, 0, 0]], 'd': []}]}, {})
    for k in range(500):
        if len(u.unoccupied) <= x['keep']:
            break
        r = cls(pos=CoarseVector(*vec(u.unoccupied[-1][0])))
        if not u.preregister_room(r):
            break
        u.register_room(r)
    return []


def snapshot(u):
    return ([d for d in u.unoccupied], dict(u.occupied), list(u.rooms), list(u.links))


def door(ctx, u, x, n, j):
    doors = list(u.unoccupied)
    how = x['how']

    def units(a, b, c):
        return x['ws'][int(a + 2 * b + 3 * c) % 7]

    def own(a, b, c):
        return units(a, b, c) * 0.1
    if how == 'random':
        ws, fn = [1] * len(doors), u.random_position
    elif how == 'own':
        ws, fn = [units(*d[0]) for d in doors], lambda: u.nonrandom_position(own)
    else:
        f = getattr(u, FLAVOURS[how])
        ws, fn = [rough(f(*d[0]), 4096 if how == 'hole' else 1) for d in doors], lambda: u.nonrandom_position(f)
    before = snapshot(u)

    def name(got):
        for k, d in enumerate(doors):
            if len(got) == 3 and got[1] is d[1] and got[0] == d[0] and got[2] == d[2]:
                return str(k)
        return None
    e = tally(fn, n if doors else 20, name)
    e.update(op='door', key=how, offer=[{'v': str(k), 'w': w} for k, w in enumerate(ws)], same=snapshot(u) == before)
    return [e]


def rough(w, unit):
    try:
        w = round(w / unit)
        return w if 0 <= w < 9e8 else -1
    except Exception:
        return -1


def flavour(ctx, u, x, n, j):
    out = []
    from redeclipse.vector import CoarseVector
    for f, attr in FLAVOURS.items():
        cells, raised = [], 0
        for p in x['cells'] + [[8 * c + 3 for c in p] for p in x['cells']]:
            if f == 'vertical' and p[2] > 60:
                continue
            r, w = call(lambda: getattr(u, attr)(*CoarseVector(*p)))
            raised += r != 'ok'
            cells.append({'p': p, 'w': rough(w, 128 if f == 'hole' else 1) if r == 'ok' else -1})
        out.append({'op': 'flavour', 'key': f, 'f': f, 'cells': cells, 'raised': raised})
    return out


OPS = {'weights': weights, 'room': room, 'stream': stream, 'place': place, 'fill': fill, 'door': door, 'flavour': flavour}


def real_rooms(ctx):
    """streams of the rooms of the package after each of them"""
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    u = UnusedPositionManager(256)
    classes = [c for c in room_classes() if isinstance(getattr(c, 'room_type', None), str)]
    for k, cls in enumerate(classes):
        prev = cls(pos=CoarseVector(10, 10, 10), orientation=direction(k))
        opts = ctx.rnd.sample(classes, 12)
        orders, raised = [], 0
        for m in range(5):
            r, got = call(lambda: list(u.random_room_stream(prev, list(opts))))
            if r != 'ok':
                raised += 1
            else:
                orders.append([o.__name__ if o in opts else 'unknown' for o in got])
        ctx.scen('choice', 'rooms', [{'op': 'stream', 'key': cls.__name__, 'tab': [], 'opts': [{'v': o.__name__, 't': o.room_type} for o in opts],
                                      'raised': raised, 'orders': orders}])
