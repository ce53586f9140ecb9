"""C30: weights for continuing from a room (redeclipse.prefabs.distributions)"""
from harness.area_rooms import direction, room_classes
from harness.driver import call, num

TRACE = {'dist': 'DistTrace'}
SHARDS = {'dist': 4}


def mc(pid, tier):
    return [{'module': 'DistMC', 'cfg': 'DistMC.cfg' if tier == 'quick' else 'DistMCT.cfg', 'workers': 8}]


def gen(pid, tier):
    return [{'name': 'tables', 'module': 'DistGen', 'cfg': 'DistGen.cfg', 'num': 150 if tier == 'quick' else 5000, 'depth': 100}]


def text(w):
    try:
        return repr(float(w))
    except Exception:
        return 'not a number'


def rows(table):
    return [{'a': str(a), 'b': str(b), 'w': text(w), 'n': num(w, 10000)} for (a, b), w in table.items()]


def offer(r, got):
    if r != 'ok' or not hasattr(got, 'items'):
        return []
    return [{'b': str(b), 'w': text(w), 'n': num(w, 10000)} for b, w in got.items()]


def ask_for(m, a, of):
    r, got = call(m.for_class, of)
    return {'op': 'for', 'key': a, 'a': a, 'res': r if r != 'ok' or hasattr(got, 'items') else 'raise', 'got': offer(r, got)}


def ask_tp(m, a, b):
    r, w = call(m.tp, a, b)
    return {'op': 'tp', 'key': a + '-' + b, 'a': a, 'b': b, 'res': r, 'w': text(w) if r == 'ok' else ''}


def table_event(m):
    return {'op': 'table', 'key': type(m).__name__, 'tab': rows(m.transition_probabilities)}


def drive(ctx):
    for g in ctx.gens['tables']:
        ctx.guard('tables', generated, ctx, g)
    ctx.guard('shipped', shipped, ctx)
    ctx.guard('rooms', rooms, ctx)


def of_type(t, obj):
    c = type('K_' + t, (), {'room_type': t})
    return c() if obj else c


def generated(ctx, g):
    from redeclipse.prefabs.distributions import DistributionManager
    table = {(r['a'], r['b']): (int(r['w']) if '.' not in r['w'] else float(r['w'])) for r in g['tab']}

    class Generated(DistributionManager):
        mirror = g['mirror']
        transition_probabilities = dict(table)
    m = Generated()
    ev = []
    for x in g['asks']:
        ev.append(ask_for(m, x['a'], of_type(x['a'], x['obj'])) if x['op'] == 'for' else ask_tp(m, x['a'], x['b']))
    ev.append(table_event(m))
    ctx.scen('dist', 'tables', ev, tab=rows(table), mirror=g['mirror'], shipped=False)


def managers():
    from redeclipse.prefabs import distributions as d
    out = []

    def walk(c):
        for k in c.__subclasses__():
            if k.__module__.startswith('redeclipse') and k not in out:
                out.append(k)
                walk(k)
    walk(d.DistributionManager)
    return out


def shipped(ctx):
    for k in managers():
        m = k()
        table = dict(m.transition_probabilities)
        names = sorted({str(t) for p in table for t in p}) + ['no such type']
        ev = [table_event(m)]
        for j, a in enumerate(names):
            ev.append(ask_for(m, a, of_type(a, j % 2)))
            for b in names:
                ev.append(ask_tp(m, a, b))
        ev.append(table_event(m))
        ctx.scen('dist', k.__name__, ev, tab=rows(table), mirror=bool(m.mirror), shipped=True)


def rooms(ctx):
    """rooms answer with the weights of the table in use"""
    from redeclipse import prefabs
    from redeclipse.vector import CoarseVector
    m = prefabs.DISTMAN
    table = dict(m.transition_probabilities)
    made = []
    classes = room_classes()
    for k, cls in enumerate(classes):
        if not isinstance(getattr(cls, 'room_type', None), str):
            continue
        made.append((cls, cls(pos=CoarseVector(10, 11, 12), orientation=direction(k))))
    order = list(range(len(made)))
    ctx.rnd.shuffle(order)
    ev = []
    for j in order + order[::-1]:
        cls, room = made[j]
        r, got = call(room.get_transition_probs)
        ev.append({'op': 'for', 'key': cls.__name__, 'a': room.room_type, 'res': r, 'got': offer(r, got)})
    ev.append(table_event(m))
    ctx.scen('dist', 'rooms', ev, tab=rows(table), mirror=bool(m.mirror), shipped=True)
