"""C22, C23: entities (redeclipse.entities) and the dictionary and JSON forms of maps"""
import contextlib
import glob
import gzip
import io
import json
import os
import struct
import sys

from harness import area_mpz as mpz
from harness.driver import BAD, REPO, call, num

TRACE = {'ents': 'EntsTrace', 'mapdict': 'EntsTrace', 'mapfile': 'EntsTrace'}
SHARDS = {'ents': 8, 'mapdict': 8, 'mapfile': 8}


def mc(pid, tier):
    return [{'module': 'EntsMC', 'cfg': 'EntsMC.cfg' if tier == 'quick' else 'EntsMCT.cfg', 'workers': 8}]


def gen(pid, tier):
    big = 1 if tier == 'quick' else 12
    g = [{'name': 'ents', 'module': 'EntsGen', 'cfg': 'EntsGen.cfg', 'num': (80 if pid == 'C22' else 50) * big, 'depth': 100}]
    if pid == 'C23':
        g += [{'name': 'maps', 'module': 'MpzGen', 'cfg': 'MpzGenF.cfg', 'num': 30 * big, 'depth': 400},
              {'name': 'edited', 'module': 'MpzGen', 'cfg': 'MpzGenE.cfg', 'num': 30 * big, 'depth': 400}]
    return g


# --- entities
def value(a):
    return num(getattr(a, 'value', a), 4)


def state(ents):
    out = []
    for e in ents:
        try:
            out.append({'t': num(e.type.value), 'o': [num(e.o.x, 64), num(e.o.y, 64), num(e.o.z, 64)], 'a': [value(a) for a in e.attrs],
                        'l': [num(x) for x in e.links], 'r': [num(x) for x in e.reserved]})
        except Exception:
            out.append({'t': BAD, 'o': [], 'a': [], 'l': [], 'r': []})
    return out


def quarters(v, t=0, j=1):
    if t == 9 and j == 1:
        return v // 4
    return v // 4 if v % 4 == 0 else v / 4


def attributes(x):
    return [quarters(v, x['t'], j + 1) for j, v in enumerate(x['a'])]


def make(x, rnd, attrs=None, bare=False):
    from redeclipse import entities
    from redeclipse.entities import model, weapon
    from redeclipse.enums import EntType, WeaponType
    from redeclipse.vector import CoarseVector, FineVector
    pos = []
    if x['pk'] != 'none':
        c = [v // 64 if v % 64 == 0 and rnd.random() < .7 else v / 64 for v in x['p']]
        pos = [(CoarseVector if x['pk'] == 'coarse' else FineVector)(*c)]
    links = list(x['l'][0]) if x['l'] else None
    res = list(x['r'][0]) if x['r'] else None
    if x['kind'] == 'Entity':
        t = x['t']
        if attrs is None:
            attrs = attributes(x)
        if t == 9 and attrs and x['op'] == 'new' and rnd.random() < .3:
            attrs[0] = WeaponType(attrs[0])
        return entities.Entity(pos[0], EntType(t), attrs, links, res)
    cls = getattr(entities, x['kind'], None) or getattr(model, x['kind'], None) or getattr(weapon, x['kind'])
    names = {1: 'radius red green blue flare flarescale',
             2: 'type yaw pitch roll blend scale flags colour palette palindex spinyaw spinpitch spinroll',
             3: 'team yaw pitch modes muts id', 8: 'yaw pitch red green blue offset flare flarescale', 9: 'type flags modes muts id',
             13: 'yaw pitch force maxrad minrad type', 14: 'team yaw pitch modes muts id'}[x['t']].split()
    kw = {}
    for j, v in x['g']:
        kw[names[j - 1]] = quarters(v, x['t'], j)
    if links is not None or not bare and rnd.random() < .3:
        kw['links'] = links
    if res is not None or not bare and rnd.random() < .3:
        kw['reserved'] = res
    if pos and rnd.random() < .5:
        return cls(xyz=pos[0], **kw)
    return cls(*pos, **kw)


def dict_of(d):
    """the dictionary of an entity, in the units of the specification"""
    try:
        order = list(d['attr']['_order'])
        if sorted(order + ['_order']) != sorted(d['attr']) or sorted(d) != ['attr', 'links', 'position', 'reserved', 'type']:
            raise ValueError
        weapon = d['type'] == 'ET_WEAPON'
        vals = [0 if weapon and j == 0 else value(d['attr'][k]) for j, k in enumerate(order)]
        return {'type': str(d['type']), 'pos': [num(v, 64) for v in d['position']], 'order': order,
                'w': str(d['attr'][order[0]]) if weapon else '', 'val': vals, 'l': [num(v) for v in d['links']], 'r': [num(v) for v in d['reserved']]}
    except Exception:
        return {'type': 'unreadable', 'pos': [], 'order': [], 'w': '', 'val': [], 'l': [], 'r': []}


def entity_history(ctx, g, bare=False):
    from redeclipse.entities import Entity
    from redeclipse.enums import WeaponType
    rnd = ctx.rnd
    m = mpz.parser().read(mpz.zipped(bytes(g['base'])))
    snaps, ev, has = [], [], False
    for x in g['ops']:
        op = x['op']
        e = {'x': x, 'res': 'ok', 'key': x.get('kind', op)}
        if op == 'new':
            r = call(make, x, rnd, None, bare)
            if r[0] == 'ok':
                m.ents.append(r[1])
            e['res'] = r[0]
        elif op == 'pair':          # two entities of the same list, which stays as it was
            attrs = attributes(x)
            before = list(attrs)
            r = call(lambda: [make(x, rnd, attrs), make(x, rnd, attrs)])
            if r[0] == 'ok':
                m.ents.extend(r[1])
                if attrs != before:
                    e['res'] = 'changed its arguments'
                    r = (e['res'], '')
        elif op == 'attr':
            if x['n'] > len(m.ents):
                break
            v = m.ents[x['n'] - 1]
            r = call(v.attrs.__setitem__, x['j'] - 1, quarters(x['v'], v.type.value, x['j']))
        elif op in ('link', 'res', 'snap') and x['n'] > len(m.ents) or op == 'rebuild' and x['n'] > len(snaps):
            break
        elif op == 'link':
            r = call(m.ents[x['n'] - 1].links.append, x['v'])
        elif op == 'res':
            r = call(m.ents[x['n'] - 1].reserved.__setitem__, x['j'] - 1, x['v'])
        elif op == 'move':
            def move():
                o = m.ents[x['n'] - 1].o
                o.x, o.y, o.z = [4 * v / 64 for v in x['p']]
            r = call(move)
        elif op == 'snap':
            r = call(m.ents[x['n'] - 1].to_dict)
            snaps.append(r[1])
            e['d'] = dict_of(r[1])
        elif op == 'rebuild':
            d = snaps[x['n'] - 1]
            if rnd.random() < .5:
                d = json.loads(json.dumps(d))
            r = call(Entity.from_dict, d)
            if r[0] == 'ok':
                m.ents.append(r[1])
        elif op == 'save':
            r = call(m.write, 'out.mpz')
            has = True
            e['w'] = mpz.unzipped('out.mpz')
        elif op == 'load':
            if not has:
                continue
            r = call(mpz.parser().read, 'out.mpz')
            if r[0] == 'ok':
                m = r[1]
        e['res'] = r[0]
        e['ents'] = state(m.ents)
        ev.append(e)
        if len(m.ents) == 0 and op == 'load' or r[0] != 'ok' and op not in ('new', 'pair'):
            break
    ctx.scen('ents', 'ents', ev)


def apart(ctx, kinds, base):
    """several entities of one kind, made by default; one is changed, then one more is made"""
    rnd = ctx.rnd

    def new(kind):
        return {'op': 'new', 'kind': kind, 'pk': 'fine', 'p': [64 * rnd.randrange(99) for _ in range(3)], 'g': [], 'l': [], 'r': [], 't': TYPES[kind], 'a': []}
    for kind in kinds:
        one = [new(kind), new(kind), {'op': 'link', 'n': 1, 'v': 3}, {'op': 'res', 'n': 1, 'j': 2, 'v': 7}, {'op': 'attr', 'n': 1, 'j': 1, 'v': 20 if kind == 'Weapon' else 44},
               {'op': 'move', 'n': 1, 'p': [64, 128, 640]}, new(kind), {'op': 'link', 'n': 3, 'v': -5}, new(rnd.choice(kinds)), {'op': 'snap', 'n': 2}]
        if kind in ('Grenade', 'Shotgun'):
            del one[4]
        one += [{'op': 'rebuild', 'n': 1}, {'op': 'rebuild', 'n': 1}, {'op': 'link', 'n': 5, 'v': 9}, {'op': 'attr', 'n': 5, 'j': 2, 'v': 12},
                {'op': 'save'}, {'op': 'load'}, {'op': 'link', 'n': 2, 'v': 8}, {'op': 'res', 'n': 3, 'j': 1, 'v': 1}, new(kind)]
        for defaults in (True, False):
            entity_history(ctx, {'base': base, 'ops': one}, defaults)


TYPES = {'Light': 1, 'MapModel': 2, 'PlayerSpawn': 3, 'Sunlight': 8, 'Weapon': 9, 'Grenade': 9, 'Shotgun': 9, 'Pusher': 13, 'TeamFlag': 14}


# --- dictionaries of maps
def text(s):
    if not isinstance(s, str):
        raise mpz.Bad
    return list(s.encode('utf-8', 'surrogateescape'))


def entry(d, k):
    for a, b in d['meta']:
        if a == k:
            return b
    raise mpz.Bad


def d_head(d):
    return {'k': 'head', 'magic': text(d['magic']), 'ver': mpz.i32(d['version']), 'hs': mpz.i32(d['headersize']),
            'meta': [mpz.i32(entry(d, k)) for k in mpz.META], 'gi': text(entry(d, 'gameident')), 'nv': mpz.i32(entry(d, 'numvars'))}


def d_var(p):
    k, v = p
    return mpz.var_item(bytes(text(k)), bytes(text(v)) if isinstance(v, str) else v)


ENTTYPES = {'ET_LIGHT': 1, 'ET_MAPMODEL': 2, 'ET_PLAYERSTART': 3, 'ET_SUNLIGHT': 8, 'ET_WEAPON': 9, 'ET_PUSHER': 13, 'ET_AFFINITY': 14}
WEAPONS = ['UNKNOWN', '', 'SWORD', 'SHOTGUN', 'SMG', 'FLAMER', 'PLASMA', 'ZAPPER', 'RIFLE', 'GRENADE', 'MINE', 'ROCKET']


def d_ent(e):
    if sorted(e) != ['attr', 'links', 'position', 'reserved', 'type']:
        raise mpz.Bad
    order = list(e['attr']['_order'])
    if sorted(order + ['_order']) != sorted(e['attr']):
        raise mpz.Bad
    vals = [e['attr'][k] for k in order]
    w = ''
    if e['type'] == 'ET_WEAPON':
        w = vals[0]
        vals[0] = WEAPONS.index(w)
    return {'k': 'ent', 'o': [mpz.bits(v) for v in e['position']], 't': ENTTYPES[e['type']], 'res': [mpz.i32(v) for v in e['reserved']],
            'attrs': [mpz.attr(v) for v in vals], 'links': [mpz.i32(v) for v in e['links']], 'tn': e['type'], 'order': order, 'w': w}


def d_node(c):
    ext = c['ext']
    sf = [[mpz.small(f['lmid'][0]), mpz.small(f['lmid'][1]), mpz.small(f['verts']), mpz.small(f['numverts'])] if f else []
          for f in (ext['surfaces'] if ext else [])][:6]
    return {'k': 'node', 'o': mpz.small(c['octsav']), 'e': [mpz.small(v) for v in c['edges']], 'tex': [mpz.small(t) for t in c['texture']],
            'mat': -1 if c['material'] is None else mpz.small(c['material']), 'mer': mpz.small(c['merged']), 'sm': mpz.small(c['surfmask']),
            'tv': mpz.small(c['totalverts']), 'sf': sf + [[]] * (6 - len(sf)), 'n': len(c['children']), 'faces': [str(f) for f in c['faces']]}


def d_items(d):
    out = []

    def put(kind, fn, *a):
        try:
            x = fn(*a)
            x['bad'] = False
        except (mpz.Bad, AttributeError, TypeError, IndexError, KeyError, ValueError, struct.error, OverflowError):
            x = dict(mpz.EMPTYITEM[kind], k=kind, bad=True, tn='', order=[], w='', faces=[])
        out.append(x)
    put('head', d_head, d)
    for p in d['map_vars']:
        put('var', d_var, p)
    put('mru', lambda: {'k': 'mru', 'l': [mpz.small(t) for t in d['texmru']]})
    for e in d['entities']:
        put('ent', d_ent, e)
    for c in d['chg']:
        put('slot', lambda: {'k': 'slot', 'c': mpz.i32(c), 'raw': []})
    todo = list(reversed(list(d['world'])))
    while todo:
        c = todo.pop()
        put('node', d_node, c)
        try:
            todo.extend(reversed(c['children']))
        except (TypeError, KeyError):
            pass
    return out


def fbits(v):
    v = float(v)
    if v != v:
        return 2143289344
    return mpz.bits(v)


def whole(v):
    return mpz.i32(int(v) if type(v) is float and v == int(v) else v)


BADSLOT = {'ch': BAD, 'sc': 0, 'rot': 0, 'off': [], 'scr': [], 'lay': 0, 'af': 0, 'ab': 0, 'col': [], 'pal': 0, 'pix': 0, 'co': 0, 'par': []}


def d_slot(v):
    try:
        return {'ch': -1 if v['changed'] is None else mpz.i32(v['changed']), 'sc': fbits(v['scale']), 'rot': mpz.i32(v['rotation']),
                'off': [mpz.i32(x) for x in v['offset']], 'scr': [whole(x) for x in v['scroll']], 'lay': mpz.i32(v['layer']),
                'af': fbits(v['alphafront']), 'ab': fbits(v['alphaback']), 'col': [fbits(x) for x in v['colorscale']],
                'pal': mpz.i32(v['palette']), 'pix': mpz.i32(v['palindex']), 'co': fbits(v['coastscale']),
                'par': [{'name': text(k), 'loc': mpz.i32(p['loc']), 'val': [fbits(x) for x in p['val']], 'pal': mpz.i32(p['palette']),
                         'pix': mpz.i32(p['palindex'])} for k, p in v['params'].items()]}
    except (mpz.Bad, AttributeError, TypeError, IndexError, KeyError, ValueError, struct.error, OverflowError):
        return BADSLOT


def d_slots(vs):
    tab, ix, seen, no = [], [], {}, []
    for v in vs:
        r = d_slot(v)
        k = json.dumps(r)
        if k not in seen:
            tab.append(r)
            seen[k] = len(tab)
        ix.append(seen[k])
        no.append(mpz.small(v['b']))
    return {'tab': tab, 'ix': ix, 'no': no}


def meta_names(pairs):
    return [str(p[0]) for p in pairs]


def cli(path, section=None):
    from redeclipse.cli import to_json
    argv, out = sys.argv, io.StringIO()
    sys.argv = ['to_json', path] + (['--section', section] if section else [])
    try:
        with contextlib.redirect_stdout(out):
            to_json.main()
    finally:
        sys.argv = argv
    return json.loads(out.getvalue())


def by_sections(path):
    return {k: cli(path, k) for k in ('magic', 'version', 'headersize', 'meta', 'map_vars', 'texmru', 'entities', 'world', 'vslots', 'chg')}


def whole_dict(d):
    """the octree and the slots may be given as they are asked for: take them once"""
    d = dict(d)
    d['world'], d['vslots'] = list(d['world']), list(d['vslots'])
    return d


def forms(m, path):
    return {'to_dict': lambda: whole_dict(m.to_dict()), 'to_json': lambda: json.loads(m.to_json()),
            'cli': lambda: cli(path), 'sections': lambda: by_sections(path)}


def dict_event(r, key):
    e = {'op': 'dict', 'res': r[0], 'key': key, 'why': str(r[1])[:100]}
    if r[0] == 'ok':
        r2 = call(lambda: {'items': d_items(r[1]), 'meta': meta_names(r[1]['meta']), 'sections': sorted(r[1]), 'v': d_slots(r[1]['vslots'])})
        if r2[0] == 'ok':
            e.update(r2[1])
        else:
            e['res'] = 'unreadable'
    return e


def finite(g):
    """no infinite or undefined numbers in slot records, JSON has none"""
    b = list(g['bytes'])
    for x, a in zip(g['items'], g['at']):
        if x['k'] == 'slot' and x['raw']:
            x['raw'] = x['raw'][:4] + [63 if v in (127, 255) else v for v in x['raw'][4:]]
            b[a + 4:a + 4 + len(x['raw'])] = x['raw']
    return dict(g, bytes=b)


def map_dicts(ctx, g, name):
    from redeclipse import Map
    rnd = ctx.rnd
    path = mpz.zipped(bytes(g['bytes']))
    m = mpz.parser().read(path)
    ev = []
    for key, fn in forms(m, path).items():
        if key in ('cli', 'sections') and rnd.random() < (.7 if ctx.quick else .3):
            continue
        r = call(fn)
        ev.append(dict_event(r, key))
        if r[0] != 'ok' or key in ('cli', 'sections'):
            continue
        d = r[1]
        r = call(lambda: Map.from_dict(d if rnd.random() < .5 else m.to_dict() if key == 'to_dict' else json.loads(json.dumps(d))))
        e = {'op': 'rebuilt', 'res': r[0], 'why': str(r[1])[:300], 'key': key}
        if r[0] == 'ok':
            n = r[1]
            r2 = call(lambda: {'items': [x for x in mpz.items(n) if x['k'] != 'node'], 'meta': meta_names(n.meta.items()),
                               'v': d_slots([v.to_dict() for v in n.vslots])})
            e['res'] = r2[0]
            e['why'] = str(r2[1])[:300]
            if r2[0] == 'ok':
                e.update(r2[1])
        ev.append(e)
        if e['res'] != 'ok':
            continue
        # and once more
        r = call(lambda: Map.from_dict(json.loads(n.to_json())))
        e = {'op': 'rebuilt', 'res': r[0], 'why': str(r[1])[:300], 'key': key + '2'}
        if r[0] == 'ok':
            r2 = call(lambda: {'items': [x for x in mpz.items(r[1]) if x['k'] != 'node'], 'meta': meta_names(r[1].meta.items()),
                               'v': d_slots([v.to_dict() for v in r[1].vslots])})
            e['res'] = r2[0]
            e['why'] = str(r2[1])[:300]
            if r2[0] == 'ok':
                e.update(r2[1])
        ev.append(e)
        # a change of the rebuilt map does not show in the first one
        r = call(spoil, n)
        ev.append({'op': 'apart', 'res': r[0], 'items': mpz.items(m), 'key': 'map'})
        if key == 'to_dict':
            r = call(lambda: whole_dict(m.to_dict()))
            if r[0] == 'ok':
                keep = r[1]
                n2 = mpz.parser().read(path)
                d2 = whole_dict(n2.to_dict())
                r = call(spoil, n2)
                ev.append(dict(dict_event((r[0], d2), 'kept')))
    ctx.scen('mapdict', name, ev, init=g['items'])


def spoil(m):
    m.texmru.append(7)
    m.chg.append(-9)
    m.map_vars[b'spoiled'] = 1
    m.meta['revision'] = 99
    for e in m.ents:
        e.links.append(3)
        e.reserved[0] = 77
        e.attrs[-1] = 5
        e.o.x = 5.5


def map_file(ctx, path):
    with gzip.open(path) as f:
        b = f.read()
    m = mpz.parser().read(path)
    for key, fn in list(forms(m, path).items())[:3]:
        r = call(fn, limit=60)
        e = dict_event(r, key)
        its = e.pop('items', [])
        ev = [e] + [{'op': 'item', 'x': x, 'key': key} for x in its]
        if e['res'] == 'ok':
            ev.append({'op': 'end', 'res': 'ok', 'key': key})
        ctx.scen('mapfile', os.path.basename(path), ev, b=list(b))
        if ctx.quick and os.path.getsize(path) > 20000:
            break


def drive(ctx):
    for g in ctx.gens['ents']:
        ctx.guard('ents', entity_history, ctx, g)
    ctx.guard('apart', apart, ctx, sorted(TYPES), ctx.gens['ents'][0]['base'])
    if ctx.pid == 'C23':
        for g in ctx.gens['maps']:
            ctx.guard('map', map_dicts, ctx, g, 'map')
        for g in ctx.gens['edited']:
            ctx.guard('edited', map_dicts, ctx, finite(g), 'edited')
        files = sorted(glob.glob(REPO + '/tests/files/*.mpz')) + sorted(glob.glob(REPO + '/maps/empty*.mpz'))
        for f in files:
            ctx.guard('file', map_file, ctx, f)
