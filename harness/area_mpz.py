"""C01-C03: map files (redeclipse.MapParser.read, Map.write, the map in memory)"""
import copy
import glob
import gzip
import json
import os
import struct

from harness.driver import BAD, REPO, call

TRACE = {'mpzfile': 'MpzTrace', 'mpzedit': 'MpzTrace', 'mpzbad': 'MpzTrace'}
SHARDS = {'mpzfile': 8, 'mpzedit': 8, 'mpzbad': 8}


def mc(pid, tier):
    return [{'module': 'MpzMC', 'cfg': 'MpzMC.cfg' if tier == 'quick' else 'MpzMCT.cfg', 'workers': 8}]


def gen(pid, tier):
    big = 1 if tier == 'quick' else 12
    g = [{'name': 'maps', 'module': 'MpzGen', 'cfg': 'MpzGen.cfg', 'num': 60 * big, 'depth': 400}]
    if pid == 'C03':
        g.append({'name': 'edited', 'module': 'MpzGen', 'cfg': 'MpzGenE.cfg', 'num': 40 * big, 'depth': 400})
    return g


# --- what a map in memory holds, as records of the specification
class Bad(Exception):
    pass


def i32(v):
    v = getattr(v, 'value', v)
    if type(v) is not int or not -2 ** 31 <= v < 2 ** 31:
        raise Bad
    return v


def attr(v):
    """attributes may be computed as fractions; the format holds whole numbers"""
    return i32(int(v) if type(v) is float else v)


def byts(v):
    if not isinstance(v, bytes):
        raise Bad
    return list(v)


def small(v):
    v = getattr(v, 'value', v)
    return v if type(v) is int and -1 <= v < 2 ** 31 else BAD


def bits(v):
    try:
        return struct.unpack('<i', struct.pack('<f', v))[0]
    except Exception:
        raise Bad


META = ('worldsize', 'numents', 'numpvs', 'lightmaps', 'blendmap', 'numvslots', 'gamever', 'revision')


def head_item(m):
    if list(m.meta) != list(META) + ['gameident', 'numvars']:
        raise Bad
    return {'k': 'head', 'magic': byts(m.magic), 'ver': i32(m.version), 'hs': i32(m.headersize),
            'meta': [i32(m.meta[k]) for k in META], 'gi': byts(m.meta['gameident']), 'nv': i32(m.meta['numvars'])}


def var_item(k, v):
    x = {'k': 'var', 'name': byts(k), 't': 0, 'i': 0, 's': []}
    if type(v) is int:
        x['i'] = i32(v)
    elif type(v) is float:
        x['t'], x['i'] = 1, bits(v)
    elif isinstance(v, (bytes, str)):
        x['t'], x['s'] = 2, list(v if isinstance(v, bytes) else v.encode())
    else:
        raise Bad
    return x


def ent_item(e):
    return {'k': 'ent', 'o': [bits(e.o.x), bits(e.o.y), bits(e.o.z)], 't': i32(e.type), 'res': [i32(r) for r in e.reserved],
            'attrs': [attr(a) for a in e.attrs], 'links': [i32(a) for a in e.links]}


def node_item(c):
    sf = [[small(f.lmid[0]), small(f.lmid[1]), small(f.verts), small(f.numverts)] if f is not None else []
          for f in (c.ext.surfaces if c.ext else [])][:6]
    return {'k': 'node', 'o': small(c.octsav), 'e': [small(v) for v in c.edges], 'tex': [small(t) for t in c.texture],
            'mat': -1 if c.material is None else small(c.material), 'mer': small(c.merged), 'sm': small(c.surfmask),
            'tv': small(c.totalverts), 'sf': sf + [[]] * (6 - len(sf)), 'n': len(c.children) if c.children else 0}


EMPTYITEM = {'head': {'magic': [], 'ver': 0, 'hs': 0, 'meta': [0] * 8, 'gi': [], 'nv': 0}, 'var': {'name': [], 't': 0, 'i': 0, 's': []},
             'mru': {'l': []}, 'ent': {'o': [0, 0, 0], 't': 0, 'res': [], 'attrs': [], 'links': []}, 'slot': {'c': 0, 'raw': []},
             'node': {'o': 0, 'e': [], 'tex': [], 'mat': 0, 'mer': 0, 'sm': 0, 'tv': 0, 'sf': [[]] * 6, 'n': 0}}


def items(m):
    out = []

    def put(kind, fn, *a):
        try:
            x = fn(*a)
            x['bad'] = False
        except (Bad, AttributeError, TypeError, IndexError, KeyError):
            x = dict(EMPTYITEM[kind], k=kind, bad=True)
        out.append(x)
    put('head', head_item, m)
    for k, v in m.map_vars.items():
        put('var', var_item, k, v)
    put('mru', lambda: {'k': 'mru', 'l': [small(t) for t in m.texmru]})
    for e in m.ents:
        put('ent', ent_item, e)
    for c in m.chg:
        put('slot', lambda: {'k': 'slot', 'c': i32(c), 'raw': []})
    todo = list(reversed(m.world))
    while todo:
        c = todo.pop()
        put('node', node_item, c)
        if c.children:
            todo.extend(reversed(c.children))
    return out


def parser():
    from redeclipse import MapParser
    return MapParser()


def zipped(data, path='map.mpz'):
    with open(path, 'wb') as f:
        f.write(gzip.compress(data, 1, mtime=0))
    return path


def unzipped(path):
    try:
        with gzip.open(path) as f:
            return list(f.read())
    except Exception:
        return [-1]


def drive(ctx):
    gens = ctx.gens['maps']
    if ctx.pid == 'C01':
        for g in gens:
            ctx.guard('tlc', roundtrip, ctx, bytes(g['bytes']), 'tlc')
        n = 0
        for g in gens:
            b = signalling(g)
            if b and n < 6:
                n += 1
                ctx.guard('signalling-nan', roundtrip, ctx, b, 'signalling-nan')
        for g in gens[:8]:
            ctx.guard('tail', roundtrip, ctx, bytes(g['bytes']) + bytes(ctx.rnd.randrange(256) for _ in range(30)), 'tail')
        files = sorted(glob.glob(REPO + '/tests/files/*.mpz')) + sorted(glob.glob(REPO + '/maps/empty*.mpz'))
        if not ctx.quick:
            files += [REPO + '/maps/hxr-2-sandvika.mpz']
        for f in files:
            with gzip.open(f) as h:
                ctx.guard('file', roundtrip, ctx, h.read(), os.path.basename(f), f)
    elif ctx.pid == 'C02':
        for n, g in enumerate(gens):
            ctx.guard('edit', edits, ctx, g, n)
    else:
        for g in gens[:30] if ctx.quick else gens[:300]:
            ctx.guard('damage', damage, ctx, g)
        for g in ctx.gens['edited']:
            ctx.guard('edited', edited, ctx, g)
        with gzip.open(REPO + '/maps/empty-night.mpz') as h:
            ctx.guard('night', damage, ctx, {'bytes': list(h.read()), 'at': [0], 'items': []})


def signalling(g):
    """the file with its first float a signalling not-a-number, if it has a float"""
    b = bytearray(g['bytes'])
    for x, a in zip(g['items'], g['at']):
        if x['k'] == 'var' and x['t'] == 1:
            a += 5 + len(x['name']) + 4
        elif x['k'] != 'ent':
            continue
        b[a:a + 4] = bytes([1, 2, 0x80 + a % 64, 0x7f])
        return bytes(b)


def roundtrip(ctx, data, key, path=None):
    path = path or zipped(data)
    r = call(parser().read, path)
    ev = [{'op': 'read', 'res': r[0]}]
    if r[0] == 'ok':
        ev += [{'op': 'item', 'x': x} for x in items(r[1])]
        w = call(r[1].write, 'out.mpz')
        ev.append({'op': 'end', 'res': w[0], 'w': unzipped('out.mpz')})
    ctx.scen('mpzfile', key, ev, b=list(data))


# --- edits
def f32(i):
    return struct.unpack('<f', struct.pack('<i', i))[0]


def make_ent(x):
    from redeclipse.entities import Entity
    from redeclipse.enums import EntType
    from redeclipse.vector import FineVector
    return Entity(FineVector(*[f32(v) for v in x['o']]) / 4, EntType(x['t']), list(x['attrs']), list(x['links']), list(x['res']))


def make_cubes(xs):
    from redeclipse.objects import cube, cubext
    x = xs[0]
    c = cube.newcube()
    c.octsav = x['o']
    if x['o'] % 8 == 0:
        c.children = [make_cubes([y]) for y in xs[1:]]
        return c
    if x['e']:
        c.edges = list(x['e'])
    c.texture = list(x['tex'])
    if x['mat'] >= 0:
        c.material = x['mat']
    if x['mer'] >= 0:
        c.merged = x['mer']
    if x['sm'] >= 0:
        c.surfmask, c.totalverts = x['sm'], x['tv']
        c.ext = cubext()
    return c


class Sky:
    def __init__(self, path):
        self.path = path

    def get_short_path(self):
        return self.path


def edits(ctx, g, n):
    rnd = ctx.rnd
    p = parser()
    m = p.read(zipped(bytes(g['bytes'])))
    ev = []
    saved = False
    w = []
    for o in g['ops'] + [{'op': 'save'}, {'op': 'load'}]:
        op = o['op']
        if op == 'setvar':
            x = o['x']
            v = x['i'] if x['t'] == 0 else f32(x['i']) if x['t'] == 1 else bytes(x['s'])
            if x['t'] == 2 and rnd.random() < .5:
                try:
                    v = v.decode()
                except UnicodeDecodeError:
                    pass
            r = call(m.map_vars.__setitem__, bytes(x['name']), v)
            ev.append({'op': op, 'res': r[0], 'x': dict(x)})
        elif op == 'delvar':
            names = list(m.map_vars)
            if not names:
                continue
            k = names[o['n'] % len(names)]
            del m.map_vars[k]
            ev.append({'op': op, 'res': 'ok', 'name': list(k)})
        elif op == 'addent':
            r = call(lambda: m.ents.append(make_ent(o['x'])))
            ev.append({'op': op, 'res': r[0], 'x': o['x']})
        elif op in ('delent', 'chgent'):
            if not m.ents:
                continue
            k = o['n'] % len(m.ents)
            if op == 'delent':
                del m.ents[k]
                ev.append({'op': op, 'res': 'ok', 'n': k + 1})
            else:
                e, x = m.ents[k], o['x']
                if e.type.value == x['t']:
                    e.o.x, e.o.y, e.o.z = [f32(v) for v in x['o']]
                    e.attrs[:], e.links, e.reserved = x['attrs'], list(x['links']), list(x['res'])
                else:
                    m.ents[k] = make_ent(x)
                ev.append({'op': op, 'res': 'ok', 'n': k + 1, 'x': x})
        elif op == 'mru':
            if rnd.random() < .5:
                m.texmru = list(o['l'])
                l = o['l']
            else:
                m.texmru.extend(o['l'])
                l = list(m.texmru)
            ev.append({'op': op, 'res': 'ok', 'l': l})
        elif op == 'root':
            m.world[o['n'] - 1] = make_cubes(o['x'])
            ev.append({'op': op, 'res': 'ok', 'n': o['n'], 'x': o['x']})
        elif op == 'sky':
            r = call(m.skybox, Sky(bytes(o['s']).decode()))
            ev.append({'op': op, 'res': r[0], 's': o['s']})
        elif op == 'meta':
            m.meta[META[o['n'] - 1]] = o['v']
            ev.append({'op': op, 'res': 'ok', 'n': o['n'], 'v': o['v']})
        elif op == 'save':
            if rnd.random() < .3:       # over an older, longer file
                zipped(bytes(rnd.randrange(256) for _ in range(3000)), 'out.mpz')
            r = call(m.write, 'out.mpz')
            w = unzipped('out.mpz')
            its = items(m)
            r2 = call(m.write, 'out2.mpz')
            saved = True
            ev.append({'op': op, 'res': r[0], 'w': w, 'w2': unzipped('out2.mpz') if r2[0] == 'ok' else [-1], 'items': its})
            continue
        elif op == 'load':
            if not saved and not w:
                continue
            if not saved:               # edits since the save: the file still holds what was saved
                r = call(parser().read, 'out.mpz')
            else:
                r = call((p if rnd.random() < .5 else parser()).read, 'out.mpz')
                if r[0] == 'ok':
                    m = r[1]
            ev.append({'op': op, 'res': r[0], 'w': w, 'items': items(r[1]) if r[0] == 'ok' else [], 'saved': saved})
            continue
        saved = False
    for e in ev:
        e['key'] = e['op']
    ctx.scen('mpzedit', 'edit', ev, init=g['items'])


# --- damaged files
CODE = {'raise': 0, 'ok': 1, 'hang': 2}


def read_code(path):
    return CODE[call(parser().read, path, limit=10)[0]]


def damage(ctx, g):
    rnd = ctx.rnd
    b = bytes(g['bytes'])
    ev = []
    r = call(parser().read, zipped(b))
    n = len(b)
    at = list(range(n)) if n < 1500 else sorted(rnd.sample(range(n), 300) + list(range(0, 120)) + list(range(n - 60, n)))
    res = []
    for k in at:
        # plain deflate keeps this quick: the file itself is complete, its content is cut
        res.append(read_code(zipped(b[:k])))
    ev.append({'op': 'cuts', 'at': at, 'res': res})
    full = gzip.compress(b, 6, mtime=0)
    gat = list(range(len(full))) if len(full) < 400 else sorted(rnd.sample(range(len(full)), 400))
    if ctx.quick:
        gat = sorted(rnd.sample(gat, min(len(gat), 120)))
    res = []
    for k in gat:
        with open('cut.mpz', 'wb') as f:
            f.write(full[:k])
        res.append(read_code('cut.mpz'))
    ev.append({'op': 'gzcuts', 'at': gat, 'len': len(full), 'res': res})
    res, same = [], []
    want = json.dumps(items(r[1])) if r[0] == 'ok' else ''
    for k in gat:
        f = bytearray(full)
        f[k] ^= 1 << rnd.randrange(8)
        with open('flip.mpz', 'wb') as h:
            h.write(bytes(f))
        q = call(parser().read, 'flip.mpz', limit=10)
        res.append(CODE[q[0]])
        same.append(q[0] == 'ok' and json.dumps(items(q[1])) == want)
    ev.append({'op': 'gzflip', 'res': res, 'same': same})
    if g['items']:
        ev += mutations(ctx, g, b)
    for e in ev:
        e['key'] = e['op']
    ctx.scen('mpzbad', 'damage', ev, b=list(b) if g['items'] else [], len=len(b))


def mutations(ctx, g, b):
    """single bytes changed: all the tags, and bytes anywhere but in the slot records and their count"""
    rnd = ctx.rnd
    todo = [(k, v) for k in range(4) for v in rnd.sample(range(256), 2)]
    ok = []
    for x, a in zip(g['items'], g['at']):
        size = (g['at'] + [len(b)])[g['at'].index(a) + 1] - a
        if x['k'] == 'var':
            q = a + 5 + len(x['name'])
            todo += [(q, v) for v in (3, 255, rnd.randrange(4, 255), rnd.randrange(3))] + [(q + 3, 128), (q + 1, 1)]
            todo += [(a + 3, 255)] + ([(q + 7, 200)] if x['t'] == 2 else [])
        elif x['k'] == 'ent':
            todo += [(a + 12, v) for v in list(range(20)) + [rnd.randrange(20, 256), 255]]
            todo += [(a + 19, 255), (a + 20 + 4 * len(x['attrs']) + 3, 255)]
            if x['t'] == 9:
                todo += [(a + 20, v) for v in range(13)] + [(a + 21, 1), (a + 23, 128)]
        elif x['k'] == 'node':
            todo += [(a, (b[a] & 0xf8) | v) for v in range(8)] if rnd.random() < .5 else [(a, rnd.randrange(256)), (a, (b[a] & 0xf8) | rnd.randrange(5, 8))]
        if x['k'] != 'slot':
            ok += [a + j for j in range(size) if not (x['k'] == 'head' and 32 <= j < 36)]
    # counts in the head
    todo += [(16 + 3, 255), (16, b[16] + 1), (48, b[48] + 1), (51, 128)] + ([(16, b[16] - 1)] if b[16] else []) + ([(48, b[48] - 1)] if b[48] else [])
    todo += [(rnd.choice(ok), rnd.randrange(256)) for _ in range(40 if ctx.quick else 120)]
    if ctx.quick and len(todo) > 110:
        todo = rnd.sample(todo, 110)
    ev = []
    for a, v in todo:
        c = bytearray(b)
        c[a] = v % 256
        if c == b or 32 <= a < 36:
            continue
        r = call(parser().read, zipped(bytes(c)), limit=10)
        code = CODE[r[0]]
        ev.append({'op': 'mut', 'at': a, 'v': v % 256, 'res': code, 'items': items(r[1]) if code == 1 else []})
    return ev


def edited(ctx, g):
    r = call(parser().read, zipped(bytes(g['bytes'])))
    e = {'op': 'edited', 'res': CODE[r[0]], 'items': [], 'wres': '', 'w': [], 'key': 'edited'}
    if r[0] == 'ok':
        e['items'] = items(r[1])
        w = call(r[1].write, 'out.mpz')
        e['wres'] = w[0]
        e['w'] = unzipped('out.mpz') if w[0] == 'ok' else []
    ctx.scen('mpzbad', 'edited', [e], b=g['bytes'], init=g['items'], len=len(g['bytes']))
