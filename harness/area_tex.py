"""C19, C27: redeclipse.textures, redeclipse.worldflavors and the configuration file written by redeclipse.cli"""
import colorsys
import inspect
import os
import random
import types

from harness.driver import REPO, call

TRACE = {'tex': 'TexTrace'}
SHARDS = {'tex': 6}
CATS = ['generic', 'column', 'floor', 'wall', 'accent', 'roof']
THEMED = [('Minecraft', 'minecraft'), ('Default', 'dull'), ('Paper', 'paper'), ('Primary', 'primary')]
KINDS = ['plain', 'Minecraft', 'Default', 'Paper', 'Primary', 'colour', 'rainbow', 'Own']


def mc(pid, tier):
    return [{'module': 'TexMC', 'cfg': 'TexMC.cfg' if tier == 'quick' else 'TexMCT.cfg', 'workers': 4}]


def gen(pid, tier):
    return [{'name': 'hist', 'module': 'TexMC', 'cfg': 'TexGen.cfg', 'num': 40 if tier == 'quick' else 600, 'depth': 32}]


def catalog(module):
    """name -> class of the textures a theme module defines (helper classes without a picture left out)"""
    from redeclipse.textures import basetex
    out = {}
    for nm, c in inspect.getmembers(module, inspect.isclass):
        if c.__module__ == module.__name__ and (getattr(c, 'c', None) or issubclass(c, basetex.SimpleColourTex)):
            out['n:' + nm.lower()] = c
    return out


def own_textures(rnd):
    """textures of every kind with any of their settings, and a theme made of them"""
    from redeclipse.textures import basetex as B
    def num():
        return rnd.choice([0, 1, .25, .5, 1.5, round(rnd.random(), 3)])
    def size():
        return rnd.choice([1, .25, .5, 2, 8, round(rnd.random() + .01, 3)])
    ns, n = {}, rnd.randrange(10 ** 6) * 100
    for base, opts in ((B.SimpleTex, ()), (B.BumpSpecMapWorld, ('texcolor',)), (B.BumpSpecMapParallaxWorld, ('texcolor', 'specscale', 'parallaxscale', 'z')),
                       (B.BumpSpecMapParallaxGlowWorld, ('texcolor', 'specscale', 'parallaxscale', 'glowcolor', 'z'))):
        masks = {0, 2 ** len(opts) - 1} | {2 ** j for j in range(len(opts))} | {rnd.randrange(2 ** len(opts)) for _ in range(2)}
        for mask in sorted(masks):
            n += 1
            d = {'c': 'own%d.png' % n, 'n': 'own%d_n.png' % n, 's': 'own%d_s.jpg' % n, 'scale': size()}
            if base is B.SimpleTex:
                d.pop('n'), d.pop('s')
            if base is B.BumpSpecMapParallaxGlowWorld:
                d['g'] = 'own%d_glow.png' % n
            for j, o in enumerate(opts):
                if mask >> j & 1:
                    d[o] = 'own%d_z.png' % n if o == 'z' else tuple(num() for _ in range(3 if o == 'texcolor' else 4))
            if rnd.random() < .3:
                d['basepath'] = 'own/path'
            ns['Own%d' % n] = type('Own%d' % n, (base,), dict(d, __module__='own'))
    names = [k.lower() for k in ns]
    theme = types.SimpleNamespace(**{x + 'Material': rnd.sample(names, rnd.randint(1, 5)) for x in ('Generic', 'Column', 'Floor', 'Wall', 'Accent')})
    return ns, theme


def ckey(r, g, b):
    try:
        return 'c:%r,%r,%r' % (float(r), float(g), float(b))
    except Exception:
        return ''


def ident(t):
    """which texture this object is"""
    from redeclipse.textures import basetex
    if type(t) is basetex.SimpleColourTex:
        return ckey(t.r, t.g, t.b)
    c = type(t)
    for a in 'rgbcnsz':
        if getattr(t, a, None) != getattr(c, a, None):
            return 'n:changed'
    return 'n:' + c.__name__.lower()


def word(w):
    try:
        return 'f:%r' % float(w)
    except ValueError:
        return w


def parse(path):
    out = []
    for ln in open(path):
        raw, ln = ' '.join(ln.split()), ln.strip()
        if not ln or ln.startswith('//'):
            continue
        body, _, com = ln.partition('//')
        # a picture may not contain blanks, so words are enough
        w = body.split()
        c = com.split()
        ws = [word(x) for x in w[1:]]
        nums = ws[2:] if w[0] == 'texture' else ws[1:] if w[0] == 'setshaderparam' else ws
        out.append({'h': w[0], 'w': ws, 't': raw, 'i': int(c[0]) if c and c[0].isdigit() else -1,
                    'num': all(x.startswith('f:') for x in nums),
                    'pos': bool(nums) and nums[-1].startswith('f:') and float(nums[-1][2:]) > 0})
    return out


def known(k, cls=None):
    """what the specification is told of a texture"""
    if k == 'n:sky':
        return {'k': k, 'ch': [['c', '"textures/sky.png"']], 'col': [], 'par': [], 'sc': word('1')}
    if k == 'n:default':
        return {'k': k, 'ch': [['c', '"textures/default.png"']], 'col': [], 'par': [], 'sc': word('1')}
    from redeclipse.textures import basetex
    if cls is None or issubclass(cls, basetex.SimpleColourTex):
        col = k[2:].split(',') if cls is None else [cls.r, cls.g, cls.b]
        return {'k': k, 'ch': [['c', '"hxr/textures/empty.png"']], 'col': [word(str(x)) for x in col], 'par': [], 'sc': ''}
    ch = [[a, '"%s/%s"' % (cls.basepath, getattr(cls, a))] for a in 'cnszg' if getattr(cls, a, None)]
    tc = getattr(cls, 'texcolor', None)
    par = [[a] + [word(str(x)) for x in getattr(cls, a)] for a in ('specscale', 'parallaxscale', 'glowcolor') if getattr(cls, a, None)]
    if issubclass(cls, basetex.DefaultBumpSpecMapWorld):
        par = []          # this kind always uses the same parameters
    return {'k': k, 'ch': ch, 'col': [word(str(x)) for x in tc] if tc else [], 'par': par,
            'sc': word(str(cls.scale)) if issubclass(cls, basetex.SimpleTex) else ''}


class Man:
    def __init__(self, kind, rnd):
        from redeclipse import textures as T
        from redeclipse.textures import dull, minecraft, paper, primary  # noqa
        self.kind, self.classes, self.theme = kind, {}, None
        if kind == 'plain':
            self.m = T.TextureManager()
        elif kind == 'colour':
            self.m = T.AutomatedMagicaTextureManager()
        elif kind == 'rainbow':
            self.m = T.RainbowPukeTextureManager()
        elif kind == 'Own':
            ns, self.theme = own_textures(rnd)
            self.m = type('OwnThemedTextureManager', (T.ThemedTextureManager,), {'textures': types.SimpleNamespace(**ns), 'theme': self.theme})()
            self.classes = {'n:' + k.lower(): c for k, c in ns.items()}
        else:
            self.m = getattr(T, kind + 'ThemedTextureManager')()
            mod = dict(THEMED)[kind]
            self.classes = catalog({'minecraft': minecraft, 'dull': dull, 'paper': paper, 'primary': primary}[mod])
            self.theme = __import__('redeclipse.textures.%s_theme' % mod, fromlist=['x'])
        self.names = ['n:sky', 'n:default'] + sorted(self.classes)
        if kind in ('colour', 'rainbow'):
            pool = [(0, 0, 0), (1, 1, 1), (0.1, 0.1, 0.1), (1, 0, 0), (1.0, 0, 0), (0.5, 0.5, 0.5), (0, 0, 1),
                    (1 / 3, 2 / 3, 0.25), (0.25, 1 / 3, 2 / 3), (0.12, 3 / 255, 1)]
            pool += [tuple(rnd.randrange(256) / 255 for _ in range(3)) for _ in range(6)]
            self.pick = rnd.sample(pool, 10)
        else:
            p = self.names[2:] or ['n:default', 'n:sky']
            self.pick = [rnd.choice(p) for _ in range(10)]

    def items(self):
        a = self.m.atlas
        return list(a.items()) if hasattr(a, 'items') else list(enumerate(a))

    def dump(self):
        return [ident(t) for _, t in self.items()]

    def cats(self, cat):
        if self.theme is None:
            return []
        return ['n:' + x for x in getattr(self.theme, {'roof': 'Generic'}.get(cat, cat.capitalize()) + 'Material')]


class Rec:
    def __init__(self, ctx, kinds):
        self.ctx, self.ev = ctx, []
        self.mans = [Man(k, ctx.rnd) for k in kinds]
        from redeclipse import MapParser
        self.maps = [MapParser().read(os.path.join(REPO, 'maps/empty-night.mpz')) for _ in range(2)]
        self.seen = {}

    def done(self, name):
        ks = set()
        for e in self.ev:
            for d in e.get('dump', []):
                ks |= set(d)
        cls = {}
        for m in self.mans:
            cls.update(m.classes)
        # two managers may define the same name: then the one of the first manager that can be meant
        tex = [known(k, cls.get(k)) for k in sorted(ks | {'n:sky', 'n:default'})]
        self.ctx.scen('tex', name, self.ev, man=[{'kind': m.kind, 'names': m.names} for m in self.mans], tex=tex)

    def ask(self, op, j, k, fn, theme=()):
        m = self.mans[j]
        r = call(fn)
        res, key2, hue = -1, '', [0, 0, 0]
        if r[0] == 'ok':
            d = dict(m.items())
            res = r[1] if type(r[1]) is int and r[1] >= 0 else -2
            if res in d:
                key2 = ident(d[res])
                t = d[res]
                if m.kind == 'rainbow' and op in ('colour', 'cat') and key2[:2] == 'c:':
                    hue = [round(x * 32) if abs(x * 32 - round(x * 32)) < 1e-9 else 99 for x in (t.r, t.g, t.b)]
        elif r[0] == 'hang':
            res = -3
        self.ev.append({'op': op, 'm': j + 1, 'k': k, 'res': res, 'key2': key2, 'hue': hue, 'theme': list(theme),
                        'dump': [x.dump() for x in self.mans], 'key': '%s-%s' % (op, m.kind)})

    def get(self, j, key):
        self.ask('get', j, key, lambda: self.mans[j].m.get(key[2:]))

    def colour(self, j, c):
        m = self.mans[j]
        self.ask('colour', j, ckey(*c), lambda: m.m.get_colour(*c))

    def pickone(self, j, n):
        m = self.mans[j]
        if m.kind in ('colour', 'rainbow'):
            self.colour(j, m.pick[n])
        else:
            self.get(j, m.pick[n])

    def bad(self, j):
        nm = self.ctx.rnd.choice(['', 'nosuch', 'c_0.3_0.3_0.3', 'GOLD', 'Sky', 'tex8', 'tex115', 'paper9', None])
        if nm is not None and 'n:' + nm in self.mans[j].names:
            nm = 'nosuch'
        self.ask('bad', j, '', lambda: self.mans[j].m.get(nm))

    def cat(self, j, c):
        m = self.mans[j]
        if m.kind == 'plain':
            return self.get(j, self.ctx.rnd.choice(m.names))
        self.ask('cat', j, c, lambda: m.m.get_c(c), m.cats(c))

    def theme(self, j):
        for c in CATS:
            if self.mans[j].theme:
                self.ev.append({'op': 'theme', 'm': j + 1, 'theme': self.mans[j].cats(c), 'key': 'theme-' + self.mans[j].kind})

    def dumped(self):
        self.ev.append({'op': 'dump', 'm': 1, 'dump': [x.dump() for x in self.mans], 'res': -1,
                        'idx': [[k if type(k) is int else -1 for k, _ in x.items()] for x in self.mans], 'key': 'dump'})

    def flavour(self, p, fs):
        import redeclipse.worldflavors as W
        r = call(W.update, self.maps[p], list(fs))
        self.ev.append({'op': 'flavour', 'p': p + 1, 'f': list(fs), 'res': 0 if r[0] == 'ok' else -1,
                        'same': r[0] == 'ok' and r[1] is self.maps[p], 'key': 'flavour'})

    def emit(self, j, p, name='out.mpz'):
        from redeclipse import cli
        from redeclipse.voxel import VoxelWorld
        man = self.mans[j].m
        man.copy_data = lambda: None          # would copy pictures to a directory of the author
        v = VoxelWorld(size=2)
        cfg = name.replace('.mpz', '.cfg')
        if self.ctx.rnd.random() < .5:        # an earlier, longer file
            with open(cfg, 'w') as f:
                f.write('texture c "old.png" 0 0 0 1 // 99\n' * self.ctx.rnd.choice([1, 9, 400]))
        if os.path.exists(name):
            os.remove(name)
        with open(name, 'w') as f:
            a = types.SimpleNamespace(magica=None, graph=None, mpz_out=f)
            r = call(cli.output, v, self.maps[p], None, types.SimpleNamespace(TEXMAN=man), a, limit=60)
        ok = r[0] == 'ok' and os.path.exists(cfg)
        self.ev.append({'op': 'emit', 'm': j + 1, 'p': p + 1, 'ok': ok, 'lines': parse(cfg) if ok else [],
                        'saved': os.path.exists(name) and os.path.getsize(name) > 0, 'key': 'emit-' + self.mans[j].kind})


def drive(ctx):
    from redeclipse import worldflavors as W
    random.seed(ctx.seed)
    files = ctx.pid == 'C27'
    pairs = [(a, b) for a in KINDS for b in KINDS if a != 'Default' or b != 'Default']
    ctx.rnd.shuffle(pairs)
    for n, g in enumerate(ctx.gens['hist']):
        ctx.guard('history', history, ctx, pairs[n % len(pairs)], g['ops'], files)
    for k in KINDS:
        ctx.guard('all-' + k, everything, ctx, k, files)
    if files:
        ctx.guard('flavours', flavours, ctx, W)


def history(ctx, kinds, ops, files):
    # names of two themes may coincide but mean different pictures: keep to one theme per history
    themed = [k for k in kinds if k in dict(THEMED) or k == 'Own']
    if len(set(themed)) == 2 and files:
        kinds = (kinds[0], 'colour')
    r = Rec(ctx, kinds)
    for o in ops:
        j = o['m'] - 1
        if o['op'] == 'get':
            r.get(j, o['k']) if o['k'].startswith('n:') else r.pickone(j, int(o['k']))
        elif o['op'] == 'bad':
            r.bad(j)
        elif o['op'] == 'cat':
            r.cat(j, ctx.rnd.choice(CATS))
        elif o['op'] == 'flavour' and files:
            r.flavour(j, o['f'])
        elif o['op'] == 'emit' and files:
            r.emit(j, ctx.rnd.randrange(2))
    if files:
        r.emit(0, 0)
        r.emit(1, 1)
    r.dumped()
    r.done('history')


def everything(ctx, kind, files):
    """every name, every category, many colours"""
    rnd = ctx.rnd
    r = Rec(ctx, [kind])
    m = r.mans[0]
    r.theme(0)
    names = m.names[2:]
    rnd.shuffle(names)
    for n in names:
        r.get(0, n)
    for n in rnd.sample(names, min(6, len(names))):
        r.get(0, n)
    if kind in ('colour', 'rainbow'):
        for _ in range(60 if ctx.quick else 200):
            r.colour(0, rnd.choice([tuple(rnd.randrange(256) / 255 for _ in range(3)), tuple(rnd.choice([0, 1, .5, .1]) for _ in range(3)),
                                    tuple(rnd.random() for _ in range(3))]))
        for _ in range(6 if ctx.quick else 40):       # colours that differ in one digit or in order only
            c = [rnd.choice([0, 1, .5, .25, 1 / 3, rnd.random()]) for _ in range(3)]
            r.colour(0, tuple(c))
            c[rnd.randrange(3)] = max(0, c[rnd.randrange(3)] - 10.0 ** -rnd.randint(1, 13))
            r.colour(0, tuple(c))
            r.colour(0, tuple(c[::-1]))
    for c in CATS * (3 if ctx.quick else 20):
        r.cat(0, c)
    if kind == 'Minecraft':
        for _ in range(5):
            r.ask('cat', 0, 'random', m.m.random, ['n:gold', 'n:admin', 'n:stone', 'n:dirt', 'n:wood'])
    r.dumped()
    if files:
        r.flavour(0, ['maliwan', 'space_station', 'maliwan'])
        r.emit(0, 0)
        r.emit(0, 1)
    r.done('all-' + kind)


def flavours(ctx, W):
    import itertools
    names = ['space_station', 'crushed_blacks', 'maliwan']
    r = Rec(ctx, ['plain', 'colour'])
    r.flavour(0, [])
    r.emit(1, 0)
    r.flavour(1, ['nosuch'])
    r.emit(0, 1)
    r.done('flavours')
    for fs in itertools.permutations(names):
        for n in (1, 2, 3):
            r = Rec(ctx, ['plain'])
            r.flavour(0, fs[:n])
            r.emit(0, 0, 'a-%d.mpz' % n)
            r.emit(0, 1, 'a-%d.mpz' % n)
            r.done('flavours')
    r = Rec(ctx, ['plain'])
    r.flavour(0, sorted(W.choices))
    r.emit(0, 0)
    r.done('flavours')
