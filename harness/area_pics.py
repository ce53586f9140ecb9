"""C32: pictures of textures and skies put into the folders of the game (redeclipse.textures, redeclipse.skybox, redeclipse.cli)"""
import builtins
import contextlib
import hashlib
import io
import os
import random
import types

from harness.area_tex import KINDS, THEMED, Man
from harness.driver import REPO, call

TRACE = {'pics': 'PicsTrace'}
SHARDS = {'pics': 4}
DATA = os.path.join(REPO, 'redeclipse', 'textures')
SKY = os.path.join(REPO, 'redeclipse', 'skybox')
real = {x: getattr(os, x) for x in ('stat', 'lstat', 'mkdir', 'chmod', 'utime', 'access', 'listdir', 'scandir', 'open', 'remove', 'unlink',
                                    'rmdir', 'rename', 'replace', 'link', 'symlink', 'chown', 'setxattr', 'getxattr', 'listxattr', 'truncate') if hasattr(os, x)}
ropen = builtins.open
exists, makedirs = os.path.lexists, os.makedirs


def mc(pid, tier):
    return [{'module': 'PicsMC', 'cfg': 'PicsMC.cfg' if tier == 'quick' else 'PicsMCT.cfg', 'workers': 4}]


def gen(pid, tier):
    return [{'name': 'hist', 'module': 'PicsMC', 'cfg': 'PicsGen.cfg', 'num': 40 if tier == 'quick' else 500, 'depth': 26}]


class Overlay:
    """Stand-ins for the calls that touch files: what lies outside of the scratch directory is written to, and looked up in,
    a directory inside of it first."""

    def __init__(self, root):
        self.root, self.home = os.path.join(root, 'over'), root
        makedirs(self.root)

    def over(self, p):
        p = os.path.abspath(os.fsdecode(p))
        if p == self.home or p.startswith(self.home + '/') or p.startswith('/dev/'):
            return p
        return self.root + p

    def read(self, p):
        if not isinstance(p, (str, bytes, os.PathLike)):
            return p
        o = self.over(p)
        try:
            real['lstat'](o)
            return o
        except OSError:
            return p

    def write(self, p):
        if not isinstance(p, (str, bytes, os.PathLike)):
            return p
        o = self.over(p)
        d, rd = os.path.dirname(o), os.path.dirname(os.path.abspath(os.fsdecode(p)))
        try:
            real['stat'](rd)
            there = True
        except OSError:
            there = False
        if there:
            self.mk(d)
        return o

    def mk(self, d):
        if d and d != '/':
            try:
                real['stat'](d)
            except OSError:
                self.mk(os.path.dirname(d))
                real['mkdir'](d)

    def fopen(self, f, mode='r', *a, **k):
        w = any(c in mode for c in 'wax+')
        return ropen(self.write(f) if w else self.read(f), mode, *a, **k)

    def osopen(self, p, flags, *a, **k):
        return real['open'](self.write(p) if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else self.read(p), flags, *a, **k)

    @contextlib.contextmanager
    def active(self):
        new = {}
        for x in real:
            if x == 'open':
                new[x] = self.osopen
            elif x in ('rename', 'replace', 'link', 'symlink'):
                new[x] = (lambda f: lambda a, b, *r, **k: f(self.read(a), self.write(b), *r, **k))(real[x])
            elif x in ('mkdir', 'remove', 'unlink', 'rmdir', 'chmod', 'utime', 'chown', 'setxattr', 'truncate'):
                new[x] = (lambda f: lambda a, *r, **k: f(self.write(a), *r, **k))(real[x])
            else:
                new[x] = (lambda f: lambda a='.', *r, **k: f(self.read(a), *r, **k))(real[x])
        try:
            for x, f in new.items():
                setattr(os, x, f)
            builtins.open = io.open = self.fopen
            yield
        finally:
            for x, f in real.items():
                setattr(os, x, f)
            builtins.open = io.open = ropen

    def put(self, path, data):
        """install a picture"""
        o = self.root + path
        self.mk(os.path.dirname(o))
        with ropen(o, 'wb') as f:
            f.write(data)


def digest(path):
    with ropen(path, 'rb') as f:
        return hashlib.md5(f.read()).hexdigest()[:10]


def pictures(cls):
    """the pictures of this package that a texture is drawn with: directory, names"""
    from redeclipse.textures import basetex as B
    if issubclass(cls, B.SimpleColourTex):
        return 'data/hxr', ['empty.png']
    if not issubclass(cls, (B.SimpleTex, B.BumpSpecMapWorld, B.BumpSpecMapParallaxWorld, B.BumpSpecMapParallaxGlowWorld)):
        return '', []               # comes with the game
    return cls.srcpath, [getattr(cls, a) for a in 'cnszg' if getattr(cls, a, None)]


class Rec:
    def __init__(self, ctx, kinds, shipped=False):
        self.ctx, self.ev, self.tex, self.store, self.size = ctx, [], {}, {}, {}
        self.dir = os.path.abspath('pics%d' % ctx.n)
        self.o = Overlay(self.dir)
        self.shipped = shipped
        self.mans = [Man(k, ctx.rnd) for k in kinds]
        self.where = {}
        from redeclipse import MapParser
        self.map = MapParser().read(os.path.join(REPO, 'maps/empty-night.mpz'))
        rnd = ctx.rnd
        for m in self.mans:
            for k, c in m.classes.items():
                self.know(k, c)
            if m.kind in ('colour', 'rainbow'):
                from redeclipse.textures import basetex
                self.know('c', basetex.SimpleColourTex)
        for n in ('desert', 'minecraft', 'own'):
            for x in ('bk', 'dn', 'ft', 'lf', 'rt', 'up'):
                self.install('%s_%s.jpg' % (n, x), SKY, n == 'own')
        self.tex['n:sky'] = self.tex['n:default'] = []
        self.tex.setdefault('c', [])
        # the folder of the game: foreign pictures, and old versions of some of ours
        self.game = None
        names = [p for p in self.where if not p.endswith(('bk.jpg', 'dn.jpg', 'ft.jpg', 'lf.jpg', 'rt.jpg', 'up.jpg'))]
        self.folder0, self.sky0 = [], []
        self.old = [('foreign.png', b'foreign')] + [(p, b'old ' + p.encode()) for p in rnd.sample(names, min(3, len(names)))]
        self.store0 = [[p, c] for p, c in self.store.items()]

    def know(self, k, cls):
        d, ps = pictures(cls)
        self.tex[k] = ps
        for p in ps:
            self.install(p, os.path.join(DATA, d))

    def install(self, p, d, force=False):
        if p in self.where:
            return
        self.where[p] = os.path.join(d, p)
        if self.shipped and not force and os.path.exists(self.where[p]):
            self.store[p] = digest(self.where[p])
        else:
            self.paint(p)

    def paint(self, p):
        rnd = self.ctx.rnd
        self.size[p] = self.size[p] if p in self.size and rnd.random() < .6 else rnd.choice([0, 1, 5000])
        data = b'%s %09d ' % (p.encode(), rnd.randrange(10 ** 9)) + b'x' * self.size[p]
        self.o.put(self.where[p], data)
        self.store[p] = hashlib.md5(data).hexdigest()[:10]

    def look(self, tail):
        out = []
        for base, _, files in os.walk(self.dir):
            if base.endswith(tail) and '/redeclipse/textures/' not in base:
                out += [[f, digest(os.path.join(base, f))] for f in sorted(files)]
        return out

    def ask(self, j, n):
        m = self.mans[j]
        if m.kind in ('colour', 'rainbow'):
            c = m.pick[n]
            r, k = call(m.m.get_colour, *c), 'c'
        else:
            k = m.pick[n]
            r = call(m.m.get, k[2:])
        self.ev.append({'op': 'ask', 'm': j + 1, 'k': k, 'ok': r[0] == 'ok', 'key': 'ask'})

    def output(self, j, key='output'):
        from redeclipse import cli
        from redeclipse.voxel import VoxelWorld
        man = self.mans[j].m
        name = os.path.join(self.dir, 'out.mpz')
        with ropen(name, 'w') as f:
            a = types.SimpleNamespace(magica=None, graph=None, mpz_out=f)
            with self.o.active():
                r = call(cli.output, VoxelWorld(size=2), self.map, None, types.SimpleNamespace(TEXMAN=man), a, limit=60)
        self.ev.append({'op': 'output', 'm': j + 1, 'ok': r[0] == 'ok', 'folder': self.look('hxr/textures'), 'key': key})
        return r

    def start(self):
        """find out where the pictures go, and what lies there already"""
        m = self.mans[0].m
        with self.o.active():
            call(m.copy_data, limit=60)
        for base, _, _ in os.walk(self.dir):
            if base.endswith('hxr/textures') and '/redeclipse/textures/' not in base:
                self.game = base
        if self.game:
            for p, data in self.old:
                with ropen(os.path.join(self.game, p), 'wb') as f:
                    f.write(data)
        self.folder0 = self.look('hxr/textures')
        # and below the sky: old pictures, newer than the installed ones, some of the same size
        d = os.path.join(self.dir, 'game', 'red', 'data', 'hxr', 'skybox')
        if self.ctx.rnd.random() < .7:
            makedirs(d)
            for p in ['foreign.jpg'] + self.ctx.rnd.sample(sorted(p for p in self.where if p[-7:-6] == '_'), 4):
                n = self.size.get(p, 0) + len(p) + 11
                with ropen(os.path.join(d, p), 'wb') as f:
                    f.write((b'old ' * 2000)[:n + self.ctx.rnd.choice([0, 0, 1])])
        self.sky0 = self.look('game/red/data/hxr/skybox')

    def skybox(self, name):
        from redeclipse import skybox as S
        cls = {'desert': S.DesertSky, 'minecraft': S.MinecraftSky, 'own': type('OwnSky', (S.Skybox,), {'basename': 'own'})}[name]
        with self.o.active():
            r = call(cls, os.path.join(self.dir, 'game', 'red'), limit=60)
            path = call(r[1].get_short_path) if r[0] == 'ok' else ('raise', '')
            v = call(self.map.skybox, r[1]) if r[0] == 'ok' else ('raise', '')
        var = ''
        if v[0] == 'ok':
            x = {k.decode() if isinstance(k, bytes) else k: x for k, x in self.map.map_vars.items()}.get('skybox', '')
            var = x.decode() if isinstance(x, bytes) else str(x)
        self.ev.append({'op': 'sky', 'k': name, 'ok': r[0] == 'ok' and v[0] == 'ok', 'folder': self.look('game/red/data/hxr/skybox'),
                        'path': str(path[1]), 'var': var, 'key': 'sky-' + name})

    def repaint(self, p):
        if self.shipped or p not in self.where:
            return
        self.paint(p)
        self.ev.append({'op': 'paint', 'k': p, 'to': self.store[p], 'key': 'paint'})

    def done(self, name):
        self.ctx.scen('pics', name, self.ev, tex=[{'k': k, 'p': v} for k, v in self.tex.items()], store=self.store0, folder=self.folder0, sky=self.sky0)
        __import__('shutil').rmtree(self.dir, ignore_errors=True)


def drive(ctx):
    random.seed(ctx.seed)
    pairs = [(a, b) for a in KINDS for b in KINDS if not (a in dict(THEMED) and b in dict(THEMED) and a != b)]
    ctx.rnd.shuffle(pairs)
    for n, g in enumerate(ctx.gens['hist']):
        ctx.guard('history', history, ctx, pairs[n % len(pairs)], g['ops'])
    for k in KINDS:
        ctx.guard('each-' + k, each, ctx, k)
    ctx.guard('shipped', shipped, ctx)


def history(ctx, kinds, ops):
    r = Rec(ctx, kinds)
    r.start()
    for o in ops:
        j = o['m'] - 1
        if o['op'] == 'ask':
            r.ask(j, int(o['k']))
        elif o['op'] == 'paint':
            ps = sorted(r.where)
            used = [p for e in r.ev if e['op'] == 'ask' for p in r.tex[e['k']]]
            skies = [k + x for e in r.ev if e['op'] == 'sky' for k in [e['k']] for x in ('_bk.jpg', '_up.jpg', '_lf.jpg')]
            r.repaint(ctx.rnd.choice(skies if skies and ctx.rnd.random() < .5 else used or ps))
        elif o['op'] == 'output':
            r.output(j)
        else:
            r.skybox(o['k'])
    r.output(0)
    r.output(1)
    r.done('history')


def each(ctx, kind):
    """every texture of a manager, one after another"""
    r = Rec(ctx, [kind, 'plain'])
    r.start()
    m = r.mans[0]
    names = m.names[2:] if kind not in ('colour', 'rainbow') else range(len(m.pick))
    for n, k in enumerate(names):
        if kind in ('colour', 'rainbow'):
            r.ask(0, k)
        else:
            x = call(m.m.get, k[2:])
            r.ev.append({'op': 'ask', 'm': 1, 'k': k, 'ok': x[0] == 'ok', 'key': 'ask'})
        if n < 40 and (n % 3 == 0 or not ctx.quick):
            r.output(0, 'output-' + kind)
    r.output(0, 'output-' + kind)
    r.output(1, 'output-plain')
    r.done('each-' + kind)


def shipped(ctx):
    """the pictures as they come with the package"""
    for kind in ('Minecraft', 'plain'):
        r = Rec(ctx, [kind, 'plain'], shipped=True)
        r.start()
        for n in range(10):
            r.ask(0, n)
        r.output(0, 'shipped')
        for n in ('minecraft', 'desert', 'own'):
            r.skybox(n)
        r.done('shipped')
