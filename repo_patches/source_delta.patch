From 7b9e25a001d7ee9450ee214e5e1602918cd5b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 01/54] fix: close the gzip handle when Map.write returns

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 3f67c1f..71d33f9 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -144,6 +144,7 @@ class Map:
         self._savechildren(handle, self.world)
         self.pbar_0.close()
         # self.pbar_1.close()
+        handle.close()
 
     def _write_custom(self, handle, fmt, data):
         handle.write(struct.pack(fmt, *data))
-- 
2.43.0


From ee11b556fb5725d9d0328421149130e1e3b9f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 02/54] fix: recount map vars in the header on write

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 71d33f9..e3473ba 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -98,6 +98,7 @@ class Map:
         self._write_int(handle, self.headersize)
         # Write the header block
         self.meta['numents'] = len(self.ents)
+        self.meta['numvars'] = len(self.map_vars)
         for key in self.meta:
             if key in ('gameident', 'skybox', 'z'):
                 self._write_str(handle, tb(self.meta[key]))
-- 
2.43.0


From d6887be21a0ef0fb4c472e19502b975f7f572906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 03/54] fix: attach the skybox as a map variable, not a header
 field

---
 redeclipse/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index e3473ba..c8d64cf 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -330,7 +330,7 @@ class Map:
         Attach a skybox to the map
         """
         # pass
-        self.meta['skybox'] = sb.get_short_path()
+        self.map_vars[b'skybox'] = tb(sb.get_short_path())
 
 
 class MapParser(object):
-- 
2.43.0


From da78e3917e7bcabf04b157ec569bd231e9dd2908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 04/54] fix: write octree and entity bytes above 127

---
 redeclipse/__init__.py          | 2 +-
 redeclipse/entities/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index c8d64cf..522e23d 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -154,7 +154,7 @@ class Map:
         handle.write(struct.pack('B', char))
 
     def _write_int_as_chr(self, handle, data):
-        handle.write(struct.pack('c', str.encode(chr(data))))
+        handle.write(struct.pack('B', data))
 
     def _write_int(self, handle, value):
         if isinstance(value, int):
diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f023699..a3f3778 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -61,7 +61,7 @@ class Entity:
 
     def serialize(self):
         return [self.o.x, self.o.y, self.o.z, str.encode(chr(self.type.value))] + \
-            [str.encode(chr(x)) for x in self.reserved]
+            [bytes([x]) for x in self.reserved]
 
     def to_dict(self):
         data = {
-- 
2.43.0


From 5d344b0a61d2ca528a31910d1b808009071d27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 05/54] fix: a player start has a team, not a weapon type

---
 redeclipse/entities/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index a3f3778..7665a11 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -15,7 +15,6 @@ class Entity:
                 'type', 'flags', 'modes', 'muts', 'id'
             ]
         elif self.type == EntType.ET_PLAYERSTART:
-            self.attrs[0] = WeaponType(self.attrs[0])
             self.attr_annotations = [
                 'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
             ]
-- 
2.43.0


From 51256a5374f2264f50513b1f37c1453c2a6c3e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 06/54] fix: rebuild entities from their dict form

---
 redeclipse/entities/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index 7665a11..765a26f 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -1,3 +1,4 @@
+from redeclipse.vector import FineVector
 from redeclipse.vector.re import ivec3
 from redeclipse.enums import EntType, WeaponType
 
@@ -85,9 +86,7 @@ class Entity:
     def from_dict(cls, d):
         attrs = [d['attr'][x] if isinstance(d['attr'][x], int) else WeaponType[d['attr'][x]] for x in d['attr']['_order']]
         e = Entity(
-            x=d['position'][0],
-            y=d['position'][1],
-            z=d['position'][2],
+            xyz=FineVector(*d['position']) / 4,
             type=EntType[d['type']],
             attrs=attrs,
             links=d['links'],
-- 
2.43.0


From 2cd2b14f23ac035b26e41af2c68d73638ab29a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 07/54] fix: export weapon entities that carry a plain weapon
 number

---
 redeclipse/entities/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index 765a26f..af36ce0 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -76,7 +76,7 @@ class Entity:
             data['attr'][key] = value
 
         if self.type == EntType.ET_WEAPON:
-            data['attr']['type'] = data['attr']['type'].name
+            data['attr']['type'] = WeaponType(data['attr']['type']).name
 
         data['attr']['_order'] = self.attr_annotations
 
-- 
2.43.0


From dcb36abd3a70adb885c82bf3ed708ece375f4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 08/54] fix: annotate map model attributes so that they can be
 exported

---
 redeclipse/entities/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 9708c1c..057b34f 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -11,6 +11,11 @@ class MapModel(Entity):
 
         self.o = ivec3(*(xyz * 4))
         self.type = EntType.ET_MAPMODEL
+        self.attr_annotations = [
+            'type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags',
+            'colour', 'palette', 'palindex', 'spinyaw', 'spinpitch',
+            'spinroll'
+        ]
         self.attrs = [
             type, yaw, pitch, roll, blend, scale, flags, colour, palette,
             palindex, spinyaw, spinpitch, spinroll
-- 
2.43.0


From f010a4b7d8479c0578d157686d1cce11290c6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 09/54] fix: scale entity positions given in coarse coordinates

---
 redeclipse/entities/__init__.py | 2 +-
 redeclipse/entities/model.py    | 2 +-
 redeclipse/entities/weapon.py   | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index af36ce0..8c066b4 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -98,7 +98,7 @@ class Entity:
 class PlayerSpawn(Entity):
 
     def __init__(self, xyz=(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_PLAYERSTART
         self.attr_annotations = [
             'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 057b34f..6027fea 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -9,7 +9,7 @@ class MapModel(Entity):
                  scale=0, flags=0, colour=0, palette=0, palindex=0, spinyaw=0,
                  spinpitch=0, spinroll=0, links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_MAPMODEL
         self.attr_annotations = [
             'type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags',
diff --git a/redeclipse/entities/weapon.py b/redeclipse/entities/weapon.py
index 85592c1..659acb1 100644
--- a/redeclipse/entities/weapon.py
+++ b/redeclipse/entities/weapon.py
@@ -8,7 +8,7 @@ class Weapon(Entity):
     def __init__(self, xyz, type=0, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
@@ -25,7 +25,7 @@ class Grenade(Entity):
     def __init__(self, xyz, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
@@ -42,7 +42,7 @@ class Shotgun(Entity):
     def __init__(self, xyz, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
-- 
2.43.0


From 53354d48e89eaf496d31723d595442bf8daaf43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 10/54] fix: declare as many voxels and colours in a .vox file
 as are written

---
 redeclipse/magicavoxel/writer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 0b69018..2992709 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -2,12 +2,14 @@ import struct
 
 
 def to_magicavoxel(voxel_world, handle, texman):
-    cs = 4 * (1 + len(voxel_world.world))
+    # Only voxels which fit in a byte per axis can be exported.
+    numvoxels = sum(all(0 <= c <= 255 for c in point) for point in voxel_world.world)
+    cs = 4 * (1 + numvoxels)
     handle.write(struct.pack('4s', b'VOX '))
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
     handle.write(struct.pack('i', 0))  # Chunk size
-    handle.write(struct.pack('i', cs + 36 + 1024))  # child chunk size TODO
+    handle.write(struct.pack('i', cs + 48 + 1024))  # child chunk size TODO
     # Size chunk
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
@@ -19,7 +21,7 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
     handle.write(struct.pack('i', 0))  # child chunk size
-    handle.write(struct.pack('i', len(voxel_world.world)))  # numvoxels
+    handle.write(struct.pack('i', numvoxels))  # numvoxels
 
     def m(x):
         return int(x)
@@ -41,5 +43,5 @@ def to_magicavoxel(voxel_world, handle, texman):
     for idx, (tex_key, tex) in enumerate(texman.atlas.items()):
         handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white
 
-    for i in range(255 - len(texman.atlas)):
+    for i in range(256 - len(texman.atlas)):
         handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white
-- 
2.43.0


From 411d91596784201c7c58fc75e02a0e85def0172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 11/54] fix: the .vox model size is one more than its largest
 coordinate

---
 redeclipse/magicavoxel/writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 2992709..b8fad7f 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -14,9 +14,9 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
     handle.write(struct.pack('i', 0))
-    handle.write(struct.pack('i', int(voxel_world.xmax)))  # x
-    handle.write(struct.pack('i', int(voxel_world.ymax)))  # y
-    handle.write(struct.pack('i', int(voxel_world.zmax)))  # z
+    handle.write(struct.pack('i', min(int(voxel_world.xmax) + 1, 256)))  # x
+    handle.write(struct.pack('i', min(int(voxel_world.ymax) + 1, 256)))  # y
+    handle.write(struct.pack('i', min(int(voxel_world.zmax) + 1, 256)))  # z
     # xyzi chunk
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
-- 
2.43.0


From 23e2c87363cdac573d55e26784159a96d163e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 12/54] fix: pick the door of a room only once its random
 options are known

---
 redeclipse/upm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index ae714b3..ac2fb46 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -295,6 +295,8 @@ class UnusedPositionManager:
             # not be necessary but it doesn't hurt anything.
             for orientation in random.sample(CARDINALS, 4):
                 kwargs = {'orientation': orientation}
+                # Add our random options
+                kwargs.update(roomClass.randOpts(prev_room))
                 # Initialize room, required to correctly calculate get_positions()/get_doorways()
                 r = roomClass(pos=CoarseVector(2, 2, 3), **kwargs)
                 # We've already picked a prev_room_door (and we know its orientation)
@@ -310,8 +312,6 @@ class UnusedPositionManager:
                 for chosen_door in options:
                     # Room offset
                     room_offset = chosen_door['offset'] - prev_room_door + prev_room_orientation
-                    # Add our random options
-                    kwargs.update(roomClass.randOpts(prev_room))
                     # Last, we yield all possible versions of this room (in case
                     # some of them don't fit.)
                     r = roomClass(pos=CoarseVector(2, 2, 3) - room_offset, **kwargs)
-- 
2.43.0


From c50679b65baea7766dc97bb0da40845e0616843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 13/54] fix: do not list a room whose registration is refused

---
 redeclipse/upm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index ac2fb46..c6f41ee 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -121,13 +121,13 @@ class UnusedPositionManager:
 
     def _register_room(self, room):
         used = room.get_positions()
-        self.rooms.append(room)
         # First, we need to check that ALL of those positions are
         # unoccupied.
         for position in used:
             if position in self.occupied.keys() and not self.noclip:
                 raise Exception("Occupado %s" % position)
         # Otherwise, all positions are fine to use.
+        self.rooms.append(room)
 
         self.occupied.update({pos: room for pos in used})
         # Remove occupied positions from possibilities
-- 
2.43.0


From 24c632cf3e40ffbc24b0c9af9cb0d13df6d8fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 14/54] fix: end the texcolor line of bump/spec textures

---
 redeclipse/textures/basetex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index d6aa77a..4bf3f08 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -92,7 +92,7 @@ texture s "{0.basepath}/{0.s}"
 """.format(self, idx=idx)
 
         if self.texcolor:
-            conf += "texcolor %s %s %s" % self.texcolor
+            conf += "texcolor %s %s %s\n" % self.texcolor
         return conf
 
 
-- 
2.43.0


From 9f995d7ec2a41907de28ed4b6f8fbcfe565bf2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 15/54] fix: return a texture index for unknown texture
 categories

---
 redeclipse/textures/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 3f1ea2f..93957f2 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -210,7 +210,7 @@ class ThemedTextureManager(TextureManager):
         elif category == 'accent':
             return self.get(random.choice(self.theme.AccentMaterial))
 
-        return random.choice(self.theme.GenericMaterial)
+        return self.get(random.choice(self.theme.GenericMaterial))
 
     def discover_textures(self):
         super().discover_textures()
-- 
2.43.0


From a05e53446661f3f5bc49f36005418fc9644e58bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 16/54] fix: support lights which are not centered
 automatically

---
 redeclipse/lighting/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/lighting/__init__.py b/redeclipse/lighting/__init__.py
index 03eb654..cb41a34 100644
--- a/redeclipse/lighting/__init__.py
+++ b/redeclipse/lighting/__init__.py
@@ -37,6 +37,7 @@ class LightManager:
 
         :param boolean autocenter: Automatically add FineVector(4, 4, 4) to the position
         """
+        pos = position
         if autocenter:
             pos = position + TILE_CENTER + HALF_HEIGHT
 
-- 
2.43.0


From cd4f29626fb578e374e3ed854e0d271c782eb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 17/54] fix: let after effects run on worlds with fractional
 bounds

---
 redeclipse/aftereffects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index d06c6e7..178f2eb 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -100,7 +100,7 @@ def grid(world, size=24):
             (z % size == 0 and y % size == 0) or \
             (z % size == 0 and x % size == 0)
 
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if pos_func(x, y, z):
@@ -125,7 +125,7 @@ def decay(world, position_function):
     :rtype: None
     """
     log.info('Applying Decay Effect')
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
@@ -150,7 +150,7 @@ def growth(world, position_function):
     :rtype: None
     """
     log.info('Applying Growth Effect')
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
-- 
2.43.0


From 07308451bf476f764408b43eb79aed71355da128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 18/54] fix: default --mirror as main() does

---
 redeclipse/cli/magica_rooms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/magica_rooms.py b/redeclipse/cli/magica_rooms.py
index f3b1aa7..9420ade 100644
--- a/redeclipse/cli/magica_rooms.py
+++ b/redeclipse/cli/magica_rooms.py
@@ -131,7 +131,7 @@ if __name__ == '__main__':
     parser.add_argument('--rooms', default=200, type=int, help="Number of rooms to place")
     parser.add_argument('--debug', action='store_true', help="Debugging")
     parser.add_argument('--ctf', action='store_true', help="Include flags for CTFs")
-    parser.add_argument('--mirror', type=int, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
+    parser.add_argument('--mirror', type=int, choices=[1, 2, 4], default=2, help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
     parser.add_argument('--flavor', nargs='*', choices=redeclipse.worldflavors.choices)
     args = parser.parse_args()
     # Build our map
-- 
2.43.0


From 5eab77f433d3bb671f46af4dd42d47de88209a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 19/54] fix: do not mark an empty first octant as having
 children

---
 redeclipse/cli/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index f6ce541..341841e 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -32,7 +32,6 @@ def output(v, mymap, upm, prefabs, args):
                 handle.write(line + '\n')
 
         mymap.world = v.to_octree()
-        mymap.world[0].octsav = 0
         mymap.write(args.mpz_out.name)
 
     if args.graph:
-- 
2.43.0


From 9bcaabc9d4a69b239ee45822a218ccb772159ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 20/54] fix: skip door cells which an end cap already fills
 when debugging

---
 redeclipse/upm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index c6f41ee..161d7e6 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -351,6 +351,8 @@ class UnusedPositionManager:
     def endcap(self, debug=False, possible_endcaps=[]):
         if debug:
             for (pos, typ, ori) in tqdm(self.unoccupied):
+                if pos in self.occupied:
+                    continue
                 r = self._room_cap_debug(pos, typ, ori)
                 if r:
                     self._register_room(r)
-- 
2.43.0


From efbac213bc85e8e9155b9d81d3bbe1cf8c03b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 21/54] fix: cell 32 lies outside of a 32 cell wide world

---
 redeclipse/upm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 161d7e6..784a808 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -48,9 +48,9 @@ class UnusedPositionManager:
         :rtype: boolean
         """
         # TODO: dependent on world size.
-        return 0 <= position.x <= 32 and \
-            0 <= position.y <= 32 and \
-            0 <= position.z <= 32
+        return 0 <= position.x < 32 and \
+            0 <= position.y < 32 and \
+            0 <= position.z < 32
 
     def _yield_mirrored(self, room):
         for orientation in self.mirror_rotations:
-- 
2.43.0


From 893f42224f4e483fbb38387ca3a1c902775a6c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 22/54] fix: do not place rooms which stick out of the world

---
 redeclipse/upm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 784a808..6354365 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -93,6 +93,8 @@ class UnusedPositionManager:
             for position in used:
                 if position in self.occupied.keys() or position in added_occupied:
                     return False
+                if not self.is_legal(position):
+                    return False
             added_occupied = added_occupied.union(set(used))
             # Don't add the room if the door is off the edge.
             for door in room.get_doorways():
-- 
2.43.0


From 022febcd072c4e3785096c3a0b90f135deffb1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 23/54] fix: link rooms by cells which they occupy

---
 redeclipse/upm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 6354365..845efca 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -61,9 +61,11 @@ class UnusedPositionManager:
             yield room_copy
 
     def _yield_mirrored_positions(self, room):
+        # Not every room fills the cell at its own pos.
+        anchor = room.get_positions()[0]
         for orientation in self.mirror_rotations:
             yield (
-                room.pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0)),
+                anchor.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0)),
                 room.orientation.rotate(orientation)
             )
 
-- 
2.43.0


From 85b5c599c2ea2bdfbca036e21685a184efc0a635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 24/54] fix: always choose something in weighted_choice

---
 redeclipse/upm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 845efca..ad18095 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -243,7 +243,8 @@ class UnusedPositionManager:
             if upto + w >= r:
                 return c
             upto += w
-        return None
+        # The sums may differ in the last bits, that must not lose the choice.
+        return choices[-1][0] if choices else None
 
     def random_room(self, connecting_room, room_options):
         """Pick out a random room based on the connecting room and the
-- 
2.43.0


From e43e6b9a421e538d32689e53429928c9002eb8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 25/54] fix: offer mirrored transition probabilities to rooms

---
 redeclipse/prefabs/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redeclipse/prefabs/distributions.py b/redeclipse/prefabs/distributions.py
index 6c6457a..2699dd9 100644
--- a/redeclipse/prefabs/distributions.py
+++ b/redeclipse/prefabs/distributions.py
@@ -17,6 +17,10 @@ class DistributionManager:
             in self.transition_probabilities.keys()
             if k == clsname.room_type
         }
+        if self.mirror:
+            for (k, v) in self.transition_probabilities.keys():
+                if v == clsname.room_type:
+                    filtered.setdefault(k, self.transition_probabilities[k, v])
         return filtered
 
 
-- 
2.43.0


From 53c6502224f6217a3edee1f3428bbc4c980b7a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 26/54] fix: reject octree nodes of unknown type

---
 redeclipse/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 522e23d..e72f4e5 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -480,8 +480,7 @@ class MapParser(object):
         elif octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
             c.haschildren = True
         else:
-            failed = True
-            return failed, c
+            raise Exception("Don't know how to handle octree node type %s" % (octsav & 0x7))
 
         c.texture = []
         for i in range(6):
-- 
2.43.0


From a229b71dadef5ab665143154f90cda1f23d12ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 27/54] fix: read and write the children of LOD cubes

---
 redeclipse/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index e72f4e5..0ca5d51 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -267,6 +267,9 @@ class Map:
                     else:
                         raise NotImplementedError("Gross out")
 
+        if c.octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
+            self._savechildren(handle, c.children, indent=indent + 1)
+
     def to_dict(self):
         """
         return represnetation of map as dictionary
@@ -519,6 +522,9 @@ class MapParser(object):
 
                     raise NotImplementedError("Gross in")
 
+        if c.haschildren:
+            c.children = self._loadchildren(size >> 1, failed, indent=indent + 1)
+
         return failed, c
 
     def _loadents(self, numents):
-- 
2.43.0


From 285db5de12a766f21f21d357fabfccc03f29913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 28/54] fix: use integer bounds for the pole lengths of
 PoleRoom

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index a10de65..fc49db3 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -652,7 +652,7 @@ class PoleRoom(_LargeRoom):
                         length = FineVector(1, 1, 8 * self._height)
                         voff = ABOVE_FINE
                     else:
-                        offset = random.randint(1, 8 * self._height / 2)
+                        offset = random.randint(1, 8 * self._height // 2)
                         length = FineVector(1, 1, (8 * self._height) - (2 * offset))
                         voff = (ABOVE_FINE * offset)
 
-- 
2.43.0


From 3fb7488c06bbc4230abc553d573ca716e3a1a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 29/54] fix: occupy the cell above the egyptian stairs

---
 redeclipse/prefabs/egypt/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redeclipse/prefabs/egypt/__init__.py b/redeclipse/prefabs/egypt/__init__.py
index 11faf6b..3323f26 100644
--- a/redeclipse/prefabs/egypt/__init__.py
+++ b/redeclipse/prefabs/egypt/__init__.py
@@ -24,6 +24,9 @@ class stair(MagicaRoom):
         {'orientation': EAST, 'offset': EAST + ABOVE},
     ]
 
+    def _get_positions(self):
+        return super()._get_positions() + [ABOVE]
+
 
 class stair_toplatform(MagicaRoom):
     name = 'stair_toplatform'
@@ -37,6 +40,9 @@ class stair_toplatform(MagicaRoom):
         {'orientation': SOUTH, 'offset': EAST + SOUTH + ABOVE},
     ]
 
+    def _get_positions(self):
+        return super()._get_positions() + [EAST + ABOVE]
+
 
 class statue(MagicaRoom):
     name = 'statue'
-- 
2.43.0


From f13e4e944b5b1213559d2ae90685ff0a87b16bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 30/54] fix: turn pushers and map models about the tile center
 like their room

---
 redeclipse/prefabs/__init__.py              | 12 ++++++------
 redeclipse/prefabs/spacestation/__init__.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index fc49db3..7fda937 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -318,14 +318,14 @@ class JumpCorridor3(Room):
         (a, b, c) = self.pos
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(7, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(7, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(270, self.orientation),
             force=175 * SIZE_OFFSET,
         )
 
         pusher_b = Pusher(
-            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).rotate(self.orientation),
+            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(90, self.orientation),
             force=175 * SIZE_OFFSET,
@@ -380,7 +380,7 @@ class JumpCorridorVertical(Room):
         self.light(xmap)
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(5, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(5, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=74,
             yaw=rotate_yaw(270, self.orientation),
             force=400 * SIZE_OFFSET,
@@ -388,7 +388,7 @@ class JumpCorridorVertical(Room):
         xmap.ents.append(pusher_a)
 
         pusher_b = Pusher(
-            xyz=self.pos + FineVector(6, 4, 17).rotate(self.orientation),
+            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=40,
             yaw=rotate_yaw(90, self.orientation),
             force=200 * SIZE_OFFSET,
@@ -469,7 +469,7 @@ class JumpCorridorVerticalCenter(JumpCorridorVertical):
             force = 700 * SIZE_OFFSET
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(4, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(4, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=90,
             maxrad=5,
             yaw=rotate_yaw(0, self.orientation),
@@ -810,7 +810,7 @@ class AltarRoom(_3X3Room):
 
         if self._randflags[0]:
             tree = MapModel(
-                xyz=self.pos + FineVector(4, 4, 3).rotate(self.orientation),
+                xyz=self.pos + FineVector(4, 4, 3).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
                 yaw=rotate_yaw(270, self.orientation),
                 type=124
             )
diff --git a/redeclipse/prefabs/spacestation/__init__.py b/redeclipse/prefabs/spacestation/__init__.py
index cd335d1..9ff4c1c 100644
--- a/redeclipse/prefabs/spacestation/__init__.py
+++ b/redeclipse/prefabs/spacestation/__init__.py
@@ -264,7 +264,7 @@ class station_tube_jumpx(MagicaRoom):
         LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation), size_factor=2)
 
         pusher_a = Pusher(
-            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).rotate(self.orientation),
+            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=90,
             maxrad=1,
             yaw=rotate_yaw(0, self.orientation),
-- 
2.43.0


From ab344d10124b5ffd6bfe2de3b7caf3b6222ca08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 31/54] fix: keep the lights of large rooms inside of the room

---
 redeclipse/prefabs/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 7fda937..4b4bd42 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -615,8 +615,8 @@ class _LargeRoom(_3X3Room):
         h = 6
         if self._height > 1:
             h = 12
-        position = self.pos + NORTH + TILE_CENTER + FineVector(0, 0, h)
-        LIGHTMAN.light(xmap, position.rotate(self.orientation))
+        position = self.pos + NORTH.rotate(self.orientation) + FineVector(0, 0, h)
+        LIGHTMAN.light(xmap, position)
 
 
 class PoleRoom(_LargeRoom):
@@ -660,7 +660,7 @@ class PoleRoom(_LargeRoom):
 
     def light(self, xmap):
         light = Light(
-            xyz=self.pos + FineVector(3, 4, 10),
+            xyz=self.pos + FineVector(3, 4, 10).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             red=255,
             green=255,
             blue=255,
@@ -709,7 +709,7 @@ class ImposingBlockRoom(_LargeRoom):
 
     def light(self, xmap):
         light = Light(
-            xyz=self.pos + FineVector(3, 4, 7),
+            xyz=self.pos + FineVector(3, 4, 7).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             red=255,
             green=255,
             blue=255,
@@ -770,7 +770,7 @@ class ImposingRingRoom(_LargeRoom):
         self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 8), subtract=True)
 
     def light(self, xmap):
-        LIGHTMAN.light(xmap, self.pos + NORTH + HALF_HEIGHT + TILE_CENTER)
+        LIGHTMAN.light(xmap, self.pos + NORTH.rotate(self.orientation))
 
 
 class AltarRoom(_3X3Room):
@@ -898,7 +898,7 @@ class CrossingWalkways(_LargeRoom):
 
     def light(self, xmap):
         for i in range(self._height):
-            LIGHTMAN.light(xmap, SELF + (ABOVE * i))
+            LIGHTMAN.light(xmap, self.pos + (ABOVE * i))
 
 
 class PlusPlatform(_LargeRoom):
-- 
2.43.0


From 5a05d5307589730114cbefee94b006cad7b7519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 32/54] fix: keep the lights of castle_gate_simple and the wall
 end cap inside

---
 redeclipse/prefabs/castle/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redeclipse/prefabs/castle/__init__.py b/redeclipse/prefabs/castle/__init__.py
index 06cf242..ce0accd 100644
--- a/redeclipse/prefabs/castle/__init__.py
+++ b/redeclipse/prefabs/castle/__init__.py
@@ -91,8 +91,8 @@ class castle_gate_simple(MagicaRoom):
     ]
 
     def render_extra(self, world, xmap):
-        LIGHTMAN.light(xmap, self.pos + (EAST + NORTH).rotate(self.orientation))
-        LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation))
+        LIGHTMAN.light(xmap, self.pos + EAST.rotate(self.orientation))
+        LIGHTMAN.light(xmap, self.pos + (EAST + ABOVE).rotate(self.orientation))
 
 
 class castle_large(MagicaRoom):
@@ -206,7 +206,6 @@ class castle_wall_section_endcap(MagicaRoom):
 
     def render_extra(self, world, xmap):
         LIGHTMAN.light(xmap, self.pos + ABOVE)
-        LIGHTMAN.light(xmap, self.pos + (EAST + EAST + ABOVE).rotate(self.orientation))
 
 
 class castle_wall_section_long(MagicaRoom):
-- 
2.43.0


From d8f9110fe25b590d85e732c6f0e6f225beadd8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 33/54] fix: center the light of MultiPlatform once

---
 redeclipse/prefabs/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 4b4bd42..f19e885 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -971,7 +971,8 @@ class MultiPlatform(_LargeRoom):
         ]
 
     def light(self, xmap):
-        position = self.pos + TILE_CENTER + FineVector(0, 0, 16)
+        # The light manager centers the light in the tile.
+        position = self.pos + FineVector(0, 0, 16)
         LIGHTMAN.light(xmap, position)
 
 
-- 
2.43.0


From 7e9602c33b8ea7b897f9f6ca488a249559101abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:46 +0000
Subject: [PATCH 34/54] fix: let rooms be copied after they loaded their model

---
 redeclipse/prefabs/magica.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index 5e6ace0..03a36eb 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -28,7 +28,9 @@ class MagicaRoom(Room):
         return '<MagicaRoom %s facing:%s,pos:%s>' % (self.name, n(self.orientation), self.pos)
 
     def load_model(self):
-        self.model = Magicavoxel.from_file(self.vox_file)
+        # Do not keep the file open, rooms must be copyable to be mirrored.
+        with open(self.vox_file, 'rb') as handle:
+            self.model = Magicavoxel.from_bytes(handle.read())
         self.vox = VoxelWorld()
         self._colours = {}
         for vox in self.model.model_voxels.voxels:
-- 
2.43.0


From 3838c058fe7d9f7f1faa6a50ba262fc62bab9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:48 +0000
Subject: [PATCH 35/54] fix: export the graph of rooms which have no name

---
 redeclipse/cli/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index 341841e..60f58f9 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -40,10 +40,12 @@ def output(v, mymap, upm, prefabs, args):
             "links": []
         }
         for room in upm.rooms:
+            # Not every room (e.g. the debugging end caps) has a name.
+            name = getattr(room, 'name', room.__class__.__name__)
             data['nodes'].append({
                 'id': id(room),
-                'name': room.name,
-                'label': room.name,
+                'name': name,
+                'label': name,
             })
 
         for a, b in upm.links:
-- 
2.43.0


From 116d4975b7472673e34d273048406d0ed87bad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 36/54] fix: write map variables given as text

---
 redeclipse/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 0ca5d51..7e9d394 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -108,7 +108,8 @@ class Map:
         # Write the map vars
         for key in self.map_vars:
             var_name = key
-            value = self.map_vars[key]
+            # Text is stored as bytes
+            value = tb(self.map_vars[key])
             var_type = type(self.map_vars[key]).__name__
 
             self._write_int(handle, len(var_name))
-- 
2.43.0


From 54f3f3bce84b89b02845ece3340650cd973d0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:29 +0000
Subject: [PATCH 37/54] fix: reject map files with negative counts

---
 redeclipse/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 7e9d394..8959b20 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -348,6 +348,12 @@ class MapParser(object):
         val = self._read_custom('i', 4)[0]
         return val
 
+    def _read_count(self):
+        val = self._read_int()
+        if val < 0:
+            raise Exception("Negative count %s" % val)
+        return val
+
     def _read_char(self):
         val = self._read_custom('B', 1)[0]
         return val
@@ -541,12 +547,12 @@ class MapParser(object):
                 ord(c)
             ]
 
-            numattr = self._read_int()
+            numattr = self._read_count()
             attrs = []
             for j in range(numattr):
                 attrs.append(self._read_int())
 
-            link_count = self._read_int()
+            link_count = self._read_count()
             links = []
             for j in range(link_count):
                 links.append(self._read_int())
@@ -585,24 +591,24 @@ class MapParser(object):
         # 'gameident', 'numvars')
         meta = OrderedDict()
         for k in meta_keys:
-            meta[k] = self._read_int()
+            meta[k] = self._read_count() if k == 'numents' else self._read_int()
 
         # char[4], null=True
         meta['gameident'] = self._read_str(3)
-        meta['numvars'] = self._read_int()
+        meta['numvars'] = self._read_count()
         log.debug(meta)
         log.debug('Header Worldsize: %s', meta['worldsize'])
 
         map_vars = OrderedDict()
         for i in range(meta['numvars']):
             # +1 for null term string
-            var_name_len = self._read_int()
+            var_name_len = self._read_count()
             var_name = self._read_str(var_name_len)
             var_type = self._read_int()
 
             # String
             if var_type == 2:
-                var_len = self._read_int()
+                var_len = self._read_count()
                 var_val = self._read_str(var_len)
             elif var_type == 1:
                 var_val = self._read_float()
-- 
2.43.0


From 695e8291e6ec3e3b699c6d5deacaff21cb44666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 38/54] fix: reject more texture slots than the header
 announces

---
 redeclipse/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 8959b20..edcf814 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -389,6 +389,8 @@ class MapParser(object):
             changed = self._read_int()
             chg.append(changed)
             if changed < 0:
+                if -changed > numvslots:
+                    raise Exception("More texture slots than announced")
                 for i in range(-changed):
                     vslots.append(VSlot(None, len(vslots)))
                 numvslots += changed
-- 
2.43.0


From 3c65a77962503d6a0dc8b91295b3f9c410e82d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 39/54] fix: only list existing textures in the dull theme

---
 redeclipse/textures/dull_theme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/textures/dull_theme.py b/redeclipse/textures/dull_theme.py
index 5048c4f..235cd4f 100644
--- a/redeclipse/textures/dull_theme.py
+++ b/redeclipse/textures/dull_theme.py
@@ -3,13 +3,13 @@ from itertools import chain
 
 GenericMaterial = [
     'tex%s' % x for x in
-    range(4, 9)
+    range(4, 8)
 ]
 
 
 FloorMaterial = [
     'tex%s' % x for x in
-    chain(range(4, 8), [9], range(92, 116), range(504, 505))
+    chain(range(4, 8), [9], range(92, 115), range(504, 505))
 ]
 
 
-- 
2.43.0


From dd7fa0b50a0b4c100b3d7fafd7903889c5f83ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 40/54] fix: number equal colours given as int and float once

---
 redeclipse/textures/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 93957f2..2f65768 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -251,7 +251,7 @@ class AutomatedMagicaTextureManager(TextureManager):
         return self._get_colour(r, g, b)
 
     def _get_colour(self, r, g, b):
-        name = 'c_%s_%s_%s' % (r, g, b)
+        name = 'c_%s_%s_%s' % (float(r), float(g), float(b))
         if name not in self.atlas_backref:
             tmp = SimpleColourTex()
             tmp.r = r
-- 
2.43.0


From d6bd3d472caae7f16f3e72de05a5a94541a5af42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 41/54] fix: do not configure depth maps that a texture does
 not have

---
 redeclipse/textures/basetex.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index 4bf3f08..cee2e63 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -124,8 +124,10 @@ class DefaultBumpSpecMapParallaxWorld(BaseTex):
 
         conf += """texture c "{0.basepath}/{0.c}" 0 0 0 0.500000 // {idx} {0.__class__}
 texture n "{0.basepath}/{0.n}"
-texture s "{0.basepath}/{0.s}"
-texture z "{0.basepath}/{0.z}"\n""".format(self, idx=idx)
+texture s "{0.basepath}/{0.s}"\n""".format(self, idx=idx)
+
+        if self.z:
+            conf += """texture z "{0.basepath}/{0.z}"\n""".format(self)
 
         if self.texcolor:
             conf += "texcolor %s %s %s\n\n" % self.texcolor
@@ -166,9 +168,12 @@ class DefaultBumpSpecMapParallaxGlowWorld(BaseTex):
 
         conf += """texture c "{0.basepath}/{0.c}" 0 0 0 0.500000 // {idx} {0.__class__}
 texture n "{0.basepath}/{0.n}"
-texture s "{0.basepath}/{0.s}"
-texture z "{0.basepath}/{0.z}"
-texture g "{0.basepath}/{0.g}"\n""".format(self, idx=idx)
+texture s "{0.basepath}/{0.s}"\n""".format(self, idx=idx)
+
+        if self.z:
+            conf += """texture z "{0.basepath}/{0.z}"\n""".format(self)
+
+        conf += """texture g "{0.basepath}/{0.g}"\n""".format(self)
 
         if self.texcolor:
             conf += "texcolor %s %s %s\n\n" % self.texcolor
-- 
2.43.0


From e033eb762d71b28a71c843af2fe55f62b85f1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 42/54] fix: place player starts and sunlights like all other
 entities

---
 redeclipse/entities/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index 8c066b4..0d165ff 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -97,7 +97,7 @@ class Entity:
 
 class PlayerSpawn(Entity):
 
-    def __init__(self, xyz=(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
+    def __init__(self, xyz=FineVector(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
         self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_PLAYERSTART
         self.attr_annotations = [
@@ -112,8 +112,8 @@ class PlayerSpawn(Entity):
 
 class Sunlight(Entity):
 
-    def __init__(self, xyz=(0, 0, 0), yaw=0, pitch=0, red=255, green=255, blue=255, offset=45, flare=0, flarescale=0, links=None, reserved=None):
-        self.o = ivec3(*xyz)
+    def __init__(self, xyz=FineVector(0, 0, 0), yaw=0, pitch=0, red=255, green=255, blue=255, offset=45, flare=0, flarescale=0, links=None, reserved=None):
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_SUNLIGHT
         self.attr_annotations = [
             'yaw', 'pitch', 'red', 'green', 'blue', 'offset', 'flare', 'flarescale',
-- 
2.43.0


From def78356558ac89822caac68b1be606532a5d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 43/54] fix: do not change the attribute list an entity is made
 of

---
 redeclipse/entities/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index 0d165ff..25e9abf 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -9,7 +9,7 @@ class Entity:
         xyz = xyz.fine() * 4
         self.o = ivec3(*xyz)
         self.type = type
-        self.attrs = attrs
+        self.attrs = list(attrs)
         if self.type == EntType.ET_WEAPON:
             self.attrs[0] = WeaponType(self.attrs[0])
             self.attr_annotations = [
-- 
2.43.0


From 90c7e2b12230d21012b98526b473630e1f1d183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 44/54] fix: rebuild entities with fractional attributes from
 their dict form

---
 redeclipse/entities/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index 25e9abf..7628cce 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -84,7 +84,7 @@ class Entity:
 
     @classmethod
     def from_dict(cls, d):
-        attrs = [d['attr'][x] if isinstance(d['attr'][x], int) else WeaponType[d['attr'][x]] for x in d['attr']['_order']]
+        attrs = [WeaponType[d['attr'][x]] if isinstance(d['attr'][x], str) else d['attr'][x] for x in d['attr']['_order']]
         e = Entity(
             xyz=FineVector(*d['position']) / 4,
             type=EntType[d['type']],
-- 
2.43.0


From c45370a95b02c07e2855009a961787f8f0072bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 45/54] fix: do not share lists between a map and its dict form

---
 redeclipse/__init__.py          |  8 ++++----
 redeclipse/entities/__init__.py | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index edcf814..a56121f 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -281,11 +281,11 @@ class Map:
             'headersize': self.headersize,
             'meta': [(key, bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.meta.items()],
             'map_vars': [(bytes.decode(key), bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.map_vars.items()],
-            'texmru': self.texmru,
+            'texmru': list(self.texmru),
             'entities': [ent.to_dict() for ent in self.ents],
             'world': (x.to_dict() for x in self.world),
             'vslots': (x.to_dict() for x in self.vslots),
-            'chg': self.chg,
+            'chg': list(self.chg),
         }
 
     def to_json(self):
@@ -320,10 +320,10 @@ class Map:
             headersize=data['headersize'],
             meta=meta,
             map_vars=map_vars,
-            texmru=data['texmru'],
+            texmru=list(data['texmru']),
             ents=[Entity.from_dict(x) for x in data['entities']],
             vslots=[VSlot.from_dict(x) for x in data['vslots']],
-            chg=data['chg'],
+            chg=list(data['chg']),
             worldroot=world,
         )
 
diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index 7628cce..519a661 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -68,8 +68,8 @@ class Entity:
             'position': [self.o.x, self.o.y, self.o.z],
             'type': self.type.name,
             'attr': {},
-            'links': self.links,
-            'reserved': self.reserved,
+            'links': list(self.links),
+            'reserved': list(self.reserved),
         }
 
         for (key, value) in zip(self.attr_annotations, self.attrs):
@@ -78,7 +78,7 @@ class Entity:
         if self.type == EntType.ET_WEAPON:
             data['attr']['type'] = WeaponType(data['attr']['type']).name
 
-        data['attr']['_order'] = self.attr_annotations
+        data['attr']['_order'] = list(self.attr_annotations)
 
         return data
 
@@ -89,8 +89,8 @@ class Entity:
             xyz=FineVector(*d['position']) / 4,
             type=EntType[d['type']],
             attrs=attrs,
-            links=d['links'],
-            reserved=d['reserved']
+            links=list(d['links']),
+            reserved=list(d['reserved'])
         )
         return e
 
-- 
2.43.0


From f722b8e5e1360fc222b7e91268f1209124f70b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 46/54] fix: export cubes with missing surfaces and merged
 faces

---
 redeclipse/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index 245090b..b393dee 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -157,7 +157,7 @@ class cubext:
             'surfaceinfo': self.surfaceinfo,
             'maxverts': self.maxverts,
             'verts': self.verts,
-            'surfaces': [x.to_dict() for x in self.surfaces],
+            'surfaces': [x.to_dict() if x else None for x in self.surfaces],
         }
 
     @classmethod
@@ -217,6 +217,7 @@ class cube:
             'faces': [f.name for f in self.faces],
             'texture': [t if isinstance(t, int) else t.value for t in self.texture],
             'material': self.material,
+            'merged': self.merged,
             'escaped': self.escaped,
             'visible': self.visible,
             'octsav': self.octsav,
-- 
2.43.0


From ccc9db552b7b39b82546977317b5a0a0d4d34f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 47/54] fix: rebuild the vectors of texture slots from their
 dict form

---
 redeclipse/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index b393dee..90b1fcf 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -66,6 +66,9 @@ class VSlot:
         v = VSlot(d['a'], d['b'])
         for prop in d['_order']:
             setattr(v, prop, d[prop])
+        v.offset = ivec2(*v.offset)
+        v.scroll = vec2(*v.scroll)
+        v.colorscale = vec3(*v.colorscale)
         return v
 
 
-- 
2.43.0


From 28526cbab16ab69df80998f69f2a386927d079c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:35 +0000
Subject: [PATCH 48/54] fix: export and rebuild header fields and variables of
 any bytes

---
 redeclipse/__init__.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index a56121f..d434cee 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -19,11 +19,21 @@ def tb(str_or_bytes):
     Auto-convert string or bytes to a bytes
     """
     if isinstance(str_or_bytes, str):
-        return str.encode(str_or_bytes)
+        return str.encode(str_or_bytes, errors='surrogateescape')
     else:
         return str_or_bytes
 
 
+def ts(value):
+    """
+    Inverse of tb, map files may hold bytes which are not valid text
+    """
+    if isinstance(value, bytes):
+        return bytes.decode(value, errors='surrogateescape')
+    else:
+        return value
+
+
 class Map:
     """
     Base redeclipse map object, contains everything needed for the
@@ -276,11 +286,11 @@ class Map:
         return represnetation of map as dictionary
         """
         return {
-            'magic': bytes.decode(self.magic),
+            'magic': ts(self.magic),
             'version': self.version,
             'headersize': self.headersize,
-            'meta': [(key, bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.meta.items()],
-            'map_vars': [(bytes.decode(key), bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.map_vars.items()],
+            'meta': [(key, ts(value)) for (key, value) in self.meta.items()],
+            'map_vars': [(ts(key), ts(value)) for (key, value) in self.map_vars.items()],
             'texmru': list(self.texmru),
             'entities': [ent.to_dict() for ent in self.ents],
             'world': (x.to_dict() for x in self.world),
@@ -302,20 +312,17 @@ class Map:
         # TODO
         meta = OrderedDict()
         for (key, value) in data['meta']:
-            meta[key] = value
+            meta[key] = tb(value)
 
         map_vars = OrderedDict()
         for (key, value) in data['map_vars']:
-            if isinstance(value, str):
-                map_vars[str.encode(key)] = str.encode(value)
-            else:
-                map_vars[str.encode(key)] = value
+            map_vars[tb(key)] = tb(value)
 
         # TODO
         world = {}
 
         m = Map(
-            magic=str.encode(data['magic']),
+            magic=tb(data['magic']),
             version=data['version'],
             headersize=data['headersize'],
             meta=meta,
-- 
2.43.0


From 28c03684b57147eeb024d69e9db1914af27dbb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:47 +0000
Subject: [PATCH 49/54] fix: keep texture slots which are edited in the map
 file

---
 redeclipse/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index d434cee..622cbf0 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -5,6 +5,7 @@ from collections import OrderedDict
 from redeclipse.enums import EntType, Faces, VTYPE, OCT, TextNum
 from redeclipse.objects import VSlot, SlotShaderParam, cube, SurfaceInfo
 from redeclipse.vector import FineVector
+from redeclipse.vector.re import ivec2, vec2, vec3
 from redeclipse.entities import Entity
 from tqdm import tqdm
 import simplejson as json
@@ -403,7 +404,8 @@ class MapParser(object):
                 numvslots += changed
             else:
                 prev.append(self._read_int())
-                self._loadvslot(VSlot(None, len(vslots)), changed)
+                vslots.append(VSlot(None, len(vslots)))
+                self._loadvslot(vslots[-1], changed)
                 numvslots -= 1
 
         for idx, v in enumerate(vslots):
@@ -439,16 +441,15 @@ class MapParser(object):
                 else:
                     ssp.palette = 0
                     ssp.palindex = 0
+                vs.params[ts(ssp.name)] = dict(vars(ssp), name=ts(ssp.name))
         if vs.changed & (1 << VTYPE.VSLOT_SCALE.value):
             vs.scale = self._read_float()
         if vs.changed & (1 << VTYPE.VSLOT_ROTATION.value):
             vs.rotation = self._read_int()
         if vs.changed & (1 << VTYPE.VSLOT_OFFSET.value):
-            vs.offset_x = self._read_int()
-            vs.offset_y = self._read_int()
+            vs.offset = ivec2(self._read_int(), self._read_int())
         if vs.changed & (1 << VTYPE.VSLOT_SCROLL.value):
-            vs.scroll_x = self._read_int()
-            vs.scroll_y = self._read_int()
+            vs.scroll = vec2(self._read_int(), self._read_int())
         if vs.changed & (1 << VTYPE.VSLOT_LAYER.value):
             vs.layer = self._read_int()
         if vs.changed & (1 << VTYPE.VSLOT_ALPHA.value):
@@ -456,11 +457,11 @@ class MapParser(object):
             vs.alphaback = self._read_float()
 
         if vs.changed & (1 << VTYPE.VSLOT_COLOR.value):
-            vs.colorscale = [
+            vs.colorscale = vec3(
                 self._read_float(),
                 self._read_float(),
                 self._read_float()
-            ]
+            )
         if vs.changed & (1 << VTYPE.VSLOT_PALETTE.value):
             vs.palette = self._read_int()
             vs.palindex = self._read_int()
-- 
2.43.0


From 100e0fc187defc3857f95e62b50fdf5a7d76290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:22 +0000
Subject: [PATCH 50/54] fix: light equal coarse and fine positions in the same
 colour

---
 redeclipse/lighting/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/lighting/__init__.py b/redeclipse/lighting/__init__.py
index cb41a34..9fb4cd1 100644
--- a/redeclipse/lighting/__init__.py
+++ b/redeclipse/lighting/__init__.py
@@ -37,9 +37,9 @@ class LightManager:
 
         :param boolean autocenter: Automatically add FineVector(4, 4, 4) to the position
         """
-        pos = position
+        pos = position.fine()
         if autocenter:
-            pos = position + TILE_CENTER + HALF_HEIGHT
+            pos = pos + TILE_CENTER + HALF_HEIGHT
 
         if colour_override:
             (red, green, blue) = colour_override
-- 
2.43.0


From f9088384f920c4e19ef78119f914d48c493215bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:11 +0000
Subject: [PATCH 51/54] fix: only copy the depth maps that a texture has

---
 redeclipse/textures/basetex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index cee2e63..b0d8020 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -140,7 +140,8 @@ class BumpSpecMapParallaxWorld(DefaultBumpSpecMapParallaxWorld):
         yield self.c
         yield self.n
         yield self.s
-        yield self.z
+        if self.z:
+            yield self.z
 
 
 class DefaultBumpSpecMapParallaxGlowWorld(BaseTex):
@@ -186,5 +187,6 @@ class BumpSpecMapParallaxGlowWorld(DefaultBumpSpecMapParallaxGlowWorld):
         yield self.c
         yield self.n
         yield self.s
-        yield self.z
+        if self.z:
+            yield self.z
         yield self.g
-- 
2.43.0


From 8458a4c5eeb11096cc22249b308de5833d424f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:36 +0000
Subject: [PATCH 52/54] fix: place the trees, rocks and spawns of the snow
 forest by vectors

---
 redeclipse/cli/snow_forest.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index 4b923b2..b7057ed 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -4,6 +4,7 @@ from redeclipse.entities.model import MapModel
 from redeclipse.entities import PlayerSpawn
 from redeclipse.cli import parse
 from redeclipse.objects import cube
+from redeclipse.vector import FineVector
 import argparse
 import random
 import noise
@@ -107,9 +108,7 @@ def main():
                 tree_count += 1
                 # Place tree
                 tree = MapModel(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4,
+                    xyz=FineVector(i, j, heightmap[(i, j)]),
                     type=137,
                     yaw=random.randint(0, 360),
                     scale=random.randint(56, 200),
@@ -118,9 +117,7 @@ def main():
 
             if point_spawn(i, j):
                 spawn = PlayerSpawn(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4,
+                    xyz=FineVector(i, j, heightmap[(i, j)]),
                     team=0,
                     yaw=random.randint(0, 360),
                 )
@@ -128,9 +125,7 @@ def main():
 
             if point_rock(i, j):
                 rock = MapModel(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4 - random.randint(0, 5),
+                    xyz=FineVector(i, j, heightmap[(i, j)] - random.randint(0, 5) / 4),
                     type=122,
                     yaw=random.randint(0, 360),
                     roll=random.randint(0, 360),
-- 
2.43.0


From bffa3ace5f6d4c8ec0826237e01b0f52fa0b7572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:42 +0000
Subject: [PATCH 53/54] fix: do not turn the boundary additions of a room twice

---
 redeclipse/prefabs/magica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index 03a36eb..f277eeb 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -18,7 +18,7 @@ class MagicaRoom(Room):
     ]
 
     def __init__(self, pos, roof=False, orientation=EAST, randflags=None):
-        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0).rotate(orientation)
+        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0)
         self.orientation = orientation
         self.pos = CoarseVector(*pos)
         if randflags:
-- 
2.43.0


From ac7732d029a74ade433f5c35b8857d7d16016b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:28 +0000
Subject: [PATCH 54/54] fix: reserve the headroom above the egyptian stairs to
 the platform

---
 redeclipse/prefabs/egypt/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/egypt/__init__.py b/redeclipse/prefabs/egypt/__init__.py
index 3323f26..22a3cb5 100644
--- a/redeclipse/prefabs/egypt/__init__.py
+++ b/redeclipse/prefabs/egypt/__init__.py
@@ -41,7 +41,7 @@ class stair_toplatform(MagicaRoom):
     ]
 
     def _get_positions(self):
-        return super()._get_positions() + [EAST + ABOVE]
+        return super()._get_positions() + [ABOVE, EAST + ABOVE]
 
 
 class statue(MagicaRoom):
-- 
2.43.0

