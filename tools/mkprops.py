#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
import os
P = []


def p(id, title, statement, over, quant, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': observe, 'hook_needed': None}})


RE = 'redeclipse/__init__.py'
UPM = 'redeclipse/upm.py'
PF = ['redeclipse/prefabs/__init__.py', 'redeclipse/prefabs/original/__init__.py', 'redeclipse/prefabs/castle/__init__.py',
      'redeclipse/prefabs/dungeon/__init__.py', 'redeclipse/prefabs/spacestation/__init__.py', 'redeclipse/prefabs/egypt/__init__.py',
      'redeclipse/prefabs/magica.py']
CK = 'redeclipse/prefabs/construction_kit.py'
VX = 'redeclipse/voxel/__init__.py'
OBJ = 'redeclipse/objects.py'
VEC = 'redeclipse/vector/__init__.py'
ORI = 'redeclipse/vector/orientations.py'
ENT = ['redeclipse/entities/__init__.py', 'redeclipse/entities/weapon.py', 'redeclipse/entities/model.py']
TEX = ['redeclipse/textures/__init__.py', 'redeclipse/textures/basetex.py']

p('C01', 'Reading a map file and writing it back reproduces it byte for byte',
  'Loading any map file the tool accepts and saving it unchanged yields exactly the uncompressed bytes of the '
  'original from the magic to the end of the octree: header, map variables, recent textures, entities, texture '
  'slot records and every octree node with its optional fields. (Data after the octree, i.e. lightmaps, is not kept.) '
  'The in-memory values are the ones the bytes encode. (Signalling not-a-numbers are a known finding.)',
  ['inputs'], 'all well-formed map files: any header values, variables of all three types, any entities, slot '
  'records and octrees of all node kinds and optional-field combinations',
  'The tests round-trip eight fixed files; other node kinds, flag combinations, byte values and variables never occur.',
  [RE, OBJ], [('MapParser.read / Map.write', RE), ('SurfaceInfo, cube', OBJ)], ['bytes of the written file', 'Map attributes'])
p('C02', 'Every save is complete, immediately readable and counts what it holds',
  'After any sequence of edits to a loaded or generated map (adding, changing or removing entities, map variables, '
  'recent textures, cubes, or attaching a sky box), saving produces a file that is complete as soon as the save returns and '
  'loads back with exactly the edited content. The header\'s entity and variable counts equal the content, and saving '
  'changes nothing else, so saving again gives the same bytes.',
  ['histories', 'inputs'], 'all edit/save/load histories',
  'Tests save unmodified maps only and never edit in between or compare counts.',
  [RE], [('Map.write recounts numents/numvars and closes the file', RE), ('Map.skybox', RE)],
  ['bytes of the written file', 'result of reading it back'],
  [('meta', 'ordered header fields', RE), ('map_vars, ents, texmru, world', 'content of the map', RE)])
p('C03', 'Malformed map files are rejected, never silently misread',
  'Loading fails with an error for every file that ends before its octree is complete, has a wrong magic, or uses an '
  'unknown variable type, entity type or octree node type, or geometry the tool cannot represent. It never hangs and never '
  'returns a map built from missing or misinterpreted data.',
  ['inputs', 'crash_points'], 'all truncation points of all valid files, and all single-field corruptions of type tags',
  'No test feeds a damaged file.',
  [RE], [('MapParser reads with exact-width struct.unpack and checks type tags', RE)], ['exception or Map returned by read'])
p('C04', 'The exported octree holds exactly the voxels of the world',
  'For every world of power-of-two size, the octree has a solid cube with the voxel\'s own data at exactly the position of '
  'each voxel inside the world and is empty everywhere else (voxels outside the world are dropped); octant numbering '
  'is x least, z most significant. A part without voxels is one single empty cube, and exporting does not change the world.',
  ['inputs', 'histories'], 'all worlds of all power-of-two sizes',
  'One test exports one world and only checks it is produced.',
  [VX, OBJ], [('VoxelWorld.to_octree recursive bisection', VX)], ['nested cubes returned by to_octree'])
p('C05', 'What is generated is what the saved map file contains',
  'When a generated world is saved as a map, decoding the file\'s octree gives exactly the voxels of that world that lie '
  'inside of it, each with its texture numbers, and the entities that were placed. Every texture number used in the file '
  'is one the accompanying configuration file defines.',
  ['inputs', 'histories'], 'all generated worlds (rooms, effects, seeds, mirror modes)',
  'Tests never generate a world and decode the saved file.',
  ['redeclipse/cli/__init__.py', 'redeclipse/cli/magica_rooms.py', VX, RE, TEX[0]],
  [('cli.output: texture conf, to_octree, write', 'redeclipse/cli/__init__.py')], ['bytes of the .mpz and .cfg files'])
p('C06', 'The voxel world is an exact map from points to data',
  'After any history of setting and deleting points through any of the call forms (numbers or vectors, integers or equal '
  'floats), a point holds the data last set there unless it was deleted since, other points are unaffected, and deleting an '
  'absent point does nothing. The recorded extent is the tightest one around every point ever set (and the initial '
  'empty extent) and never shrinks.',
  ['histories'], 'all histories of set/delete/get in all call forms, any coordinates',
  'Tests use it only indirectly for a few constructions.',
  [VX], [('set_point(v), del_point(v), get_point, _update_boundaries', VX)], ['get_point', 'world', 'xmin..zmax'],
  [('world', 'voxels by coordinate', VX), ('xmin..zmax', 'extent', VX)])
p('C07', 'Vectors rotate, compare, order and hash consistently',
  'Rotating a vector by quarter turns about z (by degrees or by a cardinal direction) is exact for half-integer '
  'coordinates, keeps the type and z, composes additively and undoes itself after four; offset rotation is rotation about a '
  'point. Equality is an equivalence that agrees with coarse-to-fine conversion, the ordering is a strict total order on vectors of one kind '
  'and equal vectors hash equally; yaw and direction helpers agree with the rotation. A vector has the three coordinates 0, 1 and 2 and no other.',
  ['inputs'], 'all half-integer vectors, all multiples of 90 degrees, all directions',
  'Tests rotate a handful of constants.',
  [VEC, ORI], [('BaseVector.rotate/offset_rotate/__eq__/__lt__/__hash__', VEC), ('rotate_yaw, get_vector_rotation, n', ORI)],
  ['returned vectors and numbers'])
p('C08', 'Coarse and fine coordinates convert and mix exactly',
  'A coarse cell is eight fine units: converting to fine multiplies by eight, converting to coarse gives the cell that '
  'contains the point (also for negative coordinates), and entity coordinates are four times the fine ones. Adding or '
  'subtracting like kinds keeps the kind, mixing coarse and fine gives the exact fine result in either order; scaling, dividing and flooring act on each coordinate, and operands are '
  'never modified.',
  ['inputs'], 'all coordinates and operand kinds',
  'Tests try a few sums.',
  [VEC], [('FineVector/CoarseVector arithmetic and conversions', VEC)], ['returned vectors'])
p('C09', 'Construction primitives fill exactly their documented set of voxels',
  'Every drawing primitive (cube, column, dotted column, floor, ceiling, wall, low wall, ring, rectangular prism) sets '
  'exactly the voxels of its shape for every offset, size and orientation, turned as a whole about the centre of the room\'s '
  'cell, with the requested texture on every face. In subtract mode it removes exactly those voxels; a probability of one '
  'or more draws all of them, zero removes all of them, and no voxel outside the shape is touched.',
  ['inputs', 'configurations'], 'all primitives, offsets, sizes, four orientations, positions, pre-existing worlds',
  'Tests check some primitives at few sizes.',
  [CK], [('ConstructionKitMixin.x and x_*', CK), ('cube_points, column_points, wall_points', CK)], ['points and cubes in VoxelWorld'])
p('C10', 'Rooms build only inside the cells they occupy and rotate rigidly',
  'Every kind of room, in every orientation and option combination, puts voxels only into the cells it declares to occupy, '
  'and its entities inside their horizontal extent and at most one cell above them. '
  'Rendering it in another orientation yields the same shape and the same entity positions, turned about the centre of its anchor cell, with '
  'the yaw of pushers, map models and player starts that have one turned along (team colours and voxels drawn by chance aside); moving it moves everything along.',
  ['configurations', 'inputs'], 'all room classes, orientations, option flags and positions',
  'Tests only render whole maps and compare nothing.',
  PF + [CK], [('render, get_positions of every room', PF[0]), ('MagicaRoom.render', PF[6])],
  ['voxels and entities after render', 'get_positions'])
p('C11', 'Doors lead straight out of the room and turn with it',
  'Every room has at least one door; each door names a cell outside of the room, directly adjacent to one of its occupied cells, '
  'and faces away from that cell in one of the four horizontal directions. Occupied cells and doors turn with the orientation and move with the position.',
  ['configurations', 'inputs'], 'all room classes, orientations, option flags and positions',
  'Tests check a few corridor doors.',
  PF, [('get_doorways / get_positions', PF[0])], ['get_doorways', 'get_positions'])
p('C12', 'Rooms never overlap and the cell register matches the placed rooms',
  'After any history of tentative checks, registrations and full placement runs, no two registered rooms share a cell, '
  'and the register maps every cell occupied by a placed room to that room and nothing else. Registering onto an occupied cell fails '
  'and does not list the refused room; the tentative check never changes anything and says yes exactly when the room with all mirror images fits '
  'free cells with doors and cells in bounds.',
  ['histories', 'inputs'], 'all histories of registrations, any rooms, mirror modes 1/2/4',
  'Tests register two rooms by hand.',
  [UPM], [('preregister_room, register_room', UPM)], ['occupied, rooms, return values and exceptions'],
  [('occupied', 'cell to room', UPM), ('rooms', 'placed rooms', UPM)])
p('C13', 'The frontier lists exactly the doors that can still be used',
  'At all times the list of open doors consists of the doors of placed rooms whose target cell is inside the world and free, '
  'each with its own room and facing, except those given up because nothing fitted. Placing a room removes every open door '
  'whose cell it now fills and adds its own.',
  ['histories'], 'all registration and placement histories',
  'Tests look at the length after one registration.',
  [UPM], [('_register_room maintains unoccupied', UPM)], ['unoccupied, rooms, occupied'], [('unoccupied', 'open doors', UPM)])
p('C14', 'Mirrored maps are exactly symmetric',
  'With mirror mode 2 or 4, each room is registered with its images under the half- or quarter-turns about the centre '
  'of the 32-cell world, in the original first order, so the set of occupied cells, the rooms with orientations and options, and the open doors '
  'are invariant under that rotation (doors already given up, and doors onto the rim cell 0 whose image would be outside, aside). Mode 1 adds no copies, and the images are independent objects.',
  ['histories', 'configurations'], 'all placement histories in mirror modes 1, 2, 4',
  'Tests do not look at mirrored copies.',
  [UPM], [('_yield_mirrored', UPM)], ['rooms, occupied, unoccupied'])
p('C15', 'Every placed room is joined door to door with the room it grew from',
  'Each room added by the placement run has a door into a cell of the room it was attached to and that room has a door into the new one, '
  'the two facing each other, and the recorded link and its mirror images join occupied cells of exactly these two rooms. '
  'So every room is reachable from a start room through facing doors and links.',
  ['histories', 'inputs'], 'all placement runs',
  'Tests never look at links or door matching.',
  [UPM], [('room_localization aligns doors', UPM), ('register_link', UPM)], ['links, rooms, occupied'], [('links', 'pairs of joined cells', UPM)])
p('C16', 'Placement stops, gives up no usable door and places what was asked',
  'A placement run always ends: either it has placed at least the requested number of rooms and less than one mirror set more, '
  'or no open door is left. Each step either registers one room with its images or gives up exactly one '
  'open door, and a door is only given up when no offered room can be attached there in any orientation.',
  ['histories', 'schedules'], 'all placement runs over all room sets, request sizes and random choices',
  'Tests run a few placements and check only the count.',
  [UPM], [('place_rooms, room_localization', UPM)], ['rooms, unoccupied after each step'])
p('C17', 'Nothing is placed outside of the world',
  'A cell is legal exactly when all its coordinates are from 0 to 31. No placed room, mirror image or end cap ever occupies an '
  'illegal cell, and no room is accepted by the placement run if a cell or door of it or its images is illegal.',
  ['histories', 'inputs'], 'all positions and placement histories, in particular at the borders',
  'Tests do not place at borders.',
  [UPM], [('is_legal, preregister_room, endcap', UPM)], ['is_legal, occupied'])
p('C18', 'End caps close every open door that one fits',
  'After capping, each added cap fills only free cells inside the world and faces the door it closes; '
  'a door is left open only if no offered cap fits there in any orientation once all caps are placed. In debug mode every '
  'open door cell gets a marker room. Existing rooms are untouched.',
  ['histories', 'inputs'], 'all worlds with any open doors and cap sets',
  'Tests never cap.',
  [UPM], [('endcap', UPM)], ['rooms, occupied, unoccupied before and after'])
p('C19', 'Texture numbers are dense, stable and unique per texture',
  'In any history of texture requests a texture gets the next free number on first use and the same number ever after, '
  'number 0 is the sky and 1 the default, distinct names or colours never share a number, and category requests only yield '
  'numbers of textures that exist. The number always leads back to the requested texture and colour.',
  ['histories'], 'all request histories in all texture managers',
  'No test exists.',
  TEX, [('TextureManager.get, get_colour, get_c', TEX[0])], ['returned numbers, atlas'], [('atlas', 'number to texture', TEX[0])])
p('C20', 'Exported .vox files are well formed and hold every exportable voxel',
  'The exported MagicaVoxel file has correct chunk sizes and counts, contains exactly the voxels with coordinates 0 to 255, '
  'once each, with the palette entry of its texture\'s colour, a size that encloses them, and a 256-entry palette in texture order. '
  'Loading it with the tool\'s own reader succeeds.',
  ['inputs'], 'all voxel worlds (also with points outside the range), all atlases that fit a palette',
  'No test exports.',
  ['redeclipse/magicavoxel/writer.py', 'redeclipse/magicavoxel/reader.py', VX],
  [('to_magicavoxel', 'redeclipse/magicavoxel/writer.py')], ['bytes of the .vox file'])
p('C21', 'Imported .vox rooms appear voxel for voxel in their own colours',
  'Rendering a room imported from a MagicaVoxel file places exactly one voxel per model voxel at the model\'s coordinates (shifted by the boundary additions of the room) turned and moved with the room, '
  'each with a texture of the model palette\'s colour for it, and the occupied cells are exactly the cells its voxels touch (the egypt stairs reserve one free cell more). '
  'The reader returns exactly the size, voxels and palette stored in the file and rejects files with wrong chunk markers or missing data.',
  ['inputs', 'configurations'], 'all .vox files, orientations, positions',
  'Tests never compare a rendered room with its file.',
  [PF[6], 'redeclipse/magicavoxel/reader.py'], [('MagicaRoom.load_model/render', PF[6]), ('Magicavoxel', 'redeclipse/magicavoxel/reader.py')],
  ['voxels after render', 'reader object'])
p('C22', 'Entities are placed and serialised exactly as requested',
  'Every kind of entity created at a coarse or fine position lies at four times its fine coordinates, carries the given '
  'attributes in the game\'s order (defaults elsewhere), its links and reserved bytes, and keeps all of that through saving and loading. '
  'Objects never share attribute or link lists by accident.',
  ['inputs'], 'all entity kinds, positions and attribute values',
  'No test creates entities.',
  ENT + [RE], [('entity constructors, serialize', ENT[0]), ('_write_ents/_loadents', RE)], ['entity attributes', 'bytes in the map file'])
p('C23', 'The dictionary and JSON forms of a map are faithful',
  'The exported dictionary and JSON contain exactly the map\'s header, variables, recent textures, entities with named '
  'attributes, slots and the full octree. Rebuilding a map or an entity from its dictionary gives the same header, variables, textures, '
  'entities and slots.',
  ['inputs'], 'all readable maps and all entities',
  'No test exports.',
  [RE, OBJ] + ENT, [('to_dict, to_json, from_dict', RE)], ['returned dictionary, JSON text, rebuilt objects'])
p('C24', 'World effects touch exactly the points they are meant for',
  'Grid, box and box outline add exactly the points of their documented lattice (grid leaves existing voxels alone and stays '
  'below the highest voxel), decay only removes and growth only adds voxels, only below the highest voxel, and only where the position '
  'function permits: certainly at the sure values and never at the impossible ones. Everything else is unchanged.',
  ['inputs'], 'all worlds, sizes, spacings, heights and position functions',
  'Tests run each effect once on one world.',
  ['redeclipse/aftereffects.py'], [('grid, decay, growth, box, box_outline, endcap', 'redeclipse/aftereffects.py')], ['voxels before and after'])
p('C25', 'The same seed gives the same map',
  'Running the generator twice with equal arguments, also in different processes with different hash seeds, yields byte-identical map '
  'contents and configuration files and identical rooms, links and voxels. The result depends on the seed, not on what was generated before in another process.',
  ['configurations', 'schedules'], 'all seeds and generator options, separate processes',
  'No test runs the generator twice.',
  ['redeclipse/cli/magica_rooms.py', UPM] + PF, [('random.seed and module-level random only', 'redeclipse/cli/magica_rooms.py')],
  ['.mpz/.cfg bytes, rooms, links'])
p('C26', 'Lights sit where they are put, with valid deterministic colours',
  'Lighting a position adds exactly one light, centred in the cell unless centring is turned off, scaled by the world size, '
  'with the override colour if one is given. Position-based colours are whole numbers from 0 to 255, depend only on the position and settings, '
  'and respect the configured brightness; radius scales with the size factor.',
  ['inputs'], 'all positions, brightness/saturation settings, overrides and world sizes',
  'No test lights anything.',
  ['redeclipse/lighting/__init__.py'], [('LightManager.light/get_light/hue', 'redeclipse/lighting/__init__.py')], ['entities added'])
p('C27', 'The configuration file defines every texture in number order',
  'The emitted configuration lists one texture definition per texture number, in increasing order starting at 0, each '
  'naming that number\'s file and colour on well-formed lines (the picture undisplaced, scaled by a positive factor), followed by the world flavour lines in the order chosen. '
  'It replaces any earlier file.',
  ['inputs', 'histories'], 'all atlases of all managers, all flavour lists',
  'No test emits.',
  TEX + ['redeclipse/worldflavors.py', 'redeclipse/cli/__init__.py'], [('emit_conf, conf', TEX[0]), ('update', 'redeclipse/worldflavors.py')], ['.cfg text'])
p('C28', 'Random choices are legal and follow their weights',
  'A weighted choice always returns one of the offered items, never one of zero weight while others have weight, and in proportion to the '
  'weights; choosing a door returns an open door and fails when none is left. The stream of candidate rooms is a permutation of all offered rooms.',
  ['inputs', 'schedules'], 'all weight lists and random states',
  'Tests cannot see distributions in single samples.',
  [UPM], [('weighted_choice, random_position, nonrandom_position, random_room_stream', UPM)], ['returned choices'])
p('C29', 'Generated face corners lie on the faces they belong to',
  'For every cube and each of its six faces, the four generated corners are the four distinct corner points of that face in cyclic order, '
  'each coordinate read from the matching end of the matching edge. Adjacent faces of one cube share the corner points of their common edge, and all faces turn the same way as seen from outside.',
  ['inputs'], 'all edge values and faces',
  'No test calls it.',
  [OBJ], [('cube.genfaceverts', OBJ)], ['returned vertices'])
p('C30', 'Room transition weights are consistent and complete',
  'The weights offered for continuing from a room contain exactly the table\'s entries for its type (both directions for '
  'symmetric tables, the direct entry winning) and agree with the pairwise lookup; unlisted pairs are refused by the lookup. '
  'All weights are non-negative and every type that occurs in a table can be followed by something.',
  ['inputs', 'configurations'], 'all tables and all room types',
  'No test reads the tables.',
  ['redeclipse/prefabs/distributions.py'], [('tp, for_class', 'redeclipse/prefabs/distributions.py')], ['returned weights'])
p('C31', 'The exported room graph names every room and only real links',
  'The graph file lists every placed room exactly once with its name, and one connection per recorded link between the rooms that '
  'occupy its two cells. All connection ends are listed nodes.',
  ['histories'], 'all placement runs',
  'No test exports the graph.',
  ['redeclipse/cli/__init__.py', UPM], [('output(graph)', 'redeclipse/cli/__init__.py')], ['.json file'])
p('C32', 'Installing the pictures of a map gives the game every picture it needs',
  'Copying the data of a texture manager into a game folder puts there, byte for byte, the installed diffuse, normal and depth pictures of every '
  'texture the manager has numbered and those of its sky (six sides below hxr/skybox), under the names the configuration refers to. Pictures that are already there '
  'are replaced when they are out of date, everything else in the folder is left alone, and the installed pictures are never changed. Repeating it changes nothing.',
  ['histories', 'configurations'], 'all managers, themes and skies, all states of the folder, any order and number of copies',
  'No test copies pictures: the destination is fixed below the home of the author.',
  TEX, [('TextureManager.copy_data', TEX[0]), ('copy_data, copy_textures', TEX[1]), ('Skybox, MinecraftSky', TEX[0])],
  ['files below the game folder and the installed pictures'],
  state=[('the game folder', 'which pictures are where, with which content', TEX[0])])
p('C33', 'Generated landscapes are closed, walled and stand on solid ground',
  'Every column of a generated landscape is filled as its kind demands: the snow forest has a ground two layers thick in one of its '
  'two snow textures, and along all four borders of the map a wall of eleven layers that starts where the ground does; the town has solid ground, with trees filling their column from the bottom to the top layer and houses of four layers on top of the ground, in whole blocks of 4 x 4. '
  'The heights of neighbouring columns differ by at most two layers, so the ground has no gap. Trees, rocks and spawns (no two of a kind in one column) stand on the ground of the column they are on, inside of the map. Entities and variables of '
  'the source map are kept, and the result is readable.',
  ['inputs'], 'all source maps and all terrains the noise can produce',
  'No test runs the generators; a landscape has 65536 columns.',
  ['redeclipse/cli/snow_forest.py', 'redeclipse/cli/perlin.py', VX], [('main', 'redeclipse/cli/snow_forest.py'), ('main', 'redeclipse/cli/perlin.py'), ('to_octree', VX)],
  ['octree and entities of the saved map'])
p('C34', 'The vectors of the map format compute exactly, on whole numbers',
  'Masking, shifting, adding, subtracting, scaling, the dot and cross product and the octant corner of the integer vectors of the map format '
  'give the exact mathematical result (bitwise operations in two\'s complement) for every operand, also when coordinates were given as whole floats. Results are integer vectors '
  '(the cross product has the kind of its operands), operands stay unchanged, the zero vector and only it is recognised as zero, and the coordinates read by method, by index and as a list agree. '
  'The other plain vectors return the coordinates they were given, as integers or as floats by their kind.',
  ['inputs', 'histories'], 'all coordinates, masks and shift widths of 16 bits, all chains of operations',
  'Tests do not touch these classes.',
  ['redeclipse/vector/re.py'], [('ivec3: ivec5, mask, shl, sub, mul, add, gg, dot, iszero', 'redeclipse/vector/re.py'), ('cross', 'redeclipse/vector/re.py')], ['results and operands'])
p('C35', 'Maps for several sides are the same for every side',
  'In a map generated for two or four sides, ground and things (lights, spawns, weapons, pushers, flags, map models) are the same after a half or quarter turn '
  'about the middle of the map, apart from end caps, colours, and rooms whose shape is drawn by chance. Maps with flags have exactly one flag per side, each of another team. '
  'A flag room has the flag of the team its facing stands for, and shows in the colour of that team exactly what its model marks in red. Every room is lit (debugging rooms apart), spawn rooms bring '
  'a spawn, jump rooms a pusher, treat caps one spawn or weapon.',
  ['inputs', 'configurations'], 'all seeds, numbers of sides, sets of rooms, facings',
  'Tests never compare the sides of a map.',
  [UPM, PF[6], 'redeclipse/prefabs/__init__.py', 'redeclipse/prefabs/castle/__init__.py', 'redeclipse/prefabs/spacestation/__init__.py', 'redeclipse/cli/magica_rooms.py'],
  [('register_room, mirror', UPM), ('flag rooms', 'redeclipse/prefabs/castle/__init__.py'), ('main', 'redeclipse/cli/magica_rooms.py')], ['voxels and entities after rendering'])
p('C36', 'Rooms can be walked through, and every room of a map can be reached',
  'At every door of every kind of room with any options there is an opening a player fits through (two voxels wide, four high), and all doors of a room are joined by ways of the same '
  'player inside of its cells (the two levels of the simple castle gate apart). The openings of any two doors that may be joined let the player through. '
  'Every room of a generated map, end caps included, can be reached from the starting room or one of its mirror images.',
  ['inputs', 'configurations'], 'all rooms, options and facings, all generated maps',
  'Tests never look at the free space.',
  [UPM] + PF, [('render, get_doorways, get_positions', 'redeclipse/prefabs/__init__.py'), ('place_rooms, endcap', UPM)], ['voxels and cells of rendered rooms'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
