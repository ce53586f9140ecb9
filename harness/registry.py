"""Which area module decides which property."""
PROPS = {}


def add(area, pid, covers, *assumptions):
    PROPS[pid] = {'area': area, 'covers': covers, 'assumptions': list(assumptions)}


add('voxel', 'C04', 'Octree export: all 256 worlds of size 2, TLC-generated edit histories at sizes 2 and 8, random '
    'worlds at sizes 2..256 with points outside of the cube, re-exports after edits; the exact node set of the octree '
    'is compared with the one the specification derives from the world.',
    'world sizes are powers of two >= 2', 'voxels carry textured solid cubes, as every generator makes them')
add('voxel', 'C06', 'Voxel world histories: TLC-generated and random set/delete/export histories using every call '
    'form (ints, floats, both vector classes); after each call the whole content, lookups over a grid and the '
    'recorded extent are compared with the specification state.')
add('vector', 'C07', 'Vector algebra: TLC-generated chains of operations and random half-integer vectors rotated by all quarter turns '
    '(degrees from -720 to 1080, and directions), offset rotation, equality/order/hash of pairs, named directions, yaw.',
    'rotations by multiples of 90 degrees, coordinates multiples of one half')
add('vector', 'C08', 'Conversions and arithmetic: TLC-generated chains and random operands of all three kinds, mixed sums, '
    'differences, products, quotients, floors and conversions; exact results, kinds and unchanged operands.',
    'coordinates multiples of one half, quotients by powers of two')
add('kit', 'C09', 'Drawing primitives: TLC-generated drawing histories and random ones in all four orientations with subtraction, chance, '
    'textures, coarse and fine offsets; the whole world content after each command; raw point generators; unknown names.',
    'integer offsets and sizes')
add('kit', 'C24', 'World effects: TLC-generated effect histories on size 6 and random ones on sizes 4..32; whole content after each effect; '
    'decay and growth bounded by what the position function decides; gradients sampled over the height of a map.',
    'effects work on the layers below the highest layer of the world, as documented by their use of zmax')
add('rooms', 'C10', 'Every room class of the package with its option combinations (all in the thorough tier), built facing all four '
    'directions and moved/turned along TLC-generated sequences both by construction and by assigning position and orientation; '
    'every voxel (run-length columns) and entity is checked against the declared cells and the turned reference rendering.',
    'voxel-for-voxel rigidity is not required of PoleRoom and DigitalRoom, whose voxels are drawn by chance',
    'team flag rooms are compared without their team colours')
add('rooms', 'C11', 'Every room class with its option combinations in all four directions and along TLC-generated moves: doors lead '
    'out of an occupied cell in a horizontal direction, and cells and doors turn and move with the room.')
UPM = ('UnusedPositionManager histories: TLC-generated calls (tentative checks and registrations of fifteen room shapes near the centre, '
       'the borders and each other, placing, capping) in mirror modes 1, 2 and 4, runs that place step by step and in one go, crowded '
       'runs until no door is open, rooms checked at every place around the centre and the rim, two kinds that compete for the same '
       'door, hundreds of rooms at once, and runs with the room classes of the package; the full register, room list, open doors and links '
       'are compared with the specification state after every call. ')
A_UPM = 'the 32 cell world that the package supports; registrations of illegal cells are not exercised'
add('upm', 'C12', UPM + 'Here: register, disjointness, tentative checks, refusals.', A_UPM)
add('upm', 'C13', UPM + 'Here: the bag of open doors.', A_UPM)
add('upm', 'C14', UPM + 'Here: images in order, symmetry of cells, rooms and doors, independent copies.', A_UPM)
add('upm', 'C15', UPM + 'Here: facing doors and links between host and new room with all images, reachability.', A_UPM)
add('upm', 'C16', UPM + 'Here: termination, counts, offered kinds, doors given up only when nothing can be attached.', A_UPM,
    'termination is observed as returning within a minute', 'rooms with options: a door may be given up if some choice of options does not fit')
add('upm', 'C17', UPM + 'Here: bounds of single cells, of placed rooms with their doors, and of end caps.', A_UPM)
add('upm', 'C18', UPM + 'Here: end caps and debugging markers.', A_UPM, 'end caps have one door, as the code documents')
add('upm', 'C31', UPM + 'Here: the graph written by cli.output.', A_UPM)
MPZ = ('Map files: files of all item kinds with edge values and random bytes generated by TLC from the format specification, ')
add('mpz', 'C01', MPZ + 'files with data after the octree, and the maps of the repository: the values in memory must encode, item by item, to the '
    'bytes of the file, and the file written must equal them.', 'slot records without edits, surfaces without vertices, finite floats, no duplicate variables: '
    'anything else is rejected by the tool', 'world sizes up to 8192')
add('mpz', 'C02', MPZ + 'then edited (variables, entities, recent textures, root cubes, sky box, header fields), saved and loaded along TLC-generated '
    'histories: each file equals the encoding of the specification state, is complete at once, loads to it and saves again the same.', 'variable values are ints, floats, bytes or text')
add('mpz', 'C03', MPZ + 'broken off after every byte, broken off or flipped anywhere in the compressed file, with every tag and random bytes changed: '
    'the specification parser decides which must be rejected, and what is accepted must be read as it says; slot records with edits.',
    'byte changes in the number of slot records are left out (they allocate that many records)')
add('e2e', 'C05', 'Worlds of rooms and effects in sizes 8..64 (rooms partly outside), whole runs of the generator at size 128 (256, all mirror modes '
    'and flag games in the thorough tier) saved through cli.output: TLC decodes the bytes of the map file and compares every voxel, texture, '
    'entity, variable and header field with the world and map, and the texture numbers with the configuration file; worlds of 330 textures.',
    'world sizes are powers of two', 'copying of picture files to the author\'s directory is stubbed')
TEX = ('Texture managers (plain, four themes, colours, rainbow): TLC-generated histories of requests by name, colour and category, unknown names, two '
       'managers side by side, every texture of every theme, and textures of every kind with every setting. ')
add('tex', 'C19', TEX + 'Each answer, and the whole atlas after it, must be what the specification allows.')
add('tex', 'C27', TEX + 'Configuration files emitted through cli.output over older files, with all orders of world flavours: every line is parsed and compared '
    'block by block with the atlas in the specification state.', 'picture names without blanks')
add('vox', 'C20', 'MagicaVoxel export: TLC-generated world histories (points from -8 to 300, deletions, atlases of 2 to 255 colours) and rooms rendered '
    'across the limits, exported through the writer, the world and cli.output; TLC decodes the bytes of each file and compares them with the specification state.',
    'textures with a colour, at most 255 textures', 'voxels are cubes of one texture')
add('vox', 'C21', 'MagicaVoxel import: files TLC generates from the format (edge coordinates, all colours, duplicates), broken off, with every marker and random bytes '
    'changed, and all files of the repository are read and compared with what the specification decodes; rooms made from them are rendered in all directions and positions.',
    'the colour of a voxel with index c is entry c of the palette chunk, counted from 0, as the room files are made',
    'changes to the high bytes of lengths are left out (they allocate that much)')
add('ents', 'C22', 'Entities: TLC-generated histories that make every kind at coarse, fine and default positions with any of its attributes, links and reserved '
    'bytes given, change them one by one, export, rebuild, save and load; all entities of the map after each call and the bytes of each file are compared '
    'with the specification state.', 'coordinates that single precision numbers hold exactly', 'fractional attributes are cut off by the file format')
add('ents', 'C23', 'Dictionaries: TLC-generated entity histories with dictionaries taken and rebuilt at any time, and TLC-generated map files (also with edited texture '
    'slots) exported through to_dict, to_json and the command line, rebuilt from each and exported again; the content, names and slots must be those of the file, '
    'and changing a rebuilt map must not show in its origin. The maps of the repository, item by item.',
    'rebuilding the octree from its dictionary is documented as incomplete')
add('light', 'C26', 'Light managers: TLC-generated histories of managers of both kinds with any brightness, saturation and world size, changed settings, and lights at '
    'coarse and fine positions, centred or not, with own colours and sizes; all lights of the map after each call; colours are compared with what the '
    'specification derives from the pure colour of the position, which is also computed in another process.', 'world sizes are powers of two',
    'which hue a position has is left to the code, as long as it is a function of the position')
add('faces', 'C29', 'The corners and faces of the specification fit together for all 4096 mixtures of edges (each corner on three faces, common edges run through in '
    'opposite directions, one end of one edge moves one corner). TLC-generated cubes with special and arbitrary edges, cubes of octrees and fresh cubes: the corners given '
    'for all six faces must be the ones of the specification, in cyclic order as seen from outside; numbers of faces, sides and dimensions.')
add('dist', 'C30', 'All tables over three types, filled entry by entry, in the specification; TLC-generated tables, mirrored and not, with questions in any order; '
    'every table of the repository with every pair of types and every room class: each offer and pairwise weight must be the one of the specification.',
    'weights are compared as printed')
add('choice', 'C28', 'All offers of up to four weighted items in the specification: every item is picked by exactly its weight of the throws. TLC-generated offers (weights '
    'in units from 0.001 to 1000, zero weights, repeated items), transition tables and sets of doors: thousands of choices of the code per offer are counted and compared '
    'with the specification within six standard deviations; streams of rooms, also of all room classes; flavours.',
    'proportions are statistical: a deviation of less than six standard deviations of 2000 throws (at most 7 % of the throws) stays unseen', 'weights in transition tables are positive for streams')
add('repro', 'C25', 'Several runs at once in any interleaving in the specification. TLC-generated arguments and environments: each set of arguments is run three times in '
    'processes of their own, in parallel, with different hash seeds, random states before and after the imports, memory layouts, directories, locales and time zones; '
    'rooms, links, voxels, entities, graph and the bytes of both files must be equal. Runs of the command line generator and runs with all kinds of rooms and effects.',
    'copying of picture files to the author\'s directory is stubbed', 'the same Python version on the same machine')
add('pics', 'C32', 'Pictures: TLC-generated histories of textures requested from two managers, maps written through cli.output, pictures that change, and skies, '
    'over game folders that hold old and foreign pictures: the content of the folders after each call is compared with the specification state; every texture of '
    'every theme and of every kind; the pictures of the package.', 'the folder of the game is a stand-in inside the scratch directory, installed pictures likewise where '
    'the repository lacks them', 'pictures of different folders have different names')
add('land', 'C33', 'Landscapes: the two landscape generators are run on maps of the repository; every column of the saved octree, row by row, and every entity is '
    'compared with what the specification allows.', 'the shape of the ground (noise) is left to the code', 'worlds of the size the generators make')
add('ivec', 'C34', 'Vectors of the map format: TLC-generated chains of masks, shifts, sums, differences, products, cross products and octant corners, and random operands: '
    'exact results, kinds, unchanged operands, coordinates as whole numbers.', 'whole coordinates below 2^16 (given as integers or floats), masks below 2^16 or complements of such')
add('walk', 'C36', 'Walking: every kind of room with its options: the free positions of a body 2 voxels wide and 4 high at every door, joined by ways the specification checks; '
    'every opening against all others; whole generated maps, in which every room must be reached from the start of one of its images.',
    'bodies are 2 x 2 x 4 voxels and may jump to any height (parkour, pushers)', 'the poles of PoleRoom (drawn by chance) are left out', 'castle_gate_simple has two levels that are not joined')
add('sides', 'C35', 'Sides: generated maps for one, two and four sides, with and without flags, from random sets of rooms, several rooms of one kind, and the command line generator: ground and '
    'things of every side are those of the others, turned; the flags are of different teams; what every kind of room brings, facing every way; the colours of the flag rooms.',
    'rooms whose shape is drawn by chance are left out of the comparison of sides (PoleRoom, DigitalRoom, ImposingBlockRoom, station_endcap)')
