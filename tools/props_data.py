SW = 'src/hob3lop/op-sweep.c'
RED = 'src/hob3lop/op-sweep-reduce.c'
TRI = 'src/hob3lop/op-trianglify.c'
SLI = 'src/hob3lop/op-slice.c'
MQ = 'src/hob3lop/matq.c'
C3 = 'src/hob3l/csg3.c'
C32 = 'src/hob3l/csg3-2scad.c'
LAY = 'src/hob3l/csg2-layer.c'
BOO = 'src/hob3l/csg2-bool.c'
HUL = 'src/hob3l/csg2-hull.c'
TREE = 'src/hob3l/csg2-tree.c'
SCAD = 'src/hob3l/scad.c'
SCAD2 = 'src/hob3l/scad-2scad.c'
CMD = 'src/hob3l/scad-cmd.sieve'
SYN = 'src/hob3l/syn.c'
SYN2 = 'src/hob3l/syn-2scad.c'
MSG = 'src/hob3l/syn-msg.c'
MAIN = 'src/hob3l/main.c'
OPT = 'src/hob3l/opt.switch'
STLO = 'src/hob3l/csg2-2stl.c'
JSO = 'src/hob3l/csg2-2js.c'
PSO = 'src/hob3l/csg2-2ps.c'
SCO = 'src/hob3l/csg2-2scad.c'
PS = 'src/hob3l/ps.c'
STLI = 'src/hob3l/stl-parse.c'
SVG = 'src/hob3l/svg-parse.c'
XML = 'src/hob3l/xml-parse.c'
GC = 'src/hob3l/gc.c'
B = 'src/hob3lbase/'
STR = B + 'stream.c'
DICT = B + 'dict.c'
MAT = 'src/hob3lmat/mat.c'

TECH = 'online oracle: point-membership monitor over output of real runs on random models'
NEAR = 'Points within 2e-3 mm of a primitive surface are not judged.'

prop('P01', 'No input or option can crash, corrupt memory or hang the tool',
     'Whatever bytes are given as SCAD, STL or SVG input and whatever options are given, the program ends by itself in bounded time with '
     'exit status 0 or 1; only a diagnosed numeric overflow, exhausted memory or failed output may also end builds with assertions by abort(). It never '
     'reads or writes outside its objects, uses freed or uninitialised memory, executes undefined operations, or dies from any other signal or failed assertion.',
     ['inputs', 'configurations'], 'all byte strings as input files, all option combinations',
     'Tests run some 300 well-formed files and about 100 files with one intended error each; they run without memory monitoring.',
     [SYN, SCAD, C3, LAY, BOO, SW, TRI, STLI, SVG, XML, MAIN, B + 'alloc.c'],
     [('scanner and parser', SYN), ('argument processing', SCAD), ('3D construction', C3), ('plane sweep', SW),
      ('imports', STLI), ('XML scanner', XML)],
     ['process exit status', 'ASan/UBSan reports'],
     technique='AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer over grammar-based generation, byte/token mutation and option fuzzing',
     note='No report, signal, abnormal status or time-out in the runs made; limited to the generated inputs of a few kB. Known findings are listed.')

prop('P02', 'Exit status and diagnostics tell the truth about the output',
     'The exit status is 0 exactly when the complete requested output has been written; otherwise it is 1 and a message on standard error '
     'says what is wrong and, for errors in input files, names the file and the line. Failures to open, read or write files, '
     'a full device included, are reported that way and never taken as success (builds with assertions may end with abort() after the message).',
     ['fault_sequences', 'inputs'], 'all inputs, all points at which opening, reading, writing or closing a file can fail',
     'No test makes a write, read or close fail and none inspects where the message points to.',
     [MAIN, MSG, STR, SYN, OPT],
     [('error print and exit code', MAIN), ('line excerpt of messages', MSG), ('output stream', STR)],
     ['process exit status', 'stderr', 'the output file'],
     technique='fault injection (full device, size limits, failing reads/opens) with an exit-status monitor; error-location oracle on seeded defects',
     note='Faults injected at every prefix size class of the output; location oracle knows the byte where the error was planted.')

prop('P03', 'Slices equal the Boolean combination of the 3D model',
     'For every model built from 3D primitives, extrusions, transformations and nested union, difference, intersection and group, '
     'each output layer covers a point exactly when the 3D solid contains that point at the height of the cut, apart from points '
     'within grid rounding of a surface. Every covered point is covered once: by one triangle of the bottom face, one of the top '
     'face, and it is enclosed by the side walls.',
     ['programs', 'inputs'], 'all models (any nesting, operand count, coincident faces), all heights, all points of the plane',
     'The tests run about 300 fixed models and compare nothing but the exit status or one reference output; membership depends on the '
     'interplay of arbitrary operand trees with degenerate overlaps, which is an unbounded space.',
     [C3, LAY, BOO, SW, RED, TRI, 'src/hob3l/csg2.c', TREE, STLO],
     [('slicing of each primitive into 2D polygons', LAY), ('lazy Boolean combination via bit maps', BOO),
      ('plane sweep with snap rounding', SW), ('reduction by Boolean function', RED), ('triangulation with outline flags', TRI)],
     ['STL written with -o'], technique=TECH,
     note='Held on the models generated: every decided sample point of every slab agreed with an independent three-valued CSG oracle. ' + NEAR)

prop('P04', 'STL output consists of closed, outward oriented, non-overlapping slabs',
     'In STL output each layer is a prism between two heights whose triangles close up exactly (every directed edge is matched by its '
     'reverse), are oriented outwards with matching unit normals, have no zero area, and do not overlap; different layers do not touch. '
     'Binary and ASCII STL of the same model have the same triangles, and the binary triangle count is right.',
     ['programs', 'configurations'], 'all models, all layer settings, both STL flavours',
     'No test looks at edges, orientation or normals of the triangles written; a missing wall or a T-junction needs particular overlaps.',
     [STLO, TRI, RED, SW, STR], [('wall and face output', STLO), ('outline flags of triangle edges', TRI)],
     ['ASCII and binary STL'],
     technique='structural monitor (edge matching, orientation, volume, 2D coverage) over STL written in real runs on random models',
     note='Exact on the coordinates printed; T-junctions are excluded by exact matching of directed edges.')

prop('P05', 'The layer stack follows --min, --max, --step, -z and --layer-gap',
     'Layers are produced at heights min + i*step for all i >= 0 that stay below max (just one if min equals max, as set by -z), where min defaults to '
     'half a step above the bottom of the bounding box of the added parts of the model and max to its top. Each layer extends from its height by the step '
     'less the gap. The content of a layer is the cut at its height, the same whether sliced alone or within a range.',
     ['configurations', 'programs'], 'all combinations of layer options, all models and number notations',
     'Tests use a fixed step or the default; they neither vary nor check the layer positions.',
     [MAIN, OPT, TREE, LAY, STLO, C3],
     [('range computation', MAIN), ('layer iteration', TREE), ('bounding box', C3)], ['STL, JS and SCAD output'],
     technique='oracle monitor on layer heights and contents over random option sets; differential single layer vs stack',
     note='Heights compared to 1e-6 mm, contents by the point-membership oracle and by equality of triangle sets.')

prop('P06', '2D Boolean operations inside extrusions are exact',
     'For every tree of 2D shapes (square, circle, polygon with any number of paths, hull) combined by union, difference, intersection '
     'and transformations, the extruded solid is the extrusion of exactly that plane region. Self-overlapping or nested paths of one '
     'polygon follow the even-odd rule.',
     ['programs', 'inputs'], 'all 2D operand trees and coordinates', 'Tests contain a few dozen 2D trees, none compared against a reference region.',
     [C3, BOO, SW, RED, SCAD], [('2D evaluation before extrusion', C3), ('Boolean reduction', RED)],
     ['STL written with -o'], technique=TECH, note='Same oracle as P03, deep 2D trees. ' + NEAR)

prop('P07', 'The 2D core computes exact regions, paths and triangulations',
     'For every set of integer polygons and every Boolean function, the region computed by the plane sweep equals the function applied to '
     'the operands\' even-odd regions, apart from points within about one grid unit of an input edge, however many operations are '
     'chained. Its output edges do not cross, form closed paths with consistent orientation, and the triangulation covers exactly '
     'that region, without overlap and with positive areas.',
     ['inputs', 'histories'], 'all integer segment sets, Boolean functions and chains of operations',
     'Unit tests use about 100 small fixed polygons; degenerate arrangements (near-parallel slivers, many segments through one pixel) '
     'are unbounded in variety.',
     [SW, RED, TRI, SLI, MQ, 'src/hob3lop/gon.c'],
     [('sweep with snap rounding', SW), ('reduction', RED), ('triangulation', TRI), ('plane slicing', SLI)],
     ['public interface of the 2D library'],
     technique='harness with exact integer oracle over random/adversarial segment sets, plain and ASan+UBSan builds',
     note='96k cases per quick run; snapping drift is monitored and bounded.')

prop('P08', 'Polyhedra of any shape are cut correctly at any height',
     'A closed polyhedron, convex or not, with faces of any number of vertices, listed in any order, starting point and direction, is cut at every '
     'height into exactly its cross-section, also when the cut passes through or very near vertices, edges or faces. Faces '
     'with too few vertices or vertex indexes out of range are rejected with an error.',
     ['inputs'], 'all polyhedra, all heights', 'Tests have few polyhedra with generic cuts.',
     [LAY, SLI, C3, SCAD], [('edge table of the polyhedron', C3), ('cut of faces', LAY), ('slicing in integer grid', SLI)],
     ['STL written with -o'], technique=TECH + ' (random tori, stars, stacked towers, non-convex faces); rejection monitor for broken meshes',
     note=NEAR)

prop('P09', 'linear_extrude honours height, center, scale, twist and slices',
     'The solid made by linear_extrude has at each height the child region rotated and scaled as interpolated for that height, '
     'straight between the slice heights, for any child, twist, scale (including to a point) and number of slices. Positive twist turns clockwise '
     'going up.',
     ['programs', 'inputs'], 'all parameters and child regions', 'Tests check only that some combinations do not fail.',
     [C3, LAY], [('extrusion into polyhedron', C3)], ['STL written with -o'], technique=TECH,
     note='With twist, points between the two possible diagonals of a side quad are judged by either admissible surface. ' + NEAR)

prop('P10', 'rotate_extrude sweeps the child about the z axis',
     'rotate_extrude yields the solid of revolution of its child, with $fn segments and the given angle starting at the positive x '
     'axis counter-clockwise, for children on either side of or touching the axis. Children on both sides of the axis are rejected.',
     ['programs', 'inputs'], 'all children, angles and $fn', 'Tests check only that some combinations do not fail.',
     [C3, LAY], [('rotation into polyhedron', C3)], ['STL written with -o'], technique=TECH, note=NEAR)

prop('P11', 'hull() is the convex hull of its 2D children',
     'hull() of 2D children is the smallest convex region containing all of them, whatever their position, order, collinearity, nesting or '
     'duplication, and moves with surrounding transformations. 3D children are rejected with an error.',
     ['programs', 'inputs'], 'all child sets', 'Tests contain a few hulls without reference.',
     [HUL, C3], [('2D hull', HUL), ('use in extrusions', C3)], ['STL written with -o'], technique=TECH,
     note='Hull oracle is independent (monotone chain over the exact vertices). ' + NEAR)

prop('P12', 'projection(cut=true) is the cross-section of its children',
     'projection(cut=true) is the cross-section of its 3D children at height zero, usable as a 2D child anywhere, in all transformations, '
     'Boolean operations and extrusions. projection() without cut=true is rejected with an error.', ['programs', 'inputs'], 'all child solids', 'Tests contain a few projections without reference.',
     [C3, LAY, HUL], [('projection', C3)], ['STL written with -o'], technique=TECH, note=NEAR)

prop('P13', 'Transformations compose as matrices, in order, about the right axes',
     'translate, rotate (angles about x, then y, then z; angle with axis), scale, mirror and multmatrix apply the documented matrix to '
     'everything below them, nested ones compose outermost last, and multiples of 90 degrees are exact. Singular matrices and '
     'malformed arguments are errors.',
     ['programs', 'inputs'], 'all chains of transformations and their parameters in all notations',
     'Tests contain single transformations without reference positions.',
     [SCAD, C3, MAT], [('argument forms', SCAD), ('matrix stack', C3), ('matrix library', MAT)],
     ['STL written with -o', 'dump of the 3D stage'], technique=TECH + '; exact-coordinate monitor on axis-aligned chains', note=NEAR)

prop('P14', 'Round primitives are tessellated as documented',
     'Circles, cylinders, cones and spheres become polygons or polyhedra with $fn vertices (the maximum set by --max-fn if $fn is 0 or larger, at least 3) '
     'starting at the positive x axis, with radius or diameter given in any documented way and centered when asked.',
     ['inputs', 'configurations'], 'all radii, $fn, max-fn and argument notations', 'Tests do not inspect vertices.',
     [SCAD, C3, LAY, OPT], [('argument resolution r/d/r1/r2', SCAD), ('vertex generation', C3)],
     ['STL written with -o'], technique='exact vertex oracle over STL of random primitives plus point-membership monitor',
     note='Vertex positions to grid accuracy.')

prop('P15', 'All output formats and dump stages describe the same layers',
     'ASCII STL, binary STL, JavaScript, the SCAD layer dump and PostScript written for the same model and options describe the same layers '
     'and regions. The file suffix and the --dump options select the format as documented.',
     ['programs', 'configurations'], 'all models, all formats', 'Each test looks at one format.',
     [STLO, JSO, SCO, PSO, MAIN, OPT], [('STL', STLO), ('JavaScript', JSO), ('SCAD', SCO), ('PostScript', PSO), ('selection', MAIN)],
     ['output files of each format'], technique='differential monitor between formats of the same model over random models and options',
     note='STL/JS triangles compared as sets; SCAD polygons by region.')

prop('P16', 'JavaScript output is well formed and indexes are in range',
     'The JavaScript output is valid script text consisting of groups with at most 65535 vertices, whose triangle indices all refer to '
     'vertices of the same group and whose coordinate, normal and color arrays have matching lengths; positions, outward normals and colors '
     'scaled by the stated factors give the layers.',
     ['programs', 'inputs'], 'all models, including those with more triangles than fit into one group', 'Tests never load the output.',
     [JSO, MAIN], [('JS writer', JSO)], ['JS output'], technique='JS executed in an independent parser; structural and differential monitor against STL',
     note='Index ranges, array lengths, normals, colors and positions checked for every group.')

prop('P17', 'Imported STL files are solids equal to their triangles',
     'Importing an ASCII or binary STL file with a closed surface behaves like the polyhedron with these triangles, independent of '
     'triangle order, vertex rotation, normals, names, white space, number notation, and line ends. Truncated or malformed files are '
     'rejected with an error.',
     ['inputs'], 'all STL files', 'Tests import a handful of files.',
     [STLI, SYN, SCAD, 'src/hob3l/vec3-dict.c'], [('STL scanner', STLI), ('vertex unification', 'src/hob3l/vec3-dict.c')],
     ['STL written with -o', 'exit status'], technique=TECH + ' on random meshes written in random STL dialects; rejection monitor for damaged files',
     note=NEAR)

prop('P18', 'Imported SVG shapes keep their outline and position',
     'SVG paths, rectangles, circles, ellipses, lines, polygons and groups with transforms import as the region they outline, in all '
     'path command notations, absolute or relative (even-odd rule, the Y axis flipped), scaled by document size, view box, preserveAspectRatio and dpi, filtered by '
     'layer and centred on request. Elements that draw nothing have no effect, and files that are not well-formed XML are rejected with an error.',
     ['inputs'], 'all SVG files in the supported subset', 'The test suite has no SVG file at all.',
     [SVG, XML, 'src/hob3l/svg-elem.sieve'], [('path data', SVG), ('XML', XML)], ['STL written with -o', 'exit status'],
     technique=TECH + ' on random SVG documents with an independent SVG interpreter', note=NEAR)

prop('P19', 'Dumps of intermediate stages are equivalent models',
     'The SCAD text dumped at any stage (syntax tree, SCAD tree, 3D and 2D stages) is accepted again as input, and slicing it gives the same layers as '
     'slicing the original.', ['programs'], 'all models, all stages', 'Tests compare dumps of few models with stored text.',
     [SYN2, SCAD2, C32, SCO, MAIN], [('syntax dump', SYN2), ('SCAD dump', SCAD2), ('3D dump', C32), ('2D dump', SCO)],
     ['dumped SCAD text', 'STL of the re-read dump'], technique='differential round-trip monitor over random models',
     note='Compared by the point-membership oracle and by stability of the second dump.')

prop('P20', 'Input syntax: layout, comments, numbers and errors',
     'White space, comments, semicolons, braces and line ends may be placed wherever the syntax allows without changing the result, and '
     'any text outside the syntax is rejected with an error that names the offending line.',
     ['inputs', 'programs'], 'all texts', 'Tests have one file per construct.',
     [SYN, 'include/hob3l/syn_tam.h', MSG], [('scanner', SYN), ('parser', SYN)], ['STL written with -o', 'stderr', 'exit status'],
     technique='metamorphic monitor (random relayout of random models must give identical output); reference recogniser for token-level mutants',
     note='Relayouts must give byte-identical output; mutants are classified by an independent grammar recogniser.')

prop('P21', 'Arguments: positions, names, defaults, types and conflicts',
     'Each functor with parameters accepts its documented arguments, by position or by name in any order, with the documented defaults and alternative '
     'notations (diameter or radius, one value or a vector, shorter vectors and matrices). A missing required, surplus positional, conflicting, out-of-range or ill-typed '
     'argument is reported as error where it is written and never silently changed.',
     ['inputs'], 'all functors with all argument lists', 'Tests sample some argument lists; most combinations are not run.',
     [SCAD, CMD], [('argument matching', SCAD), ('functor table', CMD)], ['dump of the 3D stage', 'exit status', 'error lines'],
     technique='metamorphic and oracle monitor: random argument lists compared with the fully named call and judged by an independent table of the documented functor signatures',
     note='Accept/reject, 3D stage and error line compared.')

prop('P22', 'Policies for empty objects, unknown functors and parameters are obeyed',
     'Under each setting of --empty, --collapse, --outside-2d, --outside-3d, --unsupported-functor, --unknown-functor and --unknown-param, '
     'each empty, collapsing or misplaced object, unsupported functor or unknown parameter of a model is an error, a warning naming its '
     'line, or skipped in silence, exactly as selected. What is not refused keeps its meaning: empty and collapsing objects are operands '
     'without volume, unsupported functors and unknown parameters are as if not written, and everything else is unaffected.', ['configurations', 'programs'], 'all models with such objects at any place, all settings',
     'Tests use single files per setting.',
     [OPT, SCAD, C3, MAIN], [('policy evaluation', SCAD), ('empty objects', C3)], ['STL written with -o', 'stderr', 'exit status'],
     technique='oracle monitor on random models with planted irregular objects under random settings',
     note='Accept/reject, message and geometry compared.')

prop('P23', 'Modifiers * ! # % select what is built',
     'An object marked * or % is left out, # changes nothing, and if an object is marked ! only it is built, taken out of its '
     'surroundings so that transformations around it do not apply (with --js-keep-ctxt the JS output carries them as a matrix); two ! are an error. Marks combine and '
     'work at any depth.',
     ['programs'], 'all models with marks anywhere', 'Tests contain single marks at shallow depth.',
     [SYN, SCAD, C3], [('marks in the parser', SYN), ('root search', C3)], ['STL written with -o'], technique=TECH + ' with random modifiers',
     note=NEAR)

prop('P24', 'Colors are read exactly, reach their objects and never change geometry',
     'A color given by any CSS3 name (in any letter case), by #rgb or #rrggbb code, by a vector of 3 or 4 numbers, or left as it is by undef, with optional alpha, is read '
     'with its exact value and is attached to exactly the objects it surrounds most closely. Colors never change the geometry, and unknown names, malformed codes and ill-typed or out-of-range values are errors.',
     ['programs', 'inputs'], 'all color notations and nestings', 'Tests do not inspect colors.',
     [SCAD, GC, 'src/hob3l/gc-color.sieve', SCAD2], [('color values', SCAD), ('names', GC), ('dump of colors', SCAD2)],
     ['color of the objects of the 3D stage', 'dump of the SCAD stage', 'STL written with -o'], technique='oracle monitor on the objects of the 3D stage (read through the library) and metamorphic monitor (painted against unpainted models)',
     note='Geometry must be identical with and without colors; no layer output carries colors.')

prop('P25', 'Results are deterministic and independent of tuning options',
     'The output depends on nothing but the input files and the options: it is byte-identical when repeated, in other surroundings, in other build types, with '
     'other verbosity, file or stream names. Options documented as tuning (optimisations, simultaneous polygons) do not change the region of any layer '
     '(twisted or scaled extrusions of combined polygons excepted, whose sides depend on corners within straight edges).', ['configurations', 'programs'], 'all models and tuning options',
     'Tests run most models with a single setting.',
     [OPT, BOO, LAY, C3, SW], [('optimisation switches', OPT), ('lazy combination', BOO)], ['STL written with -o'],
     technique='differential monitor: byte identity over repeated runs with varied heap contents, environment, paths, streams and builds; region comparison over tuning options', note='Byte identity for repeated runs; region identity across options.')

prop('P26', 'Boolean algebra laws hold between whole models',
     'Rewriting a model by a law of set algebra or by regrouping, reordering union operands, or distributing a transformation over its children leaves the '
     'region of every layer unchanged apart from grid rounding.', ['programs'], 'all models and law instances', 'Tests never compare two models.',
     [C3, BOO, LAY, SW, RED], [('CSG construction', C3), ('combination', BOO)], ['STL written with -o'],
     technique='metamorphic monitor: pairs of equivalent random models must cover the same points', note='Judged at points off all surfaces.')

prop('P27', 'Dictionary is a balanced, ordered tree under every operation history',
     'After any history of insert, remove, extract, swap, join and split operations the dictionary contains exactly the expected nodes in '
     'the expected order, is a valid red-black tree with correct parent links, and augmentation data kept by the callback equals its recomputation.',
     ['histories'], 'all operation histories', 'The unit test runs a few fixed histories.',
     [DICT, 'include/hob3lbase/dict.h'], [('rebalancing', DICT), ('join and split', DICT)], ['public dictionary interface'],
     technique='model-based random histories against a reference list with a full invariant monitor after each step, plain and ASan+UBSan',
     note='Every operation of the interface used; trees up to some thousand nodes.')

prop('P28', 'Vectors, heaps, lists, pools, sorting and bit maps keep their contracts',
     'Under every history of operations, vectors hold the expected elements, heaps deliver the minimum, rings and lists keep membership and order, '
     'pool memory is aligned, disjoint and zeroed, sorting yields an ordered permutation, and Boolean bit maps evaluate the intended function.',
     ['histories', 'inputs'], 'all operation histories', 'Unit tests run a few fixed histories.',
     ['include/hob3lbase/vec.h', 'include/hob3lbase/heap.h', 'include/hob3lbase/list.h', B + 'pool.c', B + 'qsort.c', B + 'bool-bitmap.c', B + 'vec.c'],
     [('vector', B + 'vec.c'), ('heap', 'include/hob3lbase/heap.h'), ('pool', B + 'pool.c'), ('sorting', B + 'qsort.c'), ('bit map', B + 'bool-bitmap.c')],
     ['public interfaces of the containers'], technique='model-based random histories with reference models, plain and ASan+UBSan',
     note='Every operation of the interfaces in use.')

prop('P29', 'Exact arithmetic of the 2D core never errs',
     'For all coordinates in the documented range, orientation, comparison, intersection, rounding and edge-versus-pixel decisions of the '
     'integer core equal those of exact rational arithmetic, and wide division and multiplication are exact.',
     ['inputs'], 'all integer coordinates up to the documented width', 'Unit tests use hand-picked operands.',
     [MQ, 'include/hob3lop/matq.h', 'include/hob3lbase/arith.h'], [('intersection and comparison', MQ)],
     ['public interface of the exact arithmetic'], technique='harness against 128-bit reference arithmetic, plain and ASan+UBSan builds',
     note='12.8 million rounds per quick run.')

prop('P30', 'Vector, matrix and angle functions are accurate and consistent',
     'Vector operations, matrix constructors, products, inverses, determinants and interpolation agree with their mathematical definition up to '
     'floating point rounding, also when the result overwrites an operand, and matrices with an inverse keep it and the determinant in step. '
     'Sine, cosine and tangent are exact for angles in degrees with rational results, and circle iteration visits each point once.', ['inputs'], 'all finite matrices, vectors and angles', 'Unit tests use some fixed matrices.',
     [MAT, 'include/hob3lmat/mat.h', 'src/hob3lmat/algo.c'], [('matrix functions', MAT)], ['public interface of the matrix library'],
     technique='harness against long double reference arithmetic over random and special operands', note='Relative error bounds per function.')

prop('P31', 'UTF-8 is decoded exactly and invalid sequences are detected',
     'Every valid UTF-8 sequence is decoded to its code point and re-encoded to the same bytes; every other sequence (overlong, '
     'surrogate, too large, truncated) is detected at its start and never read past its end. The same holds for the backslash escapes of strings.',
     ['inputs'], 'all byte sequences and all code points', 'Unit tests use some strings.',
     [B + 'utf8.c', 'include/hob3lbase/utf8.h'], [('decoder', B + 'utf8.c')], ['public interface of the decoder'],
     technique='complete enumeration of code points and short byte sequences against a reference decoder, plain and ASan', note='All code points and all sequences up to 4 bytes from boundary byte classes.')

prop('P32', 'File names resolve relative to the including file and data is read whole',
     'include and import find files relative to the file that names them, at any nesting depth, and including text has the same effect as '
     'writing it in place; missing, unreadable and recursively included files give an error.',
     ['inputs', 'programs'], 'all directory layouts and nestings', 'Tests use few layouts.',
     [SYN, SCAD, MAIN], [('include', SYN), ('import path', SCAD)], ['STL written with -o', 'exit status'],
     technique='metamorphic monitor: random splits of models into include trees must give identical output', note='Byte-identical output.')

prop('P33', 'Numbers are read with their value in every notation',
     'Numbers in SCAD, STL, SVG and options are read with the correctly rounded value in every documented notation, limits and malformed '
     'numbers are rejected, and the scale of the result does not depend on the notation.',
     ['inputs'], 'all number texts', 'Tests use short decimal numbers.',
     [SYN, SCAD, STLI, SVG, MAIN, OPT], [('number token', SYN), ('option numbers', MAIN)], ['dump of the SCAD tree', 'STL written with -o', 'exit status'],
     technique='oracle monitor: random number texts, values compared through dumps and positions', note='Values compared to printed precision.')

prop('P34', 'PostScript output shows every layer within the page',
     'The PostScript output has one well-formed page per layer, with matching page count and comments, and shows the region of the layer scaled to fit the page, '
     'with y upwards.', ['programs', 'configurations'], 'all models and PS options', 'Tests never look at PostScript output.',
     [PSO, PS, OPT], [('page writer', PSO), ('scaling', PS)], ['PS output'],
     technique='structural monitor and independent interpreter of the operators used, compared with STL layers', note='Regions compared after undoing the scale.')

prop('P35', 'The grid follows the options and models of any scale come out right',
     'The grid is that of --grid or --gran, scaled down as --auto-grid and --auto-grid-max say for the size of the model (or as fine as fits for --grid=0), and all output '
     'corners lie on it next to their exact position. Models of any scale that the grid can hold keep their shape, and grids that cannot be are rejected.',
     ['configurations', 'programs'], 'all grid options and model sizes', 'Tests use models of a few centimetres and hardly any grid option.',
     [MAIN, OPT, 'src/hob3lop/gon.c'], [('auto_dim_scale, grid options', MAIN), ('conversion to integers', 'src/hob3lop/gon.c')], ['STL written with -o', 'exit status', 'info line'],
     technique='oracle monitor: random prisms at all scales against exact corners and the expected grid; scaled random models against a point-membership oracle', note='Corners within one grid cell.')

prop('P36', 'Options mean what the help says in every notation and order',
     'Options have the same effect with one or two dashes, with "=" or a separate argument, as negation or with a truth value, in any order with other options, before and after the input file; the last '
     'of contradicting options counts and the documented defaults are the defaults. Each listed option is accepted and has an effect, and unknown options, missing or malformed arguments and '
     'surplus or missing input files are rejected with a message and without touching files.',
     ['configurations'], 'all command lines', 'Tests use a handful of options in one notation.',
     [MAIN, OPT, 'script/mkswitch'], [('option parser', MAIN), ('option table', OPT)], ['output files', 'messages', 'exit status', '--help'],
     technique='metamorphic monitor: random option sets in two notations must give byte-identical results; rejection monitor; effect of each option', note='Byte-identical output, messages and status.')

prop('P37', 'Work and memory grow in step with the size of the model',
     'The number of steps executed and the memory used grow about linearly with the number of points, faces, layers, tokens, nesting levels or bytes of the input, and no worse than '
     'quadratically with the number of objects that are combined. The memory needed to compute a layer is given back before the next one is computed.',
     ['programs', 'configurations'], 'all families of models that differ in size', 'Tests use small models and do not measure.',
     ['src/hob3l/main.c', 'src/hob3lop/op-sweep.c', 'src/hob3lop/op-trianglify.c', 'src/hob3lbase/dict.c', 'src/hob3lbase/pool.c', 'src/hob3lbase/vec.c'],
     [('sweep', 'src/hob3lop/op-sweep.c'), ('balanced trees', 'src/hob3lbase/dict.c'), ('memory pool', 'src/hob3lbase/pool.c'), ('growth of vectors', 'src/hob3lbase/vec.c')],
     ['executed edges', 'bytes handled by the C library', 'heap'],
     technique='instrumented work and heap counters (edge coverage callbacks, wrapped allocator): growth of the increments over doubled sizes', note='Limits: 2.75 per doubling for linear, 5.5 for quadratic families.')
