"""The properties (source of properties.jsonl and MANIFEST.json)."""

G1 = 'plycutter/geometry/geom1d.py'
G2 = 'plycutter/geometry/impl2d/geom2d_simple_holes.py'
AR = 'plycutter/geometry/impl2d/arrangement2d.py'
CM = 'plycutter/geometry/impl2d/cell_merger.py'
SC = 'plycutter/geometry/impl2d/scan2d.py'
GB = 'plycutter/geometry/geom2dbase.py'
PR = 'plycutter/geometry/impl2d/primitive2d.py'
FR = 'plycutter/geometry/impl2d/frangle2d.py'
ST = 'plycutter/geometry/impl2d/segment_tree.py'
PQ = 'plycutter/geometry/impl2d/pmr_quadtree.py'
AB = 'plycutter/geometry/aabb.py'
PT = 'plycutter/plytypes.py'
SP = 'plycutter/sheetplex.py'
CS = 'plycutter/create_sheetplex.py'
SB = 'plycutter/sheetbuild.py'
HE = 'plycutter/heuristics.py'
CA = 'plycutter/canned.py'
CL = 'plycutter/command_line.py'
WR = 'plycutter/writer.py'

PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique,
      level_note, observe=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        d=dict(id=id, title=title, statement=statement,
               quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files,
                            mechanism=[dict(name=n, where=w)
                                       for n, w in mech],
                            observe_at=list(observe), hook_needed=None)),
        technique=technique, level_note=level_note))


P('C01', 'One-dimensional sets obey exact set algebra, infinities included',
  'Union, intersection, difference, symmetric difference and complement of '
  'one-dimensional sets are exactly the set operations on the real line '
  '(up to end points), including unbounded sets. Their measure, membership '
  'and boundedness answers agree with the set, and no operation changes its '
  'operands.',
  ['inputs', 'histories'], 'all sets and all expressions over them',
  'tests pick some hundred random sets; the algebra must hold for every '
  'adjacency pattern of both operands',
  [G1], [('sort and normalise in the constructor', G1),
         ('all operations reduced to union and complement', G1)],
  'explicit-state enumeration of the interval algebra on the real code',
  'exhaustive within k cut points; several exact embeddings; reference is a '
  'bit set', ['Geom1D operators', 'get_intervals', 'locate', 'measure1d'])

P('C02', 'A one-dimensional set is the union of any list of intervals given',
  'A set built from any list of exact intervals - in any order, overlapping, '
  'nested, touching, empty, duplicated or unbounded - is their union, held '
  'as sorted, disjoint, non-touching intervals. Its pieces, filtered parts, '
  'membership and measure follow from that union and never from how the list '
  'was written.',
  ['inputs'], 'all finite lists of intervals, all exact number types',
  'tests never enumerate orders, nestings and degenerate intervals together',
  [G1], [('constructor normalisation', G1), ('disjoint_pieces, filter', G1)],
  'bounded exhaustive enumeration of constructor inputs on the real code',
  'exhaustive for lists up to the stated length over seven end points',
  ['Geom1D(...)'])

P('C03', 'Growing and shrinking a one-dimensional set is exact',
  'Growing a one-dimensional set by a is its exact Minkowski sum with '
  '[-a, a] and shrinking is the exact erosion: touching pieces merge, pieces '
  'not wider than 2a vanish, infinite ends stay.',
  ['inputs'], 'all sets and all exact amounts, positive, zero or negative',
  'tests do not sample amounts that exactly close a gap or erase a piece',
  [G1], [('buffer', G1)],
  'bounded exhaustive enumeration of sets and amounts on the real code',
  'exhaustive over all subsets of k cells and all amount pairs listed',
  ['Geom1D.buffer'])

P('C04', '2D union, intersection and difference give exactly the right set',
  'For any two-dimensional sets built by any sequence of operations, union '
  '(binary and n-ary), intersection and difference give exactly the points '
  'of the set operation: membership everywhere, exact area, emptiness, and '
  'boundaries only along boundaries of the operands. No valid input makes an '
  'operation fail.',
  ['inputs', 'histories'],
  'all polygons with shared edges, shared vertices, holes, islands, slivers; '
  'all operation sequences',
  'the tests are random shapes checked at sampled points; degenerate '
  'contacts (T vertices, vertex-only contact, coincident edges, nested '
  'holes) are the hard cases and are combinatorial',
  [G2, AR, CM, SC, PR],
  [('arrangement of all boundary segments, one point located per cell', G2),
   ('sweep line intersections', SC), ('merging cells into polygons', CM)],
  'explicit-state search over the real 2D algebra against a bit-set model',
  'exhaustive over subsets of the cell layouts, bounded-depth over '
  'overlapping ones; reference is an independent exact trapezoid '
  'decomposition', ['Geom2D operators', 'locate', 'area'])

P('C05', 'Results of 2D operations are regularised and split into components',
  'Every result of a 2D operation is regularised: no part of its boundary is '
  'used twice (no slits, cracks or internal edges), every ring is a proper '
  'polygon, and its pieces are exactly the edge-connected components with '
  'their holes. Points on the boundary are reported as boundary, all others '
  'as in or out.',
  ['inputs', 'histories'], 'all reachable shapes',
  'tests look at area and sampled membership, which a slit, a crack or a '
  'wrong split into pieces does not change',
  [G2, AR, CM], [('merging neighbouring cells by opposite half edges', CM),
                 ('hole assignment', AR)],
  'explicit-state search over the real 2D algebra, structural oracle on '
  'every state', 'same state space as C04', ['polygons', 'exterior', 'holes'])

P('C06', '2D sets do not depend on order, grouping or coordinates',
  'A two-dimensional set does not depend on the order or grouping in which '
  'it was combined, on the start vertex or direction of the input rings, or '
  'on whether an affine map is applied before or after the operations; the '
  'empty set is neutral for union and absorbing for intersection.',
  ['inputs', 'histories'],
  'all permutations, groupings, ring rotations and exact affine maps',
  'tests fix one order and one position per example',
  [G2, AR], [('arrangement over all operands at once', G2),
             ('union tree', G2), ('transformed_with', G2)],
  'bounded exhaustive enumeration of expression trees and maps on the real '
  'code', 'all permutations and groupings of up to 3 (4) generators of 13 '
  'layouts, 8 maps', ['Geom2D.union', 'transformed_with', 'polygon'])

P('C07', 'Growing and shrinking 2D sets is exact offsetting by one brush',
  'Growing a two-dimensional set by r is exactly its Minkowski sum with one '
  'disc-like convex brush of radius r (between 0.9 r and 1.01 r in every '
  'direction), shrinking by r is exactly the erosion by that brush, and r=0 '
  'changes nothing - for sets with holes, several pieces, sharp and reflex '
  'corners, and for radii that close gaps, fill holes or erase pieces.',
  ['inputs'], 'all shapes and all exact radii',
  'tests check a few shapes with a few radii; kerf compensation and all '
  'clean-up steps rest on it for every shape',
  [G2], [('minkowski ribbon of every ring, holes eroded/dilated with the '
          'opposite sign', G2), ('buffer_of_size', G2)],
  'bounded exhaustive enumeration of shapes and radii on the real code '
  'against a trapezoid Minkowski model',
  'area of the symmetric difference below 1e-9 (relative); shapely trusted '
  'for the union of the convex parts of the reference', ['Geom2D.buffer'])

P('C08', 'Point location and area of a polygon are exact',
  'Every point of the plane is located relative to a two-dimensional set '
  'exactly: inside, outside or on its boundary, holes included and however '
  'the query aligns with vertices and edges. The area is exactly the area '
  'of that set, whatever the ring direction and start vertex.',
  ['inputs'], 'all simple polygons with holes and all exact query points',
  'tests query a few points; the hard cases are queries level with '
  'vertices, collinear runs and points on edges, for each polygon shape',
  [G2, PR], [('winding of the rings around the point', G2),
             ('edge and segment primitives', PR)],
  'bounded exhaustive enumeration of lattice polygons and query points on '
  'the real code', 'all simple polygons of the 3x3 lattice up to 7 (8) '
  'vertices; no transition structure, hence level exploration',
  ['Geom2D.locate', 'Geom2D.area'])

P('C09', 'Segment intersection search is complete and exact',
  'The search for intersections among line segments finds exactly the '
  'points where segments meet or overlap ends, with exactly the segments '
  'through each such point, for every arrangement - collinear overlaps, '
  'common end points, vertical segments, many segments through one point. '
  'No valid set of segments makes it fail.',
  ['inputs'], 'all finite sets of segments',
  'random segments never meet in degenerate ways; sweep status order errors '
  'need particular combinations',
  [SC, FR], [('plane sweep with status order at the current event', SC)],
  'bounded exhaustive enumeration of segment sets on the real sweep against '
  'brute force', 'all sets of up to 4 segments of the 3x3 lattice, in '
  'several exact embeddings', ['all_segment_intersections'])

P('C10', 'Spatial indexes never lose an item',
  'A query of the one-dimensional interval index answers exactly the stored '
  'intervals that contain the value, and a query of the two-dimensional '
  'segment index answers at least every stored segment that meets the '
  'query, however many items were stored in whatever order. Box tests '
  'against points, segments and boxes agree with exact clipping, '
  'boundaries included.',
  ['inputs', 'histories'], 'all stored collections and all queries',
  'losses appear only for queries on split lines and cell borders',
  [ST, PQ, AB], [('static segment tree over sorted end points', ST),
                 ('split above a threshold', PQ), ('clipping tests', AB)],
  'bounded exhaustive enumeration of stored sets and queries on the real '
  'code', 'all multisets of up to 4 (5) intervals, all pairs (triples) of '
  'lattice segments, all lattice boxes',
  ['SegmentTree1D_Static', 'PMRQuadTree', 'AABB'])

P('C11', 'Fractional angles order directions exactly like true angles',
  'The fractional angle of a vector orders directions exactly as true '
  'angles do, is the same for positive multiples of a vector, turns by '
  'exactly a quarter of the circle for a right angle, and is inverted by '
  'the vector of that angle; directions however close are told apart.',
  ['inputs'], 'all non-zero exact vectors',
  'a comparison table over sampled vectors misses octant borders and '
  'near-parallel pairs',
  [FR], [('octant by octant fraction', FR)],
  'bounded exhaustive enumeration of vector pairs on the real code',
  'all pairs of an 11x11 (19x19) lattice box and pairs 1e-18 apart',
  ['vector_frangle'])

P('C13', 'Geometry is exact: rational in, rational out, inexact input refused',
  'Every coordinate of every result of a geometric operation is an exact '
  'rational number; new vertices lie exactly on the edges they come from. '
  'Exact numbers of any kind are accepted with their exact value, and '
  'inexact values (floating-point fractions, decimals, text, NaN) are '
  'refused instead of being used silently.',
  ['inputs'], 'all places that take a number and all number types',
  'tests pass one type at a time',
  [G1, G2, PR, PT], [('number check at construction', G1),
                     ('exact intersection', PR)],
  'bounded exhaustive enumeration of input types, places and operations on '
  'the real code', 'floats with an integer value carry no expectation',
  ['Geom1D(...)', 'Geom2D', 'buffer'])

P('C14', 'Both sides of a joint describe the same places in space',
  'For every joint and every set of positions along it, the fingers made on '
  'the two sheets are the same boxes in space: each lies across exactly the '
  'part of its sheet that is inside the other slab, at the given positions, '
  'and projecting them back gives exactly the given set. A finger over part '
  'of the depth is exactly that part of the strip.',
  ['inputs', 'configurations'],
  'all joints at all angles and thicknesses, all sets of positions',
  'the tests build only right-angled joints in one position',
  [SP, CS], [('joint frame and strip of both sides', CS),
             ('make_fingers, project_to_1d', SP)],
  'bounded exhaustive enumeration of joints and position sets on the real '
  'code', 'all unions of 5 (7) cells on all joints of the model family; '
  'positions compared to 1e-6', ['InterSide.make_fingers', 'project_to_1d'])

P('C15', 'A decision has exactly its effect, and impossible ones are refused',
  'Giving joint positions to one side chooses its fingers there, bars the '
  'other side and the other sheet from them, and changes nothing else; '
  'ruling out positions or areas only rules out those. A decision that '
  'contradicts an earlier one is refused with an assertion, earlier builds '
  'stay as they were, and the consistency check accepts exactly the '
  'consistent builds.',
  ['histories'], 'all sequences of decisions',
  'tests run two or three decisions; the invariants are over every sequence',
  [SB], [('choose_interside, unchoose_interside, unchoose_sheet_area', SB),
         ('check', SB)],
  'explicit-state search of a reference model, every transition replayed on '
  'the real build', 'every reachable state of a joint of 2 and 3 cells; '
  'depth-bounded for the three-panel corner',
  ['SheetBuild.choose_interside', 'SheetBuild.check'])

P('C16', 'Values never change: sets, builds and recorded histories',
  'No operation changes a set, build or model that exists already, nor the '
  'lists passed to it; changing an input list afterwards changes no set. '
  'Every build recorded in the history keeps its value while the pipeline '
  'goes on, and every stage run again from its recorded input gives the '
  'same build again.',
  ['histories'], 'all operations on all values, all orders of re-running',
  'aliasing is invisible to a test that looks only at the newest result',
  [G1, G2, SB, CA], [('operations copy', G2), ('persistent records', SB)],
  'bounded exhaustive enumeration of operation pairs and replay of recorded '
  'histories on the real code',
  'all pairs of states of six layouts, all 1D pairs over 4 (5) cells, every '
  'stage of every pipeline history', ['history', 'Geom1D', 'Geom2D'])

P('C17', 'Random lengths always add up and keep their limits',
  'For any count, limits and total that are feasible, and whatever the '
  'random source answers, the random lengths are contiguous spans from 0 '
  'that add up exactly to the total, each within the limits. The draw never '
  'fails, not even when the total is exactly at or next to a limit.',
  ['inputs', 'schedules'], 'all feasible parameters and all random answers',
  'a test sees one stream of a seeded generator',
  [HE], [('random_min_max', HE)],
  'exhaustive enumeration of the answers of the random source on the real '
  'code', 'all shuffle orders x {lowest, middle, highest} draws up to 5 (6) '
  'lengths; continuous draws abstracted to three values',
  ['random_min_max'])

P('C18', 'Every open joint position is decided by alternating, legal fingers',
  'From any partial decision of a joint, the random finger step gives every '
  'still open position to exactly one side and leaves decided ones alone. '
  'If a finger count that alternates with the decided neighbours fits the '
  'width limits, the fingers alternate - with the neighbours too - and each '
  'has an allowed width; otherwise one side takes the stretch.',
  ['histories', 'schedules'],
  'all partial decisions and all answers of the random source',
  'parity errors show only for particular counts drawn at random',
  [HE], [('single_fingers_random: parity and count', HE)],
  'stateless search: the real step under a controlled random source, every '
  'answer played', 'every finger count and four draw patterns; partial '
  'decisions at either end and in the middle', ['single_fingers_random'])

P('C19', 'Exactly the panels of the model are found, with their visible faces',
  'Every pair of opposite planes one thickness apart that bounds a panel '
  'gives exactly one sheet, whose two faces are the surface visible on '
  'these planes and whose material is what has material at any height '
  'between them; nothing else gives a sheet, and every pair of non-parallel sheets that meet gives exactly '
  'one joint. This depends neither on the position of the model nor on the '
  'order of its triangles.',
  ['inputs', 'configurations'], 'all panel models, positions, mesh orders',
  'the tests load two example files',
  [CS], [('grouping facets by plane and offset', CS),
         ('pairing planes by thickness', CS), ('slices', CS)],
  'bounded exhaustive enumeration of panel models, motions and mesh orders '
  'on the real code', 'all subsets of a box, the shape family, six motions, '
  'six mesh orders; faces to 1e-6', ['create_sheetplex'])

P('C20', 'The finished parts, put together, tile the model exactly',
  'The parts of a finished build, extruded to the sheet thickness and put '
  'back in place, fill the material of the model and nothing else: no point '
  'is in two parts, none outside the model, none missing (but for trims of '
  'a thousandth at joint ends). Where panels do not meet at right angles, '
  'parts still never overlap and only the joints themselves may deviate. '
  'Every piece is held by material visible on both faces.',
  ['inputs', 'configurations', 'histories'],
  'all panel models, finger widths and random seeds',
  'the tests run the pipeline on one model and look at no geometry',
  [CA, HE, SB, SP, CS], [('whole pipeline', CA)],
  'bounded exhaustive enumeration of models and settings through the real '
  'pipeline, checked cell by cell in 3D',
  'every set of box panels, shape family, thicknesses, seeds, motions; '
  'volume to 0.02 thickness^2 per joint', ['canned_1'])

P('C21', 'Same model and settings, same result, in every process',
  'The sheets, the joint decisions and the curves written are the same for '
  'the same model and settings in every process, whatever its hash seed, '
  'and whatever was computed in the process before.',
  ['schedules', 'configurations'],
  'all iteration orders of sheet and joint maps, all earlier work',
  'one test process has one hash seed',
  [HE, CS, CL, CA], [('sorted iteration', HE), ('seeded random source', HE)],
  'exhaustive enumeration of the iteration orders of the sheet and joint '
  'maps, one fresh process each', 'hash seeds chosen so that every order of '
  'both maps occurs (thorough: every pair of orders for three panels)',
  ['command line', 'canned_1'])

P('C22', 'The DXF file holds every boundary once, parts only moved, not merged',
  'The written drawing holds every boundary of every part as one closed '
  'finite curve and nothing else. All curves of a part are moved by one and '
  'the same translation, and parts of different sheets do not overlap - '
  'empty parts and parts with holes, islands or negative coordinates '
  'included.',
  ['inputs'], 'all lists of parts',
  'no test reads the drawing back',
  [WR], [('layout offset per sheet', WR), ('one polyline per ring', WR)],
  'bounded exhaustive enumeration of part lists through the real writer, '
  'file read back', 'all ordered choices of up to 3 (4) parts from 11 '
  'shapes; coordinates to 1e-6', ['write_dxf'])

P('C23', 'A failing stage is reported and nothing is written',
  'If any stage of the computation, consistency check or the writing itself '
  'fails, the command line fails and neither creates nor changes the '
  'output. The library, asked to report failures, returns "not ok" with the '
  'last good build and the history up to it; otherwise the error comes out '
  'unchanged.',
  ['fault_sequences', 'crash_points'],
  'all failure points and all error classes',
  'the tests never make a stage fail',
  [CA, CL, WR], [('try around all stages', CA), ('write at the end', CL)],
  'fault enumeration: one fault at every call of every stage of the real '
  'pipeline', 'every stage call, check and geometric operation of two '
  'models, several exception classes', ['main', 'canned_1'])

P('C24', 'Every command line option takes effect and output goes where asked',
  'The drawing written by the command line holds exactly the parts the '
  'library computes for the settings given, grown by the kerf setting. It '
  'is written exactly at the path asked for, or beside the input with '
  'suffix .dxf, and nowhere else; invalid calls fail without writing.',
  ['configurations'], 'all options, values and combinations',
  'the tests run one command line',
  [CL], [('parser, defaults and conversion of numbers', CL)],
  'bounded exhaustive enumeration of command lines through the real entry '
  'point', 'every option alone with several values, listed combinations and '
  'invalid calls', ['main'])

P('C25', 'Where joints cross, one sheet takes the crossing and is attached there',
  'Wherever joints cross on a sheet, the crossing positions of all joints '
  'involved go to one and the same sheet, one with the most possible material '
  'there, and every other sheet is barred from them. The piece is attached to '
  'the rest of its sheet, with a stretch of an adjoining joint if it needs '
  'one; if it cannot be, the step fails. Nothing else is decided.',
  ['inputs', 'histories'], 'all models with crossing joints, all partial '
  'decisions before the step',
  'only an end to end smoke test reaches this step, on one model',
  [HE], [('heuristic_multi_inter_single_decisions', HE),
         ('_find_interactions, _find_interaction_clusters', HE)],
  'explicit-state enumeration of joint states before the step, the real '
  'step executed on each and compared with a brute-force model',
  'all corners of a box, crossings in the middle, close corners; every '
  'subset of barred sheets and closed neighbouring stretches')

P('C26', 'Along the pipeline decisions only grow and options only shrink',
  'From stage to stage of a run, what is chosen stays chosen and what is '
  'ruled out stays ruled out; what is chosen is allowed, never outside the '
  'model material, and never on positions of a joint that the other side '
  'has or may still take. At the end no joint position is left open and '
  'every single finger keeps the width limits.',
  ['histories'], 'all models, settings and all stages',
  'the tests look only at whether the run succeeds',
  [CA, HE, SB], [('stages and recorded history', CA)],
  'invariant checked on every transition of the real pipeline over a '
  'bounded family of models', 'every consecutive pair of recorded builds, '
  'models as in C20; areas to 1e-7', ['history'])

P('C27', 'Loose pieces go, everything connected to visible support stays',
  'Removing loose pieces keeps exactly the connected pieces of allowed '
  'material that hold material visible on both faces, connected across '
  'edges and not just at corners, on every sheet independently. Decisions '
  'already made stay, and chosen material is never dropped silently.',
  ['inputs'], 'all shapes of allowed and visible material',
  'no test has a loose piece',
  [HE], [('remove_loose', HE)],
  'bounded exhaustive enumeration of allowed and visible areas on the real '
  'step', 'all pairs of sets of a 3x2 grid; frames with islands',
  ['remove_loose'])

P('C28', 'Model look-ups and sub-models agree with the whole',
  'Restricting a model to some of its sheets keeps exactly these sheets and '
  'the joints between them, unchanged. Every look-up - sheet, joint, side '
  'of a joint, opposite side, sides of a sheet - answers consistently with '
  'the whole, on the model and on each restriction.',
  ['inputs'], 'all models and all subsets of their sheets',
  'no test restricts a model',
  [SP], [('limit', SP), ('intersides, opposite', SP)],
  'bounded exhaustive enumeration of models and sheet subsets on the real '
  'code', 'every subset of the sheets of the model family',
  ['SheetPlex.limit', 'interside', 'opposite'])

P('C29', 'Importing planar geometry keeps the point set',
  'A polygon, multi-polygon or geometry collection imported from the planar '
  'geometry library is exactly the same point set, whatever the ring '
  'orientation, with holes, islands, several pieces or none, and behaves as '
  'such in all further operations.',
  ['inputs'], 'all importable geometries',
  'the tests import one polygon',
  [G2], [('from_shapely', G2)],
  'bounded exhaustive enumeration of imported geometries on the real code',
  'all subsets of four partition layouts, pair expressions of five '
  'overlapping ones, x container x orientation; shapely trusted as the '
  'source', ['Geom2D.from_shapely'])

P('C30', 'A fresh build decides the certain and leaves open the possible',
  'A fresh build allows exactly the material within the support radius of '
  'visible surface on both faces, decides at once the visible material that '
  'is on no open joint position and opens a joint position exactly where '
  'both sheets have allowed material. Nothing on a joint is decided, and '
  'the build is consistent.',
  ['inputs', 'configurations'], 'all panel shapes and support radii',
  'the tests build one model with default settings',
  [SB], [('create_sheetbuild', SB)],
  'bounded exhaustive enumeration of panel shapes, hidden areas and radii '
  'on the real code, point-lattice oracle',
  'all sets of cells of a grid (quick: part of the columns), 5 hidden '
  'patterns, 4 radii; a tenth of the radius around the limit not judged',
  ['create_sheetbuild'])

P('C31', 'Each propagation rule does what it says, and nothing else',
  'A joint position without possible material is closed; material on '
  'positions only the other side may take is ruled out; positions open to '
  'one side only are taken by it; a sheet with nothing beside the joint '
  'gives up its side where the other may take it; allowed leftovers thinner than 1 go unless '
  'chosen. No rule changes anything beyond this.',
  ['histories', 'inputs'], 'all partial decisions of a joint',
  'no test looks at what a rule did',
  [HE], [('update_intersection_ok, update_sheet_ok', HE),
         ('choose_the_ok_side, choose_obviously_irrelevant, '
          'clean_up_thin_ok_parts', HE)],
  'explicit-state enumeration of joint states, every rule executed on the '
  'real state and compared with a cell model',
  'all 64 joint states of three cells x missing half strips x material '
  'beside the joint; a tenth around cell borders not judged',
  ['heuristic functions'])

P('C32', 'Numbers are converted exactly and shown faithfully',
  'Exact numbers convert to rationals with exactly their value and inexact '
  'ones are refused; a float converted on request gives a simple fraction '
  'next to it. Text of any nesting of numbers, sets and containers shows '
  'every number faithfully - exactly, or to float precision when '
  'approximate - and never fails.',
  ['inputs'], 'all numbers, containers and nestings',
  'the tests render one tuple',
  [PT], [('F, fstr, fastr', PT)],
  'bounded exhaustive enumeration of values and containers on the real '
  'code', 'all p/q of a small family, huge and tiny ones, containers up to '
  'depth 2', ['F', 'fstr', 'fastr'])

P('C33', 'Pictures of sets and builds show exactly what is there',
  'The drawing of a two-dimensional set fills exactly the set, holes and '
  'islands included, outlines its whole boundary, and uses the colour, '
  'transparency, label and line width asked for; the empty set adds nothing '
  'and does not fail. The picture of a sheet of a build shows its allowed '
  'and chosen material and the chosen and open positions of each of its '
  'joints, and nothing else; showing the stages of a run does not change '
  'its result.',
  ['inputs', 'histories'], 'all sets, all sheets of all builds',
  'no test draws anything',
  [GB, SB, CA], [('to_mpatch, show2d', GB), ('show_sheet', SB),
             ('do_show', CA)],
  'bounded exhaustive enumeration of sets and of pipeline stages on the '
  'real code', 'all subsets of six partition layouts, pair expressions of '
  'seven overlapping ones, every stage and sheet of a family of models; '
  'nonzero and even-odd winding at a point of every cell',
  ['Geom2D.to_mpatch', 'Geom2D.show2d', 'sheetbuild.show_sheet'])

NA = [
    dict(d=dict(
        id='C90', title='Every real-world panel model can be cut and assembled',
        statement='For any 3D model made of panels, the parts can be cut '
        'and physically assembled (insertion order, friction fit).',
        quantifier=dict(over=['inputs'], text='all models'),
        why_tests_cant='needs a mechanical notion of assembly',
        anchors=dict(files=[HE], mechanism=[])),
        reason='assembly order and fit are no state space of this code; the '
        'geometric part (every point of the model in exactly one part) is '
        'decided within bounds by other properties'),
]
