"""Which harnesses and engines decide which property, and by what rule."""
AI = "static analysis: abstract interpretation of the LLVM IR clang emits for the current sources (intervals, NaN flags, ordering facts, value numbering, algebraic normal forms), obligations stated in specs/"
NOTE = "Every obligation is discharged for all abstract inputs of its entry state; arithmetic identities hold over the reals with a stated relative tolerance for float constants, orderings and ranges hold for IEEE floats. "
PROPS = {}
def ai(id, specs, rule, note="", **k):
    PROPS[id] = dict(level="proof", specs=specs, rule=rule, note=(NOTE + note).strip(), **k)
ai("T01", [("duration.cc", "duration_.*")], "For every duration operation: result is not NaN; special operands give the documented constant; finite operands give the algebraic result; comparisons equal comparisons of seconds.", min_obligations=40)
ai("T02", [("physical_distance.cc", "distance_.*")], "For every unit pair the conversion is the algebraic ratio; arithmetic, comparison, hash act on the length.", min_obligations=20)
ai("T03", [("angle.cc", "angle_.*")], "Interval analysis of fmod, wrap and guard proves the half-open ranges; algebra modulo a full turn proves equivalence.", min_obligations=35)
ai("G01", [("vec.cc", "(vec|point|segment|triangle)_.*")], "Formula identities by algebraic normal form; unit vector finiteness and length over a partition of all float magnitudes; no reachable check failure or division by zero.", min_obligations=50)
ai("G02", [("rect.cc", "(rect|envelope)_.*")], "Ordering facts prove min<=max and coverage; min/max leaf-set reasoning proves tightness; algebra proves sizes and ratios.", min_obligations=120)
ai("G03", [("quad.cc", "quad_.*")], "Parameters after every factory/setter; lazily cached axes recomputed after every modification (value identity with a fresh quad); join proves coverage by ordering facts.", min_obligations=50)
ai("G04", [("affine.cc", "affine_.*")], "Coefficients and images compared as rational functions extended with sin/cos/sqrt rewriting.", min_obligations=40)
ai("S01", [("input.cc", "(input|pair)_.*")], "One field or one relation arbitrary, the rest valid: acceptance is equivalent to the documented condition on every path, and all ways of adding inputs agree.")
ai("S02", [("input.cc", "batch_.*")], "Every combination of optional fields; value identity of stored and read inputs; copies share storage and keep their values.")
ai("T04", [("uri.cc", "uri_.*")], "Every replacement, insertion, removal and truncation of a byte of representative URIs: acceptance and parts equal those of an independent recogniser of the grammar; normal form round trip; equality and hash over every part.", min_obligations=25)
ai("T05", [("types.cc", ".*")], "Every sequence of three (thorough four) operations on three copy-on-write objects and on bounded arrays, compared with a model after every step; live values counted; every subrange.", min_obligations=30)
ai("B01", [("brush.cc", "(brush|family|coat)_.*")], "Acceptance is equivalent to the documented condition on every path for arbitrary field values; stored values identical; rejected setters leave the value.", min_obligations=25)
ai("B02", [("brush.cc", "(tip|node|behavior)_.*")], "One field arbitrary (every float, every enumerator value), the rest valid: acceptance is equivalent to the documented condition; every node kind in every stack shape up to four operands and four targets.", min_obligations=20)
ai("B03", [("brush.cc", "easing_.*")], "Acceptance is equivalent to the documented condition for arbitrary parameters and enumerators.", min_obligations=5)
ai("B04", [("brush.cc", "(layer|keyframe|paint)_.*")], "One field arbitrary (every float, every enumerator value), the rest valid: acceptance is equivalent to the documented condition.", min_obligations=10)
ai("B05", [("brush_eq.cc", "eq_.*")], "Copies compare equal; changing any one field of a value makes it compare unequal, in both argument orders.", min_obligations=20)
ai("B06", [("behavior.cc", ".*")], "Each node kind evaluated on arbitrary inputs: value, presence and stack effect equal the documented ones; no infinity or NaN leaves a node except as the null value.", min_obligations=60)
ai("B07", [("tip.cc", ".*")], "Every target and pair of targets with arbitrary modifiers: only the target's fields move, every field stays in its interval, values equal the documented combination.", min_obligations=30)
ai("B08", [("easing.cc", ".*")], "Each easing variant as evaluated equals its documented curve: algebraic normal forms per piece, interval bounds for the Bezier table, exact end values and critical points.", min_obligations=25)
ai("G05", [("algorithms.cc", "alg_.*")], "Formula identities by algebraic normal form; guards and ranges by ordering facts.", min_obligations=25)
ai("G06", [("shapes.cc", ".*")], "Every pair of shape kinds placed on a grid, each coordinate moving within a box: intersection, its symmetry and the distance agree with an independent separating-axis and edge-distance oracle; touching, collapsed and axis-aligned configurations for arbitrary floats.", min_obligations=150)
ai("G07", [("hull.cc", ".*")], "Every placement of three and four points on a grid, four points anywhere within boxes, lines through the start in every order, and more than five hundred points with the outline at the front, middle or end: vertices, their order and start equal those of an independent gift wrapping over integers.", min_obligations=15)
ai("G08", [("tess.cc", ".*")], "libtess2 replaced by a model that records its calls and hands out scripted elements: arguments, vertex and triangle order, attributes of new vertices, refusals and release of the tessellator.", min_obligations=20)
ai("G09", [("polyline.cc", ".*")], "Families of polylines by parameter sets compared with an independent statement of the documented algorithm without a spatial index; repeated points; polylines without segments.", min_obligations=10)
ai("M01", [("mesh_format.cc", "format_.*")], "Every attribute type and identifier, every list of up to three attributes and the longest list: tables, acceptance, order, offsets, strides, removal and the equality relations equal an independent statement of the documentation.", min_obligations=40)
ai("M02", [("packing.cc", "(pack|unpack|params|array|index|read|partition|copy)_.*")], "Bit-level value tracking through every packed type against an independent layout writer; coding parameters by ordering facts and algebra; partitions over every sharing pattern of two triangles and a catalog of four.", min_obligations=50)
ai("M03", [("mesh.cc", "mesh_.*")], "One input of Create arbitrary, the rest valid: acceptance equals the documented condition; value identity of everything read back; bounds by ordering facts.", min_obligations=30)
ai("M04", [("mesh.cc", "(mutable|as_meshes)_.*")], "Every edit at every position of small meshes with arbitrary values: value identity of everything read back; conversion compared with the corners it must keep; a catalog of triangles for quantization.", min_obligations=30)
ai("C01", [("color.cc", "(color|bytes)_.*")], "Every construction path with arbitrary channels in every format: no NaN, alpha in its interval, channels equal the documented formula; bytes and packed words as the documented order and rounding.", min_obligations=25)
ai("C02", [("color.cc", "(gamma|gamut|space)_.*")], "Gamma curve compared with an independent statement of it; conversions as linear forms compared with the published matrices; gamut ranges by interval and ordering facts.", min_obligations=25)
ai("M05", [("pmesh.cc", "(create|read|mutable)_.*")], "Every group, outline and index of a three-group mesh altered in turn: acceptance equals the documented condition; value identity of everything read back by group; no read past a bound returns.", min_obligations=20)
ai("M06", [("pmesh.cc", "(query|flat)_.*")], "A scene of eight triangles in four meshes queried from a grid of places under five kinds of transform, coordinates moving in boxes: the visited set equals that of an independent separating-axis oracle, coverage is its area share; meshes of up to 36 (thorough 289) triangles index every triangle.", min_obligations=20)
ai("S03", [("stroke.cc", "dry_.*")], "Every setter on every combination of coats and inputs, one difference at a time, with the shape builder replaced by a recording model: stored state, regeneration and render groups equal the documented ones.", "The geometry itself comes from a model of StrokeShapeBuilder. ", min_obligations=40)
ai("S04", [("stroke.cc", "(wet|copy)_.*")], "Every sequence of three (thorough four) operations after a start, and after a drawn stroke, compared step by step with an independent model of the protocol; arbitrary times and formats at every joint; the shape builder replaced by a recording model.", "The geometry itself comes from a model of StrokeShapeBuilder. ", min_obligations=200)
ai("S05", [("modeler.cc", ".*")], "Every sequence of four (thorough five) operations after each first step, compared with modeling everything at once by an independent model; arbitrary attribute values, gaps, unit lengths and epsilons; the third-party smoothing filter replaced by a recording model.", "The filter ink_stroke_modeler is a dependency and is replaced by a deterministic model. ", min_obligations=80)
ai("S06", [("builder.cc", "(build|update)_.*")], "The three stages replaced by recording models: what each is started and updated with, in which order, and what the builder reports back, equal the documented ones on every path.", "The stages themselves are models here; they are the subject of S05 and S07. ", min_obligations=18)
ai("S07", [("tipmodel.cc", ".*")], "Every source, target and node kind on a stroke growing in three updates with four kinds of unstable tail, compared value for value with modeling it all at once; number of fixed states exact; particles against their documented positions.", min_obligations=55)
ai("S08", [("builder.cc", "outline_.*")], "Every sequence of three (thorough four) of nine operations, compared with an independent two-list model after every step.", min_obligations=12)
ai("S09", [("vertex.cc", ".*")], "Every label and margin step; interpolation of arbitrary attributes with every label pair; every mesh accessor on arbitrary vertices; every subset, rotation and order of attributes and every skipped set; exact packing of all labels.", min_obligations=45)
ai("R01", [("meshspec.cc", ".*")], "Every attribute removed, swapped, inserted or given any of the fourteen types, every order of the attribute groups: acceptance, offsets, types, stride and uniforms equal an independent statement of the documented requirements.", min_obligations=150)
ai("R02", [("shader.cc", ".*")], "The shader texts, taken from the abstract state at the end of the factory functions and translated to C++, compile against the interface declared for them and, fed the bytes the CPU packs, reproduce positions, colors, texture coordinates, outsets and coverage of an independent oracle; every bit of every packed component.", "Shaders are analysed as translated by engines/sksl.py, half precision as float. ", gen=True, min_obligations=300)
ai("R03", [("skia.cc", "(texture|bitmap)_.*")], "Every wrap, blend mode, origin, unit, color format and color space, and chains of up to three layers, against the documented meaning; layer sizes, offsets, brush sizes and input positions arbitrary; bitmap sizes arbitrary; Skia replaced by recording models.", "Skia itself is modelled: shaders, images and matrices record what they were made from. ", min_obligations=28)
ai("R04", [("skia.cc", "(uniforms|specification|mesh)_?.*"), ("skia_render.cc", ".*")], "Every uniform order and presence, every coat, outline and partition of drawables with and without a context: what the recording canvas receives, byte for byte and in order, equals the documented drawing; colors, transforms and packing parameters arbitrary.", "Skia and the shape builder are modelled. The limit of 65535 vertices of an in-progress stroke is not analysed. ", min_obligations=70)
ai("X01", [("extruder.cc", "(view|vertex)_.*")], "Every operation after every operation on views of either kind, with arbitrary values, compared with an independent model after each pair; every accessor with every index past the end; interpolation by algebraic normal form.", min_obligations=90)
ai("X02", [("extruder.cc", "(outline|search|simplify|exterior|coincident|winding)_.*")], "Every partition and intersection state of two sides; staircases, lines and fans whose points move in boxes, cut, simplified and wound at every place, compared with independent statements of the documentation.", min_obligations=40)
ai("X03", [("circle.cc", "(circle|polygon)_.*")], "Arbitrary circles for values and points; families of circles in every position against independent constructions of tangents, containment, arcs and hulls; arcs of every chord height and angle of a grid, coordinates moving in boxes.", min_obligations=30)
ai("X04", [("tipshape.cc", "(shape|circular)_.*")], "A family of tips of every form, place, rotation, slant and pinch, coordinates moving in boxes or exact, compared with an independent hull-of-circles construction: circles, bounds, containment, tangents and outline points of whole shapes, caps and turns.", min_obligations=40)
ai("X05", [("tipshape.cc", "(lerp|extrusion|quality|constrain).*")], "Interpolation with arbitrary values; the family of tips at three distances for tangent quality against an independent hull; constrained extrusions found against re-evaluation of the amount next to them.", min_obligations=25)
ai("X06", [("extrude.cc", "extrude_.*|break_.*|contained|particle_uv|start_bad")], "Strokes of one to six tips of four forms over a grid of turns, steps, gaps and divisions into permanent and volatile states, colors and opacities arbitrary; mesh and outline compared with an independent hull construction on a grid of places.", min_obligations=60)
ai("X08", [("deriv.cc", ".*")], "Families of two-sided strips with repeated, collapsed and interior vertices, updated from any vertex on: every derivative, margin and untouched value equals an independent statement of the documented averages and bounds; averages of arbitrary vectors.", min_obligations=12)
ai("X09", [("sides.cc", ".*")], "Histories of appended sides, processing, breaks, clearing, saving and reverting with turns of any sharpness; opacities are arbitrary. Mesh, sides and reports are compared with the state before, with a geometry that never took the detour, and with turned and scaled ones; ribbons are compared with the quads between their sides.")
ai("X07", [("extrude.cc", "volatile_.*|split_.*|restart|bounds_.*|contained")], "Every pair of seven kinds of volatile continuations after every number of permanent states, and every division of a stroke, compared vertex for vertex with a stroke that never had them; every update compared with what changed.", min_obligations=60)
JVM = "The Java side is a model (shims/jni.h) that checks argument types against method descriptors, refuses calls with an exception pending and counts what is borrowed. "
ai("J01", [("jni_util.cc", "jni_.*")], "Every status code, exception class and enumerator; strings and inputs by value identity; borrowed strings and references counted.", JVM, min_obligations=30)
ai("J02", [("jni_shapes.cc", "jshape_.*"), ("jni_intersects.cc", "jsect_.*"), ("jni_coverage.cc", "jcover_.*")], "Natives compared with the C++ operation on the same shapes; predicates replaced by recording models that receive exactly the described shapes, in order, for arbitrary numbers.", JVM, min_obligations=60)
ai("J03", [("jni_brush.cc", "jbrush_.*")], "Value identity of every argument in the object built; acceptance equals that of the C++ validation on every path; live heap objects counted after failures and frees.", JVM, min_obligations=80)
ai("J04", [("jni_stroke.cc", "jstroke_.*")], "The same operations through the natives and on a C++ twin, all readable state compared after every step; index conversion against an independent statement.", JVM + "The shape builder is modelled. ", min_obligations=60)
ai("J05", [("jni_mesh.cc", "jmesh_.*")], "Everything handed out compared with the mesh or specification; identity of addresses and sharing of data.", JVM, min_obligations=30)
