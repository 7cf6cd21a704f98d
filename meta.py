"""Text of every property: what it says, over what, why tests cannot settle it, where it is anchored.
gen.py turns this file and rules.py into properties.jsonl and MANIFEST.json."""
WHY = "The unit tests sample a handful of values each; the guarantee is over every input, including NaN, infinities, signed zeros, overflow and every field or enumerator, and only 7 iterator tests run in this build."
P = {}
def prop(id, title, statement, qtext, files, mechanism, over=("inputs",), why=WHY):
    assert len(title) <= 80, title
    P[id] = dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=list(over), text=" ".join(qtext.split())), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
NA = {}
def na(id, reason): NA[id] = " ".join(reason.split())

prop("T01", "Duration arithmetic is total, NaN-free and follows its documented special cases",
 """A duration never holds NaN: every factory and every arithmetic operation on any operands yields a number, NaN inputs and indeterminate results becoming positive infinity (or the documented signed infinity).
    Sums, differences, products and quotients of finite durations are the exact operations on seconds, infinite operands give the documented results, and division by zero gives the signed infinity documented.
    The six comparisons agree with comparison of the seconds, equal durations hash equally, conversions between seconds and milliseconds are exact scalings, conversion to Abseil keeps the seconds (infinite beyond its range), and text tells finite from infinite durations.""",
 "every pair of durations and every scalar float, NaN and infinities included", ["ink/types/duration.h", "ink/types/duration.cc"],
 [("NaN-replacing constructor and operators", "ink/types/duration.cc"), ("comparison operators", "ink/types/duration.h")])
prop("T02", "Physical distances convert, compare and compute exactly in every unit",
 """A physical distance built from meters, centimeters or inches reports the same length in every other unit according to the standard ratios.
    Arithmetic and scaling act on the length itself, comparison and hashing agree with the length, and finiteness and the zero and infinite constants are reported truthfully.""",
 "every float length and every pair of units", ["ink/types/physical_distance.h", "ink/types/physical_distance.cc"], [("unit conversion factors", "ink/types/physical_distance.h")])
prop("T03", "Angles normalise into their documented half-open ranges and convert exactly",
 """Normalising any finite angle yields an equivalent angle in [0, 2π), never exactly 2π even after rounding; normalising about zero yields an equivalent angle in (-π, π].
    Degrees and radians convert by π/180, and arithmetic, remainder, comparison, absolute value and hashing act on the angle's value.""",
 "every finite float angle", ["ink/geometry/angle.h", "ink/geometry/angle.cc"], [("fmod plus wrap with the rounding guard", "ink/geometry/angle.cc Normalized, NormalizedAboutZero")])
prop("G01", "Vector, point, segment and triangle operations are exact; unit vectors are safe",
 """Vector and point arithmetic, dot product, determinant, orthogonal vector, squared magnitude, direction construction, segment lerp, midpoint and projection, and signed triangle area compute their mathematical formulas.
    The unit vector of every vector without NaN, including zero, infinite, huge and subnormal ones, has finite components, length one, and the direction and sign of the original; angles between vectors stay in [0, π] or (-π, π].
    No call on finite values aborts or divides by zero, and equality and hashing agree componentwise.""",
 "every pair of vectors, points, segments and triangles with non-NaN components", ["ink/geometry/vec.h", "ink/geometry/vec.cc", "ink/geometry/point.h", "ink/geometry/point.cc", "ink/geometry/segment.h", "ink/geometry/segment.cc", "ink/geometry/triangle.h", "ink/geometry/triangle.cc"],
 [("pre-scaled normalisation and special cases", "ink/geometry/vec.cc AsUnitVec"), ("projection parameter with degenerate test", "ink/geometry/segment.cc Project")])
prop("G02", "Rectangles stay ordered and envelopes cover exactly what was added",
 """Every way of making or modifying a rectangle yields minimum bounds no greater than maximum bounds and the documented bounds, size, center, corners and edges; containment is closed-interval containment, and joining yields the least covering rectangle.
    Containing and interior rectangles of a given aspect ratio have that ratio, the same center, and cover or lie inside the original.
    An envelope starts empty, after each addition is the tight bounding box of everything added so far, ignores empty additions, and a reset empties it.""",
 "every rectangle, envelope, point, segment, triangle and quad with finite coordinates of magnitude up to 1e38", ["ink/geometry/rect.h", "ink/geometry/rect.cc", "ink/geometry/envelope.h", "ink/geometry/envelope.cc"],
 [("min/max ordering in factories and setters", "ink/geometry/rect.h"), ("envelope add and intersect", "ink/geometry/envelope.cc")])
prop("G03", "Quads keep their invariants and report geometry matching their parameters",
 """A quad built or modified in any way has non-negative width (a negative width is the half-turn of its positive), rotation in [0, 2π), and corners, semi-axes and edges that always follow its current parameters, never stale ones, including in copies.
    Containment agrees with its bounds, and joining a point or shape leaves rotation, shear and height sign unchanged, never shrinks, keeps the sides away from the point, and covers the point and the original quad.""",
 "every parameter combination of magnitude up to 1e6 and every query and modification order of length two", ["ink/geometry/quad.h", "ink/geometry/quad.cc"],
 [("width sign folding and rotation normalisation", "ink/geometry/quad.h"), ("lazily computed semi-axes and their invalidation", "ink/geometry/quad.h")])
prop("G04", "Affine transforms compose, invert and map shapes as the mathematics requires",
 """Each named transform (identity, translate, scale, rotate, shear, and their about-a-point forms) has its textbook coefficients; composition applies the right operand first, and applying a transform to a point, segment, triangle, rectangle or quad gives the shape through the transformed points.
    An inverse exists exactly when the determinant is nonzero and composes to the identity; the transform found between two segments, triangles, rectangles or quads maps the first onto the second point by point, and is absent exactly when the source is degenerate.""",
 "every transform with coefficients of magnitude up to 1e4 and every shape in that range", ["ink/geometry/affine_transform.h", "ink/geometry/affine_transform.cc"],
 [("coefficient formulas", "ink/geometry/affine_transform.h"), ("Find overloads and Apply(Quad)", "ink/geometry/affine_transform.cc")])
prop("S01", "Stroke inputs are accepted exactly when every documented condition holds",
 """A stroke input is accepted exactly when its position is finite, its elapsed time finite and non-negative, its tool type named, its stroke unit length absent or positive and finite, its pressure absent (-1) or in [0, 1], its tilt absent or in [0, π/2], and its orientation absent or in [0, 2π].
    Consecutive inputs of a batch are accepted exactly when time does not decrease, position and time are not both repeated, and tool type, unit length and the set of reported optional fields agree; Create and every Append overload apply the same rules.""",
 "every float value, NaN and infinities included, of each field in turn, and every relation between two consecutive inputs", ["ink/strokes/input/stroke_input.cc", "ink/strokes/input/stroke_input_batch.cc"],
 [("single-input validation", "ink/strokes/input/stroke_input_batch.cc ValidateSingleInput"), ("pairwise validation", "ink/strokes/input/stroke_input_batch.cc ValidateConsecutiveInputs")])
prop("S02", "Input batches read back what was stored, and copies and rejected edits stay put",
 """For every combination of optional fields a batch returns, by index and by iteration and in order, exactly the inputs stored by Create, Append, Set, Erase, Clear or Transform, with the format, tool type, unit length and duration they imply.
    A rejected Append or Set leaves the batch unchanged; modifying a batch never changes a copy made earlier or an appended argument.
    Set and Get past the end are checked failures.""",
 "every combination of the optional fields, every edit position in batches of up to four inputs, arbitrary field values", ["ink/strokes/input/stroke_input_batch.h", "ink/strokes/input/stroke_input_batch.cc", "ink/types/internal/copy_on_write.h"],
 [("packed float storage with per-field offsets", "ink/strokes/input/stroke_input_batch.cc Get, Set, Append"), ("copy-on-write data", "ink/types/internal/copy_on_write.h")], over=("inputs", "histories"))
prop("T04", "URIs are accepted exactly by the documented grammar and normalise reversibly",
 """A string parses as a URI exactly when it matches the documented grammar (optional case-insensitive ink: scheme, optional //reg-name, /brush-family or /texture, a lower-case-and-dash asset name, an optional revision of one to nine digits without leading zero); the parsed parts are those the string spells, with the ink registry name and revision 1 as defaults.
    The normalised form omits those defaults, parses back to an equal URI, and equal URIs hash equally; URIs differing in any part are unequal.
    The empty string is the default URI.""",
 "every string one byte away (replaced by any byte, inserted, removed, truncated, appended) from representative URIs of every shape", ["ink/types/uri.h", "ink/types/uri.cc"],
 [("hand-written scanner with bounds checks", "ink/types/uri.cc Parse"), ("default parts omitted from the normal form", "ink/types/uri.cc ToNormalizedString")])
prop("T05", "Shared values are copied before they change; small containers keep contents",
 """However CopyOnWrite objects are copied, moved, assigned, emplaced, reset and changed, each one's value changes only through itself: copies share storage until one asks for its mutable value, which copies only when shared, moved-from objects are empty, no value leaks, and reading or changing a missing value never returns.
    A SmallArray holds exactly the elements last given to it: resizing keeps the common prefix, fills new elements with the given value and releases removed ones; arrays are equal exactly when their elements are, and copies are independent.
    An iterator_range presents exactly the elements between its two iterators, with their number and emptiness.""",
 "every sequence of three (thorough four) of 24 operations on three objects; every pair of array sizes; every subrange", ["ink/types/internal/copy_on_write.h", "ink/types/small_array.h", "ink/types/iterator_range.h"], [("copy on write", "ink/types/internal/copy_on_write.h MutableValue"), ("bounded array", "ink/types/small_array.h Resize")], over=("histories", "inputs"))
prop("B01", "Brushes and families exist exactly when valid; rejected edits change nothing",
 """A brush is created exactly when size and epsilon are finite, epsilon is positive, and size is at least epsilon; the size and epsilon setters apply the same rule, store an accepted value, and leave everything unchanged when they reject.
    A brush family is created exactly when it has at most ten coats, each with exactly one valid tip and a valid paint, and its URI is empty or names a brush family; it stores the coats, URI and input model given.
    A coat requires position, derivatives, labels and opacity shift always, color shift exactly when a behavior targets hue, saturation or luminosity, and surface UV exactly when a texture layer uses winding mapping.""",
 "every float size and epsilon, every coat count up to twelve, every behavior target and texture mapping", ["ink/brush/brush.cc", "ink/brush/brush_family.cc", "ink/brush/brush_coat.cc"],
 [("validation in Create and setters", "ink/brush/brush.cc"), ("coat count and per-coat validation", "ink/brush/brush_family.cc Create"), ("attribute selection", "ink/brush/brush_coat.cc GetRequiredAttributeIds")])
prop("B02", "Brush tips and behaviors are accepted exactly when each documented range holds",
 """A brush tip is accepted exactly when its scale is finite, non-negative and not all zero, corner rounding and pinch are in [0, 1], slant is in [-π/2, π/2], rotation is finite, opacity multiplier is in [0, 2], particle gaps are finite and non-negative, and every behavior is valid.
    A behavior node is accepted exactly when its enumerators are named ones, its ranges are finite with distinct ends, its constant is finite, its damping gap finite and non-negative, its tool set non-empty, its response curve valid, and a time-since-input source clamps.
    A behavior is accepted exactly when every node is valid and the nodes, read as a postfix expression, never underflow the stack and leave it empty.""",
 "every float of each field in turn, every integer enumerator value, every node kind with zero to four operands and targets", ["ink/brush/brush_tip.cc", "ink/brush/brush_behavior.cc"],
 [("range checks", "ink/brush/brush_tip.cc ValidateBrushTip"), ("node validators and stack simulation", "ink/brush/brush_behavior.cc ValidateBrushBehavior")])
prop("B03", "Easing functions are accepted exactly when their parameters are valid",
 """A cubic Bézier easing is accepted exactly when x1 and x2 are in [0, 1] and y1 and y2 are finite; a predefined easing when its enumerator is named.
    A linear easing is accepted exactly when every point has x in [0, 1] and finite y and the x values do not decrease; a step easing when its position is named and it has at least one step, or two with jump-none.""",
 "every float and integer of each parameter, up to four linear points", ["ink/brush/easing_function.cc"], [("variant validators", "ink/brush/easing_function.cc ValidateEasingFunction")])
prop("B04", "Brush paints are accepted exactly when every texture layer and keyframe is valid",
 """A texture layer is accepted exactly when its URI names a texture, all six enumerators are named, its size is finite and positive, size jitter is between zero and the size, offset jitter and opacity are in [0, 1], rotation and rotation jitter are finite, and every keyframe is valid; offsets must be finite and offsets in [0, 1] are accepted.
    A keyframe needs progress in [0, 1] and, where present, finite positive size, offset and opacity in [0, 1] and finite rotation.
    A paint is accepted exactly when every layer is valid and all layers share one mapping.""",
 "every float of each field in turn, every integer enumerator value, up to three layers and two keyframes", ["ink/brush/brush_paint.cc"], [("layer, keyframe and paint validators", "ink/brush/brush_paint.cc")])
prop("B05", "Equality of brush tips, behaviors, easings and paints compares every field",
 """Two brush tips, behavior nodes, behaviors, easing functions, keyframes, texture layers or paints compare equal when all their fields are equal and unequal when any one field differs, in either argument order, and inequality is the negation of equality.
    Equal keyframes, texture layers and paints hash equally.""",
 "every field of every specification type, arbitrary values in disjoint ranges", ["ink/brush/brush_tip.h", "ink/brush/brush_behavior.cc", "ink/brush/easing_function.cc", "ink/brush/brush_paint.cc"], [("field-wise comparison operators", "ink/brush")])
prop("B06", "Behavior nodes compute their documented values and treat missing data as null",
 """Each source node reads its own input property (or is null when the input lacks it), maps its value range linearly to 0..1 and applies its out-of-range policy (clamp, repeat, mirror); constant, fallback-filter, tool-type-filter, binary-operation and interpolation nodes push the documented result, null operands giving null.
    A target node interpolates its modifier range by its operand, keeps the previous modifier when the operand is null and never stores a non-finite modifier; a damping node snaps to the first non-null value, keeps its value for null input or no progress, and otherwise approaches the input exponentially, each node writing only its own state.""",
 "every source, operator, filter and target, every presence combination of optional input properties, arbitrary finite values", ["ink/strokes/internal/brush_tip_modeler_helpers.cc"],
 [("per-node evaluation", "ink/strokes/internal/brush_tip_modeler_helpers.cc ProcessBehaviorNodeImpl"), ("source values", "ink/strokes/internal/brush_tip_modeler_helpers.cc GetSourceValue")])
prop("B07", "Behavior modifiers change only their target and keep tip states in range",
 """A tip state starts from the brush tip and size; each target modifier changes only the fields it names, width, height, size, saturation and opacity modifiers multiplying and the others adding, position offsets in multiples of brush size along axes or along the direction of travel (without direction they have no effect).
    Whatever the modifiers, width and height stay in zero to twice the base, corner rounding and pinch in [0, 1], slant in [-π/2, π/2], hue offset in [0, 1], saturation in [0, 2], luminosity in [-1, 1] and opacity in [0, 2].
    Interpolating tip states or modeled inputs interpolates each attribute linearly, angles the short way round and normalised, takes non-shape tip attributes from the second state, and leaves absent what neither input has.""",
 "every target and ordered pair of targets, modifiers up to a million in magnitude, every valid tip", ["ink/strokes/internal/brush_tip_modeler_helpers.cc", "ink/strokes/internal/brush_tip_state.cc"],
 [("modifier accumulation and clamping", "ink/strokes/internal/brush_tip_modeler_helpers.cc CreateTipState"), ("tip state interpolation", "ink/strokes/internal/brush_tip_state.cc LerpShapeAttributes")])
prop("B08", "Easing functions evaluate to their documented curves and critical points",
 """A linear easing is the polyline through its points with implicit ends (0,0) and (1,1), taking at a repeated x the first point's branch before it and the last point's at and after it; a step easing has its step count, heights and starting value by its jump position, is 0 before 0 and 1 from 1 on; the predefined easings are the identity, the documented cubic Béziers and steps.
    A cubic Bézier easing follows its curve from 0 to 1 within the accuracy of its table, is constant outside [0, 1], and NaN maps to NaN.
    Critical points list every kink, every step (with the value just before it) and every turn of a Bézier, in increasing order.""",
 "every float position, arbitrary point heights, step counts up to six, representative control abscissas with arbitrary ordinates", ["ink/strokes/internal/easing_implementation.cc"],
 [("set-up of the evaluation form", "ink/strokes/internal/easing_implementation.cc SetUpImplementationType"), ("evaluation", "ink/strokes/internal/easing_implementation.cc GetY")])
prop("G05", "Interpolation, barycentric and line-intersection helpers compute their formulas",
 """Lerp, inverse lerp and linear map on floats, points, vectors, angles and colors are the linear formulas, with equal ends mapped to zero; normalised angle interpolation goes the short way and lands in [0, 2π); spiral interpolation is exact at both ends and varies direction and magnitude linearly, also beyond the ends; the envelope of a mutable mesh is the tight bounds of all its vertices.
    Barycentric coordinates sum to one and reproduce the point and are absent for zero area; the vector to a segment's line is orthogonal to it and lands on it and is absent for a degenerate segment.
    Line and segment intersection ratios name the same point on both, segment ratios lie in [0, 1], are found whenever both line ratios do, follow the documented choice for collinear overlaps and point-like segments, and are absent for parallel lines apart.""",
 "every float up to 1e4 in magnitude per coordinate", ["ink/geometry/internal/algorithms.cc"], [("formulas and guards", "ink/geometry/internal/algorithms.cc")])
prop("G06", "Intersection tests and distances agree with the geometry of the shapes",
 """Points, segments, triangles, rectangles and quads intersect exactly when their closed regions share a point (touching counts, full containment counts), in either argument order; a shape collapsed to a point acts as that point, and a segment always intersects its own endpoints, however short.
    The distance between two shapes is zero when they intersect and otherwise the smallest separation between them, the same in either order, also for shapes many orders of magnitude smaller or larger.
    Rectangles intersect exactly when their closed ranges overlap on both axes.""",
 "every pair of shape kinds, sizes and orientations of a catalog, a grid of relative placements, each coordinate free within a small box; arbitrary floats for points and rectangles; placements within 0.15 of touching are only covered by the exact touching families",
 ["ink/geometry/intersects.h", "ink/geometry/internal/intersects_internal.cc", "ink/geometry/distance.h", "ink/geometry/distance.cc"],
 [("pairwise intersection tests", "ink/geometry/internal/intersects_internal.cc"), ("pairwise distances", "ink/geometry/distance.cc")])
prop("G07", "The convex hull is the tight counter-clockwise outline of its points",
 """The hull of two or more points starts at the lowest point, leftmost among ties, and runs counter-clockwise through the corners of the smallest convex region containing every point, listing each corner once, taking every vertex from the given points and none that lies between two others.
    Points above each other, on one line or coincident are no exception (coincident points give one vertex), and neither is the number of points, above five hundred included.
    Fewer than two points are returned as they are.""",
 "every three and four points of a three-by-three grid; four points in general position, each free within a box; four points on a line in every order; 520 inner points with four outlines", ["ink/geometry/convex_hull.h", "ink/geometry/internal/convex_hull_helper.h"],
 [("sorting and concavity removal", "ink/geometry/internal/convex_hull_helper.h ConvexHull"), ("pruning of inner points", "ink/geometry/internal/convex_hull_helper.h PruneUsingAkiToussaint")])
prop("G08", "Tessellated polylines keep their points and take triangles from the tessellator",
 """A mesh is made from a polyline of three or more points exactly when the tessellator succeeds with at least one triangle: fewer points are an invalid argument, and no triangles an internal error.
    All points are handed over as one contour in order with the non-zero winding rule; the mesh has the points in order as its first vertices, then one vertex at each reported crossing, each crossing added once, and the reported triangles in order and corner order.
    Generic tessellation hands over every contour with the given winding rule, keeps input vertices with their attributes, fills a new vertex's attributes once from the input vertices around it, and releases the tessellator whatever the outcome.""",
 "scripted outputs of a model of libtess2 with shared, reordered and unused elements; crossing positions within boxes; every winding rule", ["ink/geometry/tessellator.cc", "ink/geometry/internal/generic_tessellator.h"],
 [("contours and results", "ink/geometry/internal/generic_tessellator.h PopulateResult"), ("mesh creation", "ink/geometry/tessellator.cc CreateMeshFromPolyline")])
prop("G09", "Polylines are closed and trimmed as documented before meshing",
 """Processing a polyline finds its first and last self-intersections and connects an endpoint to the nearest place on a non-adjacent segment that is closer than the maximum connection distance, at least the minimum walking distance from it, with walking over straight-line distance at least the minimum connection ratio and, where intersections exist, the walk to the nearest one over that distance at least the minimum trimming ratio.
    A connected end keeps its points and gains the connecting point; an end that is not connected is trimmed to its outermost intersection, counting one made by the other end's connection; without intersections or connections the polyline is returned unchanged.
    Repeated points and polylines of fewer than two points are processed like any other, without aborting.""",
 "four hundred polylines of five to ten points on grids and seven drawn shapes in four placements, six parameter sets; ties between equally near connections are not decided", ["ink/geometry/internal/polyline_processing.h", "ink/geometry/internal/polyline_processing.cc"],
 [("intersections", "ink/geometry/internal/polyline_processing.cc FindFirstAndLastIntersections"), ("connections", "ink/geometry/internal/polyline_processing.cc FindBestEndpointConnections"), ("rebuilding", "ink/geometry/internal/polyline_processing.cc CreateNewPolylineFromPolylineData")])
prop("M01", "Mesh formats accept the documented attributes and lay them out consistently",
 """A mesh format is created exactly when every attribute type and identifier is a named one, identifiers are distinct, a two-component position attribute is present and the attribute count is within the maximum; the named types have the documented component counts, packed and unpacked widths and bits.
    Attributes keep their order, offsets are the running sums of widths and the strides the totals, packed and unpacked, and removing attributes keeps the others in order and refuses the position.
    Packed equivalence, unpacked equivalence, equality and hashing depend exactly on the documented parts.""",
 "every attribute type and identifier, every list of up to three attributes of every type, and the longest list", ["ink/geometry/mesh_format.h", "ink/geometry/mesh_format.cc"],
 [("format validation and layout", "ink/geometry/mesh_format.cc Create"), ("equivalence of formats", "ink/geometry/mesh_format.cc")])
prop("M02", "Vertex packing is bit-exact, parameters cover the values, partitions are whole",
 """Packing writes each component, rounded to the nearest step of its own offset and scale, as the documented bit layout of the attribute type and nothing beyond it; unpacking recovers the integers and yields offset plus scale times integer; unpacked types are stored unchanged.
    Computed parameters have the minimum as offset, a positive finite scale that spreads the range over all steps (one for an empty range), reject ranges that overflow, and custom parameters are used exactly when they match the attribute, are finite and positive and represent the values.
    Splitting triangles into partitions keeps every triangle once and in order with its own vertices, never exceeds the vertex limit, and copying a partition packs the selected vertices in order without omitted attributes and with overridden positions.""",
 "every packed type with every integer value of every component; arbitrary float bounds; every sharing pattern of two triangles and a catalog of up to four", ["ink/geometry/internal/mesh_packing.h", "ink/geometry/internal/mesh_packing.cc", "ink/geometry/mesh_packing_types.h"],
 [("bit packing per attribute type", "ink/geometry/internal/mesh_packing.cc PackAttribute, UnpackAttribute"), ("coding parameter choice", "ink/geometry/internal/mesh_packing.cc ComputeCodingParamsArray"), ("partitioning", "ink/geometry/internal/mesh_packing.cc PartitionTriangles")])
prop("M03", "Meshes are created from valid data only and read back what was given",
 """A mesh is created exactly when there is one equally long column per attribute component, at most 65536 vertices, only finite values with representable ranges, three indices per triangle, every index below the vertex count, and packing parameters that are absent or valid for each attribute.
    It reads back its format, counts, triangles and corner positions, unpacked attributes exactly and packed ones within half a step of their parameters, which are the given ones or else span the bounds; attribute bounds and envelope are the tight minimum and maximum.
    Without vertices it has no bounds and ignores packing parameters; copies share their data.""",
 "every column count, column length, value, index and parameter in turn arbitrary, meshes of up to three vertices", ["ink/geometry/mesh.h", "ink/geometry/mesh.cc"], [("validation", "ink/geometry/mesh.cc Create"), ("bounds and packing", "ink/geometry/mesh.cc ComputeAttributeBounds, PackVertexByteData")])
prop("M04", "Mutable meshes hold exactly what edits wrote; conversion loses no triangle",
 """Appending, setting, inserting, resizing, clearing, resetting, cloning, moving and copying from a mesh change exactly the vertices, attributes and triangles named, keep counts and raw data in step, and zero whatever is new; clones are independent.
    Triangle validation succeeds exactly when every triangle names three distinct existing vertices, and conversion to meshes fails on invalid triangles, non-finite values, invalid parameters, and omitted positions or absent attributes, and yields no mesh without triangles.
    Converted meshes keep every triangle in order with the attributes of its corners, drop unreferenced vertices and omitted attributes, and quantize positions to the nearest step unless that would flip a triangle, never by more than one step.""",
 "every edit at every position of meshes of up to four vertices and three triangles, arbitrary values and both index widths; quantization on a catalog of triangles", ["ink/geometry/mutable_mesh.h", "ink/geometry/mutable_mesh.cc"], [("edits", "ink/geometry/mutable_mesh.h"), ("conversion and flip correction", "ink/geometry/mutable_mesh.cc AsMeshes")], over=("inputs", "histories"))
prop("C01", "Colors never hold NaN, keep alpha in [0, 1] and convert formats faithfully",
 """However a color is made, no channel is NaN (a NaN input counts as zero) and alpha lies in [0, 1] after clamping; linear channels are stored as given, gamma-encoded ones decoded, premultiplied ones divided by alpha, a premultiplied color channel under zero alpha is rejected, and alpha never depends on the format.
    Reading a color in a format undoes making it in that format; eight-bit channels are the nearest of 255 steps, clamped to their range, and round-trip exactly in linear and gamma-encoded formats, in RGBA or ARGB packing order; defaults and named colors are gamma-encoded sRGB.
    Equality holds exactly when color space and all channels agree; nearly equal compares channels after conversion to one color space; replacing alpha keeps everything else.""",
 "every float per channel, every format and color space, every byte value", ["ink/color/color.h", "ink/color/color.cc"], [("construction", "ink/color/color.cc FromFloat"), ("reading", "ink/color/color.cc AsFloat, AsUint8"), ("packing", "ink/color/color.cc PackUint32ARGB")])
prop("C02", "Gamma curves, color space conversions and gamut operations are as documented",
 """Both color spaces use the sRGB gamma curve, linear near zero and never NaN, encoding inverts decoding, and its parameters are the documented ones.
    Conversion between sRGB and Display P3 is the published linear map through D65 XYZ, inverts itself, leaves the same space and alpha unchanged, and matrices come in the requested layout.
    A color is in gamut exactly when its color channels lie in [0, 1]; clamping moves each channel to its nearest in-gamut value, scaling zeroes negative channels and divides by the largest one so that it becomes one, infinite or not; colors in gamut stay unchanged.""",
 "every float per channel where order decides, the curve at 101 points and its linear part everywhere, conversions over [-2, 2] per channel", ["ink/color/color.cc", "ink/color/color_space.cc"], [("gamma", "ink/color/color_space.cc GammaDecode, GammaEncode"), ("matrices", "ink/color/color_space.cc"), ("gamut", "ink/color/color.cc ClampedToGamut, ScaledToGamut")])
prop("M05", "Partitioned meshes are created from valid groups only and read back by group",
 """A partitioned mesh is created exactly when every mesh has triangles, all meshes of a group share one format, and every outline is non-empty and names existing meshes and vertices of its own group; from mutable meshes, when conversion succeeds and outlines name existing vertices.
    Meshes, formats, outlines and outline positions are read back per group in the given order, with empty groups and empty outlines of mutable meshes handled, bounds are the tight union of all meshes, and copies share data and index.
    Reading a group, outline or outline vertex that does not exist never returns.""",
 "every group, position and index of a three-group catalog in turn arbitrary", ["ink/geometry/partitioned_mesh.h", "ink/geometry/partitioned_mesh.cc"], [("validation", "ink/geometry/partitioned_mesh.cc Data::FromMeshGroups"), ("outline mapping", "ink/geometry/partitioned_mesh.cc FromMutableMeshGroups")])
prop("M06", "Queries of partitioned meshes find exactly the triangles that intersect",
 """Visiting calls the visitor exactly once for each triangle that the query, mapped by its transform, intersects, across all meshes and groups and however many triangles there are, and stops at the first break.
    Coverage is the area share of those triangles, comparing it with a threshold agrees with it, and a mesh intersects a shape or another mesh exactly when some triangle does, in either argument order; a transform that collapses the mesh makes it act as the segment or point it collapses to.
    A partitioned mesh without meshes, with or without groups, is never visited, has zero coverage and intersects nothing, and any query initializes the index that copies share.""",
 "queries on a grid around a fixed scene, each clear of touching by 0.05; four invertible and seven collapsing transforms; index sizes 1, 16, 17, 35, 36 (thorough up to 289)", ["ink/geometry/partitioned_mesh.cc", "ink/geometry/intersects.cc", "ink/geometry/internal/static_rtree.h", "ink/geometry/internal/algorithms.cc"], [("spatial index", "ink/geometry/internal/static_rtree.h"), ("visits and coverage", "ink/geometry/partitioned_mesh.cc"), ("collapsed meshes", "ink/geometry/internal/algorithms.cc CalculateCollapsedSegment")])
prop("S03", "Strokes keep brush and inputs, and their shape follows exactly when needed",
 """A stroke stores the brush and inputs it is given, even its own, and its shape always has one render group per brush coat, generated from all inputs at their full duration, or without geometry when inputs are empty or the geometry cannot be packed; a given shape with another number of groups is refused.
    Setting brush or family regenerates the shape exactly when tips, size or epsilon differ, setting inputs or brush and inputs always does, and setting the color never does; a rejected or equal size or epsilon changes nothing.
    Copies of a stroke are unaffected by changes to the original.""",
 "up to three coats and inputs, every setter, every single difference between brushes, every float as size or epsilon", ["ink/strokes/stroke.h", "ink/strokes/stroke.cc"], [("setters", "ink/strokes/stroke.cc SetBrush, SetBrushFamily, SetBrushSize, SetInputs"), ("regeneration", "ink/strokes/stroke.cc RegenerateShape")])
prop("S04", "In-progress strokes follow their protocol and never mix up inputs",
 """Inputs can be enqueued exactly between start and finish and only when they continue the last real input validly; updates need a start and non-decreasing non-negative time; whatever is refused changes nothing, and starting or clearing forgets everything.
    After an update the processed inputs are all real inputs in order followed by only the latest prediction, geometry of every coat is built from exactly these with that coat's tips of the stroke's own brush, the updated region accumulates until reset, and an update is needed exactly while inputs are queued, animations run, or a finished stroke still holds predictions.
    Copies hold the processed inputs, brush and geometry, with all or only the needed attributes, and are independent of the stroke; reading a coat that does not exist never returns.""",
 "every sequence of three (thorough four) of twelve operations from five starting situations; every time value; every format difference at every joint", ["ink/strokes/in_progress_stroke.h", "ink/strokes/in_progress_stroke.cc"], [("protocol", "ink/strokes/in_progress_stroke.cc EnqueueInputs, UpdateShape, NeedsUpdate"), ("copies", "ink/strokes/in_progress_stroke.cc CopyToStroke")], over=("inputs", "histories"))
prop("S05", "Modeling inputs step by step equals modeling the whole stroke at once",
 """However a stroke's real inputs are split over ExtendStroke calls and whatever was predicted meanwhile, the modeled inputs, distances, times and counts are those of the real inputs so far followed by only the latest prediction; inputs counted as stable never change afterwards, and their count never drops.
    Every modeled input keeps the position, motion, time and attributes the smoothing filter gave it, lies at least epsilon from the one before, and its traveled distance is the path length so far; total real distance and time are those of the last modeled real input, complete ones never less than now.
    Tool type and unit length come from the first input, real or predicted; starting forgets the previous stroke and refuses a non-positive or NaN epsilon, and extending before starting never returns.""",
 "every sequence of four (thorough five) of nine operations from nine beginnings; every attribute value, gap and unit length", ["ink/strokes/internal/stroke_input_modeler.h", "ink/strokes/internal/stroke_input_modeler.cc"], [("incremental modeling", "ink/strokes/internal/stroke_input_modeler.cc ExtendStroke, ModelInput"), ("stable counts", "ink/strokes/internal/stroke_input_modeler.cc")], over=("inputs", "histories"))
prop("S06", "The shape builder drives its stages in order and reports their results",
 """Starting a stroke starts the input modeler with the brush's input model and epsilon, the tip modeler with the coat's tip and brush size, and the extruder with the epsilon, asking for winding texture coordinates only for a particle brush with winding texture mapping, and clears bounds, mesh and outlines; a coat must have exactly one tip.
    Extending models the inputs, then the tips from the updated inputs, then extrudes exactly the new fixed and the volatile tip states; the update, the bounds and the non-empty outlines in order are those of the extruder, also after the builder is moved.
    Joining two shape updates joins their regions and keeps the smaller of each offset, or the only one present.""",
 "every combination of gaps, texture layers and mappings, outline counts, offsets, sizes and times", ["ink/strokes/internal/stroke_shape_builder.h", "ink/strokes/internal/stroke_shape_builder.cc", "ink/strokes/internal/stroke_shape_update.h", "ink/strokes/internal/stroke_shape_update.cc"], [("builder", "ink/strokes/internal/stroke_shape_builder.cc StartStroke, ExtendStroke"), ("update record", "ink/strokes/internal/stroke_shape_update.cc Add")], over=("inputs",))
prop("S07", "Fixed tip states never depend on inputs that can still change",
 """The fixed tip states handed out over several updates followed by the last volatile ones are exactly the states a new modeler would produce from the last update alone, whatever unstable inputs came and went: a state is fixed once its input is stable, is farther behind the last stable input than the brush's distance-remaining and time-since ranges reach, and, if the brush uses the direction of travel as a source or a target, has a stable successor.
    Without behaviors there is one state per input at its place with the tip's own shape scaled by the brush size; every damping node and target keeps its own value, and a behavior without a value leaves its target untouched.
    With particle gaps, particles follow one another at exactly the gap in distance and in time, separated by zero-size states; time behaviors count as unfinished exactly while now is closer to the last real input than their range reaches; a null tip or non-positive or non-finite size is refused.""",
 "every source, target and node kind, unknown attribute values, four kinds of unstable tail, three updates", ["ink/strokes/internal/brush_tip_modeler.h", "ink/strokes/internal/brush_tip_modeler.cc", "ink/strokes/internal/brush_tip_modeler_helpers.cc"], [("fixed and volatile states", "ink/strokes/internal/brush_tip_modeler.cc UpdateStroke, CalculateMaxFixedInputMetrics"), ("particles", "ink/strokes/internal/brush_tip_modeler.cc ProcessSingleInput")], over=("inputs", "histories"))
prop("S08", "A stroke outline lists its right side backwards, then its left side",
 """However indices were appended to and truncated from the two sides of a StrokeOutline, GetIndices lists all current right indices from the newest to the oldest followed by all current left indices from the oldest to the newest, and GetIndexCounts gives their numbers.
    Truncating a side to a count keeps its oldest indices and leaves it alone when it has no more than that; the other side is unaffected.
    Moving an outline moves its contents.""",
 "every sequence of three (thorough four) of nine operations from six beginnings", ["ink/strokes/internal/stroke_outline.h", "ink/strokes/internal/stroke_outline.cc"], [("outline", "ink/strokes/internal/stroke_outline.cc")], over=("histories",))
prop("S09", "Stroke vertices keep their labels, margins and layout through meshes and packing",
 """A label's margin is clipped to 0 to 4 and rounded down to one of 126 equal steps without changing its category, decodes to that step, and exterior labels name left, front negative and right, back positive; interpolating vertices interpolates opacity, color shift and texture coordinates linearly, zeroes derivatives, keeps a label with full margin at the ends or where both agree and otherwise makes it interior, and between three vertices does so only along an edge.
    StrokeVertex has exactly the unpacked layout of its full mesh format, every accessor reads and writes its own attribute of its own vertex, and appending or setting a vertex clamps color shifts to [-1, 1]; attribute lookup finds each attribute's index or -1.
    Custom packing parameters are the documented constants for packed opacity, color shift, labels and texture coordinates, absent for everything else, with no entry for skipped attributes; all labels and unshifted colors survive packing.""",
 "every label value and margin, arbitrary attribute values and interpolation positions, every subset and order of attributes", ["ink/strokes/internal/stroke_vertex.h", "ink/strokes/internal/stroke_vertex.cc"], [("labels", "ink/strokes/internal/stroke_vertex.cc WithMargin, DecodeMargin"), ("interpolation", "ink/strokes/internal/stroke_vertex.cc Lerp, BarycentricLerp"), ("packing parameters", "ink/strokes/internal/stroke_vertex.cc MakeCustomPackingArray")])
prop("R01", "Mesh specifications accept supported formats and read the right bytes",
 """A mesh specification for a stroke is created exactly when the mesh format has opacity shift, side and forward derivatives and labels, with opacity shift right after position and each label right after its derivative, and every combination of packed types is one of the two documented ones (floats or four bytes), color shift and surface UV being optional; anything else is an invalid-argument error.
    Each shader attribute then has the type for its packed data and the packed offset of its first attribute, the stride is the packed stride, and each unpacking uniform names the index of its own mesh attribute; for in-progress strokes, whose format alone is accepted, offsets and stride are the unpacked ones and no unpacking uniforms exist.
    Every named uniform has its own non-empty name, other values have none, and attribute and varying names are distinct.""",
 "every attribute type in every slot, every removal, swap, insertion and order of attributes", ["ink/rendering/skia/common_internal/mesh_specification_data.h", "ink/rendering/skia/common_internal/mesh_specification_data.cc"], [("validation", "ink/rendering/skia/common_internal/mesh_specification_data.cc GetValidatedStrokeAttributeTypesAndOffsets"), ("specifications", "ink/rendering/skia/common_internal/mesh_specification_data.cc CreateForStroke, CreateForInProgressStroke")])
prop("R02", "Shaders reproduce on the GPU the vertices the CPU packed",
 """The vertex and fragment shaders of every supported format compile against the attributes, varyings and uniforms declared for them, and decode every packed position, opacity shift, color shift, label, derivative and surface UV to the value the CPU packed.
    An interior vertex is drawn at its own position with the brush color, unclamped and premultiplied, its alpha scaled by one plus the opacity shift and saturated and its hue, saturation and luminosity shifted in YIQ; texture coordinates are the surface UV for winding textures where there is one and the position otherwise.
    An exterior vertex moves outwards across its edge by up to 0.707 canvas pixels under the object-to-canvas transform, limited by its margin, outsets that share a direction counting once; coverage ramps from zero at the moved edge to one 1.41 pixels inside.""",
 "every bit pattern of every packed component, seven vertex formats, a set of colors, shifts, transforms and labels", ["ink/rendering/skia/common_internal/sksl_common_shader_helper_functions.h", "ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h", "ink/rendering/skia/common_internal/sksl_fragment_shader_helper_functions.h", "ink/rendering/skia/common_internal/mesh_specification_data.cc", "ink/strokes/internal/stroke_vertex.cc", "ink/geometry/internal/mesh_packing.cc"], [("shader main functions", "ink/rendering/skia/common_internal/mesh_specification_data.cc kVertexMain*, kFragmentMain"), ("unpacking and outsets", "ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h"), ("coverage", "ink/rendering/skia/common_internal/sksl_fragment_shader_helper_functions.h")])
prop("R03", "Texture layers become the shader and blender their paint describes",
 """A brush paint's shader draws each layer's own texture with its wrap modes, scaled by layer size times texture offset and size in texels, then by the brush size where that is its unit, and moved to the first or last stroke input where that is its origin; each later layer is blended as destination with the layers before it as source using the blend mode of the layer before, the blender is that of the last layer, and paint without layers has neither.
    A missing texture store is a failed-precondition error, an unknown texture the store's own error, and a bitmap with non-positive size, unknown pixel format or any number of bytes but four per pixel an invalid-argument error; images are asked for once per texture, failures are never remembered, and nothing that belongs to one stroke is.
    Images hold the bitmap's own pixels, size, alpha type, and color space, which is linear unless the colors are gamma encoded.""",
 "every enumerator and pair of wraps, up to three layers, up to three inputs; arbitrary sizes, offsets and positions", ["ink/rendering/skia/native/internal/shader_cache.cc", "ink/rendering/bitmap.h", "ink/rendering/bitmap.cc"], [("shaders", "ink/rendering/skia/native/internal/shader_cache.cc GetShaderForPaint"), ("bitmaps", "ink/rendering/bitmap.cc ValidateBitmap")])
prop("R04", "The Skia renderer draws every coat's meshes or outlines with its own values",
 """Drawing sets the canvas matrix to the object-to-canvas transform and then draws, coat by coat in order and skipping empty ones, each mesh of the coat with its own vertices, 16-bit triangle indices and bounds, or without a graphics context each non-empty outline as a closed, winding-filled, antialiased polygon through exactly its positions; nothing to draw is no error, and a failure is returned before anything is drawn.
    Meshes get the brush color as linear sRGB, the linear part of the transform by columns, the first texture layer's mapping, the packing parameters of the coat's first mesh for position and derivatives, and the coat's own shader and blender; paths get that color with alpha times the coat's opacity multiplier.
    Changing color or transform of a drawable affects neither its copies nor uniform data handed out earlier; absent or wrongly typed uniforms count as missing, setting one never returns, specifications are kept per format, and null buffers or specifications never become drawables.""",
 "up to three coats with and without textures, contexts, inputs and meshes; arbitrary colors, transforms and packing parameters", ["ink/rendering/skia/native/skia_renderer.h", "ink/rendering/skia/native/skia_renderer.cc", "ink/rendering/skia/native/internal/mesh_drawable.cc", "ink/rendering/skia/native/internal/mesh_uniform_data.h", "ink/rendering/skia/native/internal/mesh_uniform_data.cc", "ink/rendering/skia/native/internal/path_drawable.cc", "ink/rendering/skia/native/internal/create_mesh_specification.cc", "ink/rendering/skia/native/internal/mesh_specification_cache.cc"], [("renderer", "ink/rendering/skia/native/skia_renderer.cc CreateDrawable"), ("uniforms", "ink/rendering/skia/native/internal/mesh_uniform_data.cc"), ("paths", "ink/rendering/skia/native/internal/path_drawable.cc MakePolygonPath")])
D = "ink/strokes/internal/brush_tip_extruder/"
prop("X01", "The extruder's mesh view changes and reports exactly what it is told",
 """Through a view of a mutable mesh or of legacy vectors, every vertex, position, derivative, label, triangle and corner reads back as last set, appended, inserted or resized; views of legacy vectors keep position, color and texture coordinates, report zero derivatives and interior labels and ignore setting those.
    The first mutated vertex and triangle are the smallest index set, inserted at or resized to since the last reset, or the size then if none; appending never lowers them.
    No accessor returns for an index past the end, for a view without mesh, or for a mesh whose unpacked format is not that of stroke vertices; extruded vertices interpolate all attributes linearly, compare all fields, and survive the legacy form in all legacy fields.""",
 "every pair (thorough triple) of eleven operations at every index on both kinds of view, arbitrary values", [D + f for f in ("mutable_mesh_view.h", "mutable_mesh_view.cc", "extruded_vertex.h", "extruded_vertex.cc")] + ["ink/strokes/internal/legacy_vertex.h", "ink/strokes/internal/legacy_vertex.cc"], [("view", D + "mutable_mesh_view.cc"), ("vertices", D + "extruded_vertex.cc Lerp, BarycentricLerp")])
prop("X02", "Extruder outlines, searches and simplification find what they should",
 """A partial outline lists the starting side backwards from its last offset (the start of a running retriangulating intersection, else the last index) to the partition start, then the ending side forwards likewise, or not at all when the outline does not connect the sides.
    Searching it for a segment finds the first piece of nonzero length that crosses, with the place along both as fractions and the budget left after the distance travelled, and finds nothing beyond the budget or after a piece that ends outside the containing triangle; an outline of one place is met by segments through it.
    Simplifying keeps the first and last points and exactly those the Ramer-Douglas-Peucker algorithm keeps, unchanged and in order; the first exterior vertices per side, the start of a run of coincident connected vertices and the last clockwise edge of a triangle fan, skipping repeated points and jumping discontinuities, are found; a lattice point is left of, right of or on a line, and inside a triangle of either winding, edges included, exactly when it is.""",
 "outlines of up to five, lines of up to six, fans of up to six points moving in boxes; every partition, discontinuity and range; six triangles in every order on a lattice", [D + f for f in ("directed_partial_outline.h", "directed_partial_outline.cc", "simplify.cc", "derivative_calculator_helpers.cc", "find_clockwise_winding_segment.cc", "side.h")] + ["ink/geometry/internal/legacy_segment_intersection.cc", "ink/geometry/internal/legacy_triangle_contains.cc", "ink/geometry/internal/legacy_vector_utils.cc"], [("outlines", D + "directed_partial_outline.cc"), ("simplification", D + "simplify.cc"), ("winding", D + "find_clockwise_winding_segment.cc")])
I = "ink/strokes/internal/"
prop("X03", "Circles and rounded polygons have the tangents, arcs and insides they should",
 """A circle keeps its center and radius, gives the point at any angle, contains exactly the circles inside it (touching from inside included), and refuses negative or NaN radii; two circles have tangents exactly when neither contains the other, at the direction between the centers plus and minus the arc cosine of the difference of radii over the distance, as angles in (-pi, pi].
    The arc of a chord height h has the angle 2 acos(1 - h/r), none for heights up to zero or a radius of zero; an arc appended to a polyline consists of the fewest evenly spaced points, at least two, whose chords stay within the height, from exactly its start to its end, of the center twice for a circle of radius zero, and a chord height up to zero is refused.
    A rounded polygon of two or more circles has per circle the arc between the tangents to its neighbours, between them the tangent segments, contains exactly the circles inside the hull so drawn, and refuses fewer circles or neighbours that contain each other.""",
 "arbitrary radii, centers, angles and heights; circles in every relation; polygons of two to five circles", ["ink/geometry/internal/circle.h", "ink/geometry/internal/circle.cc", I + "rounded_polygon.h", I + "rounded_polygon.cc"], [("circles", "ink/geometry/internal/circle.cc"), ("polygons", I + "rounded_polygon.cc")])
prop("X04", "Tip shapes get the circles, tangents and outline points of their states",
 """The shape of a tip state is the convex hull of one, two, three or four circles in counter-clockwise order, from width, height, percent_radius, pinch, slant, rotation and position as documented, with radii below the least radius becoming points and centers closer than it merged; its center, bounds and containment of other shapes are those of that hull, and negative, NaN or excessive sizes are refused.
    For shapes apart from each other, and overlapping ones whose tangents turn less than a quarter from the travel, the tangent circles on either side are those the outer tangents touch; at a turn the outline follows the hull between the tangents on the outer side and is the single intersection of the tangents on the inner side where that lies near.
    Outline points of a whole shape, of a start cap and of an end cap lie on the hull, cover it within the chord height, run from tangent to tangent, left points left and right points right of the travel, and are appended after existing ones.""",
 "tips of every form (point, circle, pill, stadium, square, rounded, pinched, slanted), all pairs and directions; coordinates moving in boxes or exact", [I + f for f in ("brush_tip_shape.h", "brush_tip_shape.cc", "circular_extrusion_helpers.h", "circular_extrusion_helpers.cc", "extrusion_points.h", "brush_tip_state.h")], [("shapes", I + "brush_tip_shape.cc"), ("circles", I + "circular_extrusion_helpers.cc")])
prop("X05", "Tip states interpolate, and extrusions are constrained to good tangents",
 """Interpolating the shape attributes of two tip states mixes width, height, percent_radius, pinch and slant linearly and the rotation the shorter way around, in [0, 2 pi), and takes position, color and opacity values from the second; an extrusion keeps its state and has its shape, or is a break point.
    Two extrusions are judged as the first containing the second, the second containing the first, having good tangents, or having tangents whose joined shape does not cover both; two single circles not inside each other always have good tangents, and evaluating any two, however they overlap, never aborts.
    Constraining returns the two containments and good tangents as such with amount -1, otherwise the state interpolated at an amount below 1 whose tangents are good while those half to the power of the iterations further are not, or that there is none when even amount zero is bad.""",
 "arbitrary attribute values; the tips of X04 in all pairs at three distances; six searches of up to six iterations", [I + f for f in ("brush_tip_state.h", "brush_tip_state.cc", "brush_tip_extrusion.h", "brush_tip_extrusion.cc", "constrain_brush_tip_extrusion.h", "constrain_brush_tip_extrusion.cc", "brush_tip_shape.cc")], [("quality", I + "brush_tip_extrusion.cc EvaluateTangentQuality"), ("constraining", I + "constrain_brush_tip_extrusion.cc")])
prop("X06", "Extruded strokes cover the ink of their tips and nothing else",
 """For tips of constant round, pill, rounded or rectangular shape that move by at least half their size and turn by at most about 65 degrees per step, the triangles of the extruded mesh and its outlines cover every place of the hulls of neighbouring tips, and no place outside, up to three times the brush epsilon; a single tip gives its whole shape.
    Triangles go counter-clockwise, every vertex is on exactly one outline, every part without gaps (tips narrower and lower than epsilon) has its own outline and triangles, every vertex of a straight stroke carries the color and opacity shifts of a tip it lies at, and the texture coordinates of particles span their own rectangle from 0 to 1 (others have zero).
    A tip inside the previous one adds nothing, a tip around everything since the last gap replaces it, and a tip around only the end of a part starts a new part; an epsilon that is not positive, and extending before starting, are refused.""",
 "one to six tips of four forms; turns, steps, gaps and divisions from grids; arbitrary colors and opacities", [I + "brush_tip_extruder.h", I + "brush_tip_extruder.cc", D + "geometry.h", D + "geometry.cc", D + "side.h"], [("extrusion", I + "brush_tip_extruder.cc Extrude"), ("meshes", D + "geometry.cc"), ("outlines", I + "stroke_outline.cc")], over=("inputs", "histories"))
prop("X08", "Vertex derivatives and margins follow from the triangles around a vertex",
 """Updating derivatives gives each listed vertex the mean magnitude in the mean direction of its triangles' altitudes, zero vectors left out: the side derivative from altitudes that cross between the left and right exteriors, pointing left to right; the forward derivative from altitudes onto edges whose ends have one forward category, pointing forward; consecutive listed vertices at one place with the same categories share one average.
    The side margin of a listed vertex is the smallest ratio, up to the maximum, at which moving outward along its side derivative meets one of the bounding segments of a triangle around it; it is zero for collinear triangles without coincident corners, triangles with coincident corners are ignored, and connected listed vertices at one place share the smallest margin.
    Vertices that are not listed, positions and categories stay as they are.""",
 "strips of eight vertices with coordinates on a grid, repeated vertices, interior labels and partition boundaries, updated from each of the first four vertices; opposite averages are not decided", ["ink/strokes/internal/brush_tip_extruder/derivative_calculator.h", "ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc"],
 [("derivatives", "ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc AddDerivativesForTriangle"), ("margins", "ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc AddMarginUpperBoundsForTriangle")])
prop("X07", "Volatile geometry is withdrawn without trace, and updates tell what changed",
 """After extending a stroke, its vertices (positions, colors, opacities, texture coordinates), triangles, non-empty outlines and bounds do not depend on which volatile states earlier calls were given, whether those went on, turned back, left gaps, contained or replaced what was there, nor, for tips of constant shape, on how the permanent states were divided into calls.
    Every update gives the first vertex and triangle index that may have changed (everything before it is unchanged, and without one nothing changed), and a region that contains every triangle that changed, as it was and as it is.
    The bounds are exactly those of the vertices, also when turns have moved vertices of the permanent part; starting again leaves nothing of the stroke before.""",
 "seven kinds of continuations in pairs, up to three permanent tips before and two after; five tips divided anywhere", [I + "brush_tip_extruder.h", I + "brush_tip_extruder.cc", D + "geometry.h", D + "geometry.cc", D + "mutable_mesh_view.cc", I + "stroke_outline.cc"], [("withdrawal", D + "geometry.cc RevertToSavePoint, ClearSinceLastExtrusionBreak"), ("updates", I + "brush_tip_extruder.cc ConstructUpdate"), ("bounds", I + "brush_tip_extruder.cc UpdateCurrentBounds")], over=("inputs", "histories"))
prop("X09", "Two-sided geometry undoes, freezes and tracks exactly, whatever the turns",
 """However the left and right sides turn, are processed, broken off or cleared, reverting to the save point gives back exactly the mesh and sides of when it was set and leaves nothing of what was in between in any later step; after an extrusion break earlier vertices, triangles and sides never change, clearing goes back exactly to the break, starting again forgets everything, and with intersection handling disabled the stable triangles stay.
    Every vertex is in one place of one side; first mutated vertices, triangles and side offsets, modified vertices since the save point and the visually updated region miss nothing that changed since tracking was reset; views of either kind give the same mesh, and turning everything by a quarter or scaling it (thresholds included) by a power of two turns or scales the mesh.
    Sides of constant distance that advance by a quarter of it or more and turn by up to about 34 degrees (57 when advancing by at least 0.8) give triangles that are never clockwise and cover every place between consecutive pairs, and no other unless the turn is sharper than 26 degrees at an advance below a half.""",
 "per harness 14 to 56 (thorough 60 to 240) pseudo-random histories of up to twenty steps in three styles, arbitrary opacities; ribbons of seven pairs with every sequence of turns; winding texture coordinates are not decided", [D + f for f in ("geometry.h", "geometry.cc", "side.h", "mutable_mesh_view.cc", "directed_partial_outline.cc", "simplify.cc")], [("saving and reverting", D + "geometry.cc SetSavePoint, RevertToSavePoint"), ("self-intersections", D + "geometry.cc TriangleBuilder"), ("breaks", D + "geometry.cc AddExtrusionBreak, ClearSinceLastExtrusionBreak"), ("updates", D + "geometry.cc CalculateVisuallyUpdatedRegion")], over=("inputs", "histories"))
JI = "ink/jni/internal/"; GJ = "ink/geometry/internal/jni/"; BJ = "ink/brush/internal/jni/"; SJ = "ink/strokes/internal/jni/"
prop("J01", "Statuses, exceptions, strings and enumerators cross into Java and back intact",
 """A status that is not OK becomes exactly one Java exception of the class documented for its code (IllegalStateException for all others) whose message is the whole text of the status, and a pending exception becomes the status of its class and message and is cleared; OK throws nothing.
    Strings read from Java have exactly the characters of the Java string (none for null), and every borrowed string, array and reference is released, whatever the outcome.
    Tool types and color spaces map one to one to their Java identifiers and back, unknown color spaces are refused, and a stroke input handed to or read from Java keeps its position, time in milliseconds, unit length, pressure, tilt and orientation.""",
 "every status code, listed exception classes, several texts; arbitrary input values", [JI + "jni_throw_util.cc", JI + "jni_throw_util.h", JI + "jni_string_util.cc", JI + "jni_string_util.h", "ink/color/internal/jni/color_jni_helper.cc", "ink/strokes/internal/jni/stroke_input_jni_helper.cc"], [("exceptions", JI + "jni_throw_util.cc"), ("strings", JI + "jni_string_util.h"), ("inputs", "ink/strokes/internal/jni/stroke_input_jni_helper.cc")])
prop("J02", "Geometry natives compute what the C++ geometry computes, of the same arguments",
 """Every geometry native (angles, vectors, boxes, triangles, parallelograms, affine transforms, box accumulators, mesh formats) returns or fills in the values that the C++ operation on the shapes described by its arguments gives, all components in their places.
    Every intersection and coverage native asks the C++ predicate once, about the shapes, meshes, transforms and threshold that its arguments describe in that order, and returns its answer.
    Filling an accumulator resets it for an empty envelope and otherwise overwrites all four bounds.""",
 "listed coordinates in many orders for computed values; arbitrary coordinates for what is passed on", [GJ + f for f in ("angle_jni.cc", "vec_jni.cc", "rect_jni.cc", "triangle_jni.cc", "parallelogram_jni.cc", "affine_transform_jni.cc", "mutable_envelope_jni.cc", "mesh_format_jni.cc", "intersects_jni.cc", "partitioned_mesh_jni.cc", "rect_jni_helper.cc", "vec_jni_helper.cc", "point_jni_helper.cc", "parallelogram_jni_helper.cc", "envelope_jni_helper.cc")], [("intersections", GJ + "intersects_jni.cc"), ("coverage", GJ + "partitioned_mesh_jni.cc"), ("helpers", GJ + "rect_jni_helper.cc")])
prop("J03", "Brush natives build exactly the described brush, or throw and leave nothing",
 """A brush, family, coat, paint, texture layer, tip or behavior created through its native holds exactly the values of its arguments: every number, enumerator, color, URI and input model, and tips, coats, layers, behaviors, nodes and curve points in the given order.
    It is created exactly when the C++ validation accepts it; otherwise IllegalArgumentException is thrown and the object being created is not left behind (an unacceptable layer appended to a paint is reported by the exception).
    Borrowed arrays and strings are released unchanged, and freeing an object frees everything it owns.""",
 "one argument arbitrary, the rest valid, or all in their valid ranges; every enumerator from -1 past the last; up to three parts", [BJ + f for f in ("brush_jni.cc", "brush_family_jni.cc", "brush_coat_jni.cc", "brush_paint_jni.cc", "brush_tip_jni.cc", "brush_behavior_jni.cc", "brush_jni_helper.h")], [("behaviors", BJ + "brush_behavior_jni.cc"), ("paints", BJ + "brush_paint_jni.cc"), ("tips", BJ + "brush_tip_jni.cc")])
prop("J04", "Stroke natives act on the stroke behind the handle and report all of its state",
 """Every native of an input batch, stroke or in-progress stroke has the effect of the C++ operation on the object behind the handle; operations that may fail return null exactly on success and otherwise the text of the status, leaving the object as the C++ operation leaves it.
    Counts, flags, inputs (all, or from one index to another), durations, bounds, updated region, outlines, vertex data and formats read through the natives are those of the object, and copies handed out stay when the original is changed or freed.
    Triangle indices of an in-progress stroke are handed out as 16 bits each, in order, for all triangles before the first with an index beyond 65535, separately for each coat.""",
 "listed sequences of operations with up to two coats and every combination of optional fields; wide indices at every corner of two triangles", [SJ + f for f in ("stroke_input_batch_jni.cc", "stroke_jni.cc", "in_progress_stroke_jni.cc", "stroke_input_jni_helper.cc", "stroke_input_jni_helper.h")], [("index conversion", SJ + "in_progress_stroke_jni.cc nativeGetRawTriangleIndexData"), ("batches", SJ + "stroke_input_batch_jni.cc")], over=("inputs", "histories"))
prop("J05", "Mesh natives hand out the whole mesh, owned copies and the whole specification",
 """Counts, strides, bounds, vertex positions, unpacking parameters (scales and offsets of every component, other entries untouched), outlines and formats read through the natives are those of the mesh, and the vertex and index buffers are exactly the mesh's own bytes.
    The addresses of the meshes of a group are copies in order, owned by the caller, that share the data; freeing them leaves the mesh.
    The shader specification data filled in for Java has every attribute, offset, varying, uniform, unpacking index, name, stride and both shaders of the C++ specification in its place and -1 or nothing beyond, for packed and in-progress formats alike; an unsupported format throws its status and fills nothing, and is exactly one that is not renderable.""",
 "four formats and two sizes; two groups; the full stroke format and every format with one attribute missing", [GJ + "mesh_jni.cc", GJ + "partitioned_mesh_jni.cc", "ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc"], [("meshes", GJ + "mesh_jni.cc"), ("specification", "ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc fillSkiaMeshSpecData")])
prop("N01", "Extruded strokes cover their tips for any tips and any path",
 """For every sequence of tip states, of any form, size, turn and step, the triangles of the extruded mesh cover the hulls of neighbouring tips and nothing outside, up to the brush epsilon, and never overlap with inverted winding.""",
 "every sequence of tip states", [D + "geometry.h", D + "geometry.cc", I + "brush_tip_extruder.cc"], [("outline construction", D + "geometry.cc")], over=("inputs", "histories"))
na("N01", """The outline construction runs data-dependent loops over self-intersecting float outlines that no abstraction in reach bounds; the restriction to enumerated paths and forms is claimed as X06.""")
prop("N02", "Intersection tests are exact in near-touching configurations",
 """Two shapes are reported as intersecting exactly when the sets of points they denote intersect over the reals, also when they miss or overlap by less than the rounding of the determinants involved.""",
 "every pair of shapes", ["ink/geometry/intersects.h", "ink/geometry/intersects.cc", "ink/geometry/internal/intersects_internal.h"], [("intersection predicates", "ink/geometry/internal/intersects_internal.h")])
na("N02", """A statement about accumulated float rounding: interval abstractions cannot separate configurations closer than the rounding itself, and the code does not use exact predicates; G06 decides everything outside a rounding margin and exact touching.""")
prop("N03", "Tessellation covers a polygon without overlap",
 """The mesh created from a polygon or polyline by tessellation covers exactly the points inside the polygon by the odd winding rule, each once.""",
 "every polygon", ["ink/geometry/tessellator.h", "ink/geometry/tessellator.cc"], [("tessellation", "ink/geometry/tessellator.cc CreateMeshFromPolyline")])
na("N03", """The triangulation is computed by libtess2, which is neither installed here nor part of the repository; its source cannot be analysed.""")
