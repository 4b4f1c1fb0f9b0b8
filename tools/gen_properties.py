#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
R = "crates/rerecast/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Build settings are the documented voxel conversion of agent and cell sizes",
  "For every agent size, cell size, bounds, region/edge/detail setting and tiling choice, the derived build configuration is the voxel conversion of the world-unit inputs: agent height and radius are rounded up to whole voxels, climb is rounded down, maximum edge length is truncated, region sizes are squared, the padding is the voxel radius plus three, and the grid size is the bounds divided by the cell size rounded to nearest (or tile size plus the padding on both sides when tiling). Detail sampling distance below 0.9 becomes zero and is otherwise scaled by the cell size, detail error is scaled by the cell height, everything else is passed through. Quantities too large for the field are clamped to its maximum, never wrapped, and deriving a configuration never panics.",
  ["configurations", "inputs"], "all builder settings, including tiny cells, huge agents and both tiling modes",
  "No test builds a configuration from anything but fixed values read from a file; saturation and tiling are never reached.",
  [R+"config.rs"], [("NavmeshConfigBuilder::build", R+"config.rs")], ["NavmeshConfigBuilder::build"],
  "cfg(rerecast_verif) constructor, because the builder has private fields and no setters")

p("C02", "Joining triangle soups, bounds and slope marking keep every triangle intact",
  "Appending one triangle mesh to another keeps all earlier vertices, triangles and area types unchanged and in order, and each appended triangle still has the same three corner positions and area type it had before. The bounding box is the exact component-wise minimum and maximum of the vertices (none for an empty mesh). Marking walkable triangles gives exactly the triangles whose upward normal is less than the slope limit away from vertical the default walkable area, for slope limits from 0 up to but excluding 90 degrees (which side is up depends on the winding; downward and degenerate triangles are never marked), and changes nothing else.",
  ["inputs", "histories"], "all sequences of meshes appended, all triangle orientations and slope limits",
  "The unit tests never append more than one mesh, and slopes near the limit, degenerate and downward triangles are not sampled.",
  [R+"trimesh.rs", R+"math.rs"], [("index offsetting", R+"trimesh.rs"), ("normal versus cos(threshold)", R+"trimesh.rs")], ["TriMesh::extend", "TriMesh::compute_aabb", "TriMesh::mark_walkable_triangles"])

p("C03", "Voxelization covers every triangle and nothing else",
  "A heightfield has as many columns along each axis as its bounds have cells, rounded to nearest, all of them empty (more than 65535 along an axis are an error), and keeps the bounds and cell sizes it is given. After rasterizing any triangle into it, every grid column that the triangle really crosses (inside the field's bounds) contains a solid span covering the height range the triangle has over that column, rounded outward to whole voxels and at least one voxel thick. No column or voxel that the triangle does not touch becomes solid. Triangles partly or wholly outside the bounds are clipped to the field and never cause an error, a panic or a misplaced span, whatever the size and position of the field (heights beyond what a span can store are clamped to its maximum).",
  ["inputs"], "all triangles (sliver, degenerate, axis-aligned, huge, outside) x all field origins, sizes and cell sizes",
  "The existing tests rasterize one fixed dungeon and a cuboid; clipping cases at borders, thin fields and slivers are not sampled.",
  [R+"rasterize.rs", R+"heightfield.rs", R+"math.rs"], [("row/column clipping", R+"rasterize.rs"), ("snapping to the height grid", R+"rasterize.rs")], ["Heightfield::rasterize_triangle", "Heightfield::rasterize_triangles", "HeightfieldBuilder::build"])

p("C04", "Solid columns stay sorted and disjoint, and merge with area priority",
  "After any sequence of solid pieces added to a heightfield, each column is a strictly increasing list of spans with a gap of at least one voxel between neighbours, whose union is exactly the union of the pieces added, and the number of stored spans equals the number reachable from the columns. When a piece overlaps or touches existing spans they become one span; its area is the higher of the two areas when the tops differ by at most the merge threshold (after the union is formed), and otherwise the area of the newly added piece. Columns never influence each other, and looking up a column gives its lowest span, or nothing for coordinates outside the grid.",
  ["histories"], "all insertion histories into a column: order, overlap, touching, multi-way merges, areas, thresholds",
  "The unit tests insert at most two spans; area priority, multi-way merges and thresholds are untested.",
  [R+"heightfield.rs", R+"rasterize.rs", R+"span.rs"], [("add_span merge loop", R+"heightfield.rs")], ["Heightfield::rasterize_triangle", "Heightfield::span_at"])

p("C05", "Low obstacles become walkable exactly when they can be stepped onto",
  "The low-obstacle filter gives an unwalkable span the area of the span directly below it exactly when that lower span was walkable before the filter ran and the step between the two tops is at most the climb height. Nothing else changes: already walkable spans keep their area, stacked obstacles are not climbed transitively, columns do not affect each other, and no span's extent moves.",
  ["inputs"], "all columns of spans, areas and climb heights",
  "Only the dungeon geometry exercises it, with one climb value and one area type.",
  [R+"pre_filter.rs"], [("filter_low_hanging_walkable_obstacles", R+"pre_filter.rs")], ["Heightfield::filter_low_hanging_walkable_obstacles"])

p("C06", "Ledges and steep slopes are exactly the spans that become unwalkable",
  "The ledge filter makes a walkable span unwalkable exactly when it lies on the border of the grid, or an agent could move sideways into one of the four neighbouring columns and would drop more than the climb height there (an agent-high opening down to the bottom of the field counts as such a drop), or the floors it can step to differ from each other by more than the climb height. All other spans keep their area, and no span's extent moves.",
  ["inputs"], "all neighbourhoods of multi-layer columns x agent heights x climb heights",
  "Only the dungeon geometry exercises it, with one agent size; most drop/headroom combinations never occur.",
  [R+"pre_filter.rs", R+"math.rs"], [("filter_ledge_spans", R+"pre_filter.rs")], ["Heightfield::filter_ledge_spans"])

p("C07", "Spans without headroom are exactly the ones that become unwalkable",
  "The headroom filter makes a span unwalkable exactly when the free space between its top and the bottom of the next span above it (or the height limit) is less than the agent height. Every other span keeps its area and no span's extent moves. Populating a field from a mesh in one call equals rasterizing every triangle and then applying the low-obstacle, ledge and headroom filters in that order.",
  ["inputs"], "all columns of spans x agent heights; all meshes for the one-call form",
  "Only the dungeon geometry exercises it; the one-call form is used by one fixed test.",
  [R+"pre_filter.rs", R+"heightfield.rs"], [("filter_walkable_low_height_spans", R+"pre_filter.rs"), ("populate_from_trimesh", R+"heightfield.rs")], ["Heightfield::filter_walkable_low_height_spans", "Heightfield::populate_from_trimesh"])

p("C08", "The open-space field has one entry per walkable solid span",
  "Converting a heightfield to its open-space form yields, column by column and bottom to top, exactly one entry per walkable span: its floor is that span's top, its height is the free space up to the next solid span above it (walkable or not) capped at 255, and its area is that span's area. Each column's entries are contiguous and ordered, dimensions, cell sizes and agent settings are carried over, and only the upper bound of the box grows, by the agent height. A column with more entries than the format can count is reported as an error and never miscounted. Looking up a cell gives the addressed column, or nothing for coordinates outside the grid.",
  ["inputs"], "all multi-layer heightfields",
  "Tests use the dungeon only; tall gaps, full columns and unwalkable ceilings are not systematically reached.",
  [R+"compact_heightfield.rs", R+"compact_cell.rs", R+"compact_span.rs"], [("into_compact: fill", R+"compact_heightfield.rs")], ["Heightfield::into_compact", "CompactHeightfield::cell_at"])

p("C09", "Open-space neighbours are linked exactly when an agent can pass",
  "Two entries in edge-adjacent columns are linked exactly when the open space they share is at least the agent height and their floors differ by at most the climb height; where several entries of the neighbour column qualify, the lowest one is linked, and there are no links across the grid's border. Links stored in packed form read back exactly as set for every direction and layer without disturbing the height or the other directions. If a needed link cannot be represented because the neighbour is too many layers up, conversion reports the too-many-layers error instead of dropping it.",
  ["inputs"], "all multi-layer neighbourhoods x agent heights x climb heights, up to more layers than can be represented",
  "Tests use the dungeon only; layer limits are never reached and multiple candidates rarely occur.",
  [R+"compact_heightfield.rs", R+"compact_span.rs", R+"math.rs"], [("into_compact: neighbour search", R+"compact_heightfield.rs"), ("packed connections", R+"compact_span.rs")], ["Heightfield::into_compact", "CompactSpan::con", "CompactHeightfield::con_indices"])

p("C10", "Eroding removes exactly the walkable space within the agent radius of an edge",
  "Eroding by a radius makes unwalkable exactly those entries whose step distance to the nearest boundary (a missing neighbour in one of the four directions, or an unwalkable neighbour; 2 per straight step, 3 per diagonal step, following links) is less than twice the radius, and leaves the area of every other entry and all geometry unchanged. This holds for every radius, however large, and a radius of zero changes nothing.",
  ["inputs"], "all linked open-space fields, holes and area layouts x all radii",
  "Only the dungeon with one small radius is tested; large radii and multi-layer diagonals are not.",
  [R+"erosion.rs"], [("two-pass distance transform", R+"erosion.rs"), ("threshold", R+"erosion.rs")], ["CompactHeightfield::erode_walkable_area"])

p("C11", "A convex volume retags exactly the walkable entries inside it",
  "Marking a convex volume gives the volume's area to exactly those walkable entries whose cell centre lies inside the polygon (seen from above) and whose floor lies within the volume's vertical range (its ends truncated to whole voxels, both inclusive). Unwalkable entries stay unwalkable, entries outside keep their area, empty volumes and volumes outside the grid change nothing, and later volumes override earlier ones.",
  ["inputs", "histories"], "all polygons, vertical ranges, positions relative to the grid, and sequences of volumes",
  "The reference project contains one fixed list of volumes (or none).",
  [R+"mark_convex_poly_area.rs", R+"math.rs"], [("footprint clamp", R+"mark_convex_poly_area.rs"), ("point_in_poly", R+"mark_convex_poly_area.rs")], ["CompactHeightfield::mark_convex_poly_area"])

p("C12", "The distance field is the blurred chamfer distance to the nearest area border",
  "The distance stored for each entry is the chamfer distance (2 per straight step, 3 per diagonal step along links) to the nearest entry that lacks a same-area neighbour in one of the four directions, smoothed by the 3x3 average that leaves distances up to 2 unchanged. The stored maximum is the largest unsmoothed distance (zero for an empty field). Nothing else changes.",
  ["inputs"], "all linked open-space fields and area layouts, including empty ones",
  "Only the dungeon is compared; multi-area, multi-layer and empty fields are not.",
  [R+"watershed_distance_field.rs"], [("calculate_distance_field", R+"watershed_distance_field.rs"), ("box_blur", R+"watershed_distance_field.rs")], ["CompactHeightfield::build_distance_field"])

p("C13", "Regions partition the walkable space into connected single-area pieces",
  "After building regions every entry of a region has the same walkable area type and the region is connected through links; unwalkable entries belong to no region, and entries inside the requested border belong to border regions only. Walkable entries are left without a region only when the connected piece they belong to is smaller than the minimum size and does not touch the border, or is so narrow that no entry of it lies away from both its boundary and the border (a piece completely enclosed by another region is measured on its own, piece by piece); no other walkable space is lost. Every region id is within the advertised maximum, and running out of ids is reported as an error.",
  ["inputs", "configurations"], "all open-space fields x border sizes x minimum and merge sizes",
  "Only the dungeon with one setting is compared; borders, small islands, multi-area and multi-layer layouts are not.",
  [R+"watershed_build_regions.rs", R+"region.rs"], [("flood / expand", R+"watershed_build_regions.rs"), ("merge_and_filter_regions", R+"watershed_build_regions.rs")], ["CompactHeightfield::build_regions"])

p("C14", "Region partitioning agrees with the original Recast watershed",
  "For every distance field, area layout, border size, minimum size and merge size, the grouping of entries into regions (up to renaming of ids) is the one the original Recast watershed partitioning produces: the same seeds grow level by level, small regions merge into the same neighbours, and the same islands are dropped. When more regions arise than ids exist below the border marker, an error is returned.",
  ["inputs", "configurations"], "all open-space fields x border sizes x minimum and merge sizes",
  "The comparison with C++ covers a single scene and a single configuration.",
  [R+"watershed_build_regions.rs", R+"watershed_distance_field.rs"], [("build_regions", R+"watershed_build_regions.rs")], ["CompactHeightfield::build_regions"])

p("C15", "Contours trace every region boundary exactly once",
  "Before simplification, the outlines produced for each region walk along exactly the cell edges that separate the region from something else: every such edge is covered exactly once, each outline is closed with axis-aligned unit-step geometry, the outer outline winds clockwise seen from above and encloses exactly the region's cells, and each outline point carries the id of the region on the other side and sits at the highest linked floor around that corner. Border regions, region-less space and regions of a single cell get no outline, and each outline carries its region id and area.",
  ["inputs"], "all region labelings, including holes, pinched corners, several outlines and borders",
  "Only one scene is compared; holes, pinch points and region counts beyond the initial guess are not reached.",
  [R+"contours.rs"], [("walk_contour", R+"contours.rs"), ("get_corner_height", R+"contours.rs")], ["CompactHeightfield::build_contours", "Contour::raw_vertices"])

p("C16", "Simplified contours stay within tolerance and keep shared borders identical",
  "Every simplified contour uses only points of its raw outline in order, keeps every point where the neighbouring region changes, has at least three points (an outline that simplifies to fewer is dropped) and no two consecutive points at the same place, and on walls no raw point is further from its simplified edge than the error limit (before long edges are split, which only adds points). Wall edges (and area-border edges, when requested) longer than the maximum edge length are split whenever there is a raw point between their ends; a maximum of zero disables splitting for every representable length. The border between two regions is simplified identically from both sides, so neighbouring contours share the same points (unless the regions touch only diagonally somewhere), and results agree with the original Recast simplification.",
  ["inputs", "configurations"], "all region labelings x error limits x edge lengths x flags",
  "Only one setting of one scene is compared; large edge lengths, zero error and area edges are not.",
  [R+"contours.rs", R+"math.rs"], [("simplify_contour", R+"contours.rs"), ("remove_degenerate_segments", R+"contours.rs")], ["CompactHeightfield::build_contours", "Contour::vertices"])

p("C17", "Obstacles inside a region are cut out of its contour",
  "A region with interior holes yields a single contour in which the holes are connected to the outer outline, so that its signed area equals the outer area minus the hole areas and no hole is left as a separate contour with points of its own, no matter how many holes or regions there are. Holes bigger, smaller, nested next to each other or touching the outline are all handled, without panicking.",
  ["inputs"], "all regions with any number, size and position of holes",
  "The dungeon's regions have no holes after partitioning, so no test reaches this case.",
  [R+"contours.rs"], [("build_contours: contour storage and hole handling", R+"contours.rs")], ["CompactHeightfield::build_contours"])

p("C18", "Navigation polygons are valid, convex and consistently indexed",
  "Every polygon of the mesh has between three and the requested maximum number of vertices, all indices refer to existing vertices inside the field, no two vertices lie in the same column within two voxels of height, and for valid contours (that neither cross nor touch themselves, and have no holes cut in) each polygon has distinct vertices, is convex (no reflex corner) and wound clockwise like its contour. The per-polygon tables (vertex lists, neighbours, regions, flags, areas) all have exactly one record per polygon, unused slots hold the documented null marker at the end, and metadata (bounds, cell sizes, border size, limits) is carried over.",
  ["inputs", "configurations"], "all contour sets x maximum vertices per polygon",
  "Only the dungeon at one maximum is compared, where no border vertex is removed.",
  [R+"poly_mesh.rs"], [("triangulate / merge", R+"poly_mesh.rs"), ("From<InternalPolygonNavmesh>", R+"poly_mesh.rs")], ["ContourSet::into_polygon_mesh"])

p("C19", "Polygons tile exactly the area of their contours",
  "For valid contours that neither cross nor touch themselves (no holes cut in), the polygons of each region cover exactly the area enclosed by the region's contour: their areas add up to the contour's area and polygons of one contour do not overlap. When holes were cut in, the areas of the triangles (three vertices per polygon) still add up. Every polygon keeps the region id and area type of its contour (a polygon that spans several regions after a border vertex was removed has no region). This stays true for every maximum number of vertices per polygon, for large fields, and after border vertices are removed.",
  ["inputs", "configurations"], "all contours, with and without cut-in holes, of any extent x maximum vertices per polygon",
  "One scene with short edges is compared; long diagonals and removed vertices are not.",
  [R+"poly_mesh.rs"], [("triangulate ear choice", R+"poly_mesh.rs"), ("remove_vertex re-triangulation", R+"poly_mesh.rs")], ["ContourSet::into_polygon_mesh"])

p("C20", "Polygon adjacency is symmetric and complete, with border portals marked",
  "Two polygons are recorded as neighbours across an edge exactly when they share that edge's two vertices, and the link is recorded on both sides at the right edge. Edges without a neighbour are marked as solid, except that when the field has a border, unshared edges lying on the edge of the inner area are marked as portals with the correct side. Nothing else is marked as a portal.",
  ["inputs", "configurations"], "all polygon meshes built from contours x border sizes",
  "One scene without border is compared, so portal marking and vertex removal are never exercised.",
  [R+"poly_mesh.rs"], [("build_mesh_adjacency", R+"poly_mesh.rs"), ("portal edges", R+"poly_mesh.rs")], ["PolygonNavmesh::polygon_neighbors"])

p("C21", "The polygon mesh agrees with the original Recast construction",
  "For every contour set the polygon mesh equals the one the original Recast algorithm builds from it, up to the order of polygons and vertices: the same triangulation, the same merges along the longest shared edges, the same removal of redundant border vertices, and contours that cannot be triangulated are handled without a panic or an endless loop.",
  ["inputs", "configurations"], "all contour sets, including tile borders with removable vertices x maximum vertices per polygon",
  "The comparison with C++ covers a single borderless scene.",
  [R+"poly_mesh.rs"], [("triangulate, merge, remove_vertex", R+"poly_mesh.rs")], ["ContourSet::into_polygon_mesh"])

p("C22", "The detail mesh triangulates every polygon completely",
  "The detail mesh has exactly one sub-mesh per polygon, in order; sub-meshes use consecutive, non-overlapping, complete ranges of the vertex and triangle lists, every triangle index is inside its sub-mesh, and each sub-mesh starts with the polygon's own vertices at their horizontal positions. Seen from above the triangles of a sub-mesh cover exactly the polygon's area with no overlap and consistent winding, no vertex lies outside the polygon, and exactly the triangle edges on the polygon's boundary are flagged as such. This holds for all sampling settings, including sampling switched off; where nearly degenerate samples leave the triangulation to 32-bit rounding or the limit of 255 triangles cuts it off, the sub-mesh is the one the original Recast algorithm gives.",
  ["inputs", "configurations"], "all polygon meshes with their height data x sampling distances and error limits",
  "Only one scene with one sampling setting is compared; sampling off and polygons without height data are not reached.",
  [R+"detail_mesh.rs"], [("DetailNavmesh::new", R+"detail_mesh.rs"), ("triangulate_hull / delaunay_hull", R+"detail_mesh.rs"), ("edge flags", R+"detail_mesh.rs")], ["DetailNavmesh::new"])

p("C23", "Detail heights follow the sampled surface within the error limit",
  "Every detail vertex lies at a height that occurs on the walkable surface near it (one voxel above the floor), flat ground gives a flat detail mesh, and on every sampled position inside a polygon the detail surface differs from the walkable surface by at most the error limit unless the vertex limit per polygon is reached. The boundary between two neighbouring polygons is sampled at the same points from both sides, and a looser error limit or disabled sampling adds no boundary points beyond what a tighter one has.",
  ["inputs", "configurations"], "all walkable surfaces under polygon meshes x sampling distances and error limits",
  "One scene with one sampling setting is compared.",
  [R+"detail_mesh.rs", R+"math.rs"], [("build_poly_detail", R+"detail_mesh.rs"), ("get_height / get_height_data", R+"detail_mesh.rs")], ["DetailNavmesh::new"])

p("C24", "Valid scenes always build: no panic, no corrupt result",
  "For every finite triangle scene and every configuration within the documented limits, running the documented sequence of build steps from mesh to detail mesh finishes and either returns a complete, well-formed result or one of the documented errors (too many columns, layers, vertices or regions, a contour that cannot be triangulated, or a triangle more than a million cells large that cannot be clipped); it never panics. Empty scenes, scenes without walkable ground, one-cell fields, borders larger than the field, maximum radii and detail sampling switched off are valid inputs.",
  ["inputs", "configurations"], "all finite triangle scenes x all documented configurations",
  "The end-to-end test covers a single scene and configuration.",
  ["crates/rerecast/src/"], [("the whole build pipeline", R)], ["HeightfieldBuilder::build", "Heightfield::into_compact", "CompactHeightfield::build_regions", "CompactHeightfield::build_contours", "ContourSet::into_polygon_mesh", "DetailNavmesh::new"])

p("C25", "Builds are reproducible and move rigidly with the scene",
  "Building the same scene twice gives identical results. Moving the scene and its bounds by a whole number of exactly representable units moves the navmesh with it and changes nothing else; scaling the scene, its bounds and the cell sizes together by a power of two scales the polygon mesh. Which voxels are solid does not depend on the order of the triangles, the order of a triangle's corners, and joining a scene from parts gives the same result as passing it whole.",
  ["inputs", "histories"], "all scenes x translations x triangle orders x partitions into meshes",
  "Metamorphic relations over pairs of runs are not expressed by any test.",
  ["crates/rerecast/src/"], [("the whole build pipeline", R)], ["all build steps"])

p("C26", "The finished navmesh only covers ground the agent can stand on",
  "With exact contours (zero simplification error, no length limit), every grid cell covered by a navmesh polygon whose region kept its exact outline (borders between two regions may be straightened) lies over an open-space entry that is walkable for the agent: an input triangle within the slope limit is under it, there is at least the agent height of free space above it, and it is at least the agent radius (in cells, along the grid) away from every wall, drop higher than the climb height and edge of the scene. Conversely, every walkable cell of that kind that belongs to a kept region is covered by a polygon of that region.",
  ["inputs", "configurations"], "all box-and-ramp scenes x agent sizes",
  "The end-to-end comparison uses one scene and never states the guarantee itself.",
  ["crates/rerecast/src/"], [("filters, erosion, regions, contours, polygons together", R)], ["the PolygonNavmesh returned at the end of the build"])

p("C27", "Navmesh data survives serialization unchanged",
  "Every build product that offers serialization (triangle mesh, heightfield, open-space field, polygon mesh and detail mesh) deserializes to a value equal to the one serialized, through text and binary formats, and the remaining build steps give the same result when continued from the deserialized value.",
  ["inputs"], "all values produced by builds or constructed field by field, in JSON and bincode",
  "Serialization is only used to read fixed reference files; nothing is ever written and read back.",
  [R+"span.rs", R+"heightfield.rs", R+"poly_mesh.rs", R+"detail_mesh.rs"], [("serde derives behind feature serialize", "crates/rerecast/Cargo.toml")], ["serde::Serialize/Deserialize of the public types"])

p("C28", "Render meshes become triangle meshes with identical geometry",
  "Converting a render mesh yields, for every triangle-list mesh with float positions and a complete index list (16 or 32 bit), a triangle mesh with the same positions in the same order, the same corner triples in the same order, and every triangle unmarked; any other mesh (other topology, no positions, no indices, index count not a multiple of three) is declined without panicking. The mesh backend reports exactly the entities that have such a mesh, each with its own global transform and geometry.",
  ["inputs"], "all meshes: topologies, attribute sets, index widths, lengths; all worlds of entities",
  "No test covers the mesh conversion or the mesh backend.",
  ["crates/bevy_rerecast_core/src/mesh.rs", "crates/bevy_rerecast_core/src/backend.rs"], [("TriMeshFromBevyMesh::from_mesh", "crates/bevy_rerecast_core/src/mesh.rs"), ("mesh3d_backend", "crates/bevy_rerecast_core/src/mesh.rs")], ["TriMesh::from_mesh", "NavmeshAffectorBackend"])

p("C29", "Collider geometry reported to the builder matches the physics shape",
  "For every static collider the physics backend reports a triangle mesh, in the collider's local space and together with the collider's own world transform, whose vertices lie on the surface of the shape (within tessellation accuracy), whose extent matches the shape's bounds, and whose triangles all index existing vertices and carry one area type each. A compound collider gives the union of its parts, each placed by its own offset and rotation, including repeated parts and parts without surface. Dynamic and kinematic bodies and shapes without surface contribute nothing.",
  ["inputs"], "all shapes (ball, cuboid, cylinder, capsule, cone, convex hull, trimesh, heightfield, triangle, round variants, compounds) x offsets x body kinds",
  "The only test is one cuboid; compounds with more than one part are never checked.",
  ["crates/avian_rerecast/src/collider_to_trimesh.rs", "crates/avian_rerecast/src/lib.rs"], [("ColliderToTriMesh", "crates/avian_rerecast/src/collider_to_trimesh.rs"), ("compound_trimesh", "crates/avian_rerecast/src/collider_to_trimesh.rs")], ["the affector backend set by AvianRerecastPlugin"])

p("C30", "Meshes sent to the editor arrive unchanged",
  "Any render mesh turned into its transferable snapshot and back has the same topology, index list (including its width) and every built-in vertex attribute with identical format and values, bit for bit. The snapshot survives the wire encoding unchanged.",
  ["inputs"], "all meshes: any subset of attributes, formats, lengths, index kinds and topologies",
  "One fixed mesh is round-tripped by the existing test.",
  ["crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs"], [("SerializedMesh conversions", "crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs")], ["SerializedMesh::from_mesh/into_mesh"])

p("C31", "Images and materials sent to the editor arrive unchanged",
  "Any image turned into its transferable snapshot and back keeps its pixel data, size, format, dimension, mip and sample counts, usage, sampler and view settings. Any standard material keeps every scalar, colour, flag and mode, and each of its texture slots still refers to the same image after a round trip (absent slots stay absent).",
  ["inputs"], "all images (formats, dimensions, samplers, missing data) and all material field values and texture slot combinations",
  "No test covers images or materials.",
  ["crates/bevy_rerecast_editor_integration/src/transmission/serialized_image.rs", "crates/bevy_rerecast_editor_integration/src/transmission/serialized_standard_material.rs"], [("SerializedImage / SerializedStandardMaterial conversions", "crates/bevy_rerecast_editor_integration/src/transmission/")], ["SerializedImage", "SerializedStandardMaterial"])

p("C32", "The wire encoding is lossless and rejects garbage cleanly",
  "Encoding any transferable value and decoding it returns an equal value, whatever its size and content. Decoding anything that is not an encoding of that type (random strings, truncated or corrupted messages, other JSON values) returns an error and never panics.",
  ["inputs"], "all transferable values; all strings and JSON values including truncations and bit flips of valid messages",
  "No test covers the wire encoding.",
  ["crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs"], [("serialize/deserialize: bincode + gzip + base64", "crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs")], ["transmission::serialize", "transmission::deserialize"])

p("C33", "The editor request returns exactly the scene's navmesh input",
  "The answer to the editor's navmesh-input request contains one affector per entry the current backend returns, in order and with its transform and triangle mesh, and one visual per renderable entity that is visible in the editor, each with its own transform and with references that resolve to that entity's own mesh and material and that material's own textures. Shared meshes, materials and images appear once; every reference is in range; a request with parameters is refused with an error. Only one backend is active at a time and the most recently set one is the one used.",
  ["inputs", "histories"], "all worlds: entities sharing assets, hidden entities, missing assets, several backends set in sequence",
  "No test runs the request handler.",
  ["crates/bevy_rerecast_editor_integration/src/brp.rs", "crates/bevy_rerecast_core/src/backend.rs"], [("get_navmesh_input", "crates/bevy_rerecast_editor_integration/src/brp.rs"), ("set_navmesh_affector_backend", "crates/bevy_rerecast_core/src/backend.rs")], ["the remote method registered by the editor integration plugin"])

p("C34", "The detail mesh agrees with the original Recast construction",
  "For every polygon mesh and its walkable space the detail mesh equals the one the original Recast algorithm builds: the same height patches (own region first, then flood filled from its rim or from the polygon's centre), the same outline samples, the same inner samples and the same triangulation, except where the original's own result depends on rounding in the last bits.",
  ["inputs", "configurations"], "all polygon meshes, including merged regions and unreachable patches x sampling distances and error limits",
  "The comparison with C++ covers a single scene with one sampling setting.",
  [R+"detail_mesh.rs", R+"math.rs"], [("build_poly_detail", R+"detail_mesh.rs"), ("HeightPatch", R+"detail_mesh.rs"), ("delaunay_hull", R+"detail_mesh.rs")], ["DetailNavmesh::new"])

E = "crates/bevy_rerecast_editor/src/"
p("C35", "The editor loads exactly the scene the game reports",
  "When the editor loads a scene it asks the game for its navmesh input, without parameters, and afterwards holds exactly what the answer contains and nothing of any earlier scene: one hidden affector per reported affector, with its transform (transforms without shear) and its triangles, and one visible object per reported visual, with its transform, mesh, material and textures (plain white where none is reported). What the answer shares is one asset in the editor as well. When no usable answer arrives (an error, a failure status, silence, something that does not decode), the editor reports an error and keeps the scene it has.",
  ["inputs", "histories"], "all answers, good and bad, in sequence",
  "The editor has no tests.",
  [E+"get_navmesh_input.rs"], [("fetch_navmesh_input", E+"get_navmesh_input.rs")], ["the editor's world after the GetNavmeshInput event, with a stand-in for the game on the loopback address the editor asks"])

p("C36", "The editor builds the navmesh of exactly the geometry it holds",
  "When the editor builds the navmesh, the polygon mesh and detail mesh are the ones the library's build steps give, with the editor's current settings, for the union of all affectors' triangle meshes at their places in the world (in whatever order) and its bounding box. Objects that are not affectors and affectors without a usable mesh have no influence, the scene itself does not change, and earlier builds leave no trace. When nothing can be built an error is reported and the previous navmesh stays.",
  ["inputs", "configurations", "histories"], "all scenes of affectors and other objects (transforms without shear), edited between builds x settings",
  "The editor has no tests.",
  [E+"build.rs"], [("build_navmesh", E+"build.rs")], ["the editor's Navmesh resource after the BuildNavmesh event"])

p("C37", "The editor's overlays show exactly the navmesh and the affectors",
  "Whenever an overlay is switched on and a navmesh exists, the overlay shows that navmesh as it is now: the polygon overlay draws the outline of every polygon and fills each polygon exactly once, the detail overlay draws and fills exactly the triangles of the detail mesh, all at their world positions and with their winding. Switching the affector overlay on draws every affector's triangles. Loading another scene in between may remove an overlay's lines until it is drawn again, and nothing else. An overlay that is switched off shows nothing, and switching the scene's objects off and on hides and shows them.",
  ["inputs", "histories"], "all navmeshes and scenes x sequences of switching, building and changing the scene",
  "The editor has no tests.",
  [E+"visualization.rs"], [("draw_poly_mesh", E+"visualization.rs"), ("draw_detail_mesh", E+"visualization.rs"), ("draw_navmesh_affector", E+"visualization.rs")], ["meshes, lines and visibility of the overlay entities in the editor's world"])

p("C38", "Every control of the editor does what its label says",
  "'Load Scene' opens the load dialog, 'x' closes it without loading and 'Load' closes it and loads exactly one scene, each however often it was opened; nothing of the dialog stays behind, and while it is open it keeps clicks from what it covers. 'Build Navmesh' builds once per click, each 'Show ...' switch turns exactly its own overlay on or off, and clicks beside the controls do nothing. The colour of a control shows whether it is idle, hovered, pressed or disabled.",
  ["histories"], "all sequences of clicks on and beside the controls, with and without frames in between",
  "The editor has no tests.",
  [E+"ui.rs", E+"theme/widget.rs", E+"theme/interaction.rs"], [("spawn_ui", E+"ui.rs"), ("close_modal", E+"ui.rs"), ("button_base", E+"theme/widget.rs"), ("apply_interaction_palette", E+"theme/interaction.rs")], ["the events BuildNavmesh and GetNavmeshInput, the set of overlays and the entities of the user interface after clicks"])

p("C39", "The editor's camera flies and turns exactly as it is steered",
  "While the user steers (the right mouse button is held, or M has been pressed an odd number of times), W/S, A/D and E/Q move the camera forwards and backwards and sideways as it is facing at the start of the frame, and straight up and down; opposite keys cancel, several keys together are no faster than one, left Shift makes it three times as fast, every line scrolled (16 pixels count as a line) makes it a tenth faster or slower, starting from 15 units per second, and the distance is speed times the time of the frame. With no key or no steering the speed halves every frame until the camera stands. Mouse motion turns it, while steering only, by 1/360 radian per dot, without ever rolling or tilting past straight up or down. The pointer of every focused window is hidden and locked when steering starts or changes hands, and freed in all windows when it ends. Nothing else moves or turns the camera.",
  ["histories"], "all sequences of key, button, motion, scroll and focus events x frame times",
  "The editor has no tests.",
  [E+"camera/camera_controller.rs", E+"camera/mod.rs"], [("run_camera_controller", E+"camera/camera_controller.rs"), ("setup", E+"camera/mod.rs")], ["the camera's transform and the windows' cursor options after every frame"])

p("C40", "The stages can be repeated and combined in any order",
  "Each stage depends on what the field holds now and on its own parameters only, and replaces its own results completely. After any sequence of filters and further geometry on a heightfield, and of erosion, area marking, distance fields and region building on the compact field made from it (regions any number of times, with other border and area sizes, after areas have changed, with a distance field that has been rebuilt or has not), areas, distances, largest distance, regions, region count and border size are exactly what these steps give one after the other, nothing of an earlier run remains, links and floors stay as they are, and outlining the field at any point, any number of times, gives the contours and polygons of that state without changing it.",
  ["histories"], "all sequences of stages on one field x all fields and parameters",
  "The tests run every stage once, in one order.",
  [R+"watershed_build_regions.rs", R+"watershed_distance_field.rs", R+"erosion.rs", R+"mark_convex_poly_area.rs", R+"contours.rs", R+"pre_filter.rs", R+"compact_heightfield.rs"], [("CompactHeightfield::build_regions", R+"watershed_build_regions.rs"), ("CompactHeightfield::build_distance_field", R+"watershed_distance_field.rs"), ("CompactHeightfield::erode_walkable_area", R+"erosion.rs"), ("CompactHeightfield::build_contours", R+"contours.rs")], ["all fields of the heightfield, the compact heightfield and the contours after every step"])

p("C41", "The plugins fit together in any order, and every requested navmesh has a handle of its own",
  "Whatever the order in which an app adds the navmesh plugins, the backend plugins, backends of its own, the remote methods, the assets and its entities before it starts, the editor's request is answered from the first frame on with the affectors of the backend that was set last (and refused if there is none), and shows every mesh entity that was marked by hand and, unless visibility is manual, every one that got its mesh after the plugin was added, at any time; an app without the editor plugin does not answer. Every call of NavmeshGenerator::generate, from any system with any marker and with any settings, the same ones included, hands out a strong handle that no call and no added navmesh has had before, behind which nothing is stored until a navmesh is, and stored navmeshes stay as they are.",
  ["inputs", "histories"], "all orders and selections of plugins x all worlds; all histories of requests, additions, drops and frames",
  "No test builds an app.",
  ["crates/bevy_rerecast/src/lib.rs", "crates/bevy_rerecast_core/src/lib.rs", "crates/bevy_rerecast_core/src/generator.rs", "crates/bevy_rerecast_core/src/backend.rs", "crates/bevy_rerecast_core/src/mesh.rs", "crates/avian_rerecast/src/lib.rs", "crates/bevy_rerecast_editor_integration/src/lib.rs", "crates/bevy_rerecast_editor_integration/src/brp.rs"], [("NavmeshPlugins", "crates/bevy_rerecast/src/lib.rs"), ("NavmeshGenerator::generate", "crates/bevy_rerecast_core/src/generator.rs"), ("setup_methods", "crates/bevy_rerecast_editor_integration/src/brp.rs"), ("insert_editor_visible_to_meshes", "crates/bevy_rerecast_editor_integration/src/lib.rs")], ["the remote method registered by the editor integration plugin", "the handles returned by generate", "Assets<Navmesh>"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
