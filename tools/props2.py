p("D01", "Detail meshes triangulate every polygon and carry correct edge flags",
  """For every navmesh polygon there is one detail sub-mesh whose first vertices are the polygon's own corners and whose triangles cover the polygon seen from above, without gaps or overlaps.
  Triangle indices stay inside the sub-mesh, and an edge is flagged as lying on the polygon's boundary exactly if it does; sub-meshes, vertices and triangles are stored back to back.
  The result equals that of the published algorithm, for every sample distance and error, including none.""",
  "every navmesh, its field, sample distance and sample error", CPP + "one sample distance per scene; concave height steps, huge polygons and sampling off are not reached.",
  [R+"detail_mesh.rs"], [("DetailNavmesh::new, build_poly_detail, triangulate_hull, delaunay_hull", R+"detail_mesh.rs")],
  "runtime monitor: coverage/flag invariants plus independent detail builder", MON + "Where f32 rounding makes the reference's choice ambiguous, only the invariants are judged.", observe=["DetailNavmesh"])
p("D02", "Detail surface follows the voxel surface within the sample error",
  """Every detail vertex lies on the voxel surface of its polygon's own layer whenever that surface exists within reach of the vertex, never on a different storey.
  With sampling enabled, the height of the detail surface at every sample position is within the configured error of the voxel surface, or the vertex limit is reached.
  Edges shared by two polygons are sampled identically from both sides, so that there are no cracks.""",
  "every navmesh, its field, sample distance and sample error", CPP + "overlapping storeys, slopes across seams and slivers are not reached.",
  [R+"detail_mesh.rs"], [("get_height_data, get_height, build_poly_detail", R+"detail_mesh.rs")],
  "runtime monitor: height oracle over the voxel surface plus seam comparison", MON, observe=["DetailNavmesh vertices", "CompactHeightfield"])
p("E07", "The recorded reference levels are reproduced exactly, however the input is cut",
  """For the reference levels recorded from the C++ implementation, every stage of the pipeline reproduces the recording exactly, whether the geometry is handed over as one mesh, as several appended meshes, or without shared vertices.""",
  "every way of handing over the same level geometry", "The test hands each level over in one way only, and its larger level is not run.",
  [R+"heightfield.rs", R+"rasterize.rs", R+"compact_heightfield.rs", R+"watershed_build_regions.rs", R+"contours.rs", R+"poly_mesh.rs", R+"detail_mesh.rs"],
  [("the whole pipeline", R+"lib.rs")],
  "runtime monitor: recorded C++ outputs as oracle over re-cut inputs", MON, over=("inputs",), observe=["every stage's output"])
p("E01", "The navmesh keeps the agent radius away from walls, drops and low ceilings",
  """No part of a finished navmesh comes closer to a wall, a drop, a ceiling too low to stand under or the rim of the geometry than the agent radius allows, up to voxel rounding and the configured simplification error.
  This holds for obstacles and worlds of any position, orientation and combination.""",
  "every world of floors, pits, walls, overhangs and steps, and every configuration", CPP + "no test relates the mesh to the geometry it came from.",
  [R+"rasterize.rs", R+"pre_filter.rs", R+"compact_heightfield.rs", R+"erosion.rs", R+"contours.rs", R+"poly_mesh.rs"], [("the whole pipeline", R+"lib.rs")],
  "runtime monitor: clearance oracle from the input geometry", MON + "Slack: 1.6 cells plus the simplification error, and the chamfer metric's 12 %.", observe=["PolygonNavmesh vs. geometry"])
p("E02", "Every place with enough room to stand is covered by the navmesh",
  """Every place on the walkable ground that is farther from all obstacles and rims than the agent radius, with allowance for voxel rounding and the configured simplification error, is covered by a polygon of the finished navmesh.
  High overhangs, climbable steps and tile borders take nothing away.""",
  "every world of floors, pits, walls, overhangs and steps, and every configuration", CPP + "no test relates the mesh to the geometry it came from.",
  [R+"rasterize.rs", R+"pre_filter.rs", R+"compact_heightfield.rs", R+"erosion.rs", R+"watershed_build_regions.rs", R+"contours.rs", R+"poly_mesh.rs"], [("the whole pipeline", R+"lib.rs")],
  "runtime monitor: clearance oracle from the input geometry", MON + "Slack: 3 cells plus the simplification error. Worlds whose holes the library reports it could not join are not judged.", observe=["PolygonNavmesh vs. geometry"])
p("E09", "Polygons are connected exactly where an agent can walk between them",
  """Two places of the walkable ground that are joined by a passage wide enough for the agent lie in polygons that are connected through neighbour links.
  Places separated everywhere by obstacles are never connected.""",
  "every world of floors and walls, and every configuration", CPP + "no test follows the neighbour links.",
  [R+"watershed_build_regions.rs", R+"contours.rs", R+"poly_mesh.rs"], [("build_mesh_adjacency over the whole pipeline", R+"poly_mesh.rs")],
  "runtime monitor: flood-fill oracle on the input geometry", MON, observe=["PolygonNavmesh::polygon_neighbors vs. geometry"])
p("E03", "No input makes the pipeline panic, hang, overflow or emit broken meshes",
  """Whatever finite triangles, bounds, areas, convex volumes and configuration within the documented ranges it is given, the pipeline ends with meshes or with an error, and never panics, overflows, runs away or allocates without bound.
  What it returns is well formed: every index points into its array, every polygon has at least three distinct vertices, neighbour links are in range, and the detail mesh has one sub-mesh per polygon.""",
  "every geometry, including degenerate, overlapping, needle-like, far-away and enormous triangles, and extreme settings", CPP + "nothing hostile is ever fed in.",
  [R+"config.rs", R+"rasterize.rs", R+"compact_heightfield.rs", R+"watershed_build_regions.rs", R+"contours.rs", R+"poly_mesh.rs", R+"detail_mesh.rs"], [("the whole pipeline", R+"lib.rs")],
  "runtime monitor: overflow-checked build, panic hook, per-case time and allocation guards, structural oracle", MON + "Workload bounded to fields of a few hundred columns a side, plus narrow ones up to 65 000.", observe=["every stage's output", "panics, time and allocations"])
p("E04", "The same input gives the same navmesh, whatever else is running",
  """Building from the same geometry and configuration gives bit-identical results at every stage, however often it is repeated, whatever was built before on the same thread, and whatever other threads build meanwhile.""",
  "every world, order of builds and interleaving with other builds", "No test builds anything twice, or two things at once.",
  [R+"watershed_build_regions.rs", R+"contours.rs", R+"poly_mesh.rs", R+"detail_mesh.rs"], [("the whole pipeline", R+"lib.rs")],
  "runtime monitor: replay comparison across repeats and concurrent threads", MON, over=("inputs", "schedules"), observe=["digest of every stage's output"])
p("E05", "Moving, turning, mirroring or rescaling a world only transforms its navmesh",
  """Moving a world by whole cells changes nothing in any stage but the bounds; rescaling geometry, cells and agent together changes nothing but the coordinates, both as far as the numbers involved are exactly representable.
  Turning a world by quarter turns or mirroring it turns or mirrors its voxel field: the same open spans, clearances and links come out, and the same walkable area on worlds of a single storey.""",
  "every world and every such transformation", "No test compares two builds of transformed input.",
  [R+"rasterize.rs", R+"heightfield.rs", R+"pre_filter.rs", R+"compact_heightfield.rs", R+"erosion.rs", R+"watershed_distance_field.rs"], [("the whole pipeline", R+"lib.rs")],
  "runtime monitor: metamorphic comparison of paired builds", MON + "Regions and polygons depend on the scan order by design and are compared for moves and rescaling only.", observe=["fields and meshes of both builds"])
p("E06", "Saved pipeline stages continue after loading as if never saved",
  """Every stage's output, configuration and input geometry can be serialized and read back without losing anything, and a pipeline continued from what was read back gives the same navmesh as one that was never interrupted.
  Damaged or truncated text is refused with an error and never panics.""",
  "every world and every stage at which the pipeline is interrupted", "Only two recorded stages are ever deserialized, none is serialized.",
  [R+"lib.rs", R+"heightfield.rs", R+"compact_heightfield.rs", R+"contours.rs", R+"poly_mesh.rs", R+"detail_mesh.rs", R+"config.rs", R+"math.rs"], [("serialize feature", R+"lib.rs")],
  "runtime monitor: interrupted and uninterrupted builds compared", MON, over=("inputs", "histories"), observe=["every stage before and after the round trip"])
p("E08", "Tiles agree with the whole world and meet at their seams",
  """A tile built with a border wide enough for the agent has, within its bounds, the same open spans, links and walkable area as the same part of the world built in one piece.
  Where one can walk across the cut between two neighbouring tiles, both have portal edges there on the side facing each other, and portal edges lie only on the side they name.""",
  "every world, cut position and border width", "The recorded scenes are built in one piece.",
  [R+"erosion.rs", R+"watershed_build_regions.rs", R+"contours.rs", R+"poly_mesh.rs"], [("border handling in regions, contours and poly mesh", R+"poly_mesh.rs")],
  "runtime monitor: tiles compared with the whole world", MON + "Seams are judged on single-storey neighbourhoods.", observe=["fields and meshes of the tiles and of the whole world"])
BC = "crates/bevy_rerecast_core/src/"
AV = "crates/avian_rerecast/src/"
ED = "crates/bevy_rerecast_editor_integration/src/"
HIST = "Seeded randomised histories over a real Bevy app, the backend or method run after every edit and judged against the world's own contents; holds on the executions observed. "
p("B01", "A Bevy mesh is converted into exactly its triangles",
  """An indexed triangle list with float positions becomes a triangle mesh with the same vertices, bit for bit, and the same triangles in the same winding, none of them walkable yet.
  Any other mesh is refused, and no mesh makes the conversion panic.""",
  "every mesh, topology, index width and set of attributes", "No test converts a Bevy mesh.",
  [BC+"mesh.rs"], [("TriMeshFromBevyMesh::from_mesh", BC+"mesh.rs")],
  "runtime monitor: bitwise comparison of generated meshes", MON, over=("inputs",), observe=["TriMesh"])
p("B02", "The mesh backend reports every usable mesh in the world exactly once",
  """Whenever it is run, the mesh backend returns exactly one affector for every entity that at that moment has a place in the world and a loaded, convertible mesh, with the entity's current world transform and the mesh's current triangles, visible or not.
  If several backends are set, the one set last is the one that runs, and before one is set there is none.""",
  "every history of spawning, despawning, moving, re-parenting, changing and unloading meshes and of setting backends", "No test runs the backend.",
  [BC+"mesh.rs", BC+"backend.rs"], [("mesh3d_backend", BC+"mesh.rs"), ("set_navmesh_affector_backend", BC+"backend.rs")],
  "runtime monitor: world contents as oracle after every edit of a history", HIST, over=("histories",), observe=["the backend's output"])
p("B03", "The physics backend reports exactly the colliders of static bodies",
  """Whenever it is run, the collider backend returns exactly one affector for every entity with a supported collider that currently belongs to an existing static rigid body, be it its own or another entity's, with the collider's current world transform and shape.
  Colliders of dynamic or kinematic bodies, of no body or of a removed one are left out.""",
  "every history of spawning, despawning, moving, attaching and changing bodies and colliders", "No test runs the backend.",
  [AV+"lib.rs"], [("collider_backend", AV+"lib.rs")],
  "runtime monitor: world contents as oracle after every edit of a history", HIST, over=("histories",), observe=["the backend's output"])
p("B04", "A collider's triangles trace its surface",
  """The triangles made from a collider lie on its surface and cover it within the coarseness of ten subdivisions; closed shapes give closed meshes that face outward and hold the shape's volume, and triangle meshes, height fields and boxes are reproduced exactly.
  A compound gives the triangles of all its parts, each at its own place; rounded shapes give their inner shape; shapes without a surface (half-space, segment, polyline) give nothing.
  No triangle is walkable yet.""",
  "every collider of every supported and unsupported shape, and every compound of them", "The one test counts the vertices and triangles of a single box.",
  [AV+"collider_to_trimesh.rs"], [("shape_to_trimesh, compound_trimesh", AV+"collider_to_trimesh.rs")],
  "runtime monitor: analytic surface, closedness and volume oracles", MON + "Convex hulls are judged to the physics engine's own precision.", over=("inputs",), observe=["the backend's output"])
p("B05", "Meshes arrive in the editor as they were sent",
  """A mesh sent to the editor arrives with the same topology, the same indices at the same width, and the same values, bit for bit, for each of the standard attributes.
  Attributes outside the transmission format are left out without disturbing the others.""",
  "every mesh, topology, index width and set of attributes, with or without the transport encoding", "The one test sends a triangle mesh, not a Bevy mesh.",
  [ED+"transmission/serialized_mesh.rs", ED+"transmission/serialization.rs"], [("SerializedMesh::from_mesh, into_mesh", ED+"transmission/serialized_mesh.rs")],
  "runtime monitor: round-trip comparison of generated meshes", MON, over=("inputs",), observe=["the received Mesh"])
p("B06", "Images arrive in the editor as they were sent",
  """An image sent to the editor arrives with the same bytes, size, layers, mip levels, format, dimension, usage, sampler and view settings.
  Only labels of descriptors, alternative view formats and the asset usage may be lost.""",
  "every image, with or without data, sampler and view descriptor", "No test sends an image.",
  [ED+"transmission/serialized_image.rs"], [("SerializedImage::from_image, into_image", ED+"transmission/serialized_image.rs")],
  "runtime monitor: round-trip comparison of generated images", MON, over=("inputs",), observe=["the received Image"])
p("B07", "Materials arrive in the editor as they were sent, textures still shared",
  """A standard material sent to the editor arrives with every field as it was: numbers bit for bit, colours in their own colour space, flags, modes and every texture slot.
  A texture used several times, within one or in several materials, is sent once and still shared after arrival, and different textures stay different.
  A material with a texture that does not exist is refused.""",
  "every material and every sharing of textures among several materials", "No test sends a material.",
  [ED+"transmission/serialized_standard_material.rs"], [("SerializedStandardMaterial", ED+"transmission/serialized_standard_material.rs")],
  "runtime monitor: reflection-driven field comparison after the round trip", MON, over=("inputs",), observe=["the received StandardMaterial and images"])
p("B08", "Payloads survive the transport; damaged ones are refused, not misread",
  """Whatever is sent to the editor is read back unchanged from the transported text.
  Text that was cut, whose compressed content was altered, or that is no such text at all is refused with an error; nothing that arrives makes the reader panic, run away or allocate without bound.""",
  "every payload and every damage to it", "The one test sends a single intact triangle mesh.",
  [ED+"transmission/serialization.rs", ED+"brp.rs"], [("serialize, deserialize", ED+"transmission/serialization.rs")],
  "runtime monitor: round-trip comparison and fault injection with panic and allocation guards", MON, over=("inputs", "faults"), observe=["the decoded response", "panics, time and allocations"])
p("B09", "The editor is told exactly what the world holds",
  """A request for the navmesh input returns the backend's affectors and exactly one visual for every visible entity that is marked for the editor and has a loaded mesh, with its current world transform, mesh and material; every mesh, material and image is sent once.
  A missing material or texture costs only the material, not the visual, and entities are marked according to the plugin's setting.
  A request with parameters, without a backend or without the needed assets is answered with the matching error.""",
  "every history of edits to entities, visibility, marks, meshes, materials and images, with a request after each", "No test calls the method.",
  [ED+"brp.rs", ED+"lib.rs"], [("get_navmesh_input", ED+"brp.rs"), ("insert_editor_visible_to_meshes", ED+"lib.rs")],
  "runtime monitor: world contents as oracle for the decoded response", HIST, over=("histories",), observe=["the decoded response", "error codes"])
EB = "crates/bevy_rerecast_editor/src/"
p("B10", "The editor rebuilds the game's scene and builds the navmesh of its geometry",
  """After fetching a scene from a running game, the editor holds exactly the game's affectors, every triangle where it is in the game's world under whatever transform, and every visual with its mesh, place and material; what an earlier fetch brought is gone.
  The navmesh it then builds is the one the pipeline gives for the game's world-space geometry with the chosen configuration.
  If the game does not answer, or answers with an error or damaged data, the scene stays as it was and the failure is reported.""",
  "every history of scene edits, fetches, failing answers and builds", "No test runs the editor.",
  [EB+"get_navmesh_input.rs", EB+"build.rs", ED+"brp.rs"], [("fetch_navmesh_input", EB+"get_navmesh_input.rs"), ("build_navmesh", EB+"build.rs")],
  "runtime monitor: game contents and direct pipeline as oracle, served over loopback HTTP with injected faults", HIST + "The transform of a sheared visual, which the editor can only show approximately, is not judged.", over=("histories", "faults"), observe=["the editor's entities and assets", "Navmesh", "the request", "reported errors"])
p("B11", "The editor shows the current navmesh exactly when it is switched on",
  """While switched on, the polygon view shows the polygons of the navmesh built last and the detail view its detail triangles, in world space, as faces and as outlines; switched off, or before a navmesh exists, nothing of them is shown.
  Switching affectors on outlines the triangles of each affector, switching them off removes the outlines, and visuals follow their own switch.""",
  "every history of builds and of switching views, including several within one frame", "No test runs the editor.",
  [EB+"visualization.rs"], [("draw_poly_mesh, draw_detail_mesh, hide_*", EB+"visualization.rs")],
  "runtime monitor: shown meshes and lines compared with the navmesh after every frame", HIST + "Colours, widths and other looks are not judged.", over=("histories",), observe=["visibility, meshes and gizmo lines of the editor's entities"])
