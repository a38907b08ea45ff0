#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the one table below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
R = "crates/rerecast/src/"
P = []
def p(id, title, statement, text, why, files, mech, tech, note, over=("inputs", "configurations"), hook=None, observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=list(over), text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mech, tech=tech, note=" ".join(note.split()), hook=hook, observe=list(observe)))

CPP = "The only pipeline test compares two fixed level scenes with fixed settings against recorded C++ output; "
MON = "Seeded randomised workload over the real code (debug assertions and overflow checks on), every execution judged by the oracle; holds on the executions observed. "

p("V01", "Rasterized spans cover the triangle's exact extent in every column",
  """Rasterizing a triangle into a voxel field puts one span into exactly those columns of the field that the triangle crosses.
  Each span covers, rounded outwards to whole cells, the height range of the part of the triangle inside that column, clamped to the field, and carries the triangle's area type.
  No finite triangle, wherever it lies relative to the field, makes rasterization panic or write outside the field, and none makes it fail unless the cells vanish in the rounding of the coordinates.""",
  "every finite triangle, cell size, cell height and field size up to 65535 cells a side",
  CPP + "no test rasterizes degenerate, huge, far-away, boundary-aligned or needle triangles, or wide fields.",
  [R+"rasterize.rs", R+"heightfield.rs"], [("rasterize_triangle / divide_poly clipping", R+"rasterize.rs"), ("add_span clamping", R+"heightfield.rs")],
  "runtime monitor: exact f64 clipping oracle over generated triangles",
  MON + "Columns and layers closer to a boundary than f32 rounding explains are not judged.", observe=["Heightfield spans after rasterize_triangles"])
p("V02", "Span columns stay sorted and disjoint, whatever the insertion history",
  """After any sequence of triangle insertions, the spans of every column are non-empty, sorted by height and neither touch nor overlap, and together they occupy exactly the union of the inserted solid ranges.
  When ranges join, the new range is joined with the existing ones from the lowest upwards: if the existing top is higher than the new one or within the merge threshold of it, the larger of the two area types remains, otherwise the new range's.
  Inserting triangles one at a time, all at once, or through the all-in-one conversion of a triangle mesh gives the same field.""",
  "every sequence of insertions into the same field",
  "The span tests insert at most three spans in fixed positions; merging of several spans at once, equal tops and re-used storage are not reached.",
  [R+"heightfield.rs", R+"rasterize.rs", R+"span.rs"], [("add_span merging and linked list", R+"heightfield.rs")],
  "runtime monitor: shadow column model replaying the recorded insertion history", MON, over=("inputs", "histories"), observe=["Heightfield columns after each history"])
p("V03", "Walkability marking follows the slope threshold exactly",
  """Marking walkable triangles sets a triangle to the walkable area type exactly if the angle between its normal and the up axis is below the given slope; every other triangle keeps the area type it had.
  Degenerate triangles are never marked, winding decides which side is up, and geometry is left untouched.""",
  "every triangle mesh and slope angle",
  CPP + "slopes at the threshold, downward and degenerate faces are never exercised alone.",
  [R+"trimesh.rs"], [("mark_walkable_triangles", R+"trimesh.rs")],
  "runtime monitor: f64 slope oracle over generated triangle soups", MON + "Triangles within rounding of the threshold are not judged.", observe=["TriMesh::area_types"])
p("V04", "Low-hanging obstacles: steps are made walkable, nothing else changes",
  """The low-hanging-obstacle filter turns a non-walkable span walkable exactly if the span directly below it was walkable and the step up between their tops is at most the walkable climb, taking over the area of the span below; chains of non-walkable spans are not propagated through.
  It changes no span's extent and no other area.""",
  "every voxel field and climb height", CPP + "no unit test covers the filter, in particular chains of spans in one column.",
  [R+"pre_filter.rs"], [("filter_low_hanging_walkable_obstacles", R+"pre_filter.rs")],
  "runtime monitor: independent per-column reference filter", MON, observe=["span areas before/after the filter"])
p("V05", "Ledge filter removes exactly the spans next to too deep drops",
  """The ledge filter makes a walkable span unwalkable exactly if some side has a drop of more than the walkable climb with enough clearance to fall into it (the field's edge counts as such a drop), or if its reachable neighbours' floors differ by more than the walkable climb.
  It changes no span's extent, adds no walkable span, and each verdict is based only on the extents of the spans.""",
  "every voxel field, walkable height and climb", CPP + "no unit test covers the filter.",
  [R+"pre_filter.rs"], [("filter_ledge_spans", R+"pre_filter.rs")],
  "runtime monitor: independent reference filter", MON, observe=["span areas before/after the filter"])
p("V06", "Low-clearance filter removes exactly the spans without headroom",
  """The low-height filter makes a span unwalkable exactly if the gap between its top and the bottom of the next span above is less than the walkable height; the top span of a column always has headroom.
  Nothing else changes.""",
  "every voxel field and walkable height", CPP + "no unit test covers the filter.",
  [R+"pre_filter.rs"], [("filter_walkable_low_height_spans", R+"pre_filter.rs")],
  "runtime monitor: independent reference filter", MON, observe=["span areas before/after the filter"])
p("V07", "Compacting keeps exactly the open space above walkable spans",
  """Converting a solid field to a compact one yields, column by column and in order, one open span for every walkable solid span: its floor is the solid span's top, its headroom the gap up to the next solid span (saturating at the largest storable height), its area the same.
  Bounds, cell sizes and walkable parameters are carried over, with the top raised by the walkable height, and no unwalkable span leaves a trace; more than 255 open spans in a column are refused with an error.""",
  "every voxel field, including columns with hundreds of spans", CPP + "tall columns, saturated heights and empty columns are not reached.",
  [R+"compact_heightfield.rs", R+"compact_cell.rs", R+"compact_span.rs"], [("into_compact", R+"compact_heightfield.rs")],
  "runtime monitor: independent reference compaction", MON, observe=["CompactHeightfield cells, spans, areas"])
p("V08", "Neighbour links exist exactly where an agent can step across",
  """Each open span is linked in each of the four directions to the first span of the neighbouring cell whose shared headroom is at least the walkable height and whose floor differs by at most the walkable climb, and is unlinked exactly if there is none (or it is beyond the representable number of layers, which is reported as an error).
  No link leads out of the field or to the wrong cell.""",
  "every voxel field, walkable height and climb", CPP + "overlapping layers and fields at the layer limit are not reached.",
  [R+"compact_heightfield.rs", R+"compact_span.rs"], [("build_connections", R+"compact_heightfield.rs"), ("set_con/con", R+"compact_span.rs")],
  "runtime monitor: independent reference linking", MON, observe=["CompactSpan::con"])
p("V09", "Erosion removes exactly the spans within the agent radius of an obstacle",
  """Eroding by a radius makes unwalkable exactly those walkable spans whose chamfer distance (2 per straight, 3 per diagonal step over neighbour links, measured in one forward and one backward sweep) to the nearest boundary of the walkable area is less than twice the radius.
  It never makes a span walkable and never changes anything but area types, for every radius including 0 and the largest.""",
  "every field and radius 0..65535", CPP + "one radius per scene; large radii and diagonal corner cases are not reached.",
  [R+"erosion.rs"], [("erode_walkable_area two-pass chamfer distance", R+"erosion.rs")],
  "runtime monitor: shortest-path distance oracle (Dijkstra over recorded links)", MON, observe=["CompactHeightfield::areas before/after"])
p("V10", "Convex volumes re-mark exactly the spans inside them",
  """Marking a convex volume gives the volume's area type to exactly those walkable spans whose cell centre lies inside the volume's polygon and whose floor lies within its height range.
  Unwalkable spans stay unwalkable, spans outside are untouched, nothing else changes, and volumes partly or wholly outside the field are harmless.""",
  "every convex polygon, height range, area type and field", CPP + "the recorded volumes all lie inside the field.",
  [R+"mark_convex_poly_area.rs"], [("mark_convex_poly_area / point_in_poly", R+"mark_convex_poly_area.rs")],
  "runtime monitor: f64 point-in-polygon oracle", MON + "Centres within rounding of an edge are not judged.", observe=["CompactHeightfield::areas before/after"])
p("V11", "Voxel fields have the requested geometry and consistent accessors",
  """A new voxel field keeps the given bounds and cell sizes, has as many columns per axis as the rounded extent divided by the cell size, and is empty; extents needing more than the representable number of columns are refused with an error.
  The span accessors agree with each other and with the columns' contents at every coordinate.""",
  "every bounds/cell-size combination and every field content", "The tests create one field size.",
  [R+"heightfield.rs"], [("HeightfieldBuilder::build, accessors", R+"heightfield.rs")],
  "runtime monitor: arithmetic oracle plus exhaustive accessor sweep per field", MON, observe=["Heightfield fields and accessors"])
p("T01", "Joining triangle meshes preserves every triangle",
  """Appending triangle meshes to one another keeps every triangle of every part: same corner positions, same winding, same area type, in order, with indices referring to the joined vertex list.
  The bounding box of a mesh is exactly the extent of its vertices, and absent exactly for a mesh without vertices.""",
  "every sequence of meshes", "No test appends more than what the Bevy glue happens to do.",
  [R+"trimesh.rs", R+"math.rs"], [("TriMesh::extend, compute_aabb", R+"trimesh.rs")],
  "runtime monitor: list-model oracle over append histories", MON, over=("inputs", "histories"), observe=["TriMesh vectors"])
p("R01", "The distance field is the exact smoothed distance to area boundaries",
  """The distance recorded for every open span is its chamfer distance to the nearest span bordering a different area or an unlinked side, smoothed by the documented box blur; boundary spans have distance 0 and inner spans more.
  The recorded maximum is the true maximum and nothing else in the field changes.""",
  "every compact field with any area layout", CPP + "only the final field of one scene is compared.",
  [R+"watershed_distance_field.rs"], [("build_distance_field, box_blur", R+"watershed_distance_field.rs")],
  "runtime monitor: shortest-path + blur reference oracle", MON, observe=["CompactHeightfield::dist, max_distance"])
p("R02", "Regions partition the walkable surface into connected single-area patches",
  """After building regions every walkable span belongs to at most one region, regions never mix area types and never cover unwalkable spans, each region is connected over neighbour links, and exactly the spans in the border strip carry the border marker.
  Region numbers stay within the reported maximum, and the result equals that of the published watershed algorithm.""",
  "every compact field, border size and size thresholds", CPP + "one border size; layouts of areas and overlaps the level happens not to have are not reached.",
  [R+"region.rs", R+"watershed_build_regions.rs"], [("build_regions, flood_region, expand_regions", R+"watershed_build_regions.rs")],
  "runtime monitor: connectivity/area invariants plus independent watershed reference", MON, observe=["CompactSpan::region"])
p("R03", "Small regions are removed and merged only as configured",
  """With a zero minimum every walkable span keeps a region; an isolated island smaller than the minimum region area disappears entirely, and no island or region at least that large ever loses its spans.
  Merging never joins different area types or unconnected islands, and never loses a span.""",
  "every compact field and pair of thresholds", CPP + "one threshold pair per scene.",
  [R+"watershed_build_regions.rs"], [("merge_and_filter_regions", R+"watershed_build_regions.rs")],
  "runtime monitor: differential run with and without thresholds plus island oracle", MON, observe=["CompactSpan::region"])
p("K01", "Raw outlines trace exactly the boundary of every region",
  """The unsimplified outlines of a region consist of exactly the cell edges where the region borders something else, each traced once, in unit steps, with the neighbouring region and area changes recorded, and the area they enclose equals the region's number of cells.
  The contour set's size, bounds and border are the field's without its border, and the field is not modified.""",
  "every partitioned field", CPP + "one border size; regions with many holes are not reached.",
  [R+"contours.rs"], [("build_contours, walk_contour, get_corner_height", R+"contours.rs")],
  "runtime monitor: boundary-edge accounting and signed-area oracle plus independent tracer", MON, observe=["ContourSet raw vertices"])
p("K02", "Simplified outlines stay within the configured error and keep portals",
  """A simplified outline is a subsequence of the raw one that keeps every vertex where the neighbouring region or the area border changes, deviates from the raw outline by at most the configured error, and splits walls longer than the maximum edge length if asked to.
  Every edge is labelled with what lies on its other side.""",
  "every partitioned field, error, edge length and flag combination", CPP + "one error and edge length per scene.",
  [R+"contours.rs"], [("simplify_contour, remove_degenerate_segments", R+"contours.rs")],
  "runtime monitor: geometric error oracle plus independent simplifier", MON + "The error bound is asserted where no edge splitting is requested.", observe=["ContourSet vertices"])
p("K03", "A region with holes becomes a single outline enclosing outline minus holes",
  """If a region has holes, the contour set has one outline for it, in which each hole is connected by a bridge, and its enclosed area is that of the outer outline minus the holes.
  Regions without holes are unaffected.""",
  "every region with any number and arrangement of holes", CPP + "the scene whose recorded output has merged holes is excluded from the passing tests because its files are missing.",
  [R+"contours.rs"], [("merge_region_holes", R+"contours.rs")],
  "runtime monitor: signed-area and vertex-count oracle plus independent merger", MON + "Holes that no bridge can reach are recognised by the reference and not judged.", observe=["ContourSet contours"])
p("P01", "Navmesh polygons are convex, bounded in size and made of outline vertices",
  """Every polygon of the navmesh has at least three and at most the configured number of vertices, repeats no vertex, is consistently wound and strictly convex as far as its outline does not touch itself, and carries the region and area of an outline.
  Vertices are outline vertices inside the bounds, nearly coincident ones are welded, none is unused, and the mesh keeps the outline set's bounds, cell sizes and error.""",
  "every outline set and vertex limit", CPP + "one vertex limit per scene.",
  [R+"poly_mesh.rs"], [("into_polygon_mesh, triangulate, merge_polys", R+"poly_mesh.rs")],
  "runtime monitor: exact integer convexity/ownership oracle", MON + "Exact convexity is asserted where outlines are simple and no border vertex was removed; polygons of bridged outlines must be convex if the published algorithm makes them so.", observe=["PolygonNavmesh"])
p("P02", "Navmesh polygons tile their outlines exactly",
  """The polygons built from an outline that does not touch itself cover exactly the area it encloses, without gaps or overlaps, and the total area per area type is preserved.
  No region appears that has no outline.""",
  "every outline set and vertex limit", CPP + "area is never summed.",
  [R+"poly_mesh.rs"], [("triangulate, merge_polys, remove_vertex", R+"poly_mesh.rs")],
  "runtime monitor: exact integer area conservation oracle", MON, observe=["PolygonNavmesh"])
p("P03", "Polygon adjacency is symmetric and complete; portals lie on tile borders",
  """Two polygons are linked across an edge exactly if they share that edge in opposite directions, and every link is mutual.
  If the tile has a border, edges on its sides, and only those, are marked as portals of that side.""",
  "every outline set, vertex limit and border size", CPP + "one square-ish tile with one border size.",
  [R+"poly_mesh.rs"], [("build_mesh_adjacency, portal edges", R+"poly_mesh.rs")],
  "runtime monitor: edge-matching oracle", MON, observe=["PolygonNavmesh::polygon_neighbors"])
p("P04", "Tile-border vertices are removed wherever possible, and only they",
  """Vertices flagged as lying on a region corner at the tile border are removed from the navmesh exactly if their neighbourhood can be re-tessellated, and every other outline vertex stays.
  The remaining polygons are the ones the published algorithm produces.""",
  "every outline set with tile borders", CPP + "one border size, and the areas around every removed vertex are alike.",
  [R+"poly_mesh.rs"], [("can_remove_vertex, remove_vertex", R+"poly_mesh.rs")],
  "runtime monitor: vertex accounting plus independent mesh builder", MON, observe=["PolygonNavmesh"])
p("C01", "World measures become cell counts that never understate the agent",
  """A configuration built from world measures gives the agent at least its height and radius and at most its climb in whole cells, each off by less than one cell, and a border wider than its radius.
  The grid has the size of the field built from the same bounds or, with tiling, the tile's size plus the border on both sides; region sizes become areas in cells, the edge length whole cells, detail distances world units, with sampling switched off below 0.9 cells.
  Everything else is carried over, and the defaults describe an adult human in metres.""",
  "every set of measures, cell sizes, bounds, tile sizes and flags that fits the grid", "no test builds a configuration; the recorded scenes set cell counts by hand.",
  [R+"config.rs"], [("NavmeshConfigBuilder::build", R+"config.rs")],
  "runtime monitor: f64 unit conversion oracle", MON + "Quotients within rounding of a whole number may go either way.",
  over=("configurations",), hook="cfg(rerecast_hooks): NavmeshConfigBuilder::hook_new sets the private fields", observe=["NavmeshConfig"])
exec(open(os.path.join(ROOT, "tools", "props2.py")).read())

ids = [q["id"] for q in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "observe_at": q["observe"], "hook_needed": q["hook"]}}) + "\n")
HOOK = "ff875a192e968077e76a0a2fe4485bd3bf017814"
m = {"version": 1, "setup_cmd": "bash check.sh --setup",
     "checks": [{"property": q["id"], "quick_cmd": f"bash check.sh {q['id']} quick", "thorough_cmd": f"bash check.sh {q['id']} thorough",
                 "technique": q["tech"], "level": "exploration", "level_note": q["note"]} for q in P if not q.get("na")],
     "not_applicable": [{"property": q["id"], "reason": q["na"]} for q in P if q.get("na")],
     "hooks": {"guard": "--cfg rerecast_hooks", "enable": "RUSTFLAGS='--cfg rerecast_hooks' cargo build (check.sh, function hooked; only C01 needs it)",
               "source_commits": [HOOK]},
     "notes": "Every other check observes public state of the real code. known_findings.txt lists findings and repairs."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(P), "properties")
