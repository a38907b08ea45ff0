//! E07: the recorded C++ outputs of the two reference levels, compared with the real pipeline stage by stage.
use crate::fw::*;
use crate::model::*;
use crate::pipe::*;
use crate::{bail, ensure};
use glam::{UVec3, Vec2, Vec3, Vec3A};
use rerecast::*;
use serde_json::Value;
use std::sync::OnceLock;

pub struct Level {
    pub name: &'static str,
    pub geometry: Value,
    pub config: Value,
    pub volumes: Value,
    pub contours: Value,
    pub poly: Value,
    pub detail: Value,
}
fn load(name: &str, file: &str) -> Result<Value, String> {
    let p = format!("/repo/crates/rerecast/tests/reference_data/{name}/{file}.json");
    let t = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
    serde_json::from_str(&t).map_err(|e| format!("{p}: {e}"))
}
static LEVELS: OnceLock<Vec<Level>> = OnceLock::new();
pub fn levels() -> &'static Vec<Level> {
    LEVELS.get_or_init(|| {
        ["chainboom", "dungeon"]
            .into_iter()
            .filter_map(|n| {
                Some(Level {
                    name: n,
                    geometry: load(n, "geometry").ok()?,
                    config: load(n, "config").ok()?,
                    volumes: load(n, "convex_volumes").ok()?,
                    contours: load(n, "contour_set").ok()?,
                    poly: load(n, "poly_mesh").ok()?,
                    detail: load(n, "poly_mesh_detail").ok()?,
                })
            })
            .collect()
    })
}
pub fn f(v: &Value) -> f32 {
    // through the decimal text, as a C++ reader would
    v.to_string().parse::<f32>().unwrap()
}
pub fn u(v: &Value) -> u64 {
    v.as_u64().unwrap()
}
pub fn v3f(v: &Value) -> Vec3 {
    Vec3::new(f(&v[0]), f(&v[1]), f(&v[2]))
}
pub fn area(a: u64) -> u8 {
    if a == 63 { AreaType::DEFAULT_WALKABLE.0 } else { a as u8 }
}
impl Level {
    pub fn trimesh(&self) -> TriMesh {
        let vertices: Vec<Vec3A> = self.geometry["verts"].as_array().unwrap().iter().map(|v| Vec3A::from(v3f(v))).collect();
        let indices: Vec<UVec3> = self.geometry["tris"].as_array().unwrap().iter().map(|t| UVec3::new(u(&t[0]) as u32, u(&t[1]) as u32, u(&t[2]) as u32)).collect();
        let n = indices.len();
        TriMesh { vertices, indices, area_types: vec![AreaType::NOT_WALKABLE; n] }
    }
    pub fn c(&self, k: &str) -> f32 {
        f(&self.config[k])
    }
    pub fn i(&self, k: &str) -> u16 {
        u(&self.config[k]) as u16
    }
    pub fn vols(&self) -> Vec<ConvexVolume> {
        self.volumes["volumes"]
            .as_array()
            .unwrap()
            .iter()
            .map(|v| ConvexVolume {
                vertices: v["verts"].as_array().unwrap().iter().map(|p| Vec2::new(f(&p[0]), f(&p[2]))).collect(),
                min_y: f(&v["hmin"]),
                max_y: f(&v["hmax"]),
                area: AreaType(u(&v["area"]) as u8),
            })
            .collect()
    }
}

pub fn e07(cx: &mut Ctx) -> R {
    let ls = levels();
    if ls.is_empty() {
        return Ok(());
    }
    let l = &ls[cx.case as usize % ls.len()];
    let variant = cx.case as usize / ls.len();
    let mut tm = l.trimesh();
    // the recorded output may not depend on how the geometry is handed over
    if variant % 3 == 1 {
        // in parts, joined again
        let cut = 1 + cx.r.n(tm.indices.len() - 1);
        let mut a = TriMesh { vertices: tm.vertices.clone(), indices: tm.indices[..cut].to_vec(), area_types: tm.area_types[..cut].to_vec() };
        let b = TriMesh { vertices: tm.vertices.clone(), indices: tm.indices[cut..].to_vec(), area_types: tm.area_types[cut..].to_vec() };
        a.extend(b);
        tm = a;
    } else if variant % 3 == 2 {
        // unindexed
        let mut a = TriMesh { vertices: vec![], indices: vec![], area_types: tm.area_types.clone() };
        for t in &tm.indices {
            let b = a.vertices.len() as u32;
            for k in 0..3 {
                a.vertices.push(tm.vertices[t[k] as usize]);
            }
            a.indices.push(UVec3::new(b, b + 1, b + 2));
        }
        tm = a;
    }
    let bb = tm.compute_aabb().unwrap();
    let (mn, mx) = (v3f(&l.config["bmin"]), v3f(&l.config["bmax"]));
    ensure!((bb.min - mn).abs().max_element() < 1e-4 && (bb.max - mx).abs().max_element() < 1e-4, "ref-aabb", "{}: bounds {bb:?}, recorded {mn:?}..{mx:?}", l.name);
    tm.mark_walkable_triangles(l.c("walkableSlopeAngle").to_radians());
    let mut hf = hfb(bb.min, bb.max, l.c("cs"), l.c("ch"))?;
    ensure!(hf.width == l.i("width") && hf.height == l.i("height"), "ref-size", "{}: {}x{}", l.name, hf.width, hf.height);
    let climb = l.i("walkableClimb");
    hf.rasterize_triangles(&tm, climb).map_err(|e| v("raster-error", e))?;
    hf.filter_low_hanging_walkable_obstacles(climb);
    hf.filter_ledge_spans(l.i("walkableHeight"), climb);
    hf.filter_walkable_low_height_spans(l.i("walkableHeight"));
    let mut ch = hf.into_compact(l.i("walkableHeight"), climb).map_err(|e| v("compact-error", e))?;
    ch.erode_walkable_area(l.i("walkableRadius"));
    for vol in l.vols() {
        ch.mark_convex_poly_area(vol);
    }
    ch.build_distance_field();
    ch.build_regions(l.i("borderSize"), l.i("minRegionArea"), l.i("mergeRegionArea")).map_err(|e| v("regions-error", e))?;
    let cs = ch.build_contours(l.c("maxSimplificationError"), l.i("maxEdgeLen"), BuildContoursFlags::default());
    let got = Cs::observe(&cs);
    let want = l.contours["contours"].as_array().unwrap();
    cx.add("contours", got.conts.len());
    if cx.trace { println!("{}: {} contours, recorded {}", l.name, got.conts.len(), want.len()); }
    ensure!(got.w as u64 == u(&l.contours["width"]) && got.h as u64 == u(&l.contours["height"]) && got.border as u64 == u(&l.contours["borderSize"]), "ref-contour-size", "{}: contour set {}x{}", l.name, got.w, got.h);
    for (k, w) in want.iter().enumerate() {
        let Some(g) = got.conts.get(k) else { bail!("ref-contours", "{}: {} contours, recorded {}", l.name, got.conts.len(), want.len()) };
        let vs = |key: &str| -> Vec<(V3, u32)> { w[key].as_array().unwrap().iter().map(|q| ([u(&q[0]) as i32, u(&q[1]) as i32, u(&q[2]) as i32], u(&q[3]) as u32)).collect() };
        ensure!(g.reg as u64 == u(&w["reg"]) && g.area == area(u(&w["area"])), "ref-contours", "{}: contour {k} of region {} area {}, recorded {} {}", l.name, g.reg, g.area, w["reg"], w["area"]);
        let (a, b) = (vs("rverts"), vs("verts"));
        let p = g.raw.iter().zip(&a).position(|(x, y)| x != y);
        ensure!(g.raw == a, "ref-raw-contour", "{}: raw contour {k}: {} vertices, recorded {}; first difference {p:?}", l.name, g.raw.len(), a.len());
        let p = g.verts.iter().zip(&b).position(|(x, y)| x != y);
        ensure!(g.verts == b, "ref-contour", "{}: contour {k}: {} vertices, recorded {}; first difference {p:?}", l.name, g.verts.len(), b.len());
    }
    ensure!(got.conts.len() == want.len(), "ref-contours", "{}: {} contours, recorded {}", l.name, got.conts.len(), want.len());
    let pm = cs.into_polygon_mesh(l.i("maxVertsPerPoly")).map_err(|e| v("mesh-error", e))?;
    let nvp = u(&l.poly["nvp"]) as usize;
    let wv: Vec<[u64; 3]> = l.poly["verts"].as_array().unwrap().iter().map(|q| [u(&q[0]), u(&q[1]), u(&q[2])]).collect();
    let gv: Vec<[u64; 3]> = pm.vertices.iter().map(|q| [q.x as u64, q.y as u64, q.z as u64]).collect();
    if cx.trace { println!("{}: {} mesh vertices, recorded {}; {} polygons, recorded {}", l.name, gv.len(), wv.len(), pm.polygon_count(), l.poly["flags"].as_array().unwrap().len()); }
    let p = gv.iter().zip(&wv).position(|(x, y)| x != y);
    ensure!(gv == wv, "ref-mesh-vertices", "{}: {} vertices, recorded {}; first difference {p:?}: {:?} {:?}", l.name, gv.len(), wv.len(), p.map(|p| gv[p]), p.map(|p| wv[p]));
    let polys: Vec<u64> = l.poly["polys"].as_array().unwrap().iter().map(u).collect();
    ensure!(pm.polygons.len() == polys.len() / 2, "ref-mesh-polygons", "{}: {} polygon slots, recorded {}", l.name, pm.polygons.len(), polys.len() / 2);
    for (k, c) in polys.chunks_exact(2 * nvp).enumerate() {
        let a: Vec<u64> = pm.polygons[k * nvp..][..nvp].iter().map(|v| *v as u64).collect();
        let b: Vec<u64> = pm.polygon_neighbors[k * nvp..][..nvp].iter().map(|v| *v as u64).collect();
        ensure!(a == c[..nvp], "ref-mesh-polygons", "{}: polygon {k} is {a:?}, recorded {:?}", l.name, &c[..nvp]);
        ensure!(b == c[nvp..], "ref-mesh-neighbours", "{}: neighbours of polygon {k} are {b:?}, recorded {:?}", l.name, &c[nvp..]);
    }
    for (k, a) in l.poly["areas"].as_array().unwrap().iter().enumerate() {
        ensure!(pm.areas[k].0 == area(u(a)), "ref-mesh-areas", "{}: area of polygon {k} is {}, recorded {a}", l.name, pm.areas[k].0);
    }
    cx.add("polygons", pm.polygon_count());
    let dm = DetailNavmesh::new(&pm, &ch, l.c("detailSampleDist"), l.c("detailSampleMaxError")).map_err(|e| v("detail-error", e))?;
    let (wm, wv, wt) = (l.detail["meshes"].as_array().unwrap(), l.detail["verts"].as_array().unwrap(), l.detail["tris"].as_array().unwrap());
    if cx.trace { println!("{}: {} detail vertices, recorded {}; {} triangles, recorded {}", l.name, dm.vertices.len(), wv.len(), dm.triangles.len(), wt.len()); }
    for (k, w) in wm.iter().enumerate() {
        let g = &dm.meshes[k];
        let g = [g.base_vertex_index, g.vertex_count, g.base_triangle_index, g.triangle_count];
        let w: Vec<u32> = (0..4).map(|i| u(&w[i]) as u32).collect();
        ensure!(g[..] == w[..], "ref-detail", "{}: sub-mesh {k} is {g:?}, recorded {w:?}", l.name);
    }
    ensure!(dm.vertices.len() == wv.len() && dm.triangles.len() == wt.len() && dm.meshes.len() == wm.len(), "ref-detail", "{}: {} vertices, recorded {}", l.name, dm.vertices.len(), wv.len());
    for (k, w) in wv.iter().enumerate() {
        let d = (dm.vertices[k] - v3f(w)).abs().max_element();
        ensure!(d <= 1e-5, "ref-detail-vertices", "{}: detail vertex {k} is {:?}, recorded {w}", l.name, dm.vertices[k]);
    }
    for (k, w) in wt.iter().enumerate() {
        let t = dm.triangles[k];
        ensure!((t[0] as u64, t[1] as u64, t[2] as u64, dm.triangle_flags[k] as u64) == (u(&w[0]), u(&w[1]), u(&w[2]), u(&w[3])), "ref-detail-triangles", "{}: detail triangle {k} is {t:?} flags {}, recorded {w}", l.name, dm.triangle_flags[k]);
    }
    cx.add("detail_triangles", dm.triangles.len());
    cx.seen(cx.case);
    cx.sample(|| format!("{} variant {}: {} polygons, {} detail triangles as recorded", l.name, variant % 3, pm.polygon_count(), dm.triangles.len()));
    Ok(())
}
