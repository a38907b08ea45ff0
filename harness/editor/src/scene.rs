//! B10, B11: the editor fetches a game's scene, builds its navmesh, and shows both.
use crate::build::{BuildNavmesh, NavmeshAffector};
use crate::fw::*;
use crate::gens::*;
use crate::get_navmesh_input::GetNavmeshInput;
use crate::rng::*;
use crate::visualization::{AvailableGizmos, GizmosToDraw, Navmesh, VisualMesh};
use bevy::asset::{AssetPlugin, RenderAssetUsages};
use bevy::ecs::error::{BevyError, ErrorContext, GLOBAL_ERROR_HANDLER};
use bevy::math::Affine3A;
use bevy::pbr::{MeshMaterial3d, StandardMaterial};
use bevy::prelude::*;
use bevy::remote::{RemoteMethodSystemId, RemoteMethods};
use bevy::render::mesh::{Indices, PrimitiveTopology, VertexAttributeValues};
use bevy::transform::TransformPlugin;
use bevy_rerecast_core::Mesh3dNavmeshPlugin;
use bevy_rerecast_editor_integration::brp::*;
use bevy_rerecast_editor_integration::*;
use rerecast::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::net::TcpListener;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

thread_local! { static ERRORS: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; }
fn note_error(e: BevyError, c: ErrorContext) {
    ERRORS.with(|x| x.borrow_mut().push(format!("{c}: {e}").chars().take(300).collect()));
}
fn errors() -> Vec<String> {
    ERRORS.with(|x| std::mem::take(&mut *x.borrow_mut()))
}

/// what the stand-in for the game answers, and what it was asked
struct Server {
    answer: Vec<u8>,
    asked: Vec<(String, Vec<u8>)>,
}
static SERVER: Mutex<Server> = Mutex::new(Server { answer: vec![], asked: vec![] });
static TURN: Mutex<()> = Mutex::new(());
static UP: AtomicUsize = AtomicUsize::new(0);
pub fn init() {
    let _ = GLOBAL_ERROR_HANDLER.set(note_error);
}
fn serve() {
    if UP.fetch_add(1, SeqCst) > 0 {
        return;
    }
    let l = (0..50)
        .find_map(|_| {
            TcpListener::bind("127.0.0.1:15702").ok().or_else(|| {
                std::thread::sleep(std::time::Duration::from_millis(100));
                None
            })
        })
        .unwrap_or_else(|| {
            println!("ERROR: port 15702 is taken");
            std::process::exit(2)
        });
    std::thread::spawn(move || {
        for s in l.incoming() {
            let Ok(mut s) = s else { continue };
            let _ = s.set_nodelay(true);
            let mut b = vec![];
            let mut chunk = [0u8; 4096];
            let (head, need) = loop {
                let Ok(n) = s.read(&mut chunk) else { break (None, 0) };
                if n == 0 {
                    break (None, 0);
                }
                b.extend_from_slice(&chunk[..n]);
                if let Some(k) = b.windows(4).position(|w| w == b"\r\n\r\n") {
                    let h = String::from_utf8_lossy(&b[..k]).to_string();
                    let len = h.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").and_then(|x| x.trim().parse().ok())).unwrap_or(0);
                    break (Some((h, k + 4)), len);
                }
            };
            let Some((head, at)) = head else { continue };
            // a body without a length arrives in chunks
            let chunked = head.to_ascii_lowercase().contains("transfer-encoding: chunked");
            while if chunked { !b.ends_with(b"0\r\n\r\n") } else { b.len() < at + need } {
                match s.read(&mut chunk) {
                    Ok(n) if n > 0 => b.extend_from_slice(&chunk[..n]),
                    _ => break,
                }
            }
            let a = {
                let mut g = SERVER.lock().unwrap();
                let body = if chunked {
                    let t = String::from_utf8_lossy(&b[at..]).to_string();
                    t.split("\r\n").skip(1).step_by(2).collect::<String>().into_bytes()
                } else {
                    b[at..].to_vec()
                };
                g.asked.push((head, body));
                g.answer.clone()
            };
            let _ = s.write_all(&a);
            let _ = s.shutdown(std::net::Shutdown::Write);
            let _ = s.read(&mut chunk);
        }
    });
}
fn http(code: &str, body: &str) -> Vec<u8> {
    format!("HTTP/1.1 {code}\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{body}", body.len()).into_bytes()
}

fn game() -> App {
    let mut a = App::new();
    a.add_plugins((TaskPoolPlugin::default(), AssetPlugin::default(), TransformPlugin));
    a.init_asset::<Mesh>().init_asset::<Image>().init_asset::<StandardMaterial>();
    a.init_resource::<RemoteMethods>();
    a.add_plugins((RerecastEditorIntegrationPlugin::default(), Mesh3dNavmeshPlugin::default()));
    a.update();
    a
}
fn editor() -> App {
    let mut a = App::new();
    a.add_plugins((TaskPoolPlugin::default(), AssetPlugin::default(), TransformPlugin));
    a.init_asset::<Mesh>().init_asset::<Image>().init_asset::<StandardMaterial>().init_asset::<GizmoAsset>();
    a.add_plugins((crate::get_navmesh_input::plugin, crate::build::plugin, crate::visualization::plugin));
    a.update();
    a
}
fn ask(a: &mut App) -> Result<serde_json::Value, V> {
    let id = match a.world().resource::<RemoteMethods>().get(BRP_GET_NAVMESH_INPUT_METHOD) {
        Some(RemoteMethodSystemId::Instant(id)) => *id,
        _ => bail!("no-method", "the method is not registered"),
    };
    match a.world_mut().run_system_with(id, None) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => bail!("refused", "{}", e.message),
        Err(e) => bail!("refused", "{e}"),
    }
}
/// numbers that survive any order of multiplication
fn q(r: &mut Rng, lo: i64, hi: i64) -> f32 {
    r.r(lo * 4, hi * 4) as f32 / 4.0
}
fn exact_affine(r: &mut Rng) -> Affine3A {
    let s = [0.5f32, 1.0, 1.0, 2.0];
    let mut m = Mat3::from_diagonal(Vec3::new(*r.pick(&s), *r.pick(&s), *r.pick(&s)));
    match r.n(8) {
        0 | 1 => m = Mat3::from_cols(m.z_axis, m.y_axis, -m.x_axis),
        2 => m = Mat3::from_cols(-m.x_axis, m.y_axis, m.z_axis),
        3 => m.x_axis.z = *r.pick(&[0.5, -0.5, 1.0]),
        4 => m.x_axis.y = *r.pick(&[0.5, -0.25, 0.25]),
        5 => m = Mat3::from_cols(m.x_axis, m.z_axis, -m.y_axis),
        _ => {}
    }
    Affine3A::from_mat3_translation(m, Vec3::new(q(r, -10, 10), q(r, -2, 2), q(r, -10, 10)))
}
/// a floor, a box, a ramp or a soup
fn level_mesh(r: &mut Rng) -> Mesh {
    let mut v: Vec<Vec3> = vec![];
    let mut ix: Vec<u32> = vec![];
    let mut quad = |a: Vec3, b: Vec3, c: Vec3, d: Vec3| {
        let k = v.len() as u32;
        v.extend([a, b, c, d]);
        ix.extend([k, k + 1, k + 2, k, k + 2, k + 3]);
    };
    let (w, d, h) = (q(r, 2, 9), q(r, 2, 9), q(r, 0, 2));
    match r.n(7) {
        // a wide floor with roofs over it and steps, slabs and single triangles on it
        5 | 6 => {
            let (w, d) = (w + 5.0, d + 5.0);
            quad(Vec3::ZERO, Vec3::new(0.0, 0.0, d), Vec3::new(w, 0.0, d), Vec3::new(w, 0.0, 0.0));
            for _ in 0..r.r(1, 5) {
                let (x, z, y) = (q(r, 0, w as i64), q(r, 0, d as i64), q(r, 0, 4));
                let (a, b) = (q(r, 1, 5), q(r, 1, 5));
                let up = |x: f32, z: f32| Vec3::new(x, y, z);
                quad(up(x, z), up(x, z + b), up(x + a, z + b), up(x + a, z));
            }
            for _ in 0..r.n(3) {
                // a wall
                let (x, z, a, y) = (q(r, 0, w as i64), q(r, 0, d as i64), q(r, 1, 6), q(r, 0, 3) + 0.25);
                quad(Vec3::new(x, 0.0, z), Vec3::new(x, y, z), Vec3::new(x + a, y, z), Vec3::new(x + a, 0.0, z));
            }
        }
        0 | 1 => quad(Vec3::ZERO, Vec3::new(0.0, 0.0, d), Vec3::new(w, 0.0, d), Vec3::new(w, 0.0, 0.0)),
        2 => quad(Vec3::ZERO, Vec3::new(0.0, h, d), Vec3::new(w, h, d), Vec3::new(w, 0.0, 0.0)),
        3 => {
            let p = |i: u32| Vec3::new(if i & 1 > 0 { w * 0.25 } else { 0.0 }, if i & 2 > 0 { h + 0.5 } else { 0.0 }, if i & 4 > 0 { d * 0.25 } else { 0.0 });
            for f in [[0, 1, 5, 4], [2, 6, 7, 3], [0, 2, 3, 1], [4, 5, 7, 6], [0, 4, 6, 2], [1, 3, 7, 5]] {
                quad(p(f[0]), p(f[1]), p(f[2]), p(f[3]));
            }
        }
        _ => {
            for _ in 0..r.r(1, 4) {
                let mut p = || Vec3::new(q(r, -3, 3), q(r, -1, 1), q(r, -3, 3));
                quad(p(), p(), p(), p());
            }
        }
    }
    if r.p(0.1) {
        ix.truncate(3);
        v.truncate(3);
    }
    let mut m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
    m.insert_attribute(Mesh::ATTRIBUTE_POSITION, v.iter().map(|v| v.to_array()).collect::<Vec<_>>());
    m.insert_indices(if r.p(0.5) { Indices::U32(ix) } else { Indices::U16(ix.iter().map(|i| *i as u16).collect()) });
    m
}
/// triangles of a mesh, moved to where its entity is
type T3 = [[f32; 3]; 3];
fn moved(m: &Mesh, g: &GlobalTransform) -> Option<Vec<T3>> {
    let Some(VertexAttributeValues::Float32x3(p)) = m.attribute(Mesh::ATTRIBUTE_POSITION) else { return None };
    let (_, ix) = idx(m)?;
    let a = g.affine();
    ix.chunks_exact(3).map(|c| c.iter().map(|i| p.get(*i as usize).map(|v| a.transform_point3(Vec3::from_array(*v)).to_array())).collect::<Option<Vec<_>>>().map(|v| [v[0], v[1], v[2]])).collect()
}
fn bits(t: &T3) -> [[u32; 3]; 3] {
    t.map(|v| v.map(|x| (x + 0.0).to_bits()))
}
fn materials_of(a: &App, h: Option<&Handle<StandardMaterial>>) -> String {
    let w = a.world();
    let st = w.resource::<Assets<StandardMaterial>>();
    let si = w.resource::<Assets<Image>>();
    let Some(m) = h.and_then(|h| st.get(h)) else { return "bare".into() };
    let (mut s, t) = material_content(m);
    for (n, h) in t {
        if let Some(h) = h {
            match si.get(&h) {
                Some(i) => s += &format!("|{n}={}", image_content(i)),
                None => return "bare".into(),
            }
        }
    }
    s
}
/// the pipeline, step by step, on world-space triangles
fn reference(tris: &[T3]) -> Option<(PolygonNavmesh, DetailNavmesh)> {
    let c = NavmeshConfigBuilder::default().build();
    let mut tm = TriMesh::default();
    for t in tris {
        let k = tm.vertices.len() as u32;
        tm.vertices.extend(t.map(glam::Vec3A::from_array));
        tm.indices.push(glam::UVec3::new(k, k + 1, k + 2));
        tm.area_types.push(AreaType::NOT_WALKABLE);
    }
    let aabb = tm.compute_aabb()?;
    tm.mark_walkable_triangles(c.walkable_slope_angle);
    let mut h = HeightfieldBuilder { aabb, cell_size: c.cell_size, cell_height: c.cell_height }.build().ok()?;
    h.rasterize_triangles(&tm, c.walkable_climb).ok()?;
    h.filter_low_hanging_walkable_obstacles(c.walkable_climb);
    h.filter_ledge_spans(c.walkable_height, c.walkable_climb);
    h.filter_walkable_low_height_spans(c.walkable_height);
    let mut f = h.into_compact(c.walkable_height, c.walkable_climb).ok()?;
    f.erode_walkable_area(c.walkable_radius);
    f.build_distance_field();
    f.build_regions(c.border_size, c.min_region_area, c.merge_region_area).ok()?;
    let k = f.build_contours(c.max_simplification_error, c.max_edge_len, c.contour_flags);
    let p = k.into_polygon_mesh(c.max_vertices_per_polygon).ok()?;
    let d = DetailNavmesh::new(&p, &f, c.detail_sample_dist, c.detail_sample_max_error).ok()?;
    Some((p, d))
}
/// everything fetched that the editor holds
fn held(a: &mut App) -> (Vec<(GlobalTransform, Mesh)>, Vec<(Affine3A, String, Option<Handle<StandardMaterial>>)>) {
    let w = a.world_mut();
    let mut qa = w.query_filtered::<(&GlobalTransform, &Mesh3d), With<NavmeshAffector>>();
    let mut qv = w.query_filtered::<(&Transform, &Mesh3d, Option<&MeshMaterial3d<StandardMaterial>>), With<VisualMesh>>();
    let s = w.resource::<Assets<Mesh>>();
    (
        qa.iter(w).filter_map(|(g, m)| Some((*g, s.get(&m.0)?.clone()))).collect(),
        qv.iter(w).map(|(t, m, k)| (t.compute_affine(), s.get(&m.0).map_or("gone".into(), mesh_content), k.map(|k| k.0.clone()))).collect(),
    )
}
fn near(a: &Affine3A, b: &Affine3A) -> bool {
    let (a, b) = (a.to_cols_array(), b.to_cols_array());
    let s = a.iter().fold(1.0f32, |m, x| m.max(x.abs()));
    a.iter().zip(&b).all(|(x, y)| (x - y).abs() <= 2e-4 * s)
}
fn build(ed: &mut App) -> R {
    guard("BuildNavmesh", || {
        ed.world_mut().trigger(BuildNavmesh);
        ed.world_mut().flush();
    })
}

pub fn b10(cx: &mut Ctx) -> R {
    serve();
    let (mut g, mut ed) = (game(), editor());
    errors();
    let mut fp = Fnv::new();
    let (mut built, mut nv, mut na, mut damaged) = (0, 0, 0, 0);
    let mut meshes: Vec<Handle<Mesh>> = vec![];
    let mut mats: Vec<Handle<StandardMaterial>> = vec![];
    let mut images: Vec<Handle<Image>> = vec![];
    let mut ents: Vec<Entity> = vec![];
    for round in 0..cx.r.r(1, 4) {
        let r = &mut cx.r;
        for _ in 0..r.r(1, 8) {
            if !ents.is_empty() && r.p(0.15) {
                let e = ents.swap_remove(r.n(ents.len()));
                g.world_mut().despawn(e);
                continue;
            }
            if meshes.is_empty() || r.p(0.5) {
                let m = if r.p(0.9) { level_mesh(r) } else { mesh(r) };
                // an affector without numbers is no geometry
                let fine = match m.attribute(Mesh::ATTRIBUTE_POSITION) {
                    Some(VertexAttributeValues::Float32x3(p)) => p.iter().flatten().all(|x| x.is_finite() && x.abs() < 60.0),
                    _ => true,
                };
                let m = if fine { m } else { level_mesh(r) };
                meshes.push(g.world_mut().resource_mut::<Assets<Mesh>>().add(m));
            }
            if mats.is_empty() || r.p(0.2) {
                if r.p(0.5) {
                    let i = image(r);
                    images.push(g.world_mut().resource_mut::<Assets<Image>>().add(i));
                }
                let m = material(r, &images, 0.2)?;
                mats.push(g.world_mut().resource_mut::<Assets<StandardMaterial>>().add(m));
            }
            let a = exact_affine(r);
            let mut e = g.world_mut().spawn((Mesh3d(r.pick(&meshes).clone()), GlobalTransform::from(a), InheritedVisibility::VISIBLE));
            if r.p(0.6) {
                e.insert(MeshMaterial3d(r.pick(&mats).clone()));
            }
            if r.p(0.2) {
                e.insert(InheritedVisibility::HIDDEN);
            }
            ents.push(e.id());
        }
        // what the game holds
        let mut want_a: Vec<[[u32; 3]; 3]> = vec![];
        let mut want_v: Vec<(Affine3A, String, String)> = vec![];
        for e in &ents {
            let w = g.world();
            let (gt, m) = (w.get::<GlobalTransform>(*e).unwrap(), w.get::<Mesh3d>(*e).unwrap());
            let Some(m) = w.resource::<Assets<Mesh>>().get(&m.0) else { continue };
            let tri = m.primitive_topology() == PrimitiveTopology::TriangleList && idx(m).is_some_and(|i| i.1.len() % 3 == 0);
            if let Some(t) = moved(m, gt).filter(|_| tri) {
                want_a.extend(t.iter().map(bits));
            }
            if w.get::<InheritedVisibility>(*e) == Some(&InheritedVisibility::VISIBLE) {
                let k = w.get::<MeshMaterial3d<StandardMaterial>>(*e).map(|m| &m.0);
                want_v.push((gt.affine(), mesh_content(m), materials_of(&g, k)));
            }
        }
        want_a.sort();
        let v = ask(&mut g)?;
        let before = held(&mut ed);
        // a game that fails to answer properly
        let bad = r.p(0.15);
        let ok = http("200 OK", &serde_json::json!({"jsonrpc": "2.0", "id": 1, "result": v}).to_string());
        let answer = if bad {
            damaged += 1;
            let text = v.as_str().unwrap();
            match r.n(6) {
                0 => http("500 Internal Server Error", "{}"),
                1 => http("200 OK", &serde_json::json!({"jsonrpc": "2.0", "id": 1, "error": {"code": -32603, "message": "no backend"}}).to_string()),
                2 => ok[..r.n(ok.len())].to_vec(),
                3 => http("200 OK", "not json"),
                4 => http("200 OK", &serde_json::json!({"result": &text[..r.n(text.len())]}).to_string()),
                _ => http("200 OK", &serde_json::json!({"result": r.pick(&[serde_json::json!(3), serde_json::Value::Null, serde_json::json!({})])}).to_string()),
            }
        } else {
            ok
        };
        let asked = {
            let _turn = TURN.lock().unwrap_or_else(|e| e.into_inner());
            {
                let mut s = SERVER.lock().unwrap();
                s.answer = answer;
                s.asked.clear();
            }
            let x = guard("GetNavmeshInput", || {
                ed.world_mut().trigger(GetNavmeshInput);
                ed.world_mut().flush();
            });
            let asked = std::mem::take(&mut SERVER.lock().unwrap().asked);
            x?;
            asked
        };
        let errs = errors();
        ensure!(asked.len() == 1, "request", "round {round}: the game was asked {} times", asked.len());
        let (head, body) = &asked[0];
        let body: serde_json::Value = serde_json::from_slice(body).unwrap_or_default();
        ensure!(
            head.starts_with("POST /") && body["method"] == BRP_GET_NAVMESH_INPUT_METHOD && body["jsonrpc"] == "2.0" && body["params"].is_null(),
            "request",
            "round {round}: the game was asked {body}"
        );
        if r.p(0.8) {
            ed.update();
        } else {
            // the build must not depend on a frame passing in between, as the affectors are in world space
            ed.update();
            ed.update();
        }
        let (aff, vis) = held(&mut ed);
        if bad {
            ensure!(!errs.is_empty(), "silent", "round {round}: a failed request goes unreported");
            ensure!(aff.len() == before.0.len() && vis.len() == before.1.len(), "lost-scene", "round {round}: a failed request changed the scene");
            continue;
        }
        ensure!(errs.is_empty(), "error", "round {round}: {}", errs.join("; "));
        let mut got_a: Vec<[[u32; 3]; 3]> = vec![];
        let mut tris: Vec<T3> = vec![];
        for (gt, m) in &aff {
            let Some(t) = moved(m, gt) else { bail!("affector", "round {round}: an affector arrived as no triangle list") };
            got_a.extend(t.iter().map(bits));
            tris.extend(t);
        }
        got_a.sort();
        if got_a != want_a {
            let lost = want_a.iter().filter(|x| got_a.binary_search(x).is_err()).count();
            bail!("affectors", "round {round}: {} triangles arrived, {} in the game; {lost} of them are not where they were", got_a.len(), want_a.len());
        }
        ensure!(vis.len() == want_v.len(), "visuals", "round {round}: {} visuals arrived, {} in the game", vis.len(), want_v.len());
        let mut used = vec![false; vis.len()];
        // a transform cannot hold shear, so sheared visuals are only compared by content, and last
        let is_straight = |a: &Affine3A| {
            let (s, rot, t) = a.to_scale_rotation_translation();
            near(&Affine3A::from_scale_rotation_translation(s, rot, t), a)
        };
        want_v.sort_by_key(|v| !is_straight(&v.0));
        for (a, m, k) in &want_v {
            let straight = is_straight(a);
            let hit = (0..vis.len()).find(|i| {
                !used[*i] && vis[*i].1 == *m && (!straight || near(&vis[*i].0, a)) && {
                    let k2 = materials_of(&ed, vis[*i].2.as_ref());
                    k2 == *k || (k == "bare" && k2 == material_content(&StandardMaterial::from(Color::WHITE)).0)
                }
            });
            let Some(h) = hit else {
                let (c, at) = (vis.iter().filter(|v| v.1 == *m).count(), vis.iter().filter(|v| near(&v.0, a)).count());
                let looks = vis.iter().map(|v| differ(k, &materials_of(&ed, v.2.as_ref()))).next().unwrap_or_default();
                bail!("visuals", "round {round}: a visual of the game at {a:?} is not in the editor, or looks different: {c} have its mesh, {at} are at its place; {looks}")
            };
            used[h] = true;
        }
        na += aff.len();
        nv += vis.len();
        want_a.iter().flatten().flatten().for_each(|x| fp.u(*x as u64));
        want_v.iter().for_each(|x| fp.u(hash(&x.1)));
        // build
        let old = ed.world_mut().remove_resource::<Navmesh>();
        drop(old);
        build(&mut ed)?;
        let errs = errors();
        match (guard("the pipeline", || reference(&tris))?, ed.world().get_resource::<Navmesh>()) {
            (None, None) => ensure!(!errs.is_empty(), "silent", "round {round}: a failed build goes unreported"),
            (Some((p, d)), Some(n)) => {
                ensure!(n.poly_mesh == p, "navmesh", "round {round}: the editor's navmesh is not that of the game's geometry ({} and {} polygons)", n.poly_mesh.polygon_count(), p.polygon_count());
                ensure!(n.detail_mesh == d, "navmesh", "round {round}: the editor's detail mesh is not that of the game's geometry");
                built += (p.polygon_count() > 0) as usize;
            }
            (None, Some(_)) => bail!("navmesh", "round {round}: a navmesh from geometry that has none"),
            (Some(_), None) => bail!("navmesh", "round {round}: no navmesh: {}", errs.join("; ")),
        }
    }
    cx.add("affectors", na);
    cx.add("visuals", nv);
    cx.add("navmeshes", built);
    cx.add("failed_requests", damaged);
    if built > 0 {
        cx.seen(fp.0);
    }
    cx.sample(|| format!("{na} affectors, {nv} visuals, {built} navmeshes"));
    Ok(())
}

type Seg = ([u32; 3], [u32; 3]);
fn seg(a: Vec3, b: Vec3) -> Option<Seg> {
    let k = |v: Vec3| (v + 0.0).to_array().map(f32::to_bits);
    let (a, b) = (k(a), k(b));
    (a != b).then(|| (a.min(b), a.max(b)))
}
/// the lines of a gizmo, whichever way they were drawn
fn lines(g: &GizmoAsset) -> BTreeSet<Seg> {
    let v = g.buffer();
    let strips = v.strip_positions.windows(2).filter(|w| w.iter().all(|p| !p.is_nan())).filter_map(|w| seg(w[0], w[1]));
    v.list_positions.chunks(2).filter(|w| w.len() == 2).filter_map(|w| seg(w[0], w[1])).chain(strips).collect()
}
fn rings<'a>(r: impl IntoIterator<Item = &'a [[f32; 3]]>) -> BTreeSet<Seg> {
    r.into_iter().flat_map(|r| (0..r.len()).filter_map(move |i| seg(r[i].into(), r[(i + 1) % r.len()].into()))).collect()
}

/// B11: what is drawn is the navmesh, when it is to be drawn
pub fn b11(cx: &mut Ctx) -> R {
    let mut ed = editor();
    errors();
    let mut fp = Fnv::new();
    let mut log = String::new();
    let mut total = 0;
    let mut affs: Vec<Entity> = vec![];
    let kinds = [AvailableGizmos::PolyMesh, AvailableGizmos::DetailMesh, AvailableGizmos::Affector, AvailableGizmos::Visual];
    let vis: Vec<Entity> = (0..cx.r.n(3)).map(|_| ed.world_mut().spawn((VisualMesh, Visibility::default())).id()).collect();
    let mut toggled_visual = false;
    // affectors are outlined when their switch is turned on
    let mut outlined: BTreeSet<Entity> = BTreeSet::new();
    let mut switched = false;
    let mut nlines = 0;
    for step in 0..cx.r.r(4, 16) {
        let r = &mut cx.r;
        let op = r.n(8);
        log += &format!("{op},");
        match op {
            0 | 1 => {
                for e in affs.drain(..) {
                    ed.world_mut().despawn(e);
                }
                for _ in 0..r.r(1, 4) {
                    let (m, a) = (level_mesh(r), exact_affine(r));
                    let h = ed.world_mut().resource_mut::<Assets<Mesh>>().add(m);
                    let z = ed.world_mut().resource_mut::<Assets<GizmoAsset>>().add(GizmoAsset::new());
                    let e = ed.world_mut().spawn((Mesh3d(h), GlobalTransform::from(a), NavmeshAffector, Gizmo { handle: z, ..default() })).id();
                    ed.world_mut().entity_mut(e).remove::<Transform>();
                    affs.push(e);
                }
                if r.p(0.8) {
                    build(&mut ed)?;
                }
            }
            2 => build(&mut ed)?,
            3 => {}
            _ => {
                let k = *r.pick(&kinds);
                toggled_visual |= k == AvailableGizmos::Visual;
                switched = true;
                guard("toggle", || ed.world_mut().resource_mut::<GizmosToDraw>().toggle(k))?;
            }
        }
        if r.p(0.3) {
            // several edits in one frame
            continue;
        }
        guard("a frame", || ed.update())?;
        let errs = errors();
        ensure!(errs.iter().all(|e| e.contains("build_navmesh")), "error", "step {step} of {log}: {}", errs.join("; "));
        let w = ed.world_mut();
        let on = |k: AvailableGizmos| w.resource::<GizmosToDraw>().contains(&k);
        let (poly, detail, visual) = (on(AvailableGizmos::PolyMesh), on(AvailableGizmos::DetailMesh), on(AvailableGizmos::Visual));
        for e in &vis {
            let shown = *w.get::<Visibility>(*e).unwrap() != Visibility::Hidden;
            ensure!(!toggled_visual || shown == visual, "visual-switch", "step {step} of {log}: visuals are {}", if shown { "shown" } else { "hidden" });
        }
        if switched {
            outlined = if on(AvailableGizmos::Affector) { affs.iter().copied().collect() } else { BTreeSet::new() };
            switched = false;
        }
        for e in &affs {
            let (g, m) = (w.get::<Gizmo>(*e).unwrap(), w.get::<Mesh3d>(*e).unwrap());
            let drawn = lines(w.resource::<Assets<GizmoAsset>>().get(&g.handle).unwrap());
            let want = if outlined.contains(e) { moved(w.resource::<Assets<Mesh>>().get(&m.0).unwrap(), &GlobalTransform::IDENTITY).unwrap_or_default() } else { vec![] };
            ensure!(drawn == rings(want.iter().map(|t| &t[..])), "affector-lines", "step {step} of {log}: {} lines of {} triangles of an affector are drawn", drawn.len(), want.len());
            nlines += drawn.len();
        }
        let mut q = w.query_filtered::<(&Visibility, &Gizmo), Without<NavmeshAffector>>();
        let drawn: Vec<BTreeSet<Seg>> = {
            let s = w.resource::<Assets<GizmoAsset>>();
            q.iter(w).filter(|x| *x.0 != Visibility::Hidden).filter_map(|x| s.get(&x.1.handle)).map(lines).collect()
        };
        let mut q = w.query_filtered::<(&Visibility, Option<&Mesh3d>), (With<Gizmo>, Without<NavmeshAffector>)>();
        let s = w.resource::<Assets<Mesh>>();
        let shown: Vec<Vec<T3>> =
            q.iter(w).filter(|x| *x.0 != Visibility::Hidden).filter_map(|x| x.1).filter_map(|m| s.get(&m.0)).filter_map(|m| moved(m, &GlobalTransform::IDENTITY)).collect();
        let Some(n) = w.get_resource::<Navmesh>() else {
            ensure!(shown.is_empty() && drawn.iter().all(|l| l.is_empty()), "drawn-nothing", "step {step} of {log}: something is drawn without a navmesh");
            continue;
        };
        ensure!(shown.len() == poly as usize + detail as usize, "switch", "step {step} of {log}: {} meshes are shown, {} switched on", shown.len(), poly as usize + detail as usize);
        // the detail mesh is drawn triangle by triangle
        let d = &n.detail_mesh;
        let mut want_d: Vec<[[u32; 3]; 3]> = vec![];
        for m in &d.meshes {
            for t in &d.triangles[m.base_triangle_index as usize..][..m.triangle_count as usize] {
                want_d.push(bits(&t.map(|i| d.vertices[m.base_vertex_index as usize + i as usize].to_array())));
            }
        }
        want_d.sort();
        let is_detail = |t: &Vec<T3>| {
            let mut g: Vec<_> = t.iter().map(bits).collect();
            g.sort();
            g == want_d
        };
        // the polygons may be cut into triangles in any way
        let p = &n.poly_mesh;
        let nvp = p.max_vertices_per_polygon as usize;
        let corners: Vec<Vec<[f32; 3]>> = (0..p.polygon_count())
            .map(|i| {
                p.polygons[i * nvp..][..nvp]
                    .iter()
                    .filter(|v| **v != PolygonNavmesh::NO_INDEX)
                    .map(|v| (p.aabb.min + p.vertices[*v as usize].as_vec3() * Vec3::new(p.cell_size, p.cell_height, p.cell_size)).to_array())
                    .collect()
            })
            .collect();
        let area2 = |t: &[[f32; 3]]| -> f64 { (0..t.len()).map(|i| { let (a, b) = (t[i], t[(i + 1) % t.len()]); a[0] as f64 * b[2] as f64 - b[0] as f64 * a[2] as f64 }).sum() };
        let is_poly = |t: &Vec<T3>| {
            let mut left: Vec<f64> = corners.iter().map(|c| area2(c)).collect();
            let mut count: Vec<usize> = corners.iter().map(|c| c.len() - 2).collect();
            t.iter().all(|t| {
                let b = bits(t);
                // the polygon it belongs to: three corners of it, and with room left
                let Some(k) = (0..corners.len()).find(|k| count[*k] > 0 && b.iter().all(|v| corners[*k].iter().any(|c| c.map(|x| (x + 0.0).to_bits()) == *v))) else { return false };
                count[k] -= 1;
                left[k] -= area2(t);
                true
            }) && count.iter().all(|c| *c == 0)
                && left.iter().all(|l| l.abs() < 1e-2)
        };
        if detail {
            ensure!(shown.iter().any(is_detail), "detail-drawn", "step {step} of {log}: the detail mesh shown is not that of the navmesh");
        }
        if poly {
            ensure!(shown.iter().any(is_poly), "poly-drawn", "step {step} of {log}: the polygons shown are not those of the navmesh");
        }
        let mut want_l = vec![];
        if detail {
            let t: Vec<T3> = d.meshes.iter().flat_map(|m| d.triangles[m.base_triangle_index as usize..][..m.triangle_count as usize].iter().map(|t| t.map(|i| d.vertices[m.base_vertex_index as usize + i as usize].to_array()))).collect();
            want_l.push(rings(t.iter().map(|t| &t[..])));
        }
        if poly {
            want_l.push(rings(corners.iter().map(|c| &c[..])));
        }
        let mut got_l: Vec<_> = drawn.into_iter().filter(|l| !l.is_empty()).collect();
        want_l.retain(|l| !l.is_empty());
        got_l.sort();
        want_l.sort();
        ensure!(got_l == want_l, "lines", "step {step} of {log}: {:?} lines are drawn around the polygons and triangles switched on, which have {:?} edges", got_l.iter().map(|l| l.len()).collect::<Vec<_>>(), want_l.iter().map(|l| l.len()).collect::<Vec<_>>());
        nlines += got_l.iter().map(|l| l.len()).sum::<usize>();
        total += shown.iter().map(|s| s.len()).sum::<usize>();
        shown.iter().flatten().flatten().flatten().for_each(|x| fp.u(x.to_bits() as u64));
    }
    cx.add("triangles_drawn", total);
    cx.add("lines_drawn", nlines);
    if total > 0 {
        cx.seen(fp.0);
    }
    cx.sample(|| format!("{log} {total} triangles"));
    Ok(())
}
