//! Whole-pipeline monitors that need no model of the algorithm: survival of hostile input, determinism,
//! invariances, persistence.
use crate::fw::*;
use crate::r#gen::*;
use crate::model::*;
use crate::p_e2e::*;
use crate::pipe::*;
use crate::rng::*;
use crate::{bail, ensure};
use glam::{UVec3, Vec2, Vec3};
use rerecast::*;

// ------------------------------------------------------------------ E03: hostile input
fn hostile_scene(r: &mut Rng, c: &Cfg) -> Scene {
    let mut s = scene(r, c);
    let n = s.tris.len();
    for _ in 0..r.r(0, 12) {
        let k = r.n(n.max(1)).min(n.saturating_sub(1));
        if n == 0 {
            break;
        }
        match r.n(12) {
            0 => s.tris[k] = [s.tris[k][0]; 3],
            1 => s.tris[k][1] = s.tris[k][2],
            2 => s.tris[k] = [s.tris[k][0], (s.tris[k][0] + s.tris[k][1]) * 0.5, s.tris[k][1]],
            3 => {
                let t = s.tris[k];
                for _ in 0..r.r(1, 30) {
                    s.tris.push(t);
                }
            }
            4 => s.tris[k].swap(0, 1),
            5 => s.tris[k][r.n(3)].y = *r.pick(&[1e6f32, -1e6, 1e9, 3e4, -0.0, 1e-40]),
            6 => {
                let p = s.tris[k][0];
                s.tris.push([p, p + Vec3::splat(1e-7), p + Vec3::new(1e-7, 0.0, -1e-7)]);
            }
            7 => {
                // a needle across everything
                let (a, b) = s.aabb().unwrap();
                s.tris.push([a, b, b + Vec3::new(c.cs * 0.01, 0.0, 0.0)]);
            }
            8 => {
                // a wall seen from above
                let p = s.tris[k][0];
                s.tris.push([p, p + Vec3::new(0.0, c.ch * 20.0, 0.0), p + Vec3::new(c.cs * 9.0, 0.0, 0.0)]);
            }
            9 => {
                let e = *r.pick(&[1e3f32, 1e5, 1e7]);
                s.tris[k][r.n(3)].x += if r.p(0.5) { e } else { -e };
            }
            10 => {
                // snap to cell borders
                for p in s.tris[k].iter_mut() {
                    p.x = (p.x / c.cs).round() * c.cs;
                    p.z = (p.z / c.cs).round() * c.cs;
                    p.y = (p.y / c.ch).round() * c.ch;
                }
            }
            _ => {
                s.tris.swap_remove(k);
                if s.tris.is_empty() {
                    return s;
                }
                return s;
            }
        }
    }
    if r.p(0.05) {
        let k = *r.pick(&[1e-3f32, 1e3, 1e6, 1e-6]);
        for t in s.tris.iter_mut() {
            for p in t.iter_mut() {
                *p *= k;
            }
        }
    }
    if r.p(0.05) {
        let o = Vec3::new(r.fr(-1e6, 1e6), r.fr(-1e4, 1e4), r.fr(-1e6, 1e6));
        for t in s.tris.iter_mut() {
            for p in t.iter_mut() {
                *p += o;
            }
        }
    }
    s
}
fn hostile_cfg(r: &mut Rng) -> Cfg {
    let mut c = cfg(r);
    if r.p(0.12) {
        c.wh = *r.pick(&[3u16, 3, 4, 40, 255, 256, 1000, 65535]);
    }
    if r.p(0.12) {
        c.wc = *r.pick(&[0u16, 1, 30, 255, 300, 5000, 65535]);
    }
    if r.p(0.12) {
        c.rad = *r.pick(&[0u16, 1, 5, 20, 127, 128, 200, 255, 300, 32767, 32768, 65535]);
    }
    if r.p(0.12) {
        c.border = *r.pick(&[0u16, 1, 5, 10, 30, 60, 255]);
    }
    if r.p(0.12) {
        c.min_area = *r.pick(&[0u16, 1, 1000, 65535]);
    }
    if r.p(0.12) {
        c.merge_area = *r.pick(&[0u16, 1, 1000, 65535]);
    }
    if r.p(0.12) {
        c.max_edge = *r.pick(&[0u16, 1, 2, 255, 65535]);
    }
    if r.p(0.12) {
        c.max_err = *r.pick(&[0.0f32, 0.01, 10.0, 100.0, 1e6]);
    }
    if r.p(0.12) {
        c.nvp = *r.pick(&[3u16, 4, 16, 40, 64, 127, 128, 200, 255, 1000]);
    }
    if r.p(0.12) {
        c.sample = *r.pick(&[0.0f32, 0.9, 1.0, 10.0, 1000.0]);
    }
    if r.p(0.12) {
        c.det_err = *r.pick(&[0.0f32, 1e-6, 10.0, 1e6]);
    }
    if r.p(0.2) {
        c.slope = *r.pick(&[0.0f32, 1.5, 1.57]);
    }
    c.flags = *r.pick(&[0u8, 1, 2, 3]);
    c
}
pub fn e03(cx: &mut Ctx) -> R {
    let mut c = hostile_cfg(&mut cx.r);
    let mut s = hostile_scene(&mut cx.r, &c);
    let r = &mut cx.r;
    if r.p(0.006) {
        // floors upon floors: more than a cell can link to or count
        c.wh = r.r(3, 5) as u16;
        c.rad = c.rad.min(2);
        let (b, _) = s.aabb().unwrap_or((Vec3::ZERO, Vec3::ONE));
        let (n, w, d) = (*r.pick(&[62usize, 63, 64, 65, 200, 254, 255, 256, 257, 300]), c.cs * r.fr(5.0, 12.0), c.cs * r.fr(5.0, 12.0));
        for i in 0..n {
            let o = b + Vec3::new(0.0, i as f32 * (c.wh + 2) as f32 * c.ch, 0.0);
            let (x, z) = (Vec3::new(w, 0.0, 0.0), Vec3::new(0.0, 0.0, d));
            s.tris.push([o, o + z, o + z + x]);
            s.tris.push([o, o + z + x, o + x]);
        }
        cx.add("towers", 1);
    }
    let r = &mut cx.r;
    let (mut lo, mut hi) = s.aabb().unwrap_or((Vec3::ZERO, Vec3::ONE));
    match r.n(12) {
        0 => {
            // only part of the world
            let e = hi - lo;
            lo += e * r.fr(0.0, 0.6);
            hi -= e * r.fr(0.0, 0.5);
        }
        1 => {
            lo -= Vec3::splat(c.cs * r.fr(0.0, 9.0));
            hi += Vec3::splat(c.cs * r.fr(0.0, 9.0));
        }
        2 => std::mem::swap(&mut lo, &mut hi),
        3 => hi.x = lo.x + c.cs * r.fr(0.0, 1.5),
        4 => hi.y = lo.y,
        5 => hi = hi.lerp(lo, 0.5),
        _ => {}
    }
    // keep the grid small, whatever the size of the world
    let ext = (hi.x - lo.x).abs().max((hi.z - lo.z).abs());
    if ext / c.cs > 70.0 {
        c.cs = ext / r.fr(2.0, 70.0);
        if r.p(0.7) {
            c.ch = c.cs * r.fr(0.05, 1.0);
        }
    }
    if c.sample > 0.0 {
        c.sample = c.sample.max(c.cs * 0.5);
    }
    // now and then a long, narrow field
    if r.p(0.004) && hi.x > lo.x {
        let most = if r.p(0.1) { 70_000.0 } else { 9000.0 };
        c.cs = (hi.x - lo.x) / r.fr(300.0, most);
        hi.z = lo.z + c.cs * r.fr(1.0, 6.0);
        if r.p(0.5) {
            std::mem::swap(&mut lo.x, &mut lo.z);
            std::mem::swap(&mut hi.x, &mut hi.z);
        }
        c.ch = (hi.y - lo.y).max(c.cs) / r.fr(3.0, 300.0);
        if c.sample > 0.0 {
            c.sample = c.sample.max(c.cs * 0.5);
        }
        // merging triangles takes cubic time in a contour's length
        c.max_edge = *r.pick(&[0, 200, 1000]);
        c.max_err = c.max_err.max(1.0);
        c.nvp = c.nvp.min(12);
        cx.add("narrow", 1);
    }
    let r = &mut cx.r;
    let mut tm = s.to_trimesh();
    if r.p(0.3) {
        for a in tm.area_types.iter_mut() {
            *a = AreaType(*r.pick(&[0u8, 1, 63, 255]));
        }
    }
    let mut vols = vec![];
    for _ in 0..r.n(3) {
        let mut v = volume(r, lo, hi);
        match r.n(8) {
            0 => v.0.clear(),
            1 => v.0.truncate(1),
            2 => v.0.truncate(2),
            3 => std::mem::swap(&mut v.1, &mut v.2),
            4 => v.0 = v.0.iter().map(|p| *p * 1e6).collect(),
            _ => {}
        }
        vols.push(v);
    }
    if cx.trace {
        println!("{c:?}\n{lo} {hi} {} triangles {}", s.tris.len(), s.name);
    }
    let o = run(&tm, (lo, hi), &c, &vols, true)?;
    let Some(o) = o else {
        cx.add("refused_early", 1);
        return Ok(());
    };
    cx.add("voxelized", 1);
    if o.pm.is_none() {
        if cx.trace {
            println!("refused: {}", o.err);
        }
        cx.add("mesh_refused", 1);
    }
    if !o.err.is_empty() && o.pm.is_some() {
        cx.add("detail_refused", 1);
    }
    if let Some(pm) = &o.pm {
        let m = obs_m(pm)?;
        cx.add("polygons", m.polys.len());
        if !m.polys.is_empty() {
            cx.seen(m.fingerprint());
        }
        if let Some(d) = &o.dm {
            ensure!(d.meshes.len() == m.polys.len() || m.polys.is_empty(), "detail-count", "{} sub-meshes for {} polygons", d.meshes.len(), m.polys.len());
            for v in &d.vertices {
                ensure!(v.is_finite(), "detail-not-finite", "detail vertex {v:?}");
            }
        }
    }
    cx.sample(|| format!("{} triangles, {c:?}", s.tris.len()));
    Ok(())
}

// ------------------------------------------------------------------ fingerprints of everything observable
fn f(v: f32) -> u64 {
    v.to_bits() as u64
}
pub fn digest_hf(h: &Heightfield) -> u64 {
    let mut k = Fnv::new();
    k.u(h.width as u64 | (h.height as u64) << 16);
    for i in 0..h.spans.len() {
        let mut s = h.spans[i];
        k.u(u64::MAX);
        while let Some(key) = s {
            let p = &h.allocated_spans[key];
            k.u(p.min as u64 | (p.max as u64) << 16 | (p.area.0 as u64) << 32);
            s = p.next;
        }
    }
    k.0
}
pub fn digest_ch(c: &CompactHeightfield) -> u64 {
    let mut k = Fnv::new();
    for v in [c.width, c.height, c.walkable_height, c.walkable_climb, c.border_size, c.max_distance, c.max_region.bits()] {
        k.u(v as u64);
    }
    for v in [c.aabb.min, c.aabb.max] {
        for x in v.to_array() {
            k.u(f(x));
        }
    }
    k.u(f(c.cell_size));
    k.u(f(c.cell_height));
    for x in &c.cells {
        k.u(x.index() as u64 | (x.count() as u64) << 32);
    }
    for s in &c.spans {
        k.u(s.y as u64 | (s.region.bits() as u64) << 16 | (s.height() as u64) << 32);
        for d in 0..4 {
            k.u(s.con(d).map_or(999, |c| c as u64));
        }
    }
    for a in &c.areas {
        k.u(a.0 as u64);
    }
    k.u(c.dist.len() as u64);
    for d in &c.dist {
        k.u(*d as u64);
    }
    k.0
}
pub fn digest_cs(c: &ContourSet) -> u64 {
    let mut k = Fnv::new();
    for v in [c.width, c.height, c.border_size] {
        k.u(v as u64);
    }
    for v in [c.aabb.min, c.aabb.max] {
        for x in v.to_array() {
            k.u(f(x));
        }
    }
    for x in [c.cell_size, c.cell_height, c.max_error] {
        k.u(f(x));
    }
    for c in &c.contours {
        k.u(c.region.bits() as u64 | (c.area.0 as u64) << 16);
        for (v, r) in &c.vertices {
            k.u(v.x as u64 | (v.y as u64) << 16 | (v.z as u64) << 32);
            k.u(*r as u64);
        }
        k.u(7);
        for (v, r) in &c.raw_vertices {
            k.u(v.x as u64 | (v.y as u64) << 16 | (v.z as u64) << 32);
            k.u(r.bits() as u64);
        }
    }
    k.0
}
pub fn digest_pm(m: &PolygonNavmesh) -> u64 {
    let mut k = Fnv::new();
    for v in &m.vertices {
        k.u(v.x as u64 | (v.y as u64) << 16 | (v.z as u64) << 32);
    }
    for v in m.polygons.iter().chain(&m.polygon_neighbors).chain(&m.flags) {
        k.u(*v as u64);
    }
    for v in &m.regions {
        k.u(v.bits() as u64);
    }
    for v in &m.areas {
        k.u(v.0 as u64);
    }
    for v in [m.aabb.min, m.aabb.max] {
        for x in v.to_array() {
            k.u(f(x));
        }
    }
    for x in [m.cell_size, m.cell_height, m.max_edge_error] {
        k.u(f(x));
    }
    k.u(m.border_size as u64 | (m.max_vertices_per_polygon as u64) << 16);
    k.0
}
pub fn digest_dm(m: &DetailNavmesh) -> u64 {
    let mut k = Fnv::new();
    for s in &m.meshes {
        for x in [s.base_vertex_index, s.vertex_count, s.base_triangle_index, s.triangle_count] {
            k.u(x as u64);
        }
    }
    for v in &m.vertices {
        for x in v.to_array() {
            k.u(f(x));
        }
    }
    for t in &m.triangles {
        k.u(t[0] as u64 | (t[1] as u64) << 16 | (t[2] as u64) << 32);
    }
    for t in &m.triangle_flags {
        k.u(*t as u64);
    }
    k.0
}
fn digest(o: &Option<Out>) -> [u64; 6] {
    let Some(o) = o else { return [0; 6] };
    let mut k = Fnv::new();
    o.err.bytes().for_each(|b| k.u(b as u64));
    [digest_hf(&o.hf), digest_ch(&o.ch), digest_cs(&o.cs), o.pm.as_ref().map_or(1, digest_pm), o.dm.as_ref().map_or(1, digest_dm), k.0]
}
const STAGES: [&str; 6] = ["heightfield", "compact heightfield", "contours", "polygon mesh", "detail mesh", "error"];

struct World {
    c: Cfg,
    s: Scene,
    lo: Vec3,
    hi: Vec3,
    vols: Vec<(Vec<Vec2>, f32, f32, u8)>,
}
fn world(r: &mut Rng) -> Option<World> {
    let c = cfg(r);
    let s = scene(r, &c);
    let (lo, hi) = s.aabb()?;
    if (hi.x - lo.x).max(hi.z - lo.z) / c.cs > 90.0 {
        return None;
    }
    let vols = (0..if r.p(0.5) { r.n(3) } else { 0 }).map(|_| volume(r, lo, hi)).collect();
    let mut c = c;
    if c.sample > 0.0 && r.p(0.5) {
        c.sample = c.cs * r.fr(0.9, 4.0);
    }
    Some(World { c, s, lo, hi, vols })
}

pub fn world_parts(r: &mut Rng) -> Option<(Cfg, Scene, Vec3, Vec3, Vec<(Vec<Vec2>, f32, f32, u8)>)> {
    let w = world(r)?;
    Some((w.c, w.s, w.lo, w.hi, w.vols))
}

/// E04: the same input gives the same output, bit for bit, whatever else runs.
pub fn e04(cx: &mut Ctx) -> R {
    let Some(w) = world(&mut cx.r) else { return Ok(()) };
    let tm = w.s.to_trimesh();
    let go = || -> Result<[u64; 6], V> { Ok(digest(&run(&tm, (w.lo, w.hi), &w.c, &w.vols, true)?)) };
    let first = go()?;
    // something else in between, on the same thread
    if cx.r.p(0.5) {
        if let Some(x) = world(&mut cx.r) {
            let _ = run(&x.s.to_trimesh(), (x.lo, x.hi), &x.c, &x.vols, true);
        }
    }
    let again = go()?;
    let diff = |a: &[u64; 6], b: &[u64; 6]| (0..6).find(|k| a[*k] != b[*k]).map(|k| STAGES[k]);
    if let Some(k) = diff(&first, &again) {
        bail!("not-repeatable", "two runs over the same input differ from the {k} on");
    }
    cx.add("repeated", 1);
    // several threads at once, started together, each with its own stagger
    if cx.r.p(0.35) {
        let nt = cx.r.r(2, 4) as usize;
        let stag: Vec<u64> = (0..nt).map(|_| cx.r.n(60) as u64).collect();
        let gate = std::sync::Barrier::new(nt);
        let outs: Vec<Result<[u64; 6], V>> = std::thread::scope(|sc| {
            let hs: Vec<_> = stag
                .iter()
                .map(|d| {
                    let (go, gate) = (&go, &gate);
                    sc.spawn(move || {
                        gate.wait();
                        for _ in 0..*d {
                            std::thread::yield_now();
                        }
                        go()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for o in outs {
            if let Some(k) = diff(&first, &o?) {
                bail!("not-thread-independent", "a run next to {} others differs from the {k} on", nt - 1);
            }
            cx.add("concurrent_runs", 1);
        }
    }
    // spare capacity and history of the containers do not matter
    if cx.r.p(0.3) {
        let mut t2 = TriMesh::default();
        t2.extend(tm.clone());
        t2.vertices.reserve(1000);
        let o = digest(&run(&t2, (w.lo, w.hi), &w.c, &w.vols, true)?);
        if let Some(k) = diff(&first, &o) {
            bail!("not-repeatable", "a copied mesh gives a different {k}");
        }
    }
    if first[3] > 1 {
        let mut k = Fnv::new();
        first.iter().for_each(|x| k.u(*x));
        cx.seen(k.0);
    }
    cx.sample(|| format!("{} {} triangles, digests {:x?}", w.s.name, w.s.tris.len(), first));
    Ok(())
}

// ------------------------------------------------------------------ E06: persistence
/// E06: saving and loading any stage loses nothing: the pipeline continues as if nothing had happened.
pub fn e06(cx: &mut Ctx) -> R {
    let Some(w) = world(&mut cx.r) else { return Ok(()) };
    let c = &w.c;
    fn trip<T: serde::Serialize + serde::de::DeserializeOwned>(what: &str, v: &T, pretty: bool) -> Result<T, V> {
        let s = if pretty { serde_json::to_string_pretty(v) } else { serde_json::to_string(v) };
        let s = s.map_err(|e| crate::fw::v("serialize", format!("{what}: {e}")))?;
        serde_json::from_str(&s).map_err(|e| crate::fw::v("deserialize", format!("{what}: {e}")))
    }
    let pretty = cx.r.p(0.2);
    let mut tm = w.s.to_trimesh();
    if cx.r.p(0.3) {
        for a in tm.area_types.iter_mut() {
            *a = AreaType(cx.r.n(256) as u8);
        }
    }
    let tm2 = trip("TriMesh", &tm, pretty)?;
    let bits = |t: &TriMesh| t.vertices.iter().flat_map(|v| v.to_array().map(f32::to_bits)).collect::<Vec<_>>();
    ensure!(tm2.indices == tm.indices && tm2.area_types == tm.area_types && bits(&tm2) == bits(&tm), "lossy-trimesh", "the triangle mesh changed by saving and loading it");
    // damaged text is refused or read as something else, but never brings the program down
    {
        let r = &mut cx.r;
        let mut t = serde_json::to_string(&tm).unwrap().into_bytes();
        match r.n(4) {
            0 => t.truncate(r.n(t.len())),
            1 => {
                let k = r.n(t.len());
                t.remove(k);
            }
            _ => {
                for _ in 0..r.r(1, 4) {
                    let k = r.n(t.len());
                    t[k] = *r.pick(b"0-9.,[]{}\":eEn\0 ");
                }
            }
        }
        cx.add("damaged_refused", serde_json::from_slice::<TriMesh>(&t).is_err() as usize);
    }
    // one chain continues from loaded states, the other from the originals
    let straight = run(&tm, (w.lo, w.hi), c, &w.vols, true)?;
    let aabb = trip("Aabb3d", &Aabb3d { min: w.lo, max: w.hi }, pretty)?;
    ensure!(aabb.min == w.lo && aabb.max == w.hi, "lossy-aabb", "{aabb:?} loaded, {} {} saved", w.lo, w.hi);
    let mut tm2 = tm2;
    tm2.mark_walkable_triangles(c.slope);
    let tm2 = trip("TriMesh", &tm2, pretty)?;
    let mut hf = HeightfieldBuilder { aabb, cell_size: c.cs, cell_height: c.ch }.build().map_err(|e| v("builder-error", e))?;
    hf.rasterize_triangles(&tm2, c.wc).map_err(|e| v("raster-error", e))?;
    let mut hf = trip("Heightfield", &hf, pretty)?;
    hf.filter_low_hanging_walkable_obstacles(c.wc);
    hf.filter_ledge_spans(c.wh, c.wc);
    hf.filter_walkable_low_height_spans(c.wh);
    let hf = trip("Heightfield", &hf, pretty)?;
    let Some(o) = straight else {
        return Ok(());
    };
    ensure!(digest_hf(&hf) == digest_hf(&o.hf), "lossy-heightfield", "the heightfield differs after saving and loading");
    obs(&hf)?;
    let Ok(mut ch) = hf.into_compact(c.wh, c.wc) else { bail!("lossy-heightfield", "a loaded heightfield can not be compacted") };
    ch = trip("CompactHeightfield", &ch, pretty)?;
    ch.erode_walkable_area(c.rad);
    for (vs, y0, y1, a) in &w.vols {
        let vol = ConvexVolume { vertices: vs.clone(), min_y: *y0, max_y: *y1, area: AreaType(*a) };
        ch.mark_convex_poly_area(vol);
    }
    ch = trip("CompactHeightfield", &ch, pretty)?;
    ch.build_distance_field();
    ch = trip("CompactHeightfield", &ch, pretty)?;
    if ch.build_regions(c.border, c.min_area, c.merge_area).is_err() {
        bail!("lossy-compact", "a loaded compact heightfield can not be partitioned");
    }
    let ch = trip("CompactHeightfield", &ch, pretty)?;
    ensure!(digest_ch(&ch) == digest_ch(&o.ch), "lossy-compact", "the compact heightfield differs after saving and loading");
    let cs = ch.build_contours(c.max_err, c.max_edge, BuildContoursFlags::from_bits_retain(c.flags));
    ensure!(digest_cs(&cs) == digest_cs(&o.cs), "lossy-compact", "the contours of a loaded compact heightfield differ");
    let pm = cs.into_polygon_mesh(c.nvp);
    let (Ok(pm), Some(pm0)) = (pm, &o.pm) else { return Ok(()) };
    let pm = trip("PolygonNavmesh", &pm, pretty)?;
    ensure!(&pm == pm0 && digest_pm(&pm) == digest_pm(pm0), "lossy-mesh", "the polygon mesh differs after saving and loading");
    let dm = DetailNavmesh::new(&pm, &ch, c.sample, c.det_err);
    let (Ok(dm), Some(dm0)) = (dm, &o.dm) else { return Ok(()) };
    let dm = trip("DetailNavmesh", &dm, pretty)?;
    ensure!(&dm == dm0 && digest_dm(&dm) == digest_dm(dm0), "lossy-detail", "the detail mesh differs after saving and loading");
    cx.add("polygons", pm.polygon_count());
    cx.add("detail_vertices", dm.vertices.len());
    if pm.polygon_count() > 0 {
        cx.seen(digest_pm(&pm));
    }
    cx.sample(|| format!("{}: {} spans, {} polygons, {} detail vertices", w.s.name, ch.spans.len(), pm.polygon_count(), dm.vertices.len()));
    Ok(())
}
