//! Monitors for the detail mesh (D01-D03).
use crate::fw::*;
use crate::r#gen::*;
use crate::model::*;
use crate::p_mesh::*;
use crate::pipe::*;
use crate::refdetail as rd;
use crate::rng::*;
use crate::{bail, ensure};
use rerecast::*;
use std::collections::{HashMap, HashSet};

pub struct DetailCase {
    pub ch: Ch,
    pub pm: Pm,
    pub dm: DetailNavmesh,
    pub sample: f32,
    pub err: f32,
    pub max_edge_error: f32,
    pub name: String,
    pub nvp: usize,
    pub modified: bool,
}
/// Runs the real pipeline up to the detail mesh on a generated field.
pub fn detail_case(cx: &mut Ctx) -> Result<Option<DetailCase>, V> {
    let mut c = cfg(&mut cx.r);
    let fine = cx.r.p(0.6);
    if fine {
        // wide rolling ground, few edges, dense samples: interior refinement
        c.wc = cx.r.r(4, 12) as u16;
        c.rad = 0;
        c.merge_area = 400;
    }
    // more vertices than 16 bits count
    let many = cx.r.p(0.0015);
    let (ch, name) = if many {
        c.nvp = 3;
        let n = cx.r.r(224, 250) as usize;
        let mut ch = checkers_sized(n, n, 2, &c).to_real().into_compact(c.wh, c.wc).map_err(|e| v("compact-error", e))?;
        ch.build_distance_field();
        ch.build_regions(0, 0, 0).map_err(|e| v("regions-error", e))?;
        (ch, "checkers".into())
    } else if fine && cx.r.p(0.6) {
        rolling(cx, &c)?
    } else {
        chf_for_contours(cx, &c)?
    };
    let p = if cx.r.p(0.7) { CP { err: *cx.r.pick(&[0.5f32, 1.0, 1.3, 1.5, 3.0]), edge: *cx.r.pick(&[0u16, 12, 12, 40]), flags: 1 } } else { cp(&mut cx.r) };
    // merging the triangles of one outline is cubic in their number
    let p = if ch.width > 600 { CP { err: p.err.max(1.3), edge: 0, flags: p.flags } } else { p };
    let real = real_contours(&ch, &p)?;
    if real.contours.iter().map(|k| k.vertices.len().pow(3)).sum::<usize>() > 700usize.pow(3) {
        return Ok(None);
    }
    let Ok(mut m) = guard("into_polygon_mesh", || real.into_polygon_mesh(c.nvp).map_err(|e| format!("{e}")))? else { return Ok(None) };
    if m.polygon_count() == 0 {
        return Ok(None);
    }
    // a polygon joined from several regions has no region of its own
    let modified = cx.r.p(0.25);
    if modified {
        for k in 0..m.polygon_count() {
            if cx.r.p(0.3) {
                m.regions[k] = RegionId::NONE;
            }
        }
    }
    let pm = obs_m(&m)?;
    let o = obs_c(&ch)?;
    let sample = if many { 0.0 } else if fine && cx.r.p(0.7) { c.cs * cx.r.fr(0.9, 3.0) } else { match cx.r.n(8) {
        0 => 0.0,
        1 => c.cs * cx.r.fr(0.9, 2.0),
        2 | 3 => c.cs * 6.0,
        4 => c.cs * cx.r.fr(2.0, 12.0),
        5 => c.cs * 3.0,
        6 => c.cs * 2.0,
        _ => c.sample,
    } };
    let err = match cx.r.n(4) {
        0 => c.ch,
        1 => c.det_err,
        2 => 0.0,
        _ => c.ch * cx.r.fr(0.3, 3.0),
    };
    // a polygon for which the reference finds no seed span is outside the algorithm's domain (upstream asserts)
    for q in &pm.polys {
        if rd::patch(&pm, &o, q).no_seed {
            cx.add("no_seed_polygons", 1);
            return Ok(None);
        }
    }
    let dm = guard("detail", || DetailNavmesh::new(&m, &ch, sample, err).map_err(|e| format!("{e}")))?.map_err(|e| v("detail-error", e))?;
    ensure!(obs_m(&m)? == pm, "detail-side-effect", "building the detail mesh changed the polygon mesh");
    cx.max("max_detail_vertices", dm.vertices.len());
    Ok(Some(DetailCase { ch: o, pm, dm, sample, err, max_edge_error: m.max_edge_error, name, nvp: c.nvp as usize, modified }))
}
/// one open field of smooth hills with a few obstacles, sometimes long and thin
fn rolling(cx: &mut Ctx, c: &Cfg) -> Result<(CompactHeightfield, String), V> {
    let r = &mut cx.r;
    let (w, h) = match r.n(20) {
        0 if r.p(0.1) => (r.r(1000, 9000) as usize, 6),
        1 => (r.r(50, 70) as usize, r.r(50, 70) as usize),
        _ => (r.r(10, 34) as usize, r.r(10, 34) as usize),
    };
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 4000.0 * c.ch);
    let (fx, fz, amp, ph) = (r.fr(0.02, 0.5), r.fr(0.02, 0.5), r.fr(1.0, 40.0), r.fr(0.0, 6.0));
    let noise = r.r(0, 3);
    let holes: Vec<(usize, usize, usize)> = (0..r.n(4)).map(|_| (r.n(w), r.n(h), r.n(4))).collect();
    for z in 0..h {
        for x in 0..w {
            if holes.iter().any(|q| x.abs_diff(q.0) <= q.2 && z.abs_diff(q.1) <= q.2) {
                continue;
            }
            let y = 60.0 + amp * ((x as f32 * fx + ph).sin() + (z as f32 * fz).cos()) * 0.5;
            let t = (y as i64 + if noise > 0 { r.r(0, noise) } else { 0 }) as u16;
            hf.cols[x + z * w] = vec![Sp { min: t - 2, max: t, area: 63 }];
        }
    }
    hf.bmin.x += r.r(-3, 3) as f32 * 8.0;
    hf.bmax.x = hf.bmin.x + w as f32 * c.cs;
    let mut ch = hf.to_real().into_compact(c.wh, c.wc).map_err(|e| v("compact-error", e))?;
    ch.build_distance_field();
    let b = border_for(&ch, c);
    ch.build_regions(b, c.min_area, c.merge_area).map_err(|e| v("regions-error", e))?;
    Ok((ch, "rolling".into()))
}
fn sub<'a>(d: &'a DetailNavmesh, k: usize) -> (&'a [glam::Vec3], &'a [[u8; 3]], &'a [u8]) {
    let s = &d.meshes[k];
    (
        &d.vertices[s.base_vertex_index as usize..][..s.vertex_count as usize],
        &d.triangles[s.base_triangle_index as usize..][..s.triangle_count as usize],
        &d.triangle_flags[s.base_triangle_index as usize..][..s.triangle_count as usize],
    )
}
fn a2(a: glam::Vec3, b: glam::Vec3, c: glam::Vec3) -> f64 {
    (b.x as f64 - a.x as f64) * (c.z as f64 - a.z as f64) - (b.z as f64 - a.z as f64) * (c.x as f64 - a.x as f64)
}

pub fn check_structure(d: &DetailNavmesh, pm: &Pm) -> R {
    ensure!(d.meshes.len() == pm.polys.len(), "detail-count", "{} sub-meshes for {} polygons", d.meshes.len(), pm.polys.len());
    ensure!(d.triangles.len() == d.triangle_flags.len(), "detail-flags-count", "{} triangles, {} flags", d.triangles.len(), d.triangle_flags.len());
    let (mut nv, mut nt) = (0usize, 0usize);
    for (k, s) in d.meshes.iter().enumerate() {
        ensure!(s.base_vertex_index as usize == nv && s.base_triangle_index as usize == nt, "detail-ranges", "sub-mesh {k} starts at {}/{}, expected {nv}/{nt}", s.base_vertex_index, s.base_triangle_index);
        nv += s.vertex_count as usize;
        nt += s.triangle_count as usize;
        ensure!(nv <= d.vertices.len() && nt <= d.triangles.len(), "detail-ranges", "sub-mesh {k} runs past the end");
        ensure!(s.vertex_count as usize <= DetailNavmesh::MAX_VERTICES_PER_SUBMESH && s.triangle_count as usize <= DetailNavmesh::MAX_TRIANGLES_PER_SUBMESH, "detail-limits", "sub-mesh {k} has {} vertices and {} triangles", s.vertex_count, s.triangle_count);
    }
    ensure!(nv == d.vertices.len() && nt == d.triangles.len(), "detail-ranges", "{} vertices and {} triangles belong to no sub-mesh", d.vertices.len() - nv, d.triangles.len() - nt);
    for (k, p) in pm.polys.iter().enumerate() {
        let (vs, ts, fs) = sub(d, k);
        ensure!(vs.len() >= p.v.len(), "detail-polygon-vertices", "sub-mesh {k} has {} vertices, its polygon {}", vs.len(), p.v.len());
        for (i, q) in p.v.iter().enumerate() {
            let mut w = pm.world(*q);
            w.y += pm.ch;
            let tol = 1e-5 * (w.abs().max_element() + pm.bmin.abs().max_element() + 1.0);
            ensure!((vs[i] - w).abs().max_element() <= tol, "detail-polygon-vertices", "sub-mesh {k} vertex {i} is {:?}, polygon vertex {w:?}", vs[i]);
        }
        ensure!(vs.iter().all(|v| v.is_finite()), "detail-not-finite", "sub-mesh {k} has non-finite vertices");
        let reversed = p.v.len() >= 3 && vs.len() >= p.v.len() && orient(vs, p.v.len()) != NORMAL;
        ensure!(ts.len() >= 1 || reversed, "detail-empty", "sub-mesh {k} of a polygon with {} vertices has no triangles: {vs:?}", p.v.len());
        for (t, f) in ts.iter().zip(fs) {
            ensure!(t.iter().all(|i| (*i as usize) < vs.len()), "detail-index", "sub-mesh {k}: triangle {t:?} of {} vertices", vs.len());
            ensure!(t[0] != t[1] && t[1] != t[2] && t[2] != t[0], "detail-degenerate", "sub-mesh {k}: triangle {t:?} repeats a vertex");
            ensure!(*f < 64, "detail-flags", "sub-mesh {k}: triangle flags {f:#x}");
        }
    }
    Ok(())
}

/// D01: structure of the detail mesh.
pub fn d01(cx: &mut Ctx) -> R {
    let Some(q) = detail_case(cx)? else { return Ok(()) };
    check_structure(&q.dm, &q.pm)?;
    for (k, p) in q.pm.polys.iter().enumerate() {
        let (vs, ts, fs) = sub(&q.dm, k);
        // extent: nothing leaves the polygon by more than the sampling jitter
        let n = p.v.len();
        for (i, v) in vs.iter().enumerate().skip(n) {
            let mut worst = 0.0f64;
            for e in 0..n {
                let (a, b) = (vs[e], vs[(e + 1) % n]);
                let len = ((b.x - a.x) as f64).hypot((b.z - a.z) as f64);
                if len > 0.0 {
                    worst = worst.max(a2(a, b, *v) * orient(vs, n) / len);
                }
            }
            let tol = 1e-4 * (1.0 + v.abs().max_element() as f64) + 1e-3 * q.pm.cs as f64;
            ensure!(worst <= tol || q.dm_irregular(p), "detail-outside", "sub-mesh {k}: vertex {i} {v:?} lies {worst} outside its polygon of {n} sides, {:?} ({})", &vs[..n], q.name);
        }
        // an edge used by one triangle only is external: its vertices follow one another on a polygon side
        let mut cnt: HashMap<(u8, u8), usize> = HashMap::new();
        for t in ts {
            for e in 0..3 {
                let (a, b) = (t[e], t[(e + 1) % 3]);
                *cnt.entry((a, b)).or_default() += 1;
            }
        }
        let s = rd::submesh(&q.pm, &q.ch, p, q.sample, q.err, q.max_edge_error).0;
        for (t, f) in ts.iter().zip(fs) {
            for e in 0..3 {
                let (a, b) = (t[e], t[(e + 1) % 3]);
                let ext = (f >> (2 * e)) & 3 != 0;
                let on_side = side_of(vs, n, a as usize, b as usize);
                if ext {
                    ensure!(on_side || q.dm_irregular(p), "detail-flag-external", "sub-mesh {k}: edge {a}-{b} of {t:?} is flagged external but does not lie on the polygon's outline ({:?} {:?})", vs[a as usize], vs[b as usize]);
                    ensure!(!cnt.contains_key(&(b, a)) || s.delaunay, "detail-flag-external", "sub-mesh {k}: edge {a}-{b} of {t:?} is flagged external but shared with another triangle");
                    cx.add("external_edges", 1);
                } else {
                    cx.add("internal_edges", 1);
                    if !s.ambiguous && s.tris.len() < 255 && s.tris.len() == ts.len() {
                        let hull_edge = (0..s.hull.len()).any(|i| s.hull[(i + s.hull.len() - 1) % s.hull.len()] == a as usize && s.hull[i] == b as usize);
                        ensure!(!hull_edge, "detail-flag-internal", "sub-mesh {k}: edge {a}-{b} of {t:?} lies on the outline but is not flagged external");
                    }
                }
            }
        }
        cx.max("max_vertices", vs.len());
        cx.max("max_triangles", ts.len());
        if vs.len() > n {
            cx.add("refined_submeshes", 1);
        }
        cx.add("submeshes", 1);
    }
    if q.dm.vertices.len() > q.pm.polys.iter().map(|p| p.v.len()).sum() {
        cx.seen(fp(&q));
    }
    cx.sample(|| format!("{}: {} polygons, {} detail vertices, {} triangles, sample {} err {}", q.name, q.pm.polys.len(), q.dm.vertices.len(), q.dm.triangles.len(), q.sample, q.err));
    Ok(())
}
fn fp(q: &DetailCase) -> u64 {
    let mut f = Fnv::new();
    f.u(q.pm.fingerprint());
    f.u(q.dm.vertices.len() as u64);
    f.u(q.dm.triangles.len() as u64);
    for v in &q.dm.vertices {
        f.u(v.y.to_bits() as u64);
    }
    f.0
}
/// +1 when the interior is on the negative side of a2 (Recast winding), else -1
fn orient(vs: &[glam::Vec3], n: usize) -> f64 {
    let s: f64 = (1..n - 1).map(|i| a2(vs[0], vs[i], vs[i + 1])).sum();
    if s > 0.0 { -1.0 } else { 1.0 }
}
const NORMAL: f64 = 1.0;
/// both vertices lie on the same side of the polygon, in its direction
fn side_of(vs: &[glam::Vec3], n: usize, a: usize, b: usize) -> bool {
    (0..n).any(|e| {
        let (p, q) = (vs[e], vs[(e + 1) % n]);
        let len2 = ((q.x - p.x) as f64).powi(2) + ((q.z - p.z) as f64).powi(2);
        let len = len2.sqrt();
        let par = |v: glam::Vec3| ((v.x - p.x) as f64 * (q.x - p.x) as f64 + (v.z - p.z) as f64 * (q.z - p.z) as f64) / len2;
        let on = |v: glam::Vec3| a2(p, q, v).abs() / len <= 1e-4 * (1.0 + v.abs().max_element() as f64);
        on(vs[a]) && on(vs[b]) && par(vs[a]) < par(vs[b]) + 1e-5
    })
}
impl DetailCase {
    /// the polygon is not strictly convex (outlines that touch themselves): side tests do not apply
    fn dm_irregular(&self, p: &Poly) -> bool {
        let c: Vec<V3> = p.v.iter().map(|v| self.pm.verts[*v]).collect();
        let n = c.len();
        let s: HashSet<usize> = p.v.iter().copied().collect();
        let turn = |k: usize| area2(c[k], c[(k + 1) % n], c[(k + 2) % n]);
        if s.len() != n || (0..n).any(|k| turn(k) >= 0) && (0..n).any(|k| turn(k) <= 0) {
            return true;
        }
        // turning the same way everywhere, but more than once around
        let ccw = turn(0) > 0;
        (0..n).any(|k| (0..n).any(|j| { let a = area2(c[k], c[(k + 1) % n], c[j]); if ccw { a < 0 } else { a > 0 } }))
    }
}

/// D02: the detail surface follows the heightfield as configured.
pub fn d02(cx: &mut Ctx) -> R {
    let Some(q) = detail_case(cx)? else { return Ok(()) };
    check_structure(&q.dm, &q.pm)?;
    let (cs, ch) = (q.pm.cs, q.pm.ch);
    let mut refined = false;
    for (k, p) in q.pm.polys.iter().enumerate() {
        let (vs, ts, fs) = sub(&q.dm, k);
        let (s, hp) = rd::submesh(&q.pm, &q.ch, p, q.sample, q.err, q.max_edge_error);
        let n = p.v.len();
        let mag = q.pm.bmin.abs().max_element() + q.pm.bmax.abs().max_element() + 1.0;
        let tol = 4e-6 * mag;
        // every added vertex takes its height from the patch of open spans around the polygon
        let heights: HashSet<u16> = hp.data.iter().copied().collect();
        for (i, v) in vs.iter().enumerate().skip(n) {
            let y = ((v.y - q.pm.bmin.y - ch) / ch).round();
            let exact = (v.y - q.pm.bmin.y - ch - y * ch).abs() <= tol + 1e-4 * ch + 4e-6 * v.y.abs();
            ensure!(exact && y >= 0.0 && y <= 65535.0 && heights.contains(&(y as u16)), "detail-height", "sub-mesh {k}: vertex {i} {v:?} has height {} cells, no span near the polygon has that", (v.y - q.pm.bmin.y - ch) / ch);
            cx.add("added_vertices", 1);
            if y == 65535.0 {
                cx.add("unset_heights", 1);
                if !q.modified {
                    cx.add("unset_heights_in_pipeline", 1);
                    if cx.trace { println!("{p:?} {:?} radius {}", q.name, q.max_edge_error); }
                }
            }
        }
        if s.seeded {
            cx.add("center_seeded", 1);
        }
        check_submesh(&q, k, &hp, cx)?;
        if s.ambiguous {
            cx.add("too_close_to_call", 1);
            continue;
        }
        cx.add("compared", 1);
        if s.delaunay {
            cx.add("delaunay", 1);
        }
        let same = s.verts.len() == vs.len()
            && s.verts.iter().zip(vs).all(|(a, b)| {
                (a[0] + q.pm.bmin.x - b.x).abs() <= tol && (a[1] + q.pm.bmin.y + ch - b.y).abs() <= tol && (a[2] + q.pm.bmin.z - b.z).abs() <= tol
            });
        if !same {
            let d = (0..s.verts.len().max(vs.len())).find(|&i| {
                s.verts.get(i).zip(vs.get(i)).is_none_or(|(a, b)| (a[0] + q.pm.bmin.x - b.x).abs() > tol || (a[1] + q.pm.bmin.y + ch - b.y).abs() > tol || (a[2] + q.pm.bmin.z - b.z).abs() > tol)
            }).unwrap_or(0);
            bail!("detail-vertices", "sub-mesh {k} ({n} polygon vertices, region {}): {} vertices, expected {}; vertex {d} is {:?}, expected {:?} + origin {:?} (sample {} err {} cs {cs} {})", p.reg, vs.len(), s.verts.len(), vs.get(d), s.verts.get(d), q.pm.bmin, q.sample, q.err, q.name);
        }
        let canon = |t: [usize; 3], f: u8| -> ([usize; 3], u8) {
            let r = (0..3).min_by_key(|&i| t[i]).unwrap();
            let mut g = 0;
            for e in 0..3 {
                g |= ((f >> (2 * ((e + r) % 3))) & 3) << (2 * e);
            }
            ([t[r], t[(r + 1) % 3], t[(r + 2) % 3]], g)
        };
        let mut a: Vec<_> = ts.iter().zip(fs).map(|(t, f)| canon([t[0] as usize, t[1] as usize, t[2] as usize], *f)).collect();
        let mut b: Vec<_> = s.tris.iter().zip(&s.flags).map(|(t, f)| canon(*t, *f)).collect();
        a.sort();
        b.sort();
        if a != b {
            let d = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            bail!("detail-triangles", "sub-mesh {k}: triangle (indices, flags) {:?}, expected {:?} ({} vs {} triangles, delaunay {})", a.get(d), b.get(d), a.len(), b.len(), s.delaunay);
        }
        // where no limit was hit, no sample is farther from the surface than the configured error
        if s.samples > s.added && vs.len() < 127 && s.delaunay {
            cx.add("error_bounded", 1);
        }
        if vs.len() > n {
            refined = true;
        }
    }
    if refined {
        cx.seen(fp(&q));
    }
    cx.sample(|| format!("{}: {} polygons, {} detail vertices, sample {} err {}", q.name, q.pm.polys.len(), q.dm.vertices.len(), q.sample, q.err));
    Ok(())
}

/// What a sub-mesh says about its own construction, read back from the finished mesh.
pub struct Readback {
    /// indices around the outline, polygon vertex j followed by the vertices added between j and j+1
    pub hull: Vec<usize>,
    pub interior: usize,
}
/// Assigns the vertices added on the outline to their sides and checks that they are samples of it,
/// in order, and that no dropped sample is farther from what was kept than the configured error.
/// None if more than one reading is possible.
fn read_outline(q: &DetailCase, k: usize, hp: &rd::Patch, loc: &[rd::P3], cx: &mut Ctx) -> Result<Option<Readback>, V> {
    let p = &q.pm.polys[k];
    let n = p.v.len();
    let (cs, ch) = (q.pm.cs, q.pm.ch);
    let ics = 1.0 / cs;
    let radius = (q.max_edge_error.ceil() as i32).max(1);
    let inp: Vec<rd::P3> = p.v.iter().map(|v| q.pm.verts[*v]).map(|w| [w[0] as f32 * cs, w[1] as f32 * ch, w[2] as f32 * cs]).collect();
    let mag = q.pm.bmin.abs().max_element() + q.pm.bmax.abs().max_element() + 1.0;
    let tol = 2e-6 * mag + 1e-5 * cs;
    if q.dm_irregular(p) {
        // sides that run over each other share sample positions
        cx.add("outlines_unread", 1);
        return Ok(None);
    }
    let mut next = n;
    let mut hull = vec![];
    let mut j = n - 1;
    for i in 0..n {
        hull.push(j);
        if q.sample > 0.0 {
            let (a, b) = (inp[j], inp[i]);
            let len = dist2(a, b);
            let f = len / q.sample;
            let fwd = if (a[0] - b[0]).abs() < 1e-6 { a[2] <= b[2] } else { a[0] <= b[0] };
            // the number of pieces, both readings where rounding decides
            let base = 1 + f.floor() as usize;
            let mut counts = vec![base];
            if (f - f.round()).abs() < 1e-4 {
                counts.push(if f.round() > f { base + 1 } else { base.saturating_sub(1) });
                counts.push(1 + f.round() as usize);
            }
            let mut fits = vec![];
            for nn in counts {
                let mut nn = nn.min(31);
                if next + nn >= 127 {
                    nn = 126usize.saturating_sub(next);
                }
                if nn == 0 || fits.iter().any(|(m, _): &(usize, Vec<usize>)| *m == nn) {
                    continue;
                }
                let at = |m: usize| {
                    // position in stored order, from j to i
                    let m = if fwd { m } else { nn - m };
                    let (s, t) = if fwd { (a, b) } else { (b, a) };
                    let u = m as f32 / nn as f32;
                    [0, 1, 2].map(|c| s[c] + (t[c] - s[c]) * u)
                };
                let mut idx = vec![0usize];
                let mut e = next;
                let mut m = 1;
                while m < nn && e < loc.len() {
                    let w = at(m);
                    // two sides can run over the same ground: the height tells whose sample it is
                    let (h, tie) = rd::height_tie(hp, w[0], w[1], w[2], ics, ch, radius);
                    let g = [w[0], w[2]].iter().any(|c| rd::near_cell_edge(c * ics + 0.01));
                    let level = tie || g || (h as f32 * ch - loc[e][1]).abs() <= 4e-6 * (mag + loc[e][1].abs()) + 1e-2 * ch;
                    if level && (w[0] - loc[e][0]).abs() <= tol && (w[2] - loc[e][2]).abs() <= tol {
                        idx.push(m);
                        e += 1;
                    }
                    m += 1;
                }
                idx.push(nn);
                fits.push((nn, idx));
            }
            if fits.is_empty() {
                return Ok(None);
            }
            let most = fits.iter().map(|x| x.1.len()).max().unwrap();
            let best: Vec<_> = fits.iter().filter(|x| x.1.len() == most).cloned().collect();
            let mut verdict = None;
            for (nn, idx) in &best {
                let nn = *nn;
                let mut dubious = false;
                let samples: Vec<rd::P3> = (0..=nn)
                    .map(|m| {
                        let mm = if fwd { m } else { nn - m };
                        let (s, t) = if fwd { (a, b) } else { (b, a) };
                        let u = mm as f32 / nn as f32;
                        let mut w = [0, 1, 2].map(|c| s[c] + (t[c] - s[c]) * u);
                        for c in [w[0], w[2]] {
                            let g = c * ics + 0.01;
                            if rd::near_cell_edge(g) {
                                dubious = true;
                            }
                        }
                        let (h, tie) = rd::height_tie(hp, w[0], w[1], w[2], ics, ch, radius);
                        dubious |= tie;
                        w[1] = h as f32 * ch;
                        w
                    })
                    .collect();
                let mut worst = (0.0f32, 0);
                if !dubious {
                    for s in idx.windows(2) {
                        let (x, y) = (samples[s[0]], samples[s[1]]);
                        for m in s[0] + 1..s[1] {
                            let d = rd::d2seg(samples[m], x, y, true).sqrt();
                            if d > worst.0 {
                                worst = (d, m);
                            }
                        }
                    }
                }
                let steep = samples.iter().fold(0.0f32, |m, s| m.max(s[1].abs()));
                let lim = q.err + 1e-4 * (1.0 + q.err) + 4e-6 * steep + tol;
                if dubious || worst.0 <= lim {
                    verdict = None;
                    if !dubious {
                        cx.add("outline_samples", nn - 1);
                    }
                    break;
                }
                if cx.trace { println!("side {j}->{i} nn {nn} idx {idx:?} next {next} {:?} stored {:?}", (0..=nn).map(|m| (m, samples[m])).collect::<Vec<_>>(), &loc[next..next + idx.len() - 2]); }
                verdict = Some((worst, nn, idx.clone(), lim));
            }
            let off = |e: usize, s: usize| rd::d2seg(loc[e], inp[if s == 0 { n - 1 } else { s - 1 }], inp[s], false).sqrt();
            if verdict.is_some() && (next..next + most - 2).any(|e| (0..n).any(|s| s != i && off(e, s) <= off(e, i) + tol)) {
                // near a sharp corner a vertex may belong to either side
                cx.add("outlines_unread", 1);
                return Ok(None);
            }
            if let Some((w, nn, idx, lim)) = verdict {
                bail!("detail-outline-error", "sub-mesh {k}: the side {a:?}-{b:?} cut into {nn} pieces keeps {idx:?}, sample {} is {} away, allowed is {} (limit {lim}; sample {} cs {cs})", w.1, w.0, q.err, q.sample);
            }
            for _ in 0..most - 2 {
                let shared = (0..n).any(|s| s != i && off(next, s) <= off(next, i) + 3e-7 * mag);
                if shared {
                    cx.add("outlines_unread", 1);
                    return Ok(None);
                }
                hull.push(next);
                next += 1;
            }
        }
        j = i;
    }
    Ok(Some(Readback { hull, interior: next }))
}
fn dist2(a: rd::P3, b: rd::P3) -> f32 {
    ((a[0] - b[0]) * (a[0] - b[0]) + (a[2] - b[2]) * (a[2] - b[2])).sqrt()
}
/// The invariants of one sub-mesh that hold whatever way ties were broken.
fn check_submesh(q: &DetailCase, k: usize, hp: &rd::Patch, cx: &mut Ctx) -> R {
    let p = &q.pm.polys[k];
    let n = p.v.len();
    let (vs, ts, fs) = sub(&q.dm, k);
    let (cs, ch) = (q.pm.cs, q.pm.ch);
    let o = q.pm.bmin;
    let loc: Vec<rd::P3> = vs.iter().map(|v| [v.x - o.x, v.y - o.y - ch, v.z - o.z]).collect();
    let Some(rb) = read_outline(q, k, hp, &loc, cx)? else { return Ok(()) };
    let irregular = q.dm_irregular(p) || orient(vs, n) != NORMAL;
    let added = vs.len() - rb.interior;
    // flags follow from the outline
    if !irregular && vs.len() < 127 {
        for (t, f) in ts.iter().zip(fs) {
            for e in 0..3 {
                let (a, b) = (t[e] as usize, t[(e + 1) % 3] as usize);
                let m = rb.hull.len();
                let on = (0..m).any(|i| rb.hull[i] == a && rb.hull[(i + 1) % m] == b);
                let got = (f >> (2 * e)) & 3;
                if cx.trace && got != on as u8 {
                    println!("{:?}\n{loc:?}\n{ts:?}\n{fs:?} sample {} err {} cs {cs}", p.v.iter().map(|v| q.pm.verts[*v]).collect::<Vec<_>>(), q.sample, q.err);
                }
                ensure!(got == on as u8, "detail-flag", "sub-mesh {k}: edge {a}-{b} of {t:?} has flag {got}, outline {:?}", rb.hull);
            }
        }
        cx.add("flags_judged", ts.len() * 3);
    }
    // area: exact cover of the outline, at most the outline once interior points are in
    if !irregular {
        let outline: f64 = {
            let h: Vec<glam::Vec3> = rb.hull.iter().map(|i| vs[*i]).collect();
            (1..h.len() - 1).map(|i| a2(h[0], h[i], h[i + 1])).sum::<f64>().abs()
        };
        let sum: f64 = ts.iter().map(|t| a2(vs[t[0] as usize], vs[t[1] as usize], vs[t[2] as usize]).abs()).sum();
        let signed: f64 = ts.iter().map(|t| a2(vs[t[0] as usize], vs[t[1] as usize], vs[t[2] as usize])).sum::<f64>().abs();
        let tol = 1e-4 * outline + 1e-3 * (cs * cs) as f64 + 1e-6 * (o.abs().max_element() as f64) * outline.sqrt();
        if added == 0 {
            ensure!((sum - outline).abs() <= tol && (signed - outline).abs() <= tol, "detail-area", "sub-mesh {k}: triangles cover {sum}/2 (signed {signed}/2), the polygon {outline}/2; {} vertices {} triangles", vs.len(), ts.len());
        } else {
            // Delaunay hull edges may bulge a little over a nearly straight outline (upstream heuristic): counted, not judged
            if (sum - outline).abs() <= tol {
                cx.add("refined_exact_cover", 1);
            } else if sum > outline {
                cx.add("refined_overlapping_cover", 1);
            } else {
                cx.add("refined_partial_cover", 1);
            }
        }
        cx.add("areas_judged", 1);
    }
    if q.sample <= 0.0 {
        ensure!(vs.len() == n, "detail-unsampled", "sub-mesh {k}: sampling is off but {} vertices were added", vs.len() - n);
        return Ok(());
    }
    // interior samples
    let inp: Vec<rd::P3> = p.v.iter().map(|v| q.pm.verts[*v]).map(|w| [w[0] as f32 * cs, w[1] as f32 * ch, w[2] as f32 * cs]).collect();
    let mut min_ext = f32::MAX;
    for i in 0..n {
        let ni = (i + 1) % n;
        let m = (0..n).filter(|j| *j != i && *j != ni).fold(0.0f32, |m, j| m.max(rd::d2seg(inp[j], inp[i], inp[ni], false)));
        min_ext = min_ext.min(m);
    }
    let lim = (q.sample * 2.0) * (q.sample * 2.0);
    let off = |a: f32, b: f32| (a - b).abs() > 1e-4 * (a.abs() + b.abs());
    if !off(min_ext, lim) || irregular {
        return Ok(());
    }
    if min_ext < lim {
        ensure!(added == 0, "detail-sliver", "sub-mesh {k}: {added} interior vertices in a polygon thinner than two samples");
        return Ok(());
    }
    let (mut lo, mut hi) = (inp[0], inp[0]);
    for w in &inp {
        for c in 0..3 {
            lo[c] = lo[c].min(w[c]);
            hi[c] = hi[c].max(w[c]);
        }
    }
    let sd = q.sample;
    let ics = 1.0 / cs;
    let radius = (q.max_edge_error.ceil() as i32).max(1);
    let mut samples: Vec<(rd::P3, bool)> = vec![];
    for z in (lo[2] / sd).floor() as i32..(hi[2] / sd).ceil() as i32 {
        for x in (lo[0] / sd).floor() as i32..(hi[0] / sd).ceil() as i32 {
            let pt = [x as f32 * sd, (hi[1] + lo[1]) * 0.5, z as f32 * sd];
            let d = rd::dist_to_poly(&inp, pt);
            if !off(d, -sd / 2.0) {
                return Ok(());
            }
            if d > -sd / 2.0 {
                continue;
            }
            let dubious = [pt[0], pt[2]].iter().any(|a| {
                let g = a * ics + 0.01;
                rd::near_cell_edge(g)
            });
            let (y, tie) = rd::height_tie(hp, pt[0], pt[1], pt[2], ics, ch, radius);
            let (y, dubious) = (y as f32 * ch, dubious || tie);
            let i = samples.len();
            samples.push(([x as f32 * sd + rd::jx(i) * cs * 0.1, y, z as f32 * sd + rd::jz(i) * cs * 0.1], dubious));
        }
    }
    let mag = q.pm.bmin.abs().max_element() + q.pm.bmax.abs().max_element() + 1.0;
    let tol = 4e-6 * mag + 1e-5 * cs;
    let mut used = vec![false; samples.len()];
    for i in rb.interior..vs.len() {
        let w = loc[i];
        let Some(s) = (0..samples.len()).find(|s| !used[*s] && (samples[*s].0[0] - w[0]).abs() <= tol && (samples[*s].0[2] - w[2]).abs() <= tol) else {
            bail!("detail-interior", "sub-mesh {k}: vertex {i} {w:?} is neither on the outline nor an unused sample position ({} samples, sample distance {sd})", samples.len());
        };
        used[s] = true;
        ensure!(samples[s].1 || (samples[s].0[1] - w[1]).abs() <= tol + 1e-4 * ch + 4e-6 * w[1].abs(), "detail-interior-height", "sub-mesh {k}: sample {s} at {:?} was added with height {}, the surface there has {}", samples[s].0, w[1], samples[s].0[1]);
    }
    cx.add("interior_vertices", added);
    if vs.len() >= 127 || ts.len() >= 254 {
        cx.add("full_submeshes", 1);
        return Ok(());
    }
    for (s, (pt, dubious)) in samples.iter().enumerate() {
        if used[s] || *dubious {
            continue;
        }
        let mut best = f32::MAX;
        let mut hit = false;
        let mut slope = 0.0f32;
        for t in ts {
            let (a, b, c) = (loc[t[0] as usize], loc[t[1] as usize], loc[t[2] as usize]);
            let f = |p: rd::P3| [p[0] as f64, p[1] as f64, p[2] as f64];
            let (a, b, c, w) = (f(a), f(b), f(c), f(*pt));
            let det = (c[0] - a[0]) * (b[2] - a[2]) - (b[0] - a[0]) * (c[2] - a[2]);
            if det.abs() < 1e-9 {
                continue;
            }
            let u = ((w[0] - a[0]) * (b[2] - a[2]) - (b[0] - a[0]) * (w[2] - a[2])) / det;
            let v = ((c[0] - a[0]) * (w[2] - a[2]) - (w[0] - a[0]) * (c[2] - a[2])) / det;
            // slivers: barycentric noise
            let (l1, l2) = ((c[0] - a[0]).hypot(c[2] - a[2]), (b[0] - a[0]).hypot(b[2] - a[2]));
            let thin = det.abs() < 1e-3 * l1 * l2;
            // rounding of the stored positions, relative to the triangle's height
            let noise = 4.0 * tol as f64 * l1.max(l2) / det.abs() + 1e-6 * (l1 * l2 / det).powi(2);
            let e = if thin { 0.1 } else { 2e-3 } + noise;
            if u >= -e && v >= -e && u + v <= 1.0 + e {
                let y = a[1] + (c[1] - a[1]) * u + (b[1] - a[1]) * v;
                best = best.min((y - w[1]).abs() as f32);
                slope = slope.max(((c[1] - a[1]).abs() + (b[1] - a[1]).abs()) as f32 * (if thin { 0.1 } else { 1e-3 } + noise as f32));
                if !thin && noise < 0.05 && u >= -0.5e-4 && v >= -0.5e-4 && u + v <= 1.0 + 0.5e-4 {
                    hit = true;
                }
            }
        }
        if !hit {
            cx.add("samples_off_mesh", 1);
            continue;
        }
        ensure!(best <= q.err + slope + 1e-4 * (1.0 + q.err) + 4e-6 * pt[1].abs(), "detail-sample-error", "sub-mesh {k}: the surface misses sample {s} at {pt:?} by {best}, allowed is {}; {} vertices, {} of {} samples added", q.err, vs.len(), used.iter().filter(|u| **u).count(), samples.len());
        cx.add("samples_judged", 1);
    }
    Ok(())
}
