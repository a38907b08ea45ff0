//! Monitors that compare runs over related inputs: moved, turned, scaled, relabelled or cut worlds.
use crate::fw::*;
use crate::r#gen::*;
use crate::model::*;
use crate::p_e2e::*;
use crate::p_inv::*;
use crate::pipe::*;
use crate::rng::*;
use crate::{bail, ensure};
use glam::{UVec3, Vec2, Vec3};
use rerecast::*;

const DX: [i64; 4] = [-1, 0, 1, 0];
const DZ: [i64; 4] = [0, 1, 0, -1];

/// A world made of small horizontal squares, one above the other, that voxelises without any rounding:
/// all coordinates are small multiples of a power of two.
#[derive(Clone)]
pub struct Slabs {
    pub w: i64,
    pub h: i64,
    /// cell, quarter-cell squares: x, z, y layer, area (255 = up-facing)
    pub squares: Vec<(i64, i64, i64, u8)>,
    /// tilted triangles inside one cell: x, z in quarter cells, y in 1/16 layers
    pub ramps: Vec<[[i64; 3]; 3]>,
    /// volumes: x0 z0 x1 z1 in quarter cells, y0 y1 in layers, area
    pub vols: Vec<([i64; 4], [i64; 2], u8)>,
    pub top: i64,
    pub name: String,
}
fn pow2_cfg(r: &mut Rng) -> Cfg {
    let mut c = cfg(r);
    c.cs = *r.pick(&[0.125f32, 0.25, 0.5, 1.0]);
    c.ch = *r.pick(&[0.0625f32, 0.125, 0.25, 0.5]);
    c
}
fn slabs(r: &mut Rng, c: &Cfg, dim: i64) -> Slabs {
    let (hf, name) = layered_hf(r, c, dim);
    let (w, h) = (hf.w as i64, hf.h as i64);
    let mut s = Slabs { w, h, squares: vec![], ramps: vec![], vols: vec![], top: 1, name };
    for z in 0..h {
        for x in 0..w {
            for p in &hf.cols[(x + z * w) as usize] {
                for y in p.min..p.max {
                    // layers below the top only carry it
                    let a = if y + 1 == p.max { p.area } else { 0 };
                    s.squares.push((x, z, y as i64, a));
                    s.top = s.top.max(y as i64 + 1);
                }
            }
        }
    }
    for _ in 0..if r.p(0.4) { r.r(1, 3) } else { 0 } {
        let (n, m) = (r.r(1, 10), r.r(1, 10));
        let (x, z, y) = (4 * r.r(-2, w) + 1, 4 * r.r(-2, h) + 1, 16 * r.r(0, s.top.min(60)));
        let (a, b) = (*r.pick(&[0i64, 1, 2, 4, 8, -1, -2, -4]), *r.pick(&[0i64, 0, 1, 2, -2]));
        for j in 0..m {
            for i in 0..n {
                let v = |p: i64, q: i64| [x + 4 * i + p, z + 4 * j + q, y + a * (4 * i + p) + b * (4 * j + q)];
                s.ramps.push([v(0, 0), v(0, 2), v(2, 2)]);
                s.ramps.push([v(0, 0), v(2, 2), v(2, 0)]);
            }
        }
    }
    for _ in 0..if r.p(0.4) { r.r(1, 3) } else { 0 } {
        let (x, z) = (4 * r.r(-2, w) + 1, 4 * r.r(-2, h) + 1);
        s.vols.push(([x, z, x + 4 * r.r(1, w), z + 4 * r.r(1, h)], [r.r(-3, s.top), r.r(0, s.top + 3)], *r.pick(&[0u8, 1, 7, 63])));
    }
    s
}
/// one mostly open floor with steps, rises, pillars and holes
fn open_slabs(r: &mut Rng, c: &Cfg) -> Slabs {
    let (w, h) = (r.r(14, 60), r.r(14, 60));
    let mut s = Slabs { w, h, squares: vec![], ramps: vec![], vols: vec![], top: 1, name: "open".into() };
    let mut y = vec![r.r(0, 3); (w * h) as usize];
    if r.p(0.5) {
        let (a, b) = (r.fr(-0.6, 0.6), r.fr(-0.6, 0.6));
        for i in 0..w * h {
            y[i as usize] += ((i % w) as f32 * a + (i / w) as f32 * b + 40.0) as i64;
        }
    }
    let mut open = vec![true; (w * h) as usize];
    let mut tall = vec![false; (w * h) as usize];
    for _ in 0..r.n(9) {
        let (x, z, k) = (r.r(0, w), r.r(0, h), r.n(4));
        let (a, b) = (r.r(1, 12), r.r(1, 12));
        let up = r.r(1, 3);
        for j in z..(z + b).min(h) {
            for i in x..(x + a).min(w) {
                if k == 3 && (2 * (i - x) - a).pow(2) + (2 * (j - z) - b).pow(2) > a.min(b).pow(2) {
                    continue;
                }
                let n = (i + j * w) as usize;
                match k {
                    0 => y[n] += up,
                    1 => tall[n] = true,
                    _ => open[n] = false,
                }
            }
        }
    }
    for i in 0..w * h {
        let n = i as usize;
        if !open[n] {
            continue;
        }
        let k = y[n].max(0);
        s.squares.push((i % w, i / w, k, 255));
        if tall[n] {
            for t in 1..c.wc as i64 + 3 {
                s.squares.push((i % w, i / w, k + t, 0));
            }
        }
        s.top = s.top.max(k + c.wc as i64 + 4);
    }
    if r.p(0.2) {
        let (x, z) = (4 * r.r(-2, w) + 1, 4 * r.r(-2, h) + 1);
        s.vols.push(([x, z, x + 4 * r.r(1, w), z + 4 * r.r(1, h)], [-3, s.top + 3], *r.pick(&[0u8, 1, 7, 63])));
    }
    s
}
impl Slabs {
    fn mesh(&self, c: &Cfg, off: Vec3) -> TriMesh {
        let mut t = TriMesh::default();
        let mut quad = |x0: f32, z0: f32, x1: f32, z1: f32, y: [f32; 4], area: u8| {
            let b = t.vertices.len() as u32;
            for (x, z, y) in [(x0, z0, y[0]), (x0, z1, y[1]), (x1, z1, y[2]), (x1, z0, y[3])] {
                t.vertices.push((Vec3::new(x * c.cs, y * c.ch, z * c.cs) + off).into());
            }
            // up-facing squares are marked by their slope, the others keep the area they carry
            let (p, q) = (UVec3::new(b, b + 1, b + 2), UVec3::new(b, b + 2, b + 3));
            for i in [p, q] {
                t.indices.push(if area == 255 { i } else { UVec3::new(i.x, i.z, i.y) });
                t.area_types.push(AreaType(if area == 255 { 0 } else { area }));
            }
        };
        for (x, z, y, a) in &self.squares {
            let (x, z) = (*x as f32, *z as f32);
            quad(x + 0.25, z + 0.25, x + 0.75, z + 0.75, [*y as f32 + 0.25; 4], *a);
        }
        for q in &self.ramps {
            let b = t.vertices.len() as u32;
            for [x, z, y] in q.map(|p| p.map(|k| k as f32)) {
                t.vertices.push((Vec3::new(x * 0.25 * c.cs, y * 0.0625 * c.ch, z * 0.25 * c.cs) + off).into());
            }
            t.indices.push(UVec3::new(b, b + 1, b + 2));
            t.area_types.push(AreaType(0));
        }
        t
    }
    fn bb(&self, c: &Cfg, off: Vec3) -> (Vec3, Vec3) {
        (off, off + Vec3::new(self.w as f32 * c.cs, (self.top + 4) as f32 * c.ch, self.h as f32 * c.cs))
    }
    fn volumes(&self, c: &Cfg, off: Vec3) -> Vec<(Vec<Vec2>, f32, f32, u8)> {
        self.vols
            .iter()
            .map(|(q, y, a)| {
                let [x0, z0, x1, z1] = q.map(|k| k as f32 * 0.25 * c.cs);
                let o = Vec2::new(off.x, off.z);
                (vec![o + Vec2::new(x0, z0), o + Vec2::new(x1, z0), o + Vec2::new(x1, z1), o + Vec2::new(x0, z1)], y[0] as f32 * c.ch + off.y, y[1] as f32 * c.ch + off.y, *a)
            })
            .collect()
    }
    /// turned by quarter turns, mirrored first if asked
    fn turned(&self, t: &Turn) -> Slabs {
        let mut s = self.clone();
        (s.w, s.h) = t.dims();
        for q in s.squares.iter_mut() {
            (q.0, q.1) = t.cell(q.0, q.1);
        }
        for q in s.ramps.iter_mut() {
            for p in q.iter_mut() {
                (p[0], p[1]) = t.point4(p[0], p[1]);
            }
            if t.mirror {
                q.swap(1, 2);
            }
        }
        for q in s.vols.iter_mut() {
            let (ax, az) = t.point4(q.0[0], q.0[1]);
            let (bx, bz) = t.point4(q.0[2], q.0[3]);
            q.0 = [ax.min(bx), az.min(bz), ax.max(bx), az.max(bz)];
        }
        s
    }
}
pub struct Turn {
    pub w: i64,
    pub h: i64,
    pub quarter: usize,
    pub mirror: bool,
}
impl Turn {
    fn dims(&self) -> (i64, i64) {
        if self.quarter & 1 == 1 { (self.h, self.w) } else { (self.w, self.h) }
    }
    pub fn vec(&self, mut x: i64, mut z: i64) -> (i64, i64) {
        if self.mirror {
            x = -x;
        }
        for _ in 0..self.quarter {
            (x, z) = (-z, x);
        }
        (x, z)
    }
    /// points in quarter cells
    fn point4(&self, mut x: i64, mut z: i64) -> (i64, i64) {
        if self.mirror {
            x = 4 * self.w - x;
        }
        let (mut w, mut h) = (self.w, self.h);
        for _ in 0..self.quarter {
            (x, z) = (4 * h - z, x);
            (w, h) = (h, w);
        }
        (x, z)
    }
    pub fn cell(&self, x: i64, z: i64) -> (i64, i64) {
        let (a, b) = self.point4(4 * x + 2, 4 * z + 2);
        ((a - 2) / 4, (b - 2) / 4)
    }
    fn dir(&self, d: usize) -> usize {
        let v = self.vec(DX[d], DZ[d]);
        (0..4).find(|k| (DX[*k], DZ[*k]) == v).unwrap()
    }
}

/// spans, links, areas and distances of the two fields, matched cell by cell
fn same_field(a: &CompactHeightfield, b: &CompactHeightfield, t: &Turn, areas: bool, dist: bool) -> Result<usize, V> {
    let (w, h) = t.dims();
    ensure!(b.width as i64 == w && b.height as i64 == h && a.width as i64 == t.w && a.height as i64 == t.h, "dimensions", "{}x{} becomes {}x{}", a.width, a.height, b.width, b.height);
    let mut links = 0;
    for z in 0..t.h {
        for x in 0..t.w {
            let (u, v) = t.cell(x, z);
            let p = &a.cells[(x + z * t.w) as usize];
            let q = &b.cells[(u + v * w) as usize];
            ensure!(p.count() == q.count(), "spans", "cell ({x},{z}) has {} open spans, its image ({u},{v}) {}", p.count(), q.count());
            for k in 0..p.count() as usize {
                let (i, j) = (p.index() as usize + k, q.index() as usize + k);
                let (s, e) = (&a.spans[i], &b.spans[j]);
                ensure!(s.y == e.y && s.height() == e.height(), "spans", "span {k} of cell ({x},{z}) is at {} with {} above, its image at {} with {}", s.y, s.height(), e.y, e.height());
                for d in 0..4 {
                    let (m, n) = (s.con(d as u8), e.con(t.dir(d) as u8));
                    ensure!(m == n, "links", "span {k} of cell ({x},{z}) has link {m:?} in direction {d}, its image {n:?}");
                    links += m.is_some() as usize;
                }
                ensure!(!areas || a.areas[i] == b.areas[j], "areas", "span {k} of cell ({x},{z}) has area {:?}, its image {:?}", a.areas[i], b.areas[j]);
                if dist {
                    ensure!(a.dist[i] == b.dist[j], "distances", "span {k} of cell ({x},{z}) has distance {}, its image {}", a.dist[i], b.dist[j]);
                }
            }
        }
    }
    Ok(links)
}
fn same_detail(a: &Out, b: &Out, k: f32, off: Vec3, size: f32) -> R {
    ensure!(a.dm.is_some() == b.dm.is_some(), "detail", "only one of the two detail meshes could be built: {:?} {:?}", a.err, b.err);
    let (Some(x), Some(y)) = (&a.dm, &b.dm) else { return Ok(()) };
    ensure!(x.meshes == y.meshes && x.triangles == y.triangles && x.triangle_flags == y.triangle_flags, "detail", "the detail triangulations differ");
    for (p, q) in x.vertices.iter().zip(&y.vertices) {
        let e = (*p * k + off - *q).abs().max_element();
        ensure!(e <= 4e-6 * (size + off.abs().max_element() + q.abs().max_element()), "detail", "the detail vertex {p} goes to {q}");
    }
    Ok(())
}

/// E05: where the world lies, which way it faces and how big its unit is change nothing but coordinates.
pub fn e05(cx: &mut Ctx) -> R {
    let r = &mut cx.r;
    match r.n(4) {
        0 | 1 => {
            let c = pow2_cfg(r);
            let s = slabs(r, &c, 26);
            let (hx, hy, hz) = (r.r(-4000, 4000), r.r(-400, 400), r.r(-4000, 4000));
            let off0 = Vec3::new(r.r(-40, 40) as f32 * c.cs, 0.0, r.r(-40, 40) as f32 * c.cs);
            if r.p(0.45) {
                // moved
                let d = Vec3::new(hx as f32 * c.cs * 0.25, hy as f32 * c.ch * 0.25, hz as f32 * c.cs * 0.25);
                let Some(a) = run(&s.mesh(&c, off0), s.bb(&c, off0), &c, &s.volumes(&c, off0), true)? else { return Ok(()) };
                let Some(b) = run(&s.mesh(&c, off0 + d), s.bb(&c, off0 + d), &c, &s.volumes(&c, off0 + d), true)? else {
                    bail!("moved-refused", "the moved world is refused")
                };
                let t = Turn { w: s.w, h: s.h, quarter: 0, mirror: false };
                let links = same_field(&a.ch, &b.ch, &t, true, true)?;
                ensure!(a.cs.contours.len() == b.cs.contours.len() && a.pm.is_some() == b.pm.is_some(), "contours", "{} contours, moved {}", a.cs.contours.len(), b.cs.contours.len());
                if let (Some(p), Some(q)) = (&a.pm, &b.pm) {
                    ensure!(p.vertices == q.vertices && p.polygons == q.polygons && p.polygon_neighbors == q.polygon_neighbors && p.regions == q.regions && p.areas == q.areas, "mesh", "moving the world by {d} changed the polygon mesh");
                    ensure!(p.aabb.min + d == q.aabb.min && p.aabb.max + d == q.aabb.max, "mesh-place", "the mesh did not move with the world");
                    cx.add("polygons", p.polygon_count());
                    if p.polygon_count() > 1 {
                        cx.seen(digest_pm(p));
                    }
                }
                same_detail(&a, &b, 1.0, d, 0.0)?;
                cx.add("moved", 1);
                cx.add("links", links);
                cx.sample(|| format!("{}: {} squares and {} ramp patches moved by {d}", s.name, s.squares.len(), s.ramps.len()));
            } else {
                let t = Turn { w: s.w, h: s.h, quarter: r.n(4), mirror: r.p(0.5) };
                let u = s.turned(&t);
                if cx.trace {
                    println!("{c:?}\n{} {}x{} quarter {} mirror {} ramps {} vols {:?}", s.name, s.w, s.h, t.quarter, t.mirror, s.ramps.len(), s.vols);
                }
                let Some(a) = run(&s.mesh(&c, off0), s.bb(&c, off0), &c, &s.volumes(&c, off0), false)? else { return Ok(()) };
                let Some(b) = run(&u.mesh(&c, off0), u.bb(&c, off0), &c, &u.volumes(&c, off0), false)? else {
                    bail!("turned-refused", "the turned world is refused")
                };
                // the two sweeps that spread distances are exact, and so symmetric, where floors do not overlap
                let flat = a.ch.cells.iter().all(|c| c.count() < 2);
                let links = same_field(&a.ch, &b.ch, &t, flat || c.rad == 0, flat && !t.mirror)?;
                cx.add("single_storey", flat as usize);
                if links > 8 {
                    cx.seen(digest_ch(&a.ch));
                }
                cx.add("turned", 1);
                cx.add("links", links);
            }
        }
        _ => {
            // another unit of length
            let Some((c, s, lo, hi, vols)) = world_parts(r) else { return Ok(()) };
            let e = *r.pick(&[-6i32, -3, -1, 1, 2, 5, 10]);
            let k = (2.0f32).powi(e);
            let mut c2 = c.clone();
            c2.cs *= k;
            c2.ch *= k;
            c2.sample *= k;
            c2.det_err *= k;
            let tm = s.to_trimesh();
            let mut tm2 = tm.clone();
            tm2.vertices.iter_mut().for_each(|v| *v *= k);
            let vols2: Vec<_> = vols.iter().map(|(v, a, b, m)| (v.iter().map(|p| *p * k).collect::<Vec<_>>(), a * k, b * k, *m)).collect();
            let Some(a) = run(&tm, (lo, hi), &c, &vols, false)? else { return Ok(()) };
            let Some(b) = run(&tm2, (lo * k, hi * k), &c2, &vols2, false)? else { bail!("scaled-refused", "the scaled world is refused") };
            let t = Turn { w: a.ch.width as i64, h: a.ch.height as i64, quarter: 0, mirror: false };
            let links = same_field(&a.ch, &b.ch, &t, true, true)?;
            ensure!(a.pm.is_some() == b.pm.is_some() && a.cs.contours.len() == b.cs.contours.len(), "contours", "{} contours, scaled {}", a.cs.contours.len(), b.cs.contours.len());
            if let (Some(p), Some(q)) = (&a.pm, &b.pm) {
                ensure!(p.vertices == q.vertices && p.polygons == q.polygons && p.polygon_neighbors == q.polygon_neighbors && p.regions == q.regions && p.areas == q.areas, "mesh", "scaling the world by {k} changed the polygon mesh");
                cx.add("polygons", p.polygon_count());
                if p.polygon_count() > 1 {
                    cx.seen(digest_pm(p));
                }
            }
            cx.add("scaled", 1);
            cx.add("links", links);
        }
    }
    Ok(())
}

/// E08: tiles cut out of a world agree with the whole world and with each other.
pub fn e08(cx: &mut Ctx) -> R {
    let r = &mut cx.r;
    let mut c = pow2_cfg(r);
    c.min_area = 0;
    c.slope = 0.785398;
    c.border = c.rad + r.r(3, 5) as u16;
    let mut s = if r.p(0.35) { slabs(r, &c, 44) } else { open_slabs(r, &c) };
    // nothing lies outside the whole world's field
    let (w4, h4) = (4 * s.w, 4 * s.h);
    s.ramps.retain(|q| q.iter().all(|p| p[0] > 0 && p[1] > 0 && p[0] < w4 && p[1] < h4));
    if s.w < 6 || s.h < 6 {
        return Ok(());
    }
    let off = Vec3::new(r.r(-400, 400) as f32 * c.cs, r.r(-40, 40) as f32 * c.ch, r.r(-400, 400) as f32 * c.cs);
    let (tm, vols) = (s.mesh(&c, off), s.volumes(&c, off));
    let mut whole = c.clone();
    whole.border = 0;
    let Some(g) = run(&tm, s.bb(&c, off), &whole, &vols, false)? else { return Ok(()) };
    // two tiles side by side, cut along x or z
    let along_x = r.p(0.5);
    let len = if along_x { s.w } else { s.h };
    let cut = r.r(2, len - 2);
    let b = c.border as i64;
    let tile = |x0: i64, z0: i64, x1: i64, z1: i64| -> Result<Option<Out>, V> {
        let (lo, hi) = s.bb(&c, off);
        let at = |x: i64, z: i64, y: f32| Vec3::new(off.x + x as f32 * c.cs, y, off.z + z as f32 * c.cs);
        run(&tm, (at(x0 - b, z0 - b, lo.y), at(x1 + b, z1 + b, hi.y)), &c, &vols, false)
    };
    // the outer borders lie outside the world for full-size tiles, inside for smaller ones
    let (m0, m1) = if r.p(0.5) { (0, 0) } else { (r.r(0, 4), r.r(0, 4)) };
    let other = if along_x { s.h } else { s.w };
    let (p0, p1) = if r.p(0.5) || other < 12 { (0, other) } else { (r.r(0, 3), other - r.r(0, 3)) };
    let (a_lo, b_hi) = (m0.min(cut - 1), len - m1.min(len - cut - 1));
    let rect = |u0: i64, u1: i64| if along_x { [u0, p0, u1, p1] } else { [p0, u0, p1, u1] };
    let (ra, rb) = (rect(a_lo, cut), rect(cut, b_hi));
    let go = |q: [i64; 4]| tile(q[0], q[1], q[2], q[3]);
    let (Some(ta), Some(tb)) = (go(ra)?, go(rb)?) else { bail!("tile-refused", "the world can be built, a tile of it can not") };
    let gc = obs_c(&g.ch)?;
    let single = (0..s.w * s.h).all(|i| gc.col((i % s.w) as usize, (i / s.w) as usize).len() < 2);
    // 1. inside its border, a tile holds the very spans of the whole world
    let mut spans = 0;
    let (mut oc, mut back) = (vec![], vec![]);
    for (t, q) in [(&ta, ra), (&tb, rb)] {
        let tc = obs_c(&t.ch)?;
        let (w, h) = (q[2] - q[0] + 2 * b, q[3] - q[1] + 2 * b);
        ensure!(tc.w as i64 == w && tc.h as i64 == h, "tile-size", "a tile of {w}x{h} cells has {}x{}", tc.w, tc.h);
        let mut map = std::collections::HashMap::new();
        for z in q[1]..q[3] {
            for x in q[0]..q[2] {
                let (i, j) = (gc.col(x as usize, z as usize), tc.col((x - q[0] + b) as usize, (z - q[1] + b) as usize));
                ensure!(i.len() == j.len(), "tile-spans", "cell ({x},{z}) has {} open spans in the whole world, {} in its tile", i.len(), j.len());
                for (i, j) in i.zip(j) {
                    ensure!(gc.y[i] == tc.y[j] && gc.hgt[i] == tc.hgt[j], "tile-spans", "cell ({x},{z}): span at {} with {} above, in its tile at {} with {}", gc.y[i], gc.hgt[i], tc.y[j], tc.hgt[j]);
                    for d in 0..4 {
                        let layer = |c: &Ch, i: usize| c.nb[i][d].map(|k| k - c.col(c.x[k] as usize, c.z[k] as usize).start);
                        let edge = x + DX[d] < 0 || z + DZ[d] < 0 || x + DX[d] >= s.w || z + DZ[d] >= s.h;
                        ensure!(edge || layer(&gc, i) == layer(&tc, j), "tile-links", "cell ({x},{z}) direction {d}: linked to layer {:?} in the whole world, {:?} in its tile", layer(&gc, i), layer(&tc, j));
                    }
                    if single || c.rad == 0 {
                        ensure!(gc.area[i] == tc.area[j], "tile-areas", "cell ({x},{z}) has area {} in the whole world, {} in its tile", gc.area[i], tc.area[j]);
                    }
                    map.insert(i, j);
                    spans += 1;
                }
            }
        }
        oc.push(tc);
        back.push(map);
    }
    cx.add("spans", spans);
    // 2. where one can walk across the cut, both tiles have a portal
    let (Some(pa), Some(pb)) = (&ta.pm, &tb.pm) else {
        cx.add("mesh_refused", 1);
        return Ok(());
    };
    let (pa, pb) = (obs_m(pa)?, obs_m(pb)?);
    let d_out = if along_x { 2usize } else { 1 };
    let d_in = if along_x { 0usize } else { 3 };
    // intervals of portal edges along the cut
    let portals = |pm: &Pm, d: usize, line: i32| -> Vec<(i32, i32)> {
        let mut v = vec![];
        for p in &pm.polys {
            for k in 0..p.v.len() {
                if p.nb[k] as usize == 0x8000 | d {
                    let (s, e) = (pm.verts[p.v[k]], pm.verts[p.v[(k + 1) % p.v.len()]]);
                    let (ls, le, s, e) = if along_x { (s[0], e[0], s[2], e[2]) } else { (s[2], e[2], s[0], e[0]) };
                    if ls == line && le == line {
                        v.push((s.min(e), s.max(e)));
                    }
                }
            }
        }
        v
    };
    let qa = portals(&pa, d_out, (cut - a_lo) as i32);
    let qb = portals(&pb, d_in, 0);
    for (pm, d, n) in [(&pa, d_out, qa.len()), (&pb, d_in, qb.len())] {
        let all = pm.polys.iter().flat_map(|p| &p.nb).filter(|k| **k as usize == 0x8000 | d).count();
        ensure!(all == n, "portal-place", "{all} edges are marked as leading out in direction {d}, {n} lie on that side of the tile");
    }
    cx.add("portals", qa.len() + qb.len());
    if !single {
        return Ok(());
    }
    // (a tile less than three cells wide has no region: none can start next to a border)
    let deep = (c.max_err.ceil() as i64 + 2).clamp(3, 12);
    let mut need = 0;
    for u in p0..p1 {
        // a fully open neighbourhood on both sides, wide and deep enough to survive simplification
        let cell = |k: i64, u: i64| if along_x { (k, u) } else { (u, k) };
        let mut ok = true;
        'n: for k in cut - deep..cut + deep {
            for t in u - deep..=u + deep {
                let (x, z) = cell(k, t);
                if k < a_lo || k >= b_hi || t < p0 || t >= p1 {
                    ok = false;
                    break 'n;
                }
                let col = gc.col(x as usize, z as usize);
                if col.len() != 1 || gc.area[col.start] == 0 || gc.area[col.start] != gc.area[gc.col(cell(cut, u).0 as usize, cell(cut, u).1 as usize).start.min(gc.n() - 1)] {
                    ok = false;
                    break 'n;
                }
                let i = col.start;
                for d in 0..4 {
                    let last = (k == cut - deep || k == cut + deep - 1) || (t == u - deep || t == u + deep);
                    if !last && gc.nb[i][d].is_none() {
                        ok = false;
                        break 'n;
                    }
                }
            }
        }
        if !ok {
            continue;
        }
        need += 1;
        let z = (u - p0) as i32;
        for (side, q, pm) in [("first", &qa, &pa), ("second", &qb, &pb)] {
            ensure!(q.iter().any(|(s, e)| *s <= z && z + 1 <= *e), "portal-missing", "one can walk across the cut at {cut} in row {u}, but the {side} tile has no portal there: {q:?} ({} polygons)", pm.polys.len());
        }
    }
    cx.add("crossings", need);
    if need > 0 {
        cx.seen(pa.fingerprint() ^ pb.fingerprint().rotate_left(7));
        cx.sample(|| format!("{} {}x{} cut at {cut}: {need} crossings, portals {qa:?} | {qb:?}", s.name, s.w, s.h));
    }
    Ok(())
}
