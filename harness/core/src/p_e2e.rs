//! End-to-end monitors: what the finished navmesh promises about the input geometry, judged from the
//! geometry itself, without the stage-by-stage reference models.
use crate::fw::*;
use crate::r#gen::*;
use crate::model::*;
use crate::pipe::*;
use crate::refmesh as rm;
use crate::rng::*;
use crate::{bail, ensure};
use glam::{UVec3, Vec2, Vec3};
use rerecast::*;

// ------------------------------------------------------------------ the whole pipeline
pub struct Out {
    pub hf: Heightfield,
    pub ch: CompactHeightfield,
    pub cs: ContourSet,
    pub pm: Option<PolygonNavmesh>,
    pub dm: Option<DetailNavmesh>,
    pub err: String,
}
pub fn run(tm: &TriMesh, bb: (Vec3, Vec3), c: &Cfg, vols: &[(Vec<Vec2>, f32, f32, u8)], detail: bool) -> Result<Option<Out>, V> {
    let mut tm = tm.clone();
    guard("mark_walkable_triangles", || tm.mark_walkable_triangles(c.slope))?;
    let hf = guard("build", || HeightfieldBuilder { aabb: Aabb3d { min: bb.0, max: bb.1 }, cell_size: c.cs, cell_height: c.ch }.build())?;
    let Ok(mut hf) = hf else { return Ok(None) };
    if guard("rasterize_triangles", || hf.rasterize_triangles(&tm, c.wc))?.is_err() {
        // only where the cells vanish in the rounding of the coordinates
        let big = bb.0.abs().max(bb.1.abs()).max_element();
        if c.cs < big * 4e-7 {
            return Ok(None);
        }
        bail!("raster-error", "rasterization failed");
    }
    guard("filters", || {
        hf.filter_low_hanging_walkable_obstacles(c.wc);
        hf.filter_ledge_spans(c.wh, c.wc);
        hf.filter_walkable_low_height_spans(c.wh);
    })?;
    let Ok(mut ch) = guard("into_compact", || hf.clone().into_compact(c.wh, c.wc))? else { return Ok(None) };
    guard("erode_walkable_area", || ch.erode_walkable_area(c.rad))?;
    for (vs, y0, y1, a) in vols {
        guard("mark_convex_poly_area", || ch.mark_convex_poly_area(ConvexVolume { vertices: vs.clone(), min_y: *y0, max_y: *y1, area: AreaType(*a) }))?;
    }
    guard("build_distance_field", || ch.build_distance_field())?;
    if guard("build_regions", || ch.build_regions(c.border, c.min_area, c.merge_area))?.is_err() {
        return Ok(None);
    }
    let cs = guard("build_contours", || ch.build_contours(c.max_err, c.max_edge, BuildContoursFlags::from_bits_retain(c.flags)))?;
    let mut o = Out { hf, ch, cs, pm: None, dm: None, err: String::new() };
    // merging the triangles of one outline takes cubic time
    if o.cs.contours.iter().map(|k| k.vertices.len().pow(3)).sum::<usize>() > 900usize.pow(3) {
        o.err = "outlines too long".into();
        return Ok(Some(o));
    }
    let cs2 = o.cs.clone();
    match guard("into_polygon_mesh", || cs2.into_polygon_mesh(c.nvp))? {
        Ok(pm) => {
            if detail {
                match guard("DetailNavmesh::new", || DetailNavmesh::new(&pm, &o.ch, c.sample, c.det_err))? {
                    Ok(d) => o.dm = Some(d),
                    Err(e) => o.err = e.to_string(),
                }
            }
            o.pm = Some(pm);
        }
        Err(e) => o.err = e.to_string(),
    }
    Ok(Some(o))
}

// ------------------------------------------------------------------ arenas: worlds with known clearances
#[derive(Clone, Debug)]
pub struct RectO {
    pub lo: [f64; 2],
    pub hi: [f64; 2],
    pub ang: f64,
}
impl RectO {
    fn centre(&self) -> [f64; 2] {
        [(self.lo[0] + self.hi[0]) / 2.0, (self.lo[1] + self.hi[1]) / 2.0]
    }
    fn dist(&self, p: [f64; 2]) -> f64 {
        let c = self.centre();
        let (s, co) = (-self.ang).sin_cos();
        let q = [p[0] - c[0], p[1] - c[1]];
        let q = [q[0] * co - q[1] * s, q[0] * s + q[1] * co];
        let dx = (q[0].abs() - (self.hi[0] - self.lo[0]) / 2.0).max(0.0);
        let dz = (q[1].abs() - (self.hi[1] - self.lo[1]) / 2.0).max(0.0);
        (dx * dx + dz * dz).sqrt()
    }
    fn corner(&self, x: bool, z: bool) -> [f64; 2] {
        let c = self.centre();
        let (s, co) = self.ang.sin_cos();
        let h = [(self.hi[0] - self.lo[0]) / 2.0 * if x { 1.0 } else { -1.0 }, (self.hi[1] - self.lo[1]) / 2.0 * if z { 1.0 } else { -1.0 }];
        [c[0] + h[0] * co - h[1] * s, c[1] + h[0] * s + h[1] * co]
    }
}
pub struct Arena {
    pub c: Cfg,
    pub tm: TriMesh,
    pub size: [f64; 2],
    /// nobody can stand here
    pub blocked: Vec<RectO>,
    /// passable but not promised to be covered
    pub doubtful: Vec<RectO>,
    pub ang: f64,
    pub off: Vec3,
    pub floor_y: f32,
    /// cells between the bottom of the field and the floor, at least
    pub depth: u32,
    pub desc: String,
}
impl Arena {
    /// world xz → arena plane
    pub fn local(&self, x: f64, z: f64) -> [f64; 2] {
        let (x, z) = (x - self.off.x as f64, z - self.off.z as f64);
        let (s, c) = (-self.ang).sin_cos();
        [x * c - z * s, x * s + z * c]
    }
    fn outside(&self, p: [f64; 2]) -> f64 {
        p[0].min(p[1]).min(self.size[0] - p[0]).min(self.size[1] - p[1])
    }
    /// distance to the nearest obstacle or the rim, non-positive inside one
    pub fn clear(&self, p: [f64; 2]) -> f64 {
        self.blocked.iter().map(|r| r.dist(p)).fold(self.outside(p), f64::min)
    }
    pub fn sure(&self, p: [f64; 2]) -> f64 {
        self.doubtful.iter().map(|r| r.dist(p)).fold(self.clear(p), f64::min)
    }
}
pub fn arena(r: &mut Rng, wall_prob: f32) -> Arena {
    let mut c = cfg(r);
    c.wc = r.r(1, 5) as u16;
    c.wh = r.r(4, 12) as u16;
    c.rad = *r.pick(&[0u16, 1, 2, 3, 4, 6, 8]);
    c.min_area = 0;
    c.merge_area = *r.pick(&[20u16, 50, 400]);
    c.max_err = *r.pick(&[0.5f32, 1.0, 1.1, 1.3, 1.3, 1.5]);
    c.slope = 0.785398;
    c.border = *r.pick(&[0u16, 0, 0, 3, 6]);
    let (cs, ch) = (c.cs as f64, c.ch as f64);
    let n = r.r(24, 70) as f64;
    let size = [n * cs, (n * r.fr(0.4, 1.0) as f64).max(16.0) * cs];
    let (ang, off) = if r.p(0.6) {
        (if r.p(0.6) { r.fr(0.0, 6.28) as f64 } else { 0.0 }, Vec3::new(r.fr(-80.0, 80.0), r.fr(-20.0, 20.0), r.fr(-80.0, 80.0)))
    } else {
        (0.0, Vec3::ZERO)
    };
    let mut a = Arena { c, tm: TriMesh::default(), size, blocked: vec![], doubtful: vec![], ang, off, floor_y: off.y, depth: 0, desc: String::new() };
    let c = a.c.clone();
    let mut tris: Vec<[[f64; 3]; 3]> = vec![];
    let quad = |t: &mut Vec<[[f64; 3]; 3]>, a: [f64; 3], b: [f64; 3], c: [f64; 3], d: [f64; 3]| {
        t.push([a, b, c]);
        t.push([a, c, d]);
    };
    // the floor, with rectangular pits left out
    let g = r.r(1, 6) as usize;
    let mut pits = 0;
    for i in 0..g {
        for j in 0..g {
            let (x0, x1) = (size[0] * i as f64 / g as f64, size[0] * (i + 1) as f64 / g as f64);
            let (z0, z1) = (size[1] * j as f64 / g as f64, size[1] * (j + 1) as f64 / g as f64);
            if g >= 3 && r.p(0.12) {
                a.blocked.push(RectO { lo: [x0, z0], hi: [x1, z1], ang: 0.0 });
                pits += 1;
                continue;
            }
            quad(&mut tris, [x0, 0.0, z0], [x0, 0.0, z1], [x1, 0.0, z1], [x1, 0.0, z0]);
        }
    }
    let boxx = |t: &mut Vec<[[f64; 3]; 3]>, b: &RectO, y0: f64, y1: f64| {
        let v = |x: bool, y: bool, z: bool| {
            let p = b.corner(x, z);
            [p[0], if y { y1 } else { y0 }, p[1]]
        };
        let (f, tr) = (false, true);
        quad(t, v(f, tr, f), v(f, tr, tr), v(tr, tr, tr), v(tr, tr, f));
        quad(t, v(f, f, f), v(tr, f, f), v(tr, f, tr), v(f, f, tr));
        quad(t, v(f, f, f), v(f, tr, f), v(tr, tr, f), v(tr, f, f));
        quad(t, v(f, f, tr), v(tr, f, tr), v(tr, tr, tr), v(f, tr, tr));
        quad(t, v(f, f, f), v(f, f, tr), v(f, tr, tr), v(f, tr, f));
        quad(t, v(tr, f, f), v(tr, tr, f), v(tr, tr, tr), v(tr, f, tr));
        // solid: only shells are voxelised, so without these the inside of a tall box is a room
        let step = (c.wh as f64 * 0.5 - 0.5) * ch;
        let mut y = y0 + step;
        while y < y1 {
            let q = |x: bool, z: bool| {
                let p = b.corner(x, z);
                [p[0], y, p[1]]
            };
            quad(t, q(f, f), q(tr, f), q(tr, tr), q(f, tr));
            y += step;
        }
    };
    let tall = (c.wh as f64 + c.wc as f64 + 6.0) * ch;
    let mut steps: Vec<RectO> = vec![];
    let rect = |r: &mut Rng, wall: bool| {
        let (w, h) = if wall {
            let t = r.fr(0.5, 3.0) as f64 * cs;
            let l = size[0].max(size[1]) * r.fr(0.3, 1.3) as f64;
            if r.p(0.5) { (t, l) } else { (l, t) }
        } else {
            (r.fr(1.0, 12.0) as f64 * cs, r.fr(1.0, 12.0) as f64 * cs)
        };
        let (x, z) = (r.fr(0.0, 1.0) as f64 * size[0], r.fr(0.0, 1.0) as f64 * size[1]);
        RectO { lo: [x - w / 2.0, z - h / 2.0], hi: [x + w / 2.0, z + h / 2.0], ang: if r.p(0.4) { r.fr(0.0, 3.14) as f64 } else { 0.0 } }
    };
    let mut kinds = [0usize; 4];
    for _ in 0..r.r(0, 9) {
        let wall = r.p(wall_prob);
        let b = rect(r, wall);
        let k = if wall { 0 } else { r.n(4) };
        kinds[k] += 1;
        match k {
            0 => {
                boxx(&mut tris, &b, -0.5 * ch * r.f() as f64, tall + r.fr(0.0, 3.0) as f64);
                a.blocked.push(b);
            }
            1 => {
                // too low to pass below, too high to step on
                let y0 = r.fr(0.0, c.wh as f32 - 2.0) as f64 * ch;
                boxx(&mut tris, &b, y0, y0 + tall);
                a.blocked.push(b);
            }
            2 => {
                // passes overhead
                let mut y0 = (c.wh as f64 + c.wc as f64 + 3.0 + r.fr(0.0, 6.0) as f64) * ch;
                if r.p(0.15) {
                    // far above
                    y0 += r.fr(220.0, 280.0) as f64 * ch;
                }
                boxx(&mut tris, &b, y0, y0 + r.fr(0.5, 4.0) as f64);
            }
            _ => {
                // a step low enough to climb: its rim may be filtered where steps meet
                let h = r.fr(0.0, c.wc as f32 - 1.0).max(0.0) as f64 * ch;
                if h <= 0.01 * ch {
                    continue;
                }
                // a step reaching over a pit or the rim would be more floor
                let g = 24;
                let over = (0..=g).any(|u| {
                    (0..=g).any(|v| {
                        let (o, e, f) = (b.corner(false, false), b.corner(true, false), b.corner(false, true));
                        let (u, v) = (u as f64 / g as f64, v as f64 / g as f64);
                        let p = [0, 1].map(|k| o[k] + (e[k] - o[k]) * u + (f[k] - o[k]) * v);
                        a.outside(p) <= 0.0 || a.blocked[..pits].iter().any(|o| o.dist(p) < 0.5 * cs)
                    })
                });
                if over {
                    continue;
                }
                boxx(&mut tris, &b, -0.3 * ch, h);
                steps.push(b);
            }
        }
    }
    // where steps come close to each other or anything else, nothing is promised
    for i in 0..steps.len() {
        let s = &steps[i];
        let near = |o: &RectO| {
            let m = 3.0 * cs;
            let e = RectO { lo: [o.lo[0] - m, o.lo[1] - m], hi: [o.hi[0] + m, o.hi[1] + m], ang: o.ang };
            let g = 12;
            (0..=g).any(|u| {
                (0..=g).any(|v| {
                    let (cx, cz) = (s.corner(false, false), s.corner(true, true));
                    let (ex, ez) = (s.corner(true, false), s.corner(false, true));
                    let (u, v) = (u as f64 / g as f64, v as f64 / g as f64);
                    let p = [0, 1].map(|k| cx[k] * (1.0 - u) * (1.0 - v) + ex[k] * u * (1.0 - v) + ez[k] * (1.0 - u) * v + cz[k] * u * v);
                    e.dist(p) <= 0.0
                })
            })
        };
        if (0..steps.len()).any(|j| j != i && near(&steps[j])) || a.blocked.iter().any(|o| near(o)) {
            let m = 2.0 * cs;
            let s = s.clone();
            a.doubtful.push(RectO { lo: [s.lo[0] - m, s.lo[1] - m], hi: [s.hi[0] + m, s.hi[1] + m], ang: s.ang });
        }
    }
    let (s, co) = a.ang.sin_cos();
    for t in &tris {
        let b = a.tm.vertices.len() as u32;
        for p in t {
            let q = [p[0] * co - p[2] * s, p[0] * s + p[2] * co];
            a.tm.vertices.push(Vec3::new((q[0] + off.x as f64) as f32, (p[1] + off.y as f64) as f32, (q[1] + off.z as f64) as f32).into());
        }
        a.tm.indices.push(UVec3::new(b, b + 1, b + 2));
        a.tm.area_types.push(AreaType::NOT_WALKABLE);
    }
    a.depth = match r.n(10) {
        0 => r.r(1, 700) as u32,
        1 => 256 * r.r(1, 9) as u32 - r.r(0, 14) as u32,
        _ => 0,
    };
    a.desc = format!("arena {:.0}x{:.0} cells, {pits} pits, {} walls, {} low and {} high overhangs, {} steps, radius {} error {} border {}", size[0] / cs, size[1] / cs, kinds[0], kinds[1], kinds[2], kinds[3], c.rad, c.max_err, c.border);
    a
}
pub struct Ground {
    pub a: Arena,
    pub out: Out,
    pub pm: Pm,
    /// polygons at floor level
    pub ground: Vec<usize>,
    /// bounds of the meshed part of the field, world xz
    pub inner: [f64; 4],
}
/// An arena with its navmesh; None when the library reports an error or a hole could not be joined.
pub fn ground(cx: &mut Ctx, wall_prob: f32) -> Result<Option<Ground>, V> {
    let a = arena(&mut cx.r, wall_prob);
    let mut bb = a.tm.compute_aabb().unwrap();
    // the floor at any height above the bottom of the field, also where the open space above it, counted in cells,
    // ends just above a multiple of 256
    if a.depth > 0 {
        bb.min.y = bb.min.y.min(a.floor_y - a.depth as f32 * a.c.ch);
    }
    // room for a border around the geometry
    let pad = if cx.r.p(0.5) { a.c.border as f32 * a.c.cs } else { 0.0 };
    let p = Vec3::new(pad, 0.0, pad);
    let mut c = a.c.clone();
    c.sample = 0.0;
    let Some(out) = run(&a.tm, (bb.min - p, bb.max + p), &c, &[], false)? else { return Ok(None) };
    let Some(pm) = &out.pm else {
        cx.add("mesh_refused", 1);
        return Ok(None);
    };
    let pm = obs_m(pm)?;
    // holes no bridge can reach stay outlines of their own: the library documents this with a warning
    let och = obs_c(&out.ch)?;
    let (_, info) = rm::contours(&och, c.max_err, c.max_edge, c.flags);
    if info.unmerged > 0 {
        cx.add("unmerged_holes", 1);
        return Ok(None);
    }
    let lim = a.floor_y as f64 + (c.wc as f64 + 3.0) * c.ch as f64;
    let ground = (0..pm.polys.len()).filter(|i| pm.polys[*i].v.iter().all(|v| pm.world(*v).y as f64 <= lim)).collect();
    let b = c.border as f64 * c.cs as f64;
    let (w, h) = (out.hf.width as f64 * c.cs as f64, out.hf.height as f64 * c.cs as f64);
    let (x0, z0) = (out.hf.aabb.min.x as f64, out.hf.aabb.min.z as f64);
    let inner = [x0 + b, x0 + w - b, z0 + b, z0 + h - b];
    Ok(Some(Ground { a, out, pm, ground, inner }))
}
pub fn inside(pm: &Pm, p: &Poly, x: f64, z: f64, eps: f64) -> bool {
    // x, z in cells; positive eps grows the polygon
    let n = p.v.len();
    let at = |i: usize| (pm.verts[p.v[i % n]][0] as f64, pm.verts[p.v[i % n]][2] as f64);
    if eps >= 0.0 && n > 3 && (0..n).any(|i| area2(pm.verts[p.v[i]], pm.verts[p.v[(i + 1) % n]], pm.verts[p.v[(i + 2) % n]]) > 0) {
        // an outline with a bridge to a hole can come out concave
        return (0..n).filter(|i| {
            let (a, b) = (at(*i), at(*i + 1));
            (a.1 > z) != (b.1 > z) && x < a.0 + (z - a.1) / (b.1 - a.1) * (b.0 - a.0)
        }).count() % 2 == 1;
    }
    (0..n).all(|i| {
        let (a, b) = (pm.verts[p.v[i]], pm.verts[p.v[(i + 1) % n]]);
        let (ex, ez) = ((b[0] - a[0]) as f64, (b[2] - a[2]) as f64);
        let l = (ex * ex + ez * ez).sqrt().max(1e-9);
        // polygons are wound so that area2 is negative: inside is where the cross product is non-positive
        (ex * (z - a[2] as f64) - ez * (x - a[0] as f64)) / l <= eps
    })
}
impl Ground {
    fn local_of(&self, x: f64, z: f64) -> [f64; 2] {
        self.a.local(self.pm.bmin.x as f64 + x * self.pm.cs as f64, self.pm.bmin.z as f64 + z * self.pm.cs as f64)
    }
    pub fn poly_at(&self, x: f64, z: f64, eps: f64) -> Option<usize> {
        self.ground.iter().copied().find(|i| inside(&self.pm, &self.pm.polys[*i], x, z, eps))
    }
    fn components(&self) -> Vec<usize> {
        let n = self.pm.polys.len();
        let mut comp = vec![usize::MAX; n];
        let mut k = 0;
        for i in 0..n {
            if comp[i] != usize::MAX {
                continue;
            }
            let mut st = vec![i];
            comp[i] = k;
            while let Some(j) = st.pop() {
                for m in &self.pm.polys[j].nb {
                    if *m & 0x8000 == 0 && comp[*m as usize] == usize::MAX {
                        comp[*m as usize] = k;
                        st.push(*m as usize);
                    }
                }
            }
            k += 1;
        }
        comp
    }
}
/// allowed intrusion: simplification plus voxel rounding, in cells
fn keep_out(c: &Cfg) -> f64 {
    c.rad as f64 / 1.12 - c.max_err as f64 - 1.5
}

/// E01: no ground polygon comes closer to an obstacle than the radius allows.
pub fn e01(cx: &mut Ctx) -> R {
    let Some(g) = ground(cx, 0.3)? else { return Ok(()) };
    let cs = g.pm.cs as f64;
    let need = keep_out(&g.a.c) * cs;
    let mut pts = 0;
    let mut closest = f64::MAX;
    for i in &g.ground {
        let p = &g.pm.polys[*i];
        let n = p.v.len();
        let vs: Vec<[f64; 2]> = p.v.iter().map(|v| [g.pm.verts[*v][0] as f64, g.pm.verts[*v][2] as f64]).collect();
        let mut look = |x: f64, z: f64| -> R {
            let l = g.local_of(x, z);
            let d = g.a.clear(l);
            pts += 1;
            closest = closest.min(d / cs);
            ensure!(d >= need - 1e-3 * cs, "penetrates", "{}: the mesh contains the point {l:?} {:.2} cells from an obstacle or the rim, allowed is {:.2}; polygon {i} {vs:?}", g.a.desc, d / cs, need / cs);
            Ok(())
        };
        for k in 0..n {
            let (a, b) = (vs[k], vs[(k + 1) % n]);
            for s in 0..4 {
                let t = s as f64 / 4.0;
                look(a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)?;
            }
        }
        for _ in 0..6 {
            let w: Vec<f64> = (0..n).map(|_| cx.r.f() as f64 + 1e-3).collect();
            let s: f64 = w.iter().sum();
            let q = [0, 1].map(|k| (0..n).map(|i| vs[i][k] * w[i]).sum::<f64>() / s);
            look(q[0], q[1])?;
        }
    }
    cx.add("points", pts);
    cx.add("polygons", g.ground.len());
    cx.add("obstacles", g.a.blocked.len());
    if !g.ground.is_empty() && need > 0.0 && !g.a.blocked.is_empty() {
        cx.seen(g.pm.fingerprint());
        cx.sample(|| format!("{}: {} polygons, {pts} points, closest {closest:.2} cells", g.a.desc, g.ground.len()));
    }
    Ok(())
}

/// Where two regions meet at the corner of an obstacle which only one of them has a side on, only that one has a
/// vertex there, so the two simplified borders part by a triangle. Recast does the same.
fn corner_gap(g: &Ground, fx: f64, fz: f64) -> bool {
    let at = |v: &(glam::U16Vec3, u32)| (v.0.x as f64, v.0.z as f64);
    let side = |a: (f64, f64), b: (f64, f64)| (b.0 - a.0) * (fz - a.1) - (b.1 - a.1) * (fx - a.0);
    let cs = &g.out.cs.contours;
    cs.iter().any(|k| {
        k.vertices.iter().any(|v| {
            let p = at(v);
            let mut others = cs.iter().filter(|o| o.region != k.region && o.region.bits() as usize == (v.1 & 0xffff) as usize).peekable();
            others.peek().is_some()
                && others.all(|o| !o.vertices.iter().any(|w| at(w) == p))
                && cs.iter().filter(|o| o.region != k.region && o.region.bits() as usize == (v.1 & 0xffff) as usize).any(|o| {
                    (0..o.vertices.len()).any(|i| {
                        let (a, b) = (at(&o.vertices[i]), at(&o.vertices[(i + 1) % o.vertices.len()]));
                        let s = [side(p, a), side(a, b), side(b, p)];
                        s.iter().all(|x| *x >= 0.0) || s.iter().all(|x| *x <= 0.0)
                    })
                })
        })
    })
}

/// Some shared region border has a vertex only one of the two regions knows, so its edges do not match.
fn any_corner_gap(g: &Ground) -> bool {
    let at = |v: &(glam::U16Vec3, u32)| (v.0.x, v.0.z);
    let cs = &g.out.cs.contours;
    cs.iter().any(|k| {
        let n = k.vertices.len();
        (0..n).any(|i| {
            let v = &k.vertices[i];
            let reg = |j: usize| (k.vertices[j % n].1 & 0xffff) as usize;
            // the border with another region starts or ends here
            [reg(i), reg(i + n - 1)].into_iter().any(|o| {
                let mut others = cs.iter().filter(|c| c.region != k.region && c.region.bits() as usize == o).peekable();
                o != 0 && others.peek().is_some() && others.all(|c| !c.vertices.iter().any(|w| at(w) == at(v)))
            })
        })
    })
}

/// E02: where there is enough room to stand, there is a polygon.
pub fn e02(cx: &mut Ctx) -> R {
    let Some(g) = ground(cx, 0.3)? else { return Ok(()) };
    let c = &g.a.c;
    let cs = g.pm.cs as f64;
    let need = (c.rad as f64 + c.max_err as f64 + 1.7) * cs;
    let (w, h) = (g.out.hf.width as i64 - 2 * c.border as i64, g.out.hf.height as i64 - 2 * c.border as i64);
    let (mut must, mut cells) = (0, 0);
    for z in 0..h.max(0) {
        for x in 0..w.max(0) {
            cells += 1;
            let (fx, fz) = (x as f64 + 0.5, z as f64 + 0.5);
            let l = g.local_of(fx, fz);
            if g.a.sure(l) < need {
                continue;
            }
            must += 1;
            if g.poly_at(fx, fz, 0.02).is_none() && corner_gap(&g, fx, fz) {
                cx.add("corner_gaps", 1);
                continue;
            }
            ensure!(
                g.poly_at(fx, fz, 0.02).is_some(),
                "uncovered",
                "{}: cell ({x},{z}) at {l:?} is {:.2} cells from every obstacle but no polygon covers it ({} ground polygons)",
                g.a.desc,
                g.a.sure(l) / cs,
                g.ground.len()
            );
        }
    }
    cx.add("cells", cells);
    cx.add("cells_required", must);
    if must > 4 && must < cells {
        cx.seen(g.pm.fingerprint());
        cx.sample(|| format!("{}: {must} of {cells} cells must be covered and are", g.a.desc));
    }
    Ok(())
}

/// E09: polygons are connected exactly where an agent can get from one to the other.
pub fn e09(cx: &mut Ctx) -> R {
    let Some(g) = ground(cx, 0.85)? else { return Ok(()) };
    let c = &g.a.c;
    let cs = g.pm.cs as f64;
    let comp = g.components();
    let (w, h) = (g.out.hf.width as i64 - 2 * c.border as i64, g.out.hf.height as i64 - 2 * c.border as i64);
    if w <= 2 || h <= 2 {
        return Ok(());
    }
    let at = |x: i64, z: i64| (x + z * w) as usize;
    let flood = |ok: &[bool], diag: bool| -> Vec<usize> {
        let mut f = vec![usize::MAX; ok.len()];
        let mut k = 0;
        for i in 0..ok.len() {
            if !ok[i] || f[i] != usize::MAX {
                continue;
            }
            let mut st = vec![i];
            f[i] = k;
            while let Some(j) = st.pop() {
                let (x, z) = (j as i64 % w, j as i64 / w);
                for dz in -1..=1i64 {
                    for dx in -1..=1i64 {
                        if (!diag && dx != 0 && dz != 0) || x + dx < 0 || z + dz < 0 || x + dx >= w || z + dz >= h {
                            continue;
                        }
                        let n = at(x + dx, z + dz);
                        if ok[n] && f[n] == usize::MAX {
                            f[n] = k;
                            st.push(n);
                        }
                    }
                }
            }
            k += 1;
        }
        f
    };
    // clearances at cell centres
    let n = (w * h) as usize;
    let mut clear = vec![0.0; n];
    let mut sure = vec![0.0; n];
    for z in 0..h {
        for x in 0..w {
            let l = g.local_of(x as f64 + 0.5, z as f64 + 0.5);
            clear[at(x, z)] = g.a.clear(l) / cs;
            // the meshed part ends at the border
            let e = (x.min(z).min(w - 1 - x).min(h - 1 - z)) as f64 + 0.5;
            sure[at(x, z)] = if c.border > 0 { (g.a.sure(l) / cs).min(e + c.rad as f64 + c.max_err as f64 + 1.0) } else { g.a.sure(l) / cs };
        }
    }
    // enough room to walk → same component
    let wide: Vec<bool> = sure.iter().map(|d| *d >= c.rad as f64 + c.max_err as f64 + 1.7).collect();
    let f = flood(&wide, false);
    let mut of: std::collections::HashMap<usize, (usize, usize)> = Default::default();
    let mut where_: Vec<Option<usize>> = vec![None; n];
    for i in 0..n {
        let (x, z) = ((i as i64 % w) as f64 + 0.5, (i as i64 / w) as f64 + 0.5);
        if wide[i] {
            // strictly inside one polygon
            let Some(p) = g.poly_at(x, z, -0.02) else { continue };
            where_[i] = Some(comp[p]);
            let e = of.entry(f[i]).or_insert((comp[p], i));
            if e.0 != comp[p] && any_corner_gap(&g) {
                cx.add("corner_gaps", 1);
                return Ok(());
            }
            ensure!(e.0 == comp[p], "disconnected", "{}: cells {:?} and {:?} are connected by a passage wide enough, their polygons are not", g.a.desc, (e.1 as i64 % w, e.1 as i64 / w), (i as i64 % w, i as i64 / w));
        }
    }
    // no passage at all → different components
    let need = keep_out(c) - 1.0;
    let open: Vec<bool> = clear.iter().map(|d| *d >= need.min(0.0) - 0.71 || *d >= need - 0.71).collect();
    let strict: Vec<bool> = clear.iter().map(|d| *d >= need - 0.71).collect();
    let fo = if need > 0.0 { flood(&strict, true) } else { flood(&open, true) };
    let mut back: std::collections::HashMap<usize, (usize, usize)> = Default::default();
    for i in 0..n {
        if let Some(cp) = where_[i] {
            let e = back.entry(cp).or_insert((fo[i], i));
            ensure!(e.0 == fo[i], "teleports", "{}: cells {:?} and {:?} are separated everywhere by obstacles, their polygons are connected", g.a.desc, (e.1 as i64 % w, e.1 as i64 / w), (i as i64 % w, i as i64 / w));
        }
    }
    let parts = of.len();
    cx.add("passable_areas", parts);
    cx.add("cells_located", where_.iter().flatten().count());
    cx.max("max_areas", parts);
    if back.len() > 1 || g.ground.len() > 8 {
        cx.seen(g.pm.fingerprint());
        cx.sample(|| format!("{}: {parts} passable areas in {} connected parts of {} ground polygons", g.a.desc, back.len(), g.ground.len()));
    }
    Ok(())
}
