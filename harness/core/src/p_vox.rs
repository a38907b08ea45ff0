//! Monitors for the voxel stages (V01-V11, T01).
use crate::fw::*;
use crate::r#gen::*;
use crate::model::*;
use crate::pipe::*;
use crate::refvox as rf;
use crate::rng::*;
use crate::{bail, ensure};
use glam::{Vec2, Vec3, Vec3A};
use rerecast::*;

// ------------------------------------------------------------ exact clip in f64
type P = [f64; 3];
fn clip(p: &[P], ax: usize, lim: f64, keep_less: bool) -> Vec<P> {
    let mut o = vec![];
    for i in 0..p.len() {
        let a = p[i];
        let b = p[(i + 1) % p.len()];
        let ina = if keep_less { a[ax] <= lim } else { a[ax] >= lim };
        let inb = if keep_less { b[ax] <= lim } else { b[ax] >= lim };
        if ina {
            o.push(a);
        }
        if ina != inb {
            let t = (lim - a[ax]) / (b[ax] - a[ax]);
            let mut q = [0.0; 3];
            for k in 0..3 {
                q[k] = a[k] + (b[k] - a[k]) * t;
            }
            q[ax] = lim;
            o.push(q);
        }
    }
    o
}
fn clip_rect(t: &[P; 3], x0: f64, x1: f64, z0: f64, z1: f64) -> Vec<P> {
    if x0 > x1 || z0 > z1 {
        return vec![];
    }
    let mut p = t.to_vec();
    for (ax, lim, less) in [(0, x1, true), (0, x0, false), (2, z1, true), (2, z0, false)] {
        p = clip(&p, ax, lim, less);
        if p.is_empty() {
            return p;
        }
    }
    p
}
fn yr(p: &[P]) -> (f64, f64) {
    p.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), v| (a.min(v[1]), b.max(v[1])))
}

pub fn tri_workload(r: &mut Rng, c: &Cfg, mn: Vec3, mx: Vec3) -> [Vec3; 3] {
    let e = mx - mn;
    let inside = |r: &mut Rng| mn + e * Vec3::new(r.f(), r.f(), r.f());
    let snap = |p: Vec3| {
        let q = (p - mn) / Vec3::new(c.cs, c.ch, c.cs);
        mn + q.round() * Vec3::new(c.cs, c.ch, c.cs)
    };
    let mut t = match r.n(9) {
        0 => [inside(r), inside(r), inside(r)],
        1 => {
            let p = inside(r);
            let s = c.cs * r.fr(0.05, 2.0);
            let mut q = |r: &mut Rng| p + Vec3::new(r.fr(-s, s), r.fr(-s, s), r.fr(-s, s));
            [p, q(r), q(r)]
        }
        2 => {
            // larger than the field
            let o = |r: &mut Rng| mn + e * Vec3::new(r.fr(-3.0, 4.0), r.fr(-1.0, 2.0), r.fr(-3.0, 4.0));
            [o(r), o(r), o(r)]
        }
        3 => {
            // grid-aligned
            [snap(inside(r)), snap(inside(r)), snap(inside(r))]
        }
        4 => {
            // sliver
            let a = inside(r);
            let b = inside(r);
            let m = (a + b) * 0.5 + Vec3::new(r.fr(-0.01, 0.01), 0.0, r.fr(-0.01, 0.01));
            [a, b, m]
        }
        5 => {
            // vertical wall
            let a = inside(r);
            let b = inside(r);
            let mut k = a;
            k.y = inside(r).y;
            [a, b, k]
        }
        6 => {
            // straddling exactly one border
            let o = |r: &mut Rng| mn + e * Vec3::new(r.fr(-0.4, 0.4), r.fr(0.0, 1.0), r.fr(-0.4, 1.4));
            [o(r), o(r), o(r)]
        }
        7 => {
            // horizontal
            let y = inside(r).y;
            let mut t = [inside(r), inside(r), inside(r)];
            for p in t.iter_mut() {
                p.y = y;
            }
            t
        }
        _ => {
            // degenerate: repeated vertex
            let a = inside(r);
            let b = inside(r);
            [a, b, if r.p(0.5) { a } else { b }]
        }
    };
    if r.p(0.1) {
        // far away coordinates
        let s = r.fr(10.0, 300.0);
        let k = r.n(3);
        t[k] = mn + (t[k] - mn) * s;
    }
    t
}

/// V01: spans of one triangle against the exact clipped extents.
pub fn v01(cx: &mut Ctx) -> R {
    let mut c = cfg(&mut cx.r);
    // numbers without rounding, so that heights on the grid are judged exactly
    let dyadic = cx.r.p(0.3);
    if dyadic {
        c.cs = *cx.r.pick(&[0.25f32, 0.5, 1.0]);
        c.ch = *cx.r.pick(&[0.125f32, 0.25, 0.5]);
    }
    let big = cx.r.p(0.06);
    let huge = cx.r.p(0.004);
    let wide = !huge && cx.r.p(0.01);
    let r = &mut cx.r;
    let (w, h) = if wide {
        let (a, b) = (r.r(400, 2500) as usize, r.r(1, 6) as usize);
        if r.p(0.5) { (a, b) } else { (b, a) }
    } else if huge {
        if r.p(0.5) { (r.r(32000, 50000) as usize, r.r(1, 3) as usize) } else { (r.r(1, 3) as usize, r.r(32000, 50000) as usize) }
    } else if big {
        (r.r(100, 300) as usize, r.r(100, 300) as usize)
    } else {
        (r.r(1, 24) as usize, r.r(1, 24) as usize)
    };
    let off = if r.p(0.5) { Vec3::ZERO } else { Vec3::new(r.fr(-80.0, 80.0), r.fr(-80.0, 80.0), r.fr(-80.0, 80.0)) };
    let off = if dyadic { (off * 4.0).round() / 4.0 } else { off };
    let hvox = if r.p(0.05) { r.r(60000, 90000) } else { r.r(1, 60) };
    let ext = Vec3::new(w as f32 * c.cs, hvox as f32 * c.ch, h as f32 * c.cs);
    let mut hf0 = hfb(off, off + ext, c.cs, c.ch)?;
    let (w, h) = (hf0.width as usize, hf0.height as usize);
    if w == 0 || h == 0 {
        return Ok(());
    }
    let (mn, mx) = (hf0.aabb.min, hf0.aabb.max);
    let n = if huge { 2 } else if big { 3 } else { 12 };
    for _ in 0..n {
        let mut t = tri_workload(&mut cx.r, &c, mn, mx);
        let flat = cx.r.p(0.25);
        if flat {
            let r = &mut cx.r;
            let y = match r.n(5) {
                0 => mn.y,
                1 => mx.y,
                2 => mn.y + r.r(-2, hvox + 2) as f32 * c.ch,
                3 => mn.y + (r.r(-2, hvox + 2) as f32 + 0.5) * c.ch,
                _ => mn.y + (r.r(0, hvox) as f32 + r.n(8) as f32 / 8.0) * c.ch,
            };
            t.iter_mut().for_each(|p| p.y = y);
            if r.p(0.5) {
                // as floors do: over many columns
                let d = mx - mn;
                let q = |r: &mut Rng| Vec3::new(mn.x + d.x * r.fr(-0.2, 1.2), y, mn.z + d.z * r.fr(-0.2, 1.2));
                t = [q(r), q(r), q(r)];
            }
        }
        // interpolating equal heights is exact
        let flat = t[0].y == t[1].y && t[1].y == t[2].y;
        let rim = flat && (t[0].y == mn.y || t[0].y == mx.y);
        let exact = flat && dyadic && (t[0].y as f64 - mn.y as f64) / c.ch as f64 * 1024.0 % 1.0 == 0.0 && (t[0].y - mn.y).abs() < 16384.0;
        let area = 1 + cx.r.n(255) as u8;
        let mut hf = std::mem::take(&mut hf0);
        let res = guard("rasterize_triangle", || {
            hf.rasterize_triangle([t[0].into(), t[1].into(), t[2].into()], AreaType(area), 1).map(|_| hf)
        })?;
        let hf = match res {
            Ok(h) => h,
            Err(e) => bail!("raster-error", "rasterising a finite triangle {t:?} failed: {e}"),
        };
        let o = obs(&hf)?;
        hf0 = hf;
        hf0.spans.fill(None);
        hf0.allocated_spans = Spans::default();
        let mag = t.iter().map(|p| p.abs().max_element()).fold(mn.abs().max(mx.abs()).max_element(), f32::max) as f64;
        // the cuts of a row build on one another, so rounding adds up along wide fields
        let eps = mag * 1.2e-7 * 64.0 * (w.max(h) as f64 / 250.0).max(1.0) + 1e-9;
        let tt: [P; 3] = t.map(|p| [p.x as f64, p.y as f64, p.z as f64]);
        let (cs, ch) = (c.cs as f64, c.ch as f64);
        let (bx, by, bz) = (mn.x as f64, mn.y as f64, mn.z as f64);
        let yext = (mx.y as f64 - by).max(0.0);
        let mut hits = 0;
        let mut must_n = 0;
        // only look at columns near the triangle or non-empty ones
        for z in 0..h {
            for x in 0..w {
                let col = &o.cols[x + z * w];
                let (x0, z0) = (bx + x as f64 * cs, bz + z as f64 * cs);
                let (x1, z1) = (x0 + cs, z0 + cs);
                if col.is_empty() {
                    let out = tt.iter().all(|p| p[0] < x0) || tt.iter().all(|p| p[0] > x1) || tt.iter().all(|p| p[2] < z0) || tt.iter().all(|p| p[2] > z1);
                    if out {
                        continue;
                    }
                }
                ensure!(col.len() <= 1, "raster-one-triangle", "one triangle put {} spans into column ({x},{z}): {t:?}", col.len());
                let inner = clip_rect(&tt, x0 + eps, x1 - eps, z0 + eps, z1 - eps);
                // the field's vertical bounds
                let must = inner.len() >= 3 && {
                    let (lo, hi) = yr(&inner);
                    (rim || hi - by >= eps && lo - by <= yext - eps) && footprint(&inner) > 16.0 * eps * cs
                };
                if must {
                    must_n += 1;
                    ensure!(col.len() == 1, "raster-missing", "triangle {t:?} crosses column ({x},{z}) of {w}x{h} cs={} ch={} min={mn:?} but leaves no span", c.cs, c.ch);
                }
                if let Some(s) = col.first() {
                    hits += 1;
                    ensure!(s.area == area, "raster-area", "span area {} expected {area}", s.area);
                    // the algorithm cuts polygons at the field's lower faces only when they reach a
                    // whole cell beyond them: border columns may include up to one cell outside
                    let ox = if x == 0 { x0 - cs } else { x0 };
                    let oz = if z == 0 { z0 - cs } else { z0 };
                    let outer = clip_rect(&tt, ox - eps, x1 + eps, oz - eps, z1 + eps);
                    ensure!(!outer.is_empty(), "raster-extra", "triangle {t:?} does not touch column ({x},{z}) (cs={} min={mn:?}) but left span {s:?}", c.cs);
                    let (lo_o, hi_o) = yr(&outer);
                    ensure!(
                        hi_o - by >= -eps && lo_o - by <= yext + eps,
                        "raster-out-of-bounds",
                        "triangle part {lo_o}..{hi_o} lies outside the vertical bounds but left span {s:?}"
                    );
                    // tightest acceptable interval
                    let tol = |k: f64| eps / ch + k.abs() * 3e-7 + 1e-6;
                    let lo_clip = ((lo_o - by).max(0.0)) / ch;
                    let hi_clip = ((hi_o - by).min(yext)) / ch;
                    let min_lo = (lo_clip - tol(lo_clip)).floor().clamp(0.0, 65534.0);
                    let max_hi = (hi_clip + tol(hi_clip)).ceil().clamp(0.0, 65535.0);
                    ensure!(
                        !(exact && must) || s.min as f64 == ((t[0].y as f64 - by) / ch).floor().clamp(0.0, 65534.0) && s.max as f64 == ((t[0].y as f64 - by) / ch).ceil().clamp(s.min as f64 + 1.0, 65535.0),
                        "raster-flat",
                        "a floor at height {} vx left span {s:?} in column ({x},{z}); {t:?} min={mn:?} cs={} ch={}",
                        (t[0].y as f64 - by) / ch,
                        c.cs,
                        c.ch
                    );
                    ensure!(
                        s.min as f64 >= min_lo && (s.max as f64 <= max_hi || s.max == s.min + 1),
                        "raster-too-tall",
                        "span {s:?} in column ({x},{z}) exceeds the triangle's extent {lo_clip}..{hi_clip} vx; {t:?} min={mn:?} cs={} ch={}",
                        c.cs,
                        c.ch
                    );
                    if must {
                        let (lo_i, hi_i) = yr(&inner);
                        let lo_i = ((lo_i - by).max(0.0)) / ch;
                        let hi_i = ((hi_i - by).min(yext)) / ch;
                        let min_hi = (lo_i + tol(lo_i)).floor().clamp(0.0, 65534.0);
                        let max_lo = (hi_i - tol(hi_i)).ceil().clamp(0.0, 65535.0);
                        ensure!(
                            s.min as f64 <= min_hi && s.max as f64 >= max_lo,
                            "raster-too-short",
                            "span {s:?} in column ({x},{z}) does not cover the triangle's extent {lo_i}..{hi_i} vx; {t:?} min={mn:?} cs={} ch={}",
                            c.cs,
                            c.ch
                        );
                    }
                }
            }
        }
        cx.add("triangles", 1);
        cx.add("columns_hit", hits);
        cx.add("columns_required", must_n);
        cx.add("exact_floors", (exact && must_n > 0) as usize);
        cx.add("floors_on_the_rim", (rim && must_n > 0) as usize);
        if hits > 0 {
            cx.seen(o.fingerprint());
            cx.sample(|| format!("{w}x{h} grid cs={} ch={}: triangle {t:?} hit {hits} columns, {must_n} required", c.cs, c.ch));
        }
    }
    Ok(())
}
fn footprint(p: &[P]) -> f64 {
    // horizontal or vertical extent of the clipped piece, so that points are not "required"
    let (mut a, mut b) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
    for v in p {
        for k in 0..3 {
            a[k] = a[k].min(v[k]);
            b[k] = b[k].max(v[k]);
        }
    }
    (b[0] - a[0]).max(b[2] - a[2])
}

/// A triangle that occupies exactly one column over a chosen voxel interval.
fn stub(c: &Cfg, mn: Vec3, x: usize, z: usize, lo: f32, hi: f32) -> [Vec3; 3] {
    let p = |fx: f32, y: f32, fz: f32| {
        Vec3::new(mn.x + (x as f32 + fx) * c.cs, mn.y + y * c.ch, mn.z + (z as f32 + fz) * c.cs)
    };
    [p(0.3, lo, 0.3), p(0.6, hi, 0.3), p(0.5, (lo + hi) * 0.5, 0.7)]
}

fn check_columns(o: &Hf) -> R {
    for (i, c) in o.cols.iter().enumerate() {
        for (k, s) in c.iter().enumerate() {
            ensure!(s.min < s.max, "span-empty", "column {i}: span {s:?} is empty");
            if k > 0 {
                ensure!(c[k - 1].max < s.min, "span-order", "column {i}: spans {:?} and {s:?} touch, overlap or are unsorted", c[k - 1]);
            }
        }
    }
    Ok(())
}

/// V02: columns stay sorted/disjoint, solid voxels are the exact union of the parts, merge priority.
pub fn v02(cx: &mut Ctx) -> R {
    let c = cfg(&mut cx.r);
    let r = &mut cx.r;
    let stubs = r.p(0.6);
    let (w, h) = if stubs { (r.r(1, 3) as usize, r.r(1, 2) as usize) } else { (r.r(1, 20) as usize, r.r(1, 20) as usize) };
    let merge = *r.pick(&[0u16, 1, 2, 3, 8, 1000, 65535]);
    let ymax = r.r(4, 60);
    let ext = Vec3::new(w as f32 * c.cs, ymax as f32 * c.ch, h as f32 * c.cs);
    let mut hf = hfb(Vec3::ZERO, ext, c.cs, c.ch)?;
    let (w, h) = (hf.width as usize, hf.height as usize);
    if w == 0 || h == 0 {
        return Ok(());
    }
    let mut model = Hf::empty(w, h, c.cs, c.ch, ext.y);
    let n = r.r(1, 40);
    let mut tris = vec![];
    let mut merges = 0;
    for step in 0..n {
        let r = &mut cx.r;
        let t = if stubs {
            let (x, z) = (r.n(w), r.n(h));
            let lo = r.r(0, ymax - 1);
            let hi = (lo + r.r(0, 5)).min(ymax);
            let frac = if r.p(0.5) { 0.0 } else { r.fr(0.0, 0.9) };
            stub(&c, Vec3::ZERO, x, z, lo as f32 + frac, hi as f32 - if r.p(0.5) { 0.0 } else { 0.4 })
        } else {
            tri_workload(r, &c, Vec3::ZERO, ext)
        };
        let area = *r.pick(&[0u8, 0, 1, 2, 3, 63, 254, 255]);
        let tv: [Vec3A; 3] = t.map(|p| p.into());
        // what this triangle alone contributes, observed on the real code
        let mut alone = hfb(Vec3::ZERO, ext, c.cs, c.ch)?;
        let (a, b) = guard("rasterize_triangle", || {
            let a = alone.rasterize_triangle(tv, AreaType(area), merge);
            let b = hf.rasterize_triangle(tv, AreaType(area), merge);
            (a, b)
        })?;
        if let Err(e) = a.and(b) {
            bail!("raster-error", "rasterising a finite triangle failed: {e}");
        }
        tris.push((t, area));
        let al = obs(&alone)?;
        for i in 0..w * h {
            for s in &al.cols[i] {
                let before = model.cols[i].len();
                rf::add_span(&mut model.cols[i], *s, merge);
                if model.cols[i].len() <= before {
                    merges += 1;
                }
            }
        }
        let o = obs(&hf)?;
        check_columns(&o)?;
        if o.cols != model.cols {
            let i = (0..w * h).find(|&i| o.cols[i] != model.cols[i]).unwrap();
            let geo = o.cols[i].iter().map(|s| (s.min, s.max)).collect::<Vec<_>>() != model.cols[i].iter().map(|s| (s.min, s.max)).collect::<Vec<_>>();
            bail!(
                if geo { "merge-geometry" } else { "merge-area" },
                "after {} triangles (merge threshold {merge}), column {i} is {:?}, expected {:?}",
                step + 1,
                o.cols[i],
                model.cols[i]
            );
        }
    }
    // the batch entry points do the same as one-by-one insertion
    let mut tm = TriMesh::default();
    for (t, a) in &tris {
        let b = tm.vertices.len() as u32;
        tm.vertices.extend(t.iter().map(|p| Vec3A::from(*p)));
        tm.indices.push(glam::UVec3::new(b, b + 1, b + 2));
        tm.area_types.push(AreaType(*a));
    }
    let mut hf2 = hfb(Vec3::ZERO, ext, c.cs, c.ch)?;
    if let Err(e) = hf2.rasterize_triangles(&tm, merge) {
        bail!("raster-error", "rasterize_triangles failed: {e}");
    }
    let o = obs(&hf)?;
    let o2 = obs(&hf2)?;
    ensure!(o.cols == o2.cols, "batch-differs", "rasterize_triangles differs from inserting the same triangles one by one");
    let mut hf3 = hfb(Vec3::ZERO, ext, c.cs, c.ch)?;
    let wh = c.wh;
    if let Err(e) = hf3.populate_from_trimesh(tm, wh, merge) {
        bail!("raster-error", "populate_from_trimesh failed: {e}");
    }
    let mut m = o.clone();
    rf::low_hanging(&mut m, merge);
    rf::ledge(&mut m, wh, merge);
    rf::low_height(&mut m, wh);
    ensure!(obs(&hf3)?.cols == m.cols, "populate-differs", "populate_from_trimesh differs from rasterising and then applying the three filters");
    cx.add("triangles", n as usize);
    cx.add("merges", merges);
    cx.max("max_spans_in_column", o.cols.iter().map(|c| c.len()).max().unwrap_or(0));
    if merges > 0 {
        cx.seen(o.fingerprint());
        cx.sample(|| format!("{n} triangles, threshold {merge}, {merges} merges; first non-empty column {:?}", o.cols.iter().find(|c| !c.is_empty())));
    }
    Ok(())
}

/// V03: slope marking.
pub fn v03(cx: &mut Ctx) -> R {
    let r = &mut cx.r;
    let thr = match r.n(5) {
        0 => r.fr(0.0, 1.57),
        1 => 0.785398,
        2 => 0.0,
        3 => 1.5707,
        _ => r.fr(0.2, 1.3),
    };
    let mut tm = TriMesh::default();
    let n = r.r(1, 60) as usize;
    let scale = *r.pick(&[1e-2f32, 1.0, 1.0, 10.0, 1000.0]);
    let off = Vec3::new(r.fr(-1.0, 1.0), r.fr(-1.0, 1.0), r.fr(-1.0, 1.0)) * scale * r.fr(0.0, 20.0);
    for _ in 0..n {
        let p = |r: &mut Rng| Vec3::new(r.fr(-1.0, 1.0), r.fr(-1.0, 1.0), r.fr(-1.0, 1.0)) * scale;
        let t = match r.n(6) {
            0 => [p(r), p(r), p(r)],
            1 => {
                let a = p(r);
                let b = p(r);
                [a, b, a]
            }
            _ => {
                // slope close to the threshold
                let ang = match r.n(4) {
                    0 => thr * 0.98,
                    1 => thr + (1.57 - thr) * 0.03 + 1e-3,
                    2 => r.fr(0.0, 3.14),
                    _ => thr + r.fr(-0.2, 0.2),
                };
                let az = r.fr(0.0, 6.28);
                let nrm = Vec3::new(ang.sin() * az.cos(), ang.cos(), ang.sin() * az.sin());
                let u = nrm.any_orthonormal_vector();
                let w = nrm.cross(u);
                let o = p(r) + off;
                let (a, b) = (r.fr(0.2, 1.0) * scale, r.fr(0.2, 1.0) * scale);
                if r.p(0.85) { [o, o + u * a, o + w * b] } else { [o, o + w * b, o + u * a] }
            }
        };
        let b = tm.vertices.len() as u32;
        tm.vertices.extend(t.iter().map(|p| Vec3A::from(*p)));
        let rot = r.n(3) as u32;
        tm.indices.push(glam::UVec3::new(b + rot % 3, b + (rot + 1) % 3, b + (rot + 2) % 3));
        tm.area_types.push(AreaType(*r.pick(&[0u8, 0, 0, 1, 7])));
    }
    let before = tm.clone();
    guard("mark_walkable_triangles", || tm.mark_walkable_triangles(thr))?;
    ensure!(tm.vertices == before.vertices && tm.indices == before.indices, "slope-geometry", "marking changed the geometry");
    ensure!(tm.area_types.len() == before.area_types.len(), "slope-areas", "marking changed the number of areas");
    let (mut marked, mut kept, mut near) = (0, 0, 0);
    let mut fp = Fnv::new();
    for i in 0..n {
        let ix = tm.indices[i];
        let g = |k: u32| Vec3::from(tm.vertices[k as usize]);
        let (a, b, c) = (g(ix.x), g(ix.y), g(ix.z));
        let (ny, len) = rf::normal_y(a, b, c);
        let ext = (b - a).length().max((c - a).length()) as f64;
        let pos = a.abs().max(b.abs()).max(c.abs()).max_element() as f64;
        let got = tm.area_types[i].0;
        let was = before.area_types[i].0;
        fp.u(a.x.to_bits() as u64 ^ (ny.to_bits()));
        if len == 0.0 {
            ensure!(got == was, "slope-degenerate", "degenerate triangle {a:?} {b:?} {c:?} was given area {got} (had {was})");
            continue;
        }
        // conditioning of the f32 normal
        let tol = 1e-6 + 4e-6 * ext * (ext + pos) / len;
        let d = ny / len - (thr as f64).cos();
        if d.abs() < tol {
            near += 1;
            ensure!(got == was || got == AreaType::DEFAULT_WALKABLE.0, "slope-area", "area {got} is neither the old {was} nor walkable");
        } else if d > 0.0 {
            marked += 1;
            ensure!(
                got == AreaType::DEFAULT_WALKABLE.0,
                "slope-not-marked",
                "triangle with normal.y={} (threshold cos {}) is not walkable (area {got})",
                ny / len,
                (thr as f64).cos()
            );
        } else {
            kept += 1;
            ensure!(got == was, "slope-marked", "triangle with normal.y={} (threshold cos {}) got area {got}, had {was}", ny / len, (thr as f64).cos());
        }
    }
    cx.add("triangles", n);
    cx.add("marked", marked);
    cx.add("kept", kept);
    cx.add("too_close_to_call", near);
    if marked > 0 && kept > 0 {
        cx.seen(fp.0);
        cx.sample(|| format!("threshold {thr} rad over {n} triangles: {marked} marked, {kept} kept"));
    }
    Ok(())
}

fn filter_case(cx: &mut Ctx) -> Result<(Hf, Cfg, u16, u16), V> {
    let mut c = cfg(&mut cx.r);
    let r = &mut cx.r;
    if r.p(0.1) {
        c.wc = *r.pick(&[100u16, 1000, 40000, 65535]);
    }
    if r.p(0.1) {
        c.wh = *r.pick(&[0u16, 1, 2, 100, 40000, 65535]);
    }
    let hf = if r.p(0.04) { tower_hf(r, &c) } else if r.p(0.006) { large_hf(r, &c, true).0 } else if r.p(0.05) { stack_hf(r, &c) } else { match r.n(3) {
        0 => random_hf(r, &c),
        1 => layered_hf(r, &c, 20).0,
        _ => {
            let s = scene(r, &c);
            let (mn, mx) = s.aabb().unwrap_or_default();
            let mut tm = s.to_trimesh();
            tm.mark_walkable_triangles(c.slope);
            let mut hf = hfb(mn, mx, c.cs, c.ch)?;
            if hf.width > 0 && hf.height > 0 {
                hf.rasterize_triangles(&tm, c.wc).map_err(|e| v("raster-error", e))?;
            }
            obs(&hf)?
        }
    } };
    let (wh, wc) = (c.wh, c.wc);
    Ok((hf, c, wh, wc))
}
fn filter_check(cx: &mut Ctx, what: &'static str, real: impl Fn(&mut Heightfield, u16, u16), model: impl Fn(&mut Hf, u16, u16)) -> R {
    let (hf, _c, wh, wc) = filter_case(cx)?;
    let mut rl = hf.to_real();
    guard(what, || real(&mut rl, wh, wc))?;
    let o = obs(&rl)?;
    let mut m = hf.clone();
    model(&mut m, wh, wc);
    let mut changed = 0;
    let mut walk = 0;
    for i in 0..hf.cols.len() {
        ensure!(o.cols[i].len() == m.cols[i].len(), "filter-spans", "{what} changed the number of spans in column {i}");
        for k in 0..m.cols[i].len() {
            let (a, b, was) = (o.cols[i][k], m.cols[i][k], hf.cols[i][k]);
            ensure!(a.min == was.min && a.max == was.max, "filter-geometry", "{what} changed span {was:?} to {a:?}");
            if a.area != b.area {
                let (x, z) = (i % hf.w, i / hf.w);
                let nb: Vec<_> = (0..4)
                    .map(|d| {
                        let (nx, nz) = (x as i64 + DX[d], z as i64 + DZ[d]);
                        if nx < 0 || nz < 0 || nx >= hf.w as i64 || nz >= hf.h as i64 { None } else { Some(hf.cols[nx as usize + nz as usize * hf.w].clone()) }
                    })
                    .collect();
                bail!(
                    "filter-area",
                    "{what}(walkable_height={wh}, climb={wc}): span {k} of column ({x},{z}) {:?} got area {}, expected {}; neighbours {nb:?}",
                    hf.cols[i],
                    a.area,
                    b.area
                );
            }
            changed += (b.area != was.area) as usize;
            walk += (was.area != 0) as usize;
        }
    }
    cx.add("columns", hf.cols.len());
    cx.add("walkable_spans", walk);
    cx.add("areas_changed", changed);
    if changed > 0 && changed < walk.max(2) {
        cx.seen(hf.fingerprint() ^ mix((wh as u64) << 16 | wc as u64));
        cx.sample(|| format!("{}x{} field, walkable_height {wh}, climb {wc}: {changed} of {walk} walkable spans changed", hf.w, hf.h));
    }
    Ok(())
}
pub fn v04(cx: &mut Ctx) -> R {
    filter_check(cx, "filter_low_hanging_walkable_obstacles", |h, _, wc| h.filter_low_hanging_walkable_obstacles(wc), |h, _, wc| rf::low_hanging(h, wc))
}
pub fn v05(cx: &mut Ctx) -> R {
    filter_check(cx, "filter_ledge_spans", |h, wh, wc| h.filter_ledge_spans(wh, wc), |h, wh, wc| rf::ledge(h, wh, wc))
}
pub fn v06(cx: &mut Ctx) -> R {
    filter_check(cx, "filter_walkable_low_height_spans", |h, wh, _| h.filter_walkable_low_height_spans(wh), |h, wh, _| rf::low_height(h, wh))
}

fn compact_pair(cx: &mut Ctx) -> Result<Option<(Hf, Ch, Ch)>, V> {
    let (hf, _c, wh, wc) = filter_case(cx)?;
    let m = rf::compact(&hf, wh, wc);
    let rl = hf.to_real();
    let res = guard("into_compact", || rl.into_compact(wh, wc))?;
    match (res, m) {
        (Ok(c), Ok(m)) => Ok(Some((hf, obs_c(&c)?, m))),
        (Err(_), Err(_)) => Ok(None),
        (Ok(_), Err(e)) => Err(v("compact-no-error", format!("a neighbour on unaddressable {e} was not reported"))),
        (Err(e), Ok(_)) => Err(v("compact-error", format!("into_compact failed: {e}"))),
    }
}
/// V07: compaction keeps exactly the walkable spans' open space.
pub fn v07(cx: &mut Ctx) -> R {
    let Some((hf, o, m)) = compact_pair(cx)? else { return Ok(()) };
    ensure!((o.w, o.h, o.wh, o.wc) == (m.w, m.h, m.wh, m.wc), "compact-header", "dimensions or walkable parameters differ: {:?} vs {:?}", (o.w, o.h, o.wh, o.wc), (m.w, m.h, m.wh, m.wc));
    ensure!(o.bmin == m.bmin && (o.bmax - m.bmax).abs().max_element() <= 1e-5 * m.bmax.abs().max_element().max(1.0) , "compact-bounds", "bounds {:?}..{:?}, expected {:?}..{:?}", o.bmin, o.bmax, m.bmin, m.bmax);
    ensure!(o.cs == m.cs && o.ch == m.ch, "compact-cells", "cell sizes differ");
    ensure!(o.max_reg == 0 && o.reg.iter().all(|r| *r == 0), "compact-regions", "a fresh compact field already has regions");
    for c in 0..m.w * m.h {
        let (a, b) = (o.start[c]..o.start[c + 1], m.start[c]..m.start[c + 1]);
        let f = |q: &Ch, r: std::ops::Range<usize>| r.map(|i| (q.y[i], q.hgt[i], q.area[i])).collect::<Vec<_>>();
        ensure!(f(&o, a.clone()) == f(&m, b.clone()), "compact-spans", "column {c} {:?} became {:?}, expected {:?}", hf.cols[c], f(&o, a), f(&m, b));
    }
    cx.add("columns", m.w * m.h);
    cx.add("open_spans", m.n());
    if m.n() > 1 {
        cx.seen(hf.fingerprint());
        cx.sample(|| format!("{}x{} field with {} spans → {} open spans", hf.w, hf.h, hf.cols.iter().map(|c| c.len()).sum::<usize>(), m.n()));
    }
    Ok(())
}
/// V08: links.
pub fn v08(cx: &mut Ctx) -> R {
    let Some((_hf, o, m)) = compact_pair(cx)? else { return Ok(()) };
    if o.n() != m.n() {
        bail!("compact-spans", "{} spans instead of {}", o.n(), m.n());
    }
    let mut links = 0;
    let mut refused = 0;
    for i in 0..m.n() {
        for d in 0..4 {
            let (a, b) = (o.nb[i][d], m.nb[i][d]);
            if let Some(j) = a {
                ensure!(
                    rf::connectable(&m, i, j),
                    "link-not-walkable",
                    "span ({},{}) y={} h={} is linked in direction {d} to y={} h={} although walkable_height={} climb={} forbid it",
                    m.x[i],
                    m.z[i],
                    m.y[i],
                    m.hgt[i],
                    m.y[j],
                    m.hgt[j],
                    m.wh,
                    m.wc
                );
            }
            ensure!(
                a == b,
                "link-wrong",
                "span {i} at ({},{}) y={} h={} direction {d}: linked to {a:?}, expected {b:?} (walkable_height={} climb={})",
                m.x[i],
                m.z[i],
                m.y[i],
                m.hgt[i],
                m.wh,
                m.wc
            );
            links += a.is_some() as usize;
            refused += a.is_none() as usize;
        }
    }
    // when a step can never exceed the headroom, links are symmetric
    if m.wc < m.wh {
        for i in 0..m.n() {
            for d in 0..4 {
                if let Some(j) = o.nb[i][d] {
                    ensure!(o.nb[j][(d + 2) & 3] == Some(i), "link-asymmetric", "span {i} links to {j} in direction {d} but {j} does not link back");
                }
            }
        }
        cx.add("symmetry_checked", 1);
    }
    cx.add("links", links);
    cx.add("absent", refused);
    if links > 0 && refused > 0 {
        cx.seen(o.fingerprint() ^ mix(links as u64));
        cx.sample(|| format!("{} spans: {links} links, {refused} absent, walkable_height {} climb {}", m.n(), m.wh, m.wc));
    }
    Ok(())
}

/// V09: erosion.
pub fn v09(cx: &mut Ctx) -> R {
    let c = cfg(&mut cx.r);
    // large fields now and then: radii beyond small-integer ranges need room
    let dim = if cx.r.p(0.06) { 330 } else if cx.r.p(0.2) { 90 } else { 30 };
    let (mut ch, name) = if dim == 330 {
        let (w, h) = (cx.r.r(200, 330) as usize, cx.r.r(200, 330) as usize);
        let mut hf = Hf::empty(w, h, c.cs, c.ch, 1.0);
        let holes = cx.r.n(4);
        hf.cols.fill(vec![Sp { min: 0, max: 1, area: 255 }]);
        for _ in 0..holes {
            let i = cx.r.n(w * h);
            hf.cols[i].clear();
        }
        (hf.to_real().into_compact(c.wh, c.wc).map_err(|e| v("compact-error", e))?, "open field".to_string())
    } else {
        chf(&mut cx.r, &c, dim)?
    };
    let n_er = cx.r.r(1, 2);
    for k in 0..n_er {
        let rad = if dim == 330 {
            *cx.r.pick(&[1u16, 60, 90, 100, 126, 127, 128, 129, 140, 200, 1000, 16384, 16390, 32768, 32770, 40000, 49152, 65535])
        } else {
            *cx.r.pick(&[0u16, 1, 1, 2, 3, 4, 6, 8, 10, 15, 20, 127, 128, 200, 256, 16384, 32768, 32769])
        };
        let before = obs_c(&ch)?;
        guard("erode_walkable_area", || ch.erode_walkable_area(rad))?;
        let o = obs_c(&ch)?;
        let mut m = before.clone();
        let dist = rf::erosion_dist(&m);
        rf::erode(&mut m, rad);
        for i in 0..m.n() {
            ensure!(
                o.area[i] == m.area[i],
                "erosion",
                "radius {rad}: span ({},{}) at distance {} (half-cells) from the nearest obstruction has area {}, expected {}",
                m.x[i],
                m.z[i],
                dist[i],
                o.area[i],
                m.area[i]
            );
        }
        let mut o2 = o.clone();
        o2.area = before.area.clone();
        ensure!(o2 == before, "erosion-side-effect", "erosion changed something other than areas");
        let walk = before.area.iter().filter(|a| **a != 0).count();
        let left = o.area.iter().filter(|a| **a != 0).count();
        cx.add("spans", m.n());
        cx.add("eroded", walk - left);
        cx.max("max_distance", dist.iter().copied().filter(|d| *d < rf::FAR).max().unwrap_or(0) as usize);
        if left < walk && left > 0 {
            cx.seen(before.fingerprint() ^ mix(rad as u64));
            cx.sample(|| format!("{name} {}x{}: radius {rad}, step {k}: {walk} walkable → {left}", m.w, m.h));
        }
    }
    Ok(())
}

/// V10: convex volumes.
pub fn v10(cx: &mut Ctx) -> R {
    let c = cfg(&mut cx.r);
    let (mut ch, _) = chf(&mut cx.r, &c, 28)?;
    for _ in 0..cx.r.r(1, 4) {
        let r = &mut cx.r;
        let before = obs_c(&ch)?;
        let (mut vs, mut y0, mut y1, area) = volume(r, ch.aabb.min, ch.aabb.max);
        match r.n(12) {
            0 => vs.clear(),
            1 => {
                // axis aligned rectangle on cell boundaries
                let (w, h) = (before.w as i64, before.h as i64);
                let (a, b) = (r.r(-2, w), r.r(-2, h));
                let (e, f) = (a + r.r(1, w + 2), b + r.r(1, h + 2));
                let q = |x: i64, z: i64| Vec2::new(ch.aabb.min.x + x as f32 * c.cs, ch.aabb.min.z + z as f32 * c.cs);
                vs = vec![q(a, b), q(e, b), q(e, f), q(a, f)];
            }
            2 => {
                y0 = ch.aabb.min.y - 10.0;
                y1 = ch.aabb.max.y + 10.0;
            }
            3 => {
                // far outside
                for p in vs.iter_mut() {
                    *p += Vec2::new(if r.p(0.5) { 1e4 } else { -1e4 }, 0.0);
                }
            }
            _ => {}
        }
        let vol = ConvexVolume { vertices: vs.clone(), min_y: y0, max_y: y1, area: AreaType(area) };
        guard("mark_convex_poly_area", || ch.mark_convex_poly_area(vol))?;
        let o = obs_c(&ch)?;
        let (mut inn, mut out, mut near) = (0, 0, 0);
        for i in 0..o.n() {
            let (was, got) = (before.area[i], o.area[i]);
            if was == 0 {
                ensure!(got == 0, "volume-unwalkable", "a removed span was re-marked with area {got}");
                continue;
            }
            let px = before.bmin.x as f64 + (o.x[i] as f64 + 0.5) * before.cs as f64;
            let pz = before.bmin.z as f64 + (o.z[i] as f64 + 0.5) * before.cs as f64;
            let (ins, margin) = in_poly(px, pz, &vs);
            let mag = before.bmin.abs().max(before.bmax.abs()).max_element() as f64 + before.w.max(before.h) as f64;
            let l0 = (y0 as f64 - before.bmin.y as f64) / before.ch as f64;
            let l1 = (y1 as f64 - before.bmin.y as f64) / before.ch as f64;
            // lowest and highest voxel layers the volume touches
            let ytol = 1e-4 * (1.0 + mag / before.ch as f64 * 1e-2);
            let y = o.y[i] as f64;
            let fuzzy = |l: f64| (l - l.round()).abs() < ytol;
            if margin < 1e-5 * (1.0 + mag) || fuzzy(l0) && (y - l0).abs() < 1.5 || fuzzy(l1) && (y - l1).abs() < 1.5 || (l1 < 0.0 && l1 > -1.0 && y < 1.0) {
                near += 1;
                ensure!(got == was || got == area, "volume-area", "area {got} is neither {was} nor {area}");
                continue;
            }
            let iny = y >= l0.floor() && y <= l1.floor();
            if ins && iny {
                inn += 1;
                ensure!(got == area, "volume-missed", "span ({},{}) y={} centre ({px},{pz}) lies in the volume {vs:?} y {y0}..{y1} (layers {l0}..{l1}) but kept area {got}", o.x[i], o.z[i], o.y[i]);
            } else {
                out += 1;
                ensure!(got == was, "volume-overreach", "span ({},{}) y={} centre ({px},{pz}) lies outside the volume {vs:?} y {y0}..{y1} (layers {l0}..{l1}) but went from {was} to {got}", o.x[i], o.z[i], o.y[i]);
            }
        }
        let mut o2 = o.clone();
        o2.area = before.area.clone();
        ensure!(o2 == before, "volume-side-effect", "marking changed something other than areas");
        cx.add("inside", inn);
        cx.add("outside", out);
        cx.add("too_close_to_call", near);
        if inn > 0 && out > 0 {
            cx.seen(o.fingerprint() ^ mix(inn as u64));
            cx.sample(|| format!("{} vertices, y {y0}..{y1}, area {area}: {inn} inside, {out} outside", vs.len()));
        }
    }
    Ok(())
}
fn in_poly(px: f64, pz: f64, vs: &[Vec2]) -> (bool, f64) {
    let mut inside = false;
    let mut margin = f64::INFINITY;
    for i in 0..vs.len() {
        let a = vs[i].as_dvec2();
        let b = vs[(i + 1) % vs.len()].as_dvec2();
        if (a.y > pz) != (b.y > pz) && px < (b.x - a.x) * (pz - a.y) / (b.y - a.y) + a.x {
            inside = !inside;
        }
        let e = b - a;
        let p = glam::DVec2::new(px, pz);
        let t = if e.length_squared() > 0.0 { ((p - a).dot(e) / e.length_squared()).clamp(0.0, 1.0) } else { 0.0 };
        margin = margin.min((a + e * t - p).length());
    }
    (inside, margin)
}

/// V11: field creation and input bounds.
pub fn v11(cx: &mut Ctx) -> R {
    let r = &mut cx.r;
    // TriMesh::compute_aabb / extend (T01 shares this machinery)
    let cs = *r.pick(&[0.05f32, 0.1, 0.3, 0.5, 1.0, 3.0]);
    let ch = *r.pick(&[0.05f32, 0.2, 1.0]);
    let ex = match r.n(5) {
        0 => r.fr(0.0, 2.0) * cs,
        1 => r.r(0, 200) as f32 * cs,
        2 => r.fr(0.0, 200.0) * cs,
        3 => r.fr(0.0, 3000.0) * cs,
        _ => r.fr(20000.0, 65000.0) * cs,
    };
    let ez = if ex / cs > 3000.0 { r.fr(0.0, 8.0) * cs } else { r.fr(0.0, 300.0) * cs };
    let (ex, ez) = if r.p(0.5) { (ex, ez) } else { (ez, ex) };
    let mn = Vec3::new(r.fr(-100.0, 100.0), r.fr(-100.0, 100.0), r.fr(-100.0, 100.0));
    let mx = mn + Vec3::new(ex, r.fr(0.0, 50.0), ez);
    // numbers without rounding: halves of a cell, and just below
    let dyadic = r.p(0.3);
    let (cs, mn, mx) = if dyadic {
        let cs = *r.pick(&[0.25f32, 0.5, 1.0, 2.0]);
        let a = (mn * 4.0).round() / 4.0;
        let e = |r: &mut Rng| (r.r(0, 200) as f32 + *r.pick(&[0.0, 0.5, 0.5 - 1.0 / 8192.0, 0.5 - 1.0 / 32768.0, 0.5 + 1.0 / 8192.0, 1.0 - 1.0 / 8192.0])) * cs;
        (cs, a, a + Vec3::new(e(r), 3.0, e(r)))
    } else {
        (cs, mn, mx)
    };
    let hf = guard("HeightfieldBuilder::build", || hfb(mn, mx, cs, ch))??;
    let o = obs(&hf)?;
    ensure!(hf.aabb.min == mn && hf.aabb.max == mx && hf.cell_size == cs && hf.cell_height == ch, "builder-fields", "builder inputs are not preserved");
    ensure!(o.cols.iter().all(|c| c.is_empty()) && hf.allocated_spans.is_empty(), "builder-not-empty", "a fresh heightfield has spans");
    for (name, got, e) in [("width", o.w, (mx.x as f64 - mn.x as f64)), ("height", o.h, (mx.z as f64 - mn.z as f64))] {
        let want = e / cs as f64 + 0.5;
        let tol = 1e-3 + want * 1e-6 + 100.0 * 3e-7 / cs as f64;
        ensure!(
            (got as f64) <= want + tol && (got as f64) >= want - tol - 1.0,
            "builder-size",
            "{name} {got} for an extent of {e} at cell size {cs} (extent/cs rounded: {})",
            want.floor()
        );
        // nothing is rounded on the way
        let exact = dyadic && (e as f32) as f64 == e && (want as f32) as f64 == want;
        if exact || (want - want.round()).abs() > tol {
            ensure!(got as f64 == want.floor(), "builder-size", "{name} {got} for extent {e} at cell size {cs}, expected {}", want.floor());
        }
    }
    // public column accessors agree with the storage
    let (w, h) = (o.w, o.h);
    if w > 0 && h > 0 {
        let (x, z) = (cx.r.n(w), cx.r.n(h));
        ensure!(hf.span_key_at(x as u16, z as u16).is_none() && hf.span_at(x as u16, z as u16).is_none(), "builder-not-empty", "empty column reports a span");
    }
    // a field larger than its coordinates can address is refused rather than truncated
    if cx.r.p(0.02) {
        let e = match cx.r.n(4) {
            0 => 65536.0,
            1 => 65535.0,
            2 => 65536.0 + cx.r.r(0, 300) as f32,
            _ => 70000.0 + 1000.0 * mn.x.abs(),
        };
        let max = if cx.r.p(0.5) { Vec3::new(e, 1.0, 1.0) } else { Vec3::new(1.0, 1.0, e) };
        let big = guard("HeightfieldBuilder::build", || {
            HeightfieldBuilder { aabb: Aabb3d { min: Vec3::ZERO, max }, cell_size: 1.0, cell_height: 1.0 }.build()
        })?;
        ensure!(big.is_ok() == (e < 65536.0), "builder-limit", "a field of {} x {} cells: {:?}", max.x, max.z, big.as_ref().map(|b| (b.width, b.height)));
        if let Ok(b) = big {
            ensure!(
                b.spans.len() == b.width as usize * b.height as usize,
                "builder-truncated",
                "extent of more than 65535 cells gives width={} height={} with {} columns",
                b.width,
                b.height,
                b.spans.len()
            );
        }
        cx.add("oversized", 1);
    }
    // accessors on a populated field
    let c = cfg(&mut cx.r);
    let f = random_hf(&mut cx.r, &c);
    let mut rl = f.to_real();
    for z in 0..f.h + 1 {
        for x in 0..f.w + 1 {
            let inb = x < f.w && z < f.h;
            if !inb {
                let (x, z) = (x as u16, z as u16);
                ensure!(rl.span_key_at(x, z).is_none() && rl.span_at(x, z).is_none() && rl.span_at_mut(x, z).is_none(), "accessor-outside", "a {}x{} field reports a span at ({x},{z})", f.w, f.h);
                continue;
            }
            let want = f.cols[x + z * f.w].first().copied();
            let got = rl.span_at(x as u16, z as u16).map(|s| Sp { min: s.min, max: s.max, area: s.area.0 });
            ensure!(got == want, "accessor", "span_at({x},{z}) = {got:?}, column starts with {want:?}");
            let k = rl.span_key_at(x as u16, z as u16);
            ensure!(k == rl.spans[x + z * f.w], "accessor", "span_key_at({x},{z}) differs from the column head");
            if let Some(k) = k {
                let m = rl.span_mut(k).max;
                ensure!(Some(m) == want.map(|s| s.max) && rl.span(k).max == m && rl.span_at_mut(x as u16, z as u16).map(|s| s.max) == Some(m), "accessor", "span accessors disagree at ({x},{z})");
            }
        }
    }
    // the same for the open field
    if let Ok(mut ch) = guard("into_compact", || rl.into_compact(c.wh, c.wc))? {
        for z in 0..f.h as u16 + 2 {
            for x in 0..f.w as u16 + 2 {
                let want = ((x as usize) < f.w && (z as usize) < f.h).then(|| ch.cells[x as usize + z as usize * f.w].clone());
                let same = |c: Option<&CompactCell>| match (&want, c) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a.index() == b.index() && a.count() == b.count(),
                    _ => false,
                };
                ensure!(same(ch.get_cell_at(x, z)), "accessor-outside", "get_cell_at({x},{z}) of a {}x{} field", f.w, f.h);
                ensure!(same(ch.get_cell_at_mut(x, z).map(|c| &*c)), "accessor-outside", "get_cell_at_mut({x},{z}) of a {}x{} field", f.w, f.h);
                let got = quiet(|| ch.cell_at(x, z).clone());
                ensure!(same(got.as_ref()), "accessor-outside", "cell_at({x},{z}) of a {}x{} field gives {:?}", f.w, f.h, got.map(|c| (c.index(), c.count())));
                let got = quiet(|| ch.cell_at_mut(x, z).clone());
                ensure!(same(got.as_ref()), "accessor-outside", "cell_at_mut({x},{z}) of a {}x{} field", f.w, f.h);
            }
        }
    }
    // an open span keeps its parts apart, in whatever order they are written
    let r = &mut cx.r;
    let mut sp = CompactSpan::default();
    let (mut cons, mut hgt) = ([Some(0u8); 4], 0u8);
    for _ in 0..12 {
        if r.p(0.3) {
            hgt = r.n(256) as u8;
            sp.set_height(hgt);
        } else {
            let d = r.n(4);
            cons[d] = if r.p(0.2) { None } else { Some(r.n(63) as u8) };
            sp.set_con(d as u8, cons[d]);
        }
        let got = [0, 1, 2, 3].map(|d| sp.con(d));
        ensure!(got == cons && sp.height() == hgt, "span-parts", "links {got:?} and height {} read from a span given {cons:?} and {hgt}", sp.height());
    }
    cx.add("fields_built", 1);
    cx.max("max_side", w.max(h));
    cx.seen(mix(w as u64) ^ h as u64);
    cx.sample(|| format!("extent {ex}x{ez} at {cs} → {w}x{h}"));
    Ok(())
}

/// T01: triangle soup container.
pub fn t01(cx: &mut Ctx) -> R {
    let r = &mut cx.r;
    let parts = r.r(1, 6);
    let mut total = TriMesh::default();
    let mut tris: Vec<([Vec3A; 3], u8)> = vec![];
    let mut pts: Vec<Vec3> = vec![];
    let big = r.p(0.0015);
    for _ in 0..parts {
        // now and then more vertices than 16 bits can count
        let nv = if big { r.r(1000, 50_000) } else { r.r(0, 20) } as usize;
        let mut t = TriMesh::default();
        for _ in 0..nv {
            let p = Vec3::new(r.fr(-9.0, 9.0), r.fr(-9.0, 9.0), r.fr(-9.0, 9.0)) * *r.pick(&[1.0f32, 100.0]);
            t.vertices.push(p.into());
            pts.push(p);
        }
        if nv > 0 {
            for _ in 0..r.r(0, 15) {
                t.indices.push(glam::UVec3::new(r.n(nv) as u32, r.n(nv) as u32, r.n(nv) as u32));
                t.area_types.push(AreaType(r.n(256) as u8));
            }
        }
        for (i, ix) in t.indices.iter().enumerate() {
            tris.push(([t.vertices[ix.x as usize], t.vertices[ix.y as usize], t.vertices[ix.z as usize]], t.area_types[i].0));
        }
        let bb = t.compute_aabb();
        ensure!(bb.is_none() == (nv == 0), "aabb-none", "compute_aabb of {nv} vertices is {bb:?}");
        guard("TriMesh::extend", || total.extend(t))?;
        // soup semantics: the triangles are the concatenation
        ensure!(total.indices.len() == tris.len() && total.area_types.len() == tris.len() && total.vertices.len() == pts.len(), "extend-count", "{} triangles, {} areas, {} vertices after extend; expected {} {} {}", total.indices.len(), total.area_types.len(), total.vertices.len(), tris.len(), tris.len(), pts.len());
        for (i, (t, a)) in tris.iter().enumerate() {
            let ix = total.indices[i];
            for (k, want) in [ix.x, ix.y, ix.z].into_iter().zip(t) {
                ensure!(total.vertices.get(k as usize) == Some(want), "extend-index", "triangle {i} refers to vertex {k} = {:?}, expected {want:?}", total.vertices.get(k as usize));
            }
            ensure!(total.area_types[i].0 == *a, "extend-area", "triangle {i} area {} expected {a}", total.area_types[i].0);
        }
        if let Some(b) = total.compute_aabb() {
            let mn = pts.iter().copied().reduce(|a, b| a.min(b)).unwrap();
            let mx = pts.iter().copied().reduce(|a, b| a.max(b)).unwrap();
            ensure!(b.min == mn && b.max == mx, "aabb", "aabb {b:?} of points spanning {mn:?}..{mx:?}");
        }
    }
    cx.add("triangles", tris.len());
    cx.add("extends", parts as usize);
    if tris.len() > 3 && parts > 1 {
        let mut f = Fnv::new();
        pts.iter().for_each(|p| f.u(p.x.to_bits() as u64));
        cx.seen(f.0);
        cx.sample(|| format!("{parts} parts → {} triangles over {} vertices", tris.len(), pts.len()));
    }
    Ok(())
}
