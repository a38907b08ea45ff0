//! Monitors for contours, the polygon mesh and the detail mesh (K01-K03, P01-P05, D01-D03).
use crate::fw::*;
use crate::r#gen::*;
use crate::model::*;
use crate::pipe::*;
use crate::refmesh as rm;
use crate::refvox::BORDER;
use crate::rng::*;
use crate::{bail, ensure};
use glam::Vec3;
use rerecast::*;
use std::collections::{HashMap, HashSet};

pub struct CP {
    pub err: f32,
    pub edge: u16,
    pub flags: u8,
}
pub fn cp(r: &mut Rng) -> CP {
    CP {
        err: *r.pick(&[0.0f32, 0.5, 1.0, 1.1, 1.3, 1.3, 1.3, 1.5, 2.0, 3.0, 5.0, 8.0]),
        edge: *r.pick(&[0u16, 0, 1, 2, 5, 12, 12, 12, 20, 40, 90, 255, 256, 300, 1000, 65535]),
        flags: *r.pick(&[1u8, 1, 1, 1, 2, 3, 0]),
    }
}

/// A compact heightfield with regions: usually from the real watershed, sometimes relabelled
/// by the monitor (more regions, odd shapes) so that the contour stage sees partitions of its own.
pub fn chf_for_contours(cx: &mut Ctx, c: &Cfg) -> Result<(CompactHeightfield, String), V> {
    let dim = if cx.r.p(0.1) { 90 } else { 34 };
    let (mut ch, mut name) = chf_regions(&mut cx.r, c, dim)?;
    let r = &mut cx.r;
    let odd = if r.p(0.0006) {
        name = "winding".into();
        Some(winding_hf(r, c))
    } else if r.p(0.001) {
        name = "long, pillars".into();
        let (w, h) = (r.r(256, 400) as usize, r.r(4, 12) as usize);
        Some(if r.p(0.5) { pillars_hf(r, c, w, h) } else { pillars_hf(r, c, h, w) })
    } else if r.p(0.002) {
        name = "pillars".into();
        let (w, h) = (r.r(20, 90) as usize, r.r(20, 90) as usize);
        Some(pillars_hf(r, c, w, h))
    } else if r.p(0.0004) {
        name = "checkers".into();
        Some(checkers_hf(r, c, 120))
    } else if r.p(0.0006) {
        let (hf, n) = large_hf(r, c, true);
        name = n;
        Some(hf)
    } else if r.p(0.0002) {
        name = "sieve".into();
        Some(sieve_hf(r, c))
    } else {
        None
    };
    if let Some(hf) = &odd {
        ch = hf.to_real().into_compact(c.wh, c.wc).map_err(|e| v("compact-error", e))?;
        ch.build_distance_field();
        let b = if cx.r.p(0.3) { border_for(&ch, c).min(10) } else { 0 };
        ch.build_regions(b, c.min_area, c.merge_area).map_err(|e| v("regions-error", e))?;
    }
    if cx.r.p(if odd.is_some() { 0.7 } else { 0.2 }) && ch.max_region.bits() < 2000 && ch.max_region.bits() > 0 {
        // one region per (4-connected) area patch: keeps holes in the middle of a region
        let mut o = obs_c(&ch)?;
        let n = o.n();
        let mut reg = vec![0u16; n];
        let mut next = 1u16;
        for i in 0..n {
            if o.reg[i] & BORDER != 0 {
                reg[i] = o.reg[i];
            }
        }
        for i in 0..n {
            if o.area[i] == 0 || reg[i] != 0 || next > 30000 {
                continue;
            }
            let mut st = vec![i];
            reg[i] = next;
            // a region must not overlap itself vertically
            let mut cols: HashSet<(usize, usize)> = HashSet::from([(o.x[i], o.z[i])]);
            while let Some(k) = st.pop() {
                for d in 0..4 {
                    if let Some(j) = o.nb[k][d] {
                        if reg[j] == 0 && o.area[j] == o.area[i] && cols.insert((o.x[j], o.z[j])) {
                            reg[j] = next;
                            st.push(j);
                        }
                    }
                }
            }
            next += 1;
        }
        o.reg = reg;
        o.max_reg = next - 1;
        ch = o.to_real();
        name = format!("{name}+patches");
    }
    Ok((ch, name))
}
pub fn real_contours(ch: &CompactHeightfield, p: &CP) -> Result<ContourSet, V> {
    guard("build_contours", || ch.build_contours(p.err, p.edge, BuildContoursFlags::from_bits_retain(p.flags)))
}

/// K01: the raw outline of a region is exactly its boundary.
pub fn k01(cx: &mut Ctx) -> R {
    let c = cfg(&mut cx.r);
    let (ch, name) = chf_for_contours(cx, &c)?;
    let p = cp(&mut cx.r);
    let before = obs_c(&ch)?;
    let cs = Cs::observe(&real_contours(&ch, &p)?);
    ensure!(obs_c(&ch)? == before, "contours-side-effect", "build_contours changed the heightfield");
    let o = &before;
    let b = o.border as i32;
    ensure!(cs.w == o.w as i32 - 2 * b && cs.h == o.h as i32 - 2 * b && cs.border == b, "contour-set-size", "contour set {}x{} border {} from a {}x{} field with border {b}", cs.w, cs.h, cs.border, o.w, o.h);
    ensure!(cs.cs == o.cs && cs.ch == o.ch && cs.max_error == p.err, "contour-set-meta", "contour set metadata differs from its input");
    let pad = b as f32 * o.cs;
    let want = if b > 0 { (Vec3::new(o.bmin.x + pad, o.bmin.y, o.bmin.z + pad), Vec3::new(o.bmax.x - pad, o.bmax.y, o.bmax.z - pad)) } else { (o.bmin, o.bmax) };
    ensure!(cs.bmin == want.0 && cs.bmax == want.1, "contour-set-bounds", "bounds {:?}..{:?}, expected {:?}..{:?}", cs.bmin, cs.bmax, want.0, want.1);
    // boundary edges of every region, as grid edges with the neighbouring region
    let n = o.n();
    let mut edges: HashMap<u16, HashMap<(i32, i32, usize), usize>> = HashMap::new();
    let mut cells: HashMap<u16, i64> = HashMap::new();
    for i in 0..n {
        let r = o.reg[i];
        if r == 0 || r & BORDER != 0 {
            continue;
        }
        *cells.entry(r).or_default() += 1;
        let cut = |d: usize| o.nb[i][d].is_none_or(|j| o.reg[j] != r);
        // single isolated spans have no contour
        if (0..4).all(cut) {
            *cells.get_mut(&r).unwrap() -= 1;
            continue;
        }
        for d in 0..4 {
            if cut(d) {
                let (x, z) = (o.x[i] as i32 - b, o.z[i] as i32 - b);
                let q = match d {
                    0 => (x, z + 1),
                    1 => (x + 1, z + 1),
                    2 => (x + 1, z),
                    _ => (x, z),
                };
                *edges.entry(r).or_default().entry((q.0, q.1, d)).or_default() += 1;
            }
        }
    }
    // outlines of regions with one-way links need not close
    let mut oneway: HashSet<u16> = HashSet::new();
    for i in 0..n {
        for d in 0..4 {
            if let Some(j) = o.nb[i][d] {
                if o.nb[j][(d + 2) & 3] != Some(i) {
                    oneway.insert(o.reg[i]);
                    oneway.insert(o.reg[j]);
                }
            }
        }
    }
    let dir_of = |a: V3, q: V3| match (q[0] - a[0], q[2] - a[2]) {
        (0, 1) => Some(0usize),
        (1, 0) => Some(1),
        (0, -1) => Some(2),
        (-1, 0) => Some(3),
        _ => None,
    };
    let mut sum: HashMap<u16, i64> = HashMap::new();
    let mut total = 0;
    for (k, ct) in cs.conts.iter().enumerate() {
        ensure!(ct.reg != 0 && ct.reg & BORDER == 0, "contour-region", "contour {k} of region {:#x}", ct.reg);
        let m = ct.raw.len();
        ensure!(m >= 3, "raw-outline-short", "contour {k} has {m} raw vertices");
        if m > 20_000 {
            cx.add("outlines_over_20000_edges", 1);
        }
        // each raw vertex ends a boundary edge of the region; edges follow each other
        if oneway.contains(&ct.reg) {
            total += m;
            cx.add("outlines_with_one_way_links", 1);
            continue;
        }
        let e = edges.entry(ct.reg).or_default();
        for t in 0..m {
            let (v0, v1) = (ct.raw[(t + m - 1) % m].0, ct.raw[t].0);
            let Some(d) = dir_of(v0, v1) else { bail!("raw-outline-step", "contour {k} of region {}: raw vertices {v0:?} -> {v1:?} are not one grid edge apart", ct.reg) };
            // travelling along direction d, the edge belongs to the cell on its right: edges are
            // recorded by their end point and the side of the cell they are on
            let side = match d {
                0 => 0usize, // going +z: left side (-x) of the cell
                1 => 1,      // going +x: top side (+z)
                2 => 2,      // going -z: right side (+x)
                _ => 3,      // going -x: bottom side (-z)
            };
            match e.get_mut(&(v1[0], v1[2], side)) {
                Some(c) if *c > 0 => *c -= 1,
                _ => bail!("raw-outline-edge", "contour {k} of region {}: {v0:?} -> {v1:?} is not a boundary edge of the region (or is traced twice)", ct.reg),
            }
            total += 1;
        }
        let vs: Vec<V3> = ct.raw.iter().map(|q| q.0).collect();
        *sum.entry(ct.reg).or_default() += poly_area2(&vs);
    }
    // edges left over belong to outlines that degenerate when simplified
    let want = rm::contours_raw(o, p.err, p.edge, p.flags);
    let kept: usize = want.iter().map(|c| c.raw.len()).sum();
    let left: usize = edges.values().flat_map(|e| e.values()).sum();
    ensure!(kept == total, "raw-outline-missing", "{total} boundary edges traced, {left} not; the reference traces {kept} ({} contours, real {})", want.len(), cs.conts.len());
    for (r, e) in &edges {
        let complete = e.values().all(|c| *c == 0);
        if complete {
            let (s, n) = (sum.get(r).copied().unwrap_or(0), cells[r]);
            ensure!(s == -2 * n || s == 2 * n, "raw-outline-area", "outlines of region {r} enclose {}/2 cells, the region has {n}", s);
        }
    }
    // corner heights, neighbouring regions and flags: as many of each as the reference sees
    let key = |c: &[Cont]| {
        let mut m: Vec<(u16, u8, V3, u32)> = c.iter().flat_map(|c| c.raw.iter().map(move |v| (c.reg, c.area, v.0, v.1))).collect();
        m.sort();
        m
    };
    let (a, w) = (key(&cs.conts), key(&want));
    if a != w {
        let d = (0..a.len().max(w.len())).find(|&i| a.get(i) != w.get(i)).unwrap();
        bail!("raw-outline-data", "raw vertex (region, area, position, flags) {:?}, expected {:?} ({name})", a.get(d), w.get(d));
    }
    cx.add("spans", n);
    cx.add("raw_vertices", total);
    cx.add("contours", cs.conts.len());
    cx.add("degenerate_outline_edges", left);
    if cs.conts.len() > 1 {
        cx.seen(o.fingerprint() ^ mix(p.edge as u64));
        cx.sample(|| format!("{name} {}x{} border {b}: {} outlines, {total} raw vertices around {} regions", o.w, o.h, cs.conts.len(), cells.len()));
    }
    Ok(())
}

fn seg_d(p: V3, a: V3, b: V3) -> f64 {
    let (px, pz) = ((b[0] - a[0]) as f64, (b[2] - a[2]) as f64);
    let (dx, dz) = ((p[0] - a[0]) as f64, (p[2] - a[2]) as f64);
    let d = px * px + pz * pz;
    let t = if d > 0.0 { ((px * dx + pz * dz) / d).clamp(0.0, 1.0) } else { 0.0 };
    ((dx - t * px).powi(2) + (dz - t * pz).powi(2)).sqrt()
}
const RM: u32 = rm::REG_MASK;
const AB: u32 = rm::AREA_BORDER;
const BV: u32 = rm::BORDER_VERTEX;
fn canon(v: &[(V3, u32)]) -> Vec<(V3, u32)> {
    let n = v.len();
    (0..n).map(|k| (0..n).map(|i| v[(k + i) % n]).collect::<Vec<_>>()).min().unwrap_or_default()
}

/// K02: simplification keeps what it must and stays within its tolerances.
pub fn k02(cx: &mut Ctx) -> R {
    let c = cfg(&mut cx.r);
    let (ch, name) = chf_for_contours(cx, &c)?;
    let p = cp(&mut cx.r);
    let o = obs_c(&ch)?;
    let cs = Cs::observe(&real_contours(&ch, &p)?);
    let (want, _) = rm::contours(&o, p.err, p.edge, p.flags);
    // regions whose outlines were joined with holes are K03's
    let mut per: HashMap<u16, usize> = HashMap::new();
    want.conts.iter().for_each(|c| *per.entry(c.reg).or_default() += 1);
    let mut portals = 0;
    let mut dropped = 0;
    for ct in &cs.conts {
        if per.get(&ct.reg) != Some(&1) || ct.verts.is_empty() {
            continue;
        }
        let n = ct.raw.len();
        let m = ct.verts.len();
        dropped += n - m;
        // vertices are raw vertices, in outline order
        let mut at = vec![];
        {
            let mut best: Option<Vec<usize>> = None;
            for s in (0..n).filter(|&s| ct.raw[s].0 == ct.verts[0].0) {
                let mut k = s;
                let mut idx = vec![s];
                let mut steps = 0;
                for t in 1..m {
                    loop {
                        k = (k + 1) % n;
                        steps += 1;
                        if steps >= n || ct.raw[k].0 == ct.verts[t].0 {
                            break;
                        }
                    }
                    if steps >= n {
                        break;
                    }
                    idx.push(k);
                }
                if idx.len() == m {
                    best = Some(idx);
                    break;
                }
            }
            match best {
                Some(b) => at.extend(b),
                None => bail!("simplified-not-subsequence", "simplified contour of region {} is not a subsequence of its raw outline: {:?}", ct.reg, ct.verts),
            }
        }
        if cx.trace {
            println!("region {} raw {:?}\n verts {:?} at {at:?}", ct.reg, ct.raw, ct.verts);
        }
        let self_touching = {
            let mut s = HashSet::new();
            ct.raw.iter().any(|v| !s.insert((v.0[0], v.0[2])))
        };
        // where the neighbour (or the kind of edge) changes, a vertex is kept (unless the pair
        // collapsed to one place on the plane)
        let has = |q: V3| ct.verts.iter().any(|v| v.0[0] == q[0] && v.0[2] == q[2]);
        let connected = ct.raw.iter().any(|v| v.1 & RM != 0);
        for i in 0..n {
            let (a, b) = (ct.raw[i].1, ct.raw[(i + 1) % n].1);
            if !connected {
                break; // an outline without portals has no mandatory points
            }
            if a & RM != b & RM || a & AB != b & AB {
                portals += 1;
                ensure!(has(ct.raw[i].0), "portal-vertex-dropped", "region {}: the neighbour changes {:#x} -> {:#x} at {:?} but the simplified contour has no vertex there", ct.reg, a, b, ct.raw[i].0);
            }
        }
        for t in 0..m {
            let (i, j) = (at[t], at[(t + 1) % m]);
            let (a, b) = (ct.verts[t], ct.verts[(t + 1) % m]);
            let first = ct.raw[(i + 1) % n].1;
            let len = (j + n - i) % n;
            if !self_touching {
                // the edge carries its neighbour, the vertex its border flag
                ensure!(a.1 == (first & (RM | AB)) | (ct.raw[i].1 & BV), "edge-flags", "region {}: vertex {:?} carries {:#x}, its edge leads to {:#x}", ct.reg, a.0, a.1, first);
                let wall = first & RM == 0 || first & AB != 0;
                // (splitting long edges afterwards may move an edge away from the outline again)
                if wall && (p.edge == 0 || p.flags & 3 == 0) {
                    for k in 1..len {
                        let q = ct.raw[(i + k) % n].0;
                        let d = seg_d(q, a.0, b.0);
                        ensure!(d <= p.err as f64 * 1.0001 + 1e-3, "simplification-error", "region {}: outline point {q:?} is {d} off the edge {:?}-{:?}, max_error {}", ct.reg, a.0, b.0, p.err);
                    }
                }
                let split = (p.flags & 1 != 0 && first & RM == 0) || (p.flags & 2 != 0 && first & AB != 0);
                if p.edge > 0 && split && len > 1 {
                    let (dx, dz) = ((a.0[0] - b.0[0]) as i64, (a.0[2] - b.0[2]) as i64);
                    ensure!(dx * dx + dz * dz <= (p.edge as i64).pow(2), "edge-too-long", "region {}: edge {:?}-{:?} is longer than max_edge_len {} although {len} outline steps could be split", ct.reg, a.0, b.0, p.edge);
                }
            }
            // (of three points in one place, Recast removes one)
            let here = ct.raw.iter().filter(|q| (q.0[0], q.0[2]) == (a.0[0], a.0[2])).count();
            ensure!((a.0[0], a.0[2]) != (b.0[0], b.0[2]) || m < 3 || here > 2, "degenerate-edge", "region {}: degenerate edge at {:?}", ct.reg, a.0);
        }
    }
    // and it is the simplification Recast defines
    let key = |c: &Cs| {
        let mut k: Vec<_> = c.conts.iter().filter(|c| per.get(&c.reg) == Some(&1)).map(|c| (c.reg, c.area, canon(&c.verts))).collect();
        k.sort();
        k
    };
    let (a, w) = (key(&cs), key(&want));
    if a != w {
        let d = (0..a.len().max(w.len())).find(|&i| a.get(i) != w.get(i)).unwrap();
        bail!("simplification", "simplified contour (region, area, vertices) {:?}, expected {:?}; max_error {} max_edge_len {} flags {} ({name})", a.get(d), w.get(d), p.err, p.edge, p.flags);
    }
    cx.add("contours", cs.conts.len());
    cx.add("portal_points", portals);
    cx.add("raw_vertices_dropped", dropped);
    if dropped > 0 {
        cx.seen(o.fingerprint() ^ mix(p.edge as u64 ^ (p.err.to_bits() as u64) << 16));
        cx.sample(|| format!("{name} {}x{}: {} contours, {portals} portal points, {dropped} raw vertices dropped at max_error {} max_edge_len {} flags {}", o.w, o.h, cs.conts.len(), p.err, p.edge, p.flags));
    }
    Ok(())
}

/// K03: a region with holes becomes one outline.
pub fn k03(cx: &mut Ctx) -> R {
    let mut c = cfg(&mut cx.r);
    if cx.r.p(0.5) {
        c.min_area = c.min_area.min(4);
        c.merge_area = 2000;
    }
    let (ch, name) = chf_for_contours(cx, &c)?;
    let p = cp(&mut cx.r);
    let o = obs_c(&ch)?;
    let cs = Cs::observe(&real_contours(&ch, &p)?);
    let unmerged_in = rm::contours_raw(&o, p.err, p.edge, p.flags);
    let (want, info) = rm::contours(&o, p.err, p.edge, p.flags);
    let regs: HashSet<u16> = want.conts.iter().map(|c| c.reg).collect();
    let mut joined = 0;
    for r in regs {
        let raw: Vec<&Cont> = unmerged_in.iter().filter(|c| c.reg == r).collect();
        let holes: Vec<&&Cont> = raw.iter().filter(|c| rm::calc_area(&c.verts) < 0).collect();
        if holes.is_empty() {
            continue;
        }
        let got: Vec<&Cont> = cs.conts.iter().filter(|c| c.reg == r && !c.verts.is_empty()).collect();
        let ref_left = want.conts.iter().filter(|c| c.reg == r && !c.verts.is_empty()).count();
        if raw.len() - holes.len() == 1 && ref_left == 1 {
            ensure!(got.len() == 1, "holes-not-merged", "region {r} has {} holes and {} contours with vertices, one outline expected", holes.len(), got.len());
            let a: i64 = raw.iter().map(|c| poly_area2(&c.verts.iter().map(|v| v.0).collect::<Vec<_>>())).sum();
            let b = poly_area2(&got[0].verts.iter().map(|v| v.0).collect::<Vec<_>>());
            ensure!(a == b, "merged-area", "region {r}: the joined outline encloses {b}/2 cells, outline minus holes is {a}/2");
            let nv: usize = raw.iter().map(|c| c.verts.len()).sum();
            ensure!(got[0].verts.len() == nv + 2 * holes.len(), "merged-vertex-count", "region {r}: joined outline has {} vertices, {} expected", got[0].verts.len(), nv + 2 * holes.len());
            joined += holes.len();
        }
    }
    let key = |c: &Cs| {
        let mut k: Vec<_> = c.conts.iter().filter(|c| !c.verts.is_empty()).map(|c| (c.reg, c.area, canon(&c.verts))).collect();
        k.sort();
        k
    };
    let (a, w) = (key(&cs), key(&want));
    if a != w {
        let d = (0..a.len().max(w.len())).find(|&i| a.get(i) != w.get(i)).unwrap();
        bail!("hole-merging", "contour (region, area, vertices) {:?}, expected {:?} ({name}; {} holes, {} not mergeable)", a.get(d), w.get(d), info.holes, info.unmerged);
    }
    cx.add("contours", cs.conts.len());
    cx.add("holes", info.holes);
    cx.add("holes_joined", joined);
    cx.add("holes_reference_cannot_join", info.unmerged);
    if joined > 0 {
        cx.seen(o.fingerprint() ^ mix(p.edge as u64));
        cx.sample(|| format!("{name} {}x{}: {joined} holes joined into outlines", o.w, o.h));
    }
    Ok(())
}

// ------------------------------------------------------------------ polygon mesh
/// proper or improper self intersection, other than at shared end points
fn simple(v: &[V3]) -> bool {
    let n = v.len();
    let mut s = HashSet::new();
    if v.iter().any(|p| !s.insert((p[0], p[2]))) {
        return false;
    }
    for i in 0..n {
        for j in i + 1..n {
            let (a, b, c, d) = (v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]);
            if (i + 1) % n == j {
                if rm::between(a, b, d) || rm::between(c, d, a) {
                    return false;
                }
            } else if (j + 1) % n == i {
                if rm::between(c, d, b) || rm::between(a, b, c) {
                    return false;
                }
            } else if rm::intersect(a, b, c, d) {
                return false;
            }
        }
    }
    true
}
/// Contour sets drawn directly: disjoint star-shaped outlines or a grid of cells sharing edges.
/// Enough outlines to approach the limit on vertices, and to pass 65535 edges.
fn mosaic_contours(r: &mut Rng) -> (Cs, String) {
    let total = r.r(30_000, 65_900) as usize;
    let n = r.r(6, 22) as usize;
    let side = ((total / n) as f64).sqrt().ceil() as usize;
    let pitch = *r.pick(&[34i32, 36, 40]);
    let flat = r.p(0.5);
    let mut conts = vec![];
    let mut used = 0;
    for k in 0..side * side {
        let n = if r.p(0.2) { r.r(3, 12) as usize } else { n };
        if used + n > total {
            break;
        }
        let (ox, oz) = ((k % side) as i32 * pitch + 17, (k / side) as i32 * pitch + 17);
        let y = if flat { 5 } else { r.r(0, 30) as i32 };
        let v: Vec<V3> = (0..n)
            .map(|i| {
                let a = std::f64::consts::TAU * (i as f64 + 0.5) / n as f64;
                let d = if n == 4 { 24.0 } else { 17.0 };
                [(ox as f64 + d * a.sin()).round() as i32, y, (oz as f64 + d * a.cos()).round() as i32]
            })
            .collect();
        used += n;
        conts.push(Cont { verts: v.iter().map(|p| (*p, 0)).collect(), raw: vec![], reg: (k % 30_000) as u16 + 1, area: 63 });
    }
    let w = side as i32 * pitch;
    (Cs { conts, bmin: Vec3::ZERO, bmax: Vec3::new(w as f32 * 0.3, 10.0, w as f32 * 0.3), cs: 0.3, ch: 0.2, w, h: w, border: 0, max_error: 1.3 }, "mosaic".into())
}
fn synth_contours(r: &mut Rng) -> (Cs, String) {
    if r.p(0.0008) {
        return mosaic_contours(r);
    }
    let scale = *r.pick(&[1i32, 1, 2, 4, 16, 60, 200, 600, 1500]);
    let mut conts = vec![];
    let border = *r.pick(&[0i32, 0, 0, 2]);
    let name;
    if r.p(0.5) {
        name = "stars";
        let k = r.r(1, 4) as i32;
        let rad = (12 * scale).min(8000);
        for q in 0..k {
            let n = r.r(3, 24) as usize;
            let (ox, oz) = (rad + q * 2 * rad, rad + (r.r(0, 1) as i32) * 2 * rad);
            let mut ang: Vec<f64> = (0..n).map(|_| r.f() as f64 * std::f64::consts::TAU).collect();
            ang.sort_by(|a, b| a.total_cmp(b));
            let mut v: Vec<V3> = vec![];
            for a in ang {
                let d = rad as f64 * (0.25 + 0.7 * r.f() as f64);
                let p = [(ox as f64 + d * a.sin()).round() as i32, r.r(0, 40) as i32, (oz as f64 + d * a.cos()).round() as i32];
                v.push(p);
            }
            v.dedup_by(|a, b| a[0] == b[0] && a[2] == b[2]);
            if v.len() < 3 || !simple(&v) {
                continue;
            }
            if rm::calc_area(&v.iter().map(|p| (*p, 0)).collect::<Vec<_>>()) < 0 {
                v.reverse();
            }
            conts.push(Cont { verts: v.iter().map(|p| (*p, 0)).collect(), raw: vec![], reg: q as u16 + 1, area: *r.pick(&[63u8, 63, 1, 30]) });
        }
    } else {
        name = "cells";
        let (w, h) = (r.r(1, 7) as usize, r.r(1, 7) as usize);
        let mut xs = vec![0i32];
        let mut zs = vec![0i32];
        for _ in 0..w {
            xs.push(xs.last().unwrap() + scale * r.r(1, 6) as i32);
        }
        for _ in 0..h {
            zs.push(zs.last().unwrap() + scale * r.r(1, 6) as i32);
        }
        let y: Vec<i32> = (0..(w + 1) * (h + 1)).map(|_| r.r(0, 30) as i32).collect();
        let jig = r.p(0.5);
        let pts: Vec<V3> = (0..(w + 1) * (h + 1))
            .map(|k| {
                let (i, j) = (k % (w + 1), k / (w + 1));
                let jx = if jig && scale >= 4 && i > 0 && i < w { r.r(-(scale / 4) as i64, (scale / 4) as i64) as i32 } else { 0 };
                let jz = if jig && scale >= 4 && j > 0 && j < h { r.r(-(scale / 4) as i64, (scale / 4) as i64) as i32 } else { 0 };
                [xs[i] + jx, y[k], zs[j] + jz]
            })
            .collect();
        // vertices on the outline marked for removal sometimes
        let bv: Vec<bool> = (0..pts.len())
            .map(|k| {
                let (i, j) = (k % (w + 1), k / (w + 1));
                let corner = (i == 0 || i == w) && (j == 0 || j == h);
                (i == 0 || i == w || j == 0 || j == h) && !corner && r.p(0.5)
            })
            .collect();
        let mut reg = 1;
        for j in 0..h {
            for i in 0..w {
                if r.p(0.1) {
                    continue;
                }
                let ks = [i + j * (w + 1), i + (j + 1) * (w + 1), i + 1 + (j + 1) * (w + 1), i + 1 + j * (w + 1)];
                let mut v: Vec<(V3, u32)> = ks.iter().map(|&k| (pts[k], if bv[k] { BV } else { 0 })).collect();
                if rm::calc_area(&v) < 0 {
                    v.reverse();
                }
                let reg_ = if r.p(0.3) { reg } else { reg += 1; reg };
                // a little height noise below and above the weld tolerance
                for q in v.iter_mut() {
                    q.0[1] += *r.pick(&[0, 0, 0, 1, 2, 3]);
                }
                conts.push(Cont { verts: v, raw: vec![], reg: reg_, area: *r.pick(&[63u8, 63, 63, 7]) });
            }
        }
    }
    let (mut w, mut h) = (0, 0);
    for c in &conts {
        for v in &c.verts {
            w = w.max(v.0[0]);
            h = h.max(v.0[2]);
        }
    }
    (
        Cs { conts, bmin: Vec3::ZERO, bmax: Vec3::new(w as f32, 50.0, h as f32), cs: 0.25, ch: 0.125, w, h, border, max_error: 1.3 },
        format!("{name}x{scale}"),
    )
}

pub struct MeshCase {
    pub cs: Cs,
    pub nvp: u16,
    pub name: String,
    pub pm: Option<Pm>,
    pub want: Result<Pm, rm::MeshErr>,
    pub info: rm::MeshInfo,
}
/// Builds a mesh with the real code and with the reference.
fn mesh_case(cx: &mut Ctx, border_bias: bool) -> Result<Option<MeshCase>, V> {
    let nvp = *cx.r.pick(&[3u16, 4, 5, 6, 6, 6, 6, 8, 12]);
    let (real, name) = if cx.r.p(0.35) {
        let (c, n) = synth_contours(&mut cx.r);
        (c.to_real(), n)
    } else {
        let mut c = cfg(&mut cx.r);
        if border_bias && c.border == 0 {
            c.border = cx.r.r(1, 5) as u16;
        }
        let (ch, n) = chf_for_contours(cx, &c)?;
        let p = cp(&mut cx.r);
        (real_contours(&ch, &p)?, n)
    };
    let cs = Cs::observe(&real);
    if cs.conts.iter().map(|c| c.verts.len().pow(3)).sum::<usize>() > 700usize.pow(3) {
        // merging triangles takes cubic time, here and in the reference
        cx.add("outline_too_long_for_the_reference", 1);
        return Ok(None);
    }
    let err = real.max_error;
    let got = guard("into_polygon_mesh", || real.into_polygon_mesh(nvp).map_err(|e| format!("{e}")))?;
    let (want, info) = rm::polymesh(&cs, nvp as usize);
    let pm = match (got, &want) {
        (Ok(m), Ok(_)) => {
            ensure!(m.max_edge_error == err, "mesh-meta", "max_edge_error {} but the contours have {err}", m.max_edge_error);
            ensure!(m.max_vertices_per_polygon == nvp, "mesh-meta", "max_vertices_per_polygon {} asked {nvp}", m.max_vertices_per_polygon);
            ensure!(m.flags.iter().all(|f| *f == 0), "mesh-flags", "flags not zero");
            Some(obs_m(&m)?)
        }
        (Err(_), Err(_)) => None,
        (Ok(_), Err(e)) => bail!("mesh-accepted", "a mesh was built although the contours cannot be polygonised ({e:?})"),
        (Err(e), Ok(_)) => bail!("mesh-refused", "into_polygon_mesh failed: {e} ({name}, {} contours)", cs.conts.len()),
    };
    Ok(Some(MeshCase { cs, nvp, name, pm, want, info }))
}
fn coords(pm: &Pm, p: &Poly) -> Vec<V3> {
    p.v.iter().map(|v| pm.verts[*v]).collect()
}

/// P01: polygons are convex, consistently wound and made of contour vertices.
pub fn p01(cx: &mut Ctx) -> R {
    let Some(q) = mesh_case(cx, false)? else { return Ok(()) };
    let Some(pm) = &q.pm else {
        cx.add("rejected_by_both", 1);
        return Ok(());
    };
    let cs = &q.cs;
    ensure!(pm.bmin == cs.bmin && pm.bmax == cs.bmax && pm.cs == cs.cs && pm.ch == cs.ch && pm.border == cs.border, "mesh-meta", "mesh metadata differs from the contour set");
    // regions whose contours are simple polygons
    let mut ok: HashMap<(u16, u8), bool> = HashMap::new();
    let mut avail: HashSet<V3> = HashSet::new();
    for c in cs.conts.iter().filter(|c| c.verts.len() >= 3) {
        let v: Vec<V3> = c.verts.iter().map(|v| v.0).collect();
        let s = v.len() < 400 && simple(&v) && rm::calc_area(&c.verts) > 0;
        *ok.entry((c.reg, c.area)).or_insert(true) &= s;
        avail.extend(v);
    }
    // mesh vertices are contour vertices, no two welded ones left apart
    let mut col: HashMap<(i32, i32), Vec<i32>> = HashMap::new();
    for v in &pm.verts {
        ensure!(avail.contains(v), "vertex-not-from-contour", "mesh vertex {v:?} is no contour vertex");
        ensure!(v[0] >= 0 && v[2] >= 0 && v[0] <= cs.w && v[2] <= cs.h, "vertex-out-of-bounds", "mesh vertex {v:?} outside {}x{}", cs.w, cs.h);
        let e = col.entry((v[0], v[2])).or_default();
        for y in e.iter() {
            ensure!((y - v[1]).abs() > 2, "vertex-not-welded", "mesh vertices at ({},{}) with heights {y} and {} were not welded", v[0], v[2], v[1]);
        }
        e.push(v[1]);
    }
    let mut used = vec![false; pm.verts.len()];
    let mut big = 0;
    let reg_area: HashSet<(u16, u8)> = ok.keys().copied().collect();
    let (mut strict, mut touching) = (0, 0);
    for (i, p) in pm.polys.iter().enumerate() {
        ensure!(p.v.len() >= 3 && p.v.len() <= q.nvp as usize, "polygon-size", "polygon {i} has {} vertices, nvp {}", p.v.len(), q.nvp);
        big += (p.v.len() > 3) as usize;
        p.v.iter().for_each(|v| used[*v] = true);
        ensure!((p.reg == 0 && q.info.removed > 0) || reg_area.contains(&(p.reg, p.area)) || q.info.removed > 0, "polygon-region", "polygon {i} has region {} area {} which no contour has", p.reg, p.area);
        let c = coords(pm, p);
        let n = c.len();
        if q.info.removed == 0 && ok.get(&(p.reg, p.area)) == Some(&false) {
            // an outline that touches itself, as at the bridge to a hole: as convex as the published algorithm makes it
            let turns = (0..n).all(|k| rm::left(c[k], c[(k + 1) % n], c[(k + 2) % n]));
            touching += 1;
            if !turns {
                let r = q.want.as_ref().unwrap();
                let also = r.polys.iter().filter(|w| (w.reg, w.area) == (p.reg, p.area)).any(|w| {
                    let c = coords(r, w);
                    (0..c.len()).any(|k| !rm::left(c[k], c[(k + 1) % c.len()], c[(k + 2) % c.len()]))
                });
                ensure!(also, "bridged-polygon-not-convex", "polygon {i} of an outline with bridges is not strictly convex: {c:?} ({})", q.name);
                cx.add("self_touching_outline_not_convex", 1);
            }
        }
        if q.info.removed == 0 && ok.get(&(p.reg, p.area)) == Some(&true) {
            strict += 1;
            let s: HashSet<usize> = p.v.iter().copied().collect();
            ensure!(s.len() == n, "polygon-repeats-vertex", "polygon {i} repeats a vertex: {:?}", p.v);
            for k in 0..n {
                ensure!(rm::left(c[k], c[(k + 1) % n], c[(k + 2) % n]), "polygon-not-convex", "polygon {i} is not strictly convex at {:?}: {c:?} ({})", c[(k + 1) % n], q.name);
            }
        }
    }
    if q.info.removed == 0 && ok.values().all(|v| *v) {
        ensure!(used.iter().all(|u| *u), "vertex-unused", "mesh vertex used by no polygon");
    }
    cx.add("polygons", pm.polys.len());
    cx.add("polygons_checked_convex", strict);
    cx.add("polygons_of_bridged_outlines", touching);
    cx.add("merged_polygons", big);
    if strict > 1 {
        cx.seen(pm.fingerprint());
        cx.sample(|| format!("{}: {} polygons ({big} with more than 3 vertices, nvp {}) over {} vertices", q.name, pm.polys.len(), q.nvp, pm.verts.len()));
    }
    Ok(())
}

/// P02: polygons tile their region exactly.
pub fn p02(cx: &mut Ctx) -> R {
    let Some(q) = mesh_case(cx, false)? else { return Ok(()) };
    let Some(pm) = &q.pm else { return Ok(()) };
    if q.info.removed > 0 {
        // removing a vertex of a straight tile border does not change the area
        let mut flat = true;
        for c in &q.cs.conts {
            for v in &c.verts {
                if v.1 & BV != 0 {
                    flat &= v.0[0] == 0 || v.0[2] == 0 || v.0[0] == q.cs.w || v.0[2] == q.cs.h;
                }
            }
        }
        if !flat {
            cx.add("skipped_border_vertex_off_border", 1);
            return Ok(());
        }
    }
    let mut want: HashMap<u16, i64> = HashMap::new();
    let mut want_area: HashMap<u8, i64> = HashMap::new();
    for c in q.cs.conts.iter().filter(|c| c.verts.len() >= 3) {
        let a = poly_area2(&c.verts.iter().map(|v| v.0).collect::<Vec<_>>());
        *want.entry(c.reg).or_default() += a;
        *want_area.entry(c.area).or_default() += a;
    }
    let mut got: HashMap<u16, i64> = HashMap::new();
    let mut got_area: HashMap<u8, i64> = HashMap::new();
    for p in &pm.polys {
        let a = poly_area2(&coords(pm, p));
        *got.entry(p.reg).or_default() += a;
        *got_area.entry(p.area).or_default() += a;
    }
    // the reference tells whether its own (identical) input is tiled; degenerate triangles with a
    // repeated vertex carry no area
    let r = q.want.as_ref().unwrap();
    let ref_total: i64 = r.polys.iter().map(|p| poly_area2(&coords(r, p))).sum();
    let total: i64 = got.values().sum();
    let wtotal: i64 = want.values().sum();
    let mut beyond: HashSet<u8> = HashSet::new();
    let mut ref_got: HashMap<u16, i64> = HashMap::new();
    for p in &r.polys {
        *ref_got.entry(p.reg).or_default() += poly_area2(&coords(r, p));
    }
    let simple_reg = |reg: u16| q.cs.conts.iter().filter(|c| c.reg == reg).all(|c| simple(&c.verts.iter().map(|v| v.0).collect::<Vec<_>>()));
    if q.info.removed == 0 {
        for (reg, a) in &want {
            let g = got.get(reg).copied().unwrap_or(0);
            // an outline that touches itself may be beyond the published algorithm, too
            if g != *a && !simple_reg(*reg) && ref_got.get(reg).copied().unwrap_or(0) != *a {
                cx.add("self_touching_outline_not_tiled", 1);
                beyond.insert(q.cs.conts.iter().find(|c| c.reg == *reg).unwrap().area);
                continue;
            }
            ensure!(g == *a, "region-area", "polygons of region {reg} cover {g}/2 cells, its contours enclose {a}/2 ({})", q.name);
        }
        for (ar, a) in &want_area {
            let g = got_area.get(ar).copied().unwrap_or(0);
            ensure!(g == *a || beyond.contains(ar), "area-type-area", "polygons of area type {ar} cover {g}/2 cells, its contours enclose {a}/2 ({})", q.name);
        }
        ensure!(got.len() <= want.len(), "region-invented", "polygons of a region without contour");
    }
    if ref_total == wtotal {
        ensure!(total == wtotal, "total-area", "polygons cover {total}/2 cells, contours enclose {wtotal}/2 ({}; {} border vertices removed)", q.name, q.info.removed);
    } else {
        cx.add("reference_does_not_tile", 1);
    }
    // no two polygons of one simple contour region overlap: their areas already add up and each is convex
    cx.add("polygons", pm.polys.len());
    cx.add("regions", want.len());
    cx.add("border_vertices_removed", q.info.removed);
    if pm.polys.len() > 1 {
        cx.seen(pm.fingerprint());
        cx.sample(|| format!("{}: {} polygons tile {} regions, {}/2 cells, {} border vertices removed", q.name, pm.polys.len(), want.len(), total.abs(), q.info.removed));
    }
    Ok(())
}

/// P03: adjacency is symmetric and complete, portals lie on the tile border.
pub fn p03(cx: &mut Ctx) -> R {
    let Some(q) = mesh_case(cx, true)? else { return Ok(()) };
    let Some(pm) = &q.pm else { return Ok(()) };
    let mut use_: HashMap<(usize, usize), Vec<(usize, usize)>> = HashMap::new();
    for (i, p) in pm.polys.iter().enumerate() {
        let n = p.v.len();
        for j in 0..n {
            use_.entry((p.v[j], p.v[(j + 1) % n])).or_default().push((i, j));
        }
    }
    let (mut links, mut portals) = (0, 0);
    for (i, p) in pm.polys.iter().enumerate() {
        let n = p.v.len();
        for j in 0..n {
            let (a, b) = (p.v[j], p.v[(j + 1) % n]);
            let nb = p.nb[j];
            let (va, vb) = (pm.verts[a], pm.verts[b]);
            let opp = use_.get(&(b, a)).map(|v| v.as_slice()).unwrap_or(&[]);
            let same = &use_[&(a, b)];
            let on = |d: u16| match d {
                0 => va[0] == 0 && vb[0] == 0,
                1 => va[2] == q.cs.h && vb[2] == q.cs.h,
                2 => va[0] == q.cs.w && vb[0] == q.cs.w,
                _ => va[2] == 0 && vb[2] == 0,
            };
            if nb == NULL {
                if opp.len() == 1 && same.len() == 1 && a != b && opp[0].0 != i {
                    bail!("adjacency-missing", "edge {j} of polygon {i} ({va:?}-{vb:?}) is shared with polygon {} but not linked", opp[0].0);
                }
                if q.cs.border > 0 {
                    ensure!((0..4).all(|d| !on(d)), "portal-missing", "edge {j} of polygon {i} ({va:?}-{vb:?}) lies on the tile border ({}x{}) but is not a portal", q.cs.w, q.cs.h);
                }
            } else if nb & 0x8000 != 0 && pm.polys.len() <= 0x8000 {
                ensure!(q.cs.border > 0, "portal-without-border", "edge {j} of polygon {i} is a portal although there is no border");
                ensure!(nb & 0x7fff < 4 && on(nb & 3), "portal-side", "edge {j} of polygon {i} ({va:?}-{vb:?}) is marked as a portal on side {} of {}x{}", nb & 0x7fff, q.cs.w, q.cs.h);
                ensure!((0..(nb & 3)).all(|d| !on(d)), "portal-side", "edge {j} of polygon {i}: portal side {} but an earlier side matches", nb & 3);
                portals += 1;
            } else {
                let k = nb as usize;
                ensure!(k < pm.polys.len() && k != i, "adjacency-range", "edge {j} of polygon {i} leads to polygon {k} of {}", pm.polys.len());
                let o = &pm.polys[k];
                let m = o.v.len();
                let back = (0..m).any(|t| o.nb[t] == i as u16 && o.v[t] == b && o.v[(t + 1) % m] == a);
                ensure!(back, "adjacency-asymmetric", "edge {j} of polygon {i} ({va:?}-{vb:?}) leads to polygon {k}, which has no such edge back");
                links += 1;
            }
        }
    }
    cx.add("polygons", pm.polys.len());
    cx.add("directed_links", links);
    cx.add("portal_edges", portals);
    if links > 0 {
        cx.seen(pm.fingerprint());
        cx.sample(|| format!("{}: {} polygons, {links} directed links, {portals} portal edges (border {})", q.name, pm.polys.len(), q.cs.border));
    }
    Ok(())
}

fn canon_poly(pm: &Pm, p: &Poly) -> (u16, u8, Vec<(V3, String)>) {
    // each edge with what lies behind it: wall, portal side or the neighbour's vertices
    let n = p.v.len();
    let mut v: Vec<(V3, String)> = vec![];
    for j in 0..n {
        let nb = p.nb[j];
        let s = if nb == NULL {
            "wall".into()
        } else if (nb as usize) < pm.polys.len() {
            let mut c = coords(pm, &pm.polys[nb as usize]);
            c.sort();
            format!("{c:?}")
        } else {
            format!("portal{}", nb & 0x7fff)
        };
        v.push((pm.verts[p.v[j]], s));
    }
    let c = (0..n).map(|k| (0..n).map(|i| v[(k + i) % n].clone()).collect::<Vec<_>>()).min().unwrap();
    (p.reg, p.area, c)
}
/// the mesh as a multiset of polygons with their surroundings
pub fn canon_mesh(pm: &Pm) -> Vec<(u16, u8, Vec<(V3, String)>)> {
    let mut k: Vec<_> = pm.polys.iter().map(|p| canon_poly(pm, p)).collect();
    k.sort();
    k
}

/// P04: border vertices are removed, and only they.
pub fn p04(cx: &mut Ctx) -> R {
    let Some(q) = mesh_case(cx, true)? else { return Ok(()) };
    let Some(pm) = &q.pm else { return Ok(()) };
    let r = q.want.as_ref().unwrap();
    let set = |m: &Pm| {
        let mut v = m.verts.clone();
        v.sort();
        v
    };
    let (a, w) = (set(pm), set(r));
    if a != w {
        let extra: Vec<_> = a.iter().filter(|v| !w.contains(v)).take(4).collect();
        let miss: Vec<_> = w.iter().filter(|v| !a.contains(v)).take(4).collect();
        bail!("border-vertices", "{} vertices, expected {} ({} marked, {} removable): still there {extra:?}, gone {miss:?} ({})", a.len(), w.len(), q.info.removable_marked, q.info.removed, q.name);
    }
    // no unmarked vertex disappears
    let flagged: HashSet<(i32, i32)> = q.cs.conts.iter().flat_map(|c| c.verts.iter()).filter(|v| v.1 & BV != 0).map(|v| (v.0[0], v.0[2])).collect();
    let have: HashSet<(i32, i32)> = pm.verts.iter().map(|v| (v[0], v[2])).collect();
    for c in q.cs.conts.iter().filter(|c| c.verts.len() >= 3) {
        for v in &c.verts {
            let k = (v.0[0], v.0[2]);
            ensure!(have.contains(&k) || flagged.contains(&k), "vertex-lost", "contour vertex {:?} of region {} is missing from the mesh", v.0, c.reg);
        }
    }
    let (a, w) = (canon_mesh(pm), canon_mesh(r));
    if a != w {
        let d = (0..a.len().max(w.len())).find(|&i| a.get(i) != w.get(i)).unwrap();
        bail!("mesh-after-removal", "polygon (region, area, vertices and neighbours) {:?}, expected {:?} ({}; {} of {} marked vertices removed)", a.get(d), w.get(d), q.name, q.info.removed, q.info.removable_marked);
    }
    cx.add("polygons", pm.polys.len());
    cx.add("marked_vertices", q.info.removable_marked);
    cx.add("removed_vertices", q.info.removed);
    if q.info.removed > 0 {
        cx.seen(pm.fingerprint());
        cx.sample(|| format!("{}: {} of {} marked vertices removed, {} polygons", q.name, q.info.removed, q.info.removable_marked, pm.polys.len()));
    }
    Ok(())
}
