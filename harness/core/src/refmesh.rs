//! Independent reference model of contour tracing, simplification, hole merging and polygonisation
//! (written from the published Recast algorithm).
use crate::model::*;
use crate::refvox::BORDER;

pub const REG_MASK: u32 = 0xffff;
pub const BORDER_VERTEX: u32 = 0x10000;
pub const AREA_BORDER: u32 = 0x20000;

pub fn contour_edge_flags(c: &Ch) -> Vec<u8> {
    (0..c.n())
        .map(|i| {
            if c.reg[i] == 0 || c.reg[i] & BORDER != 0 {
                return 0;
            }
            let mut f = 0u8;
            for d in 0..4 {
                let r = c.nb[i][d].map(|a| c.reg[a]).unwrap_or(0);
                if r != c.reg[i] {
                    f |= 1 << d;
                }
            }
            f
        })
        .collect()
}

pub fn corner(c: &Ch, i: usize, d: usize) -> (u16, bool) {
    let dp = (d + 1) & 3;
    let mut h = c.y[i];
    let code = |k: usize| c.reg[k] as u32 | (c.area[k] as u32) << 16;
    let mut r = [code(i), 0, 0, 0];
    if let Some(a) = c.nb[i][d] {
        h = h.max(c.y[a]);
        r[1] = code(a);
        if let Some(b) = c.nb[a][dp] {
            h = h.max(c.y[b]);
            r[2] = code(b);
        }
    }
    if let Some(a) = c.nb[i][dp] {
        h = h.max(c.y[a]);
        r[3] = code(a);
        if let Some(b) = c.nb[a][d] {
            h = h.max(c.y[b]);
            r[2] = code(b);
        }
    }
    let bit = BORDER as u32;
    let mut bv = false;
    for j in 0..4 {
        let (p, q, s, t) = (r[j], r[(j + 1) & 3], r[(j + 2) & 3], r[(j + 3) & 3]);
        if p & bit != 0 && p == q && (s | t) & bit == 0 && (s >> 16) == (t >> 16) && p != 0 && q != 0 && s != 0 && t != 0 {
            bv = true;
            break;
        }
    }
    (h, bv)
}

fn walk(c: &Ch, mut i: usize, flags: &mut [u8]) -> Vec<(V3, u32)> {
    let mut out = vec![];
    let mut d = (0..4).find(|d| flags[i] & (1 << d) != 0).unwrap();
    let (si, sd) = (i, d);
    for _ in 0..40_000.max(4 * c.n()) {
        if flags[i] & (1 << d) != 0 {
            let (h, bv) = corner(c, i, d);
            let (mut px, mut pz) = (c.x[i] as i32, c.z[i] as i32);
            match d {
                0 => pz += 1,
                1 => {
                    px += 1;
                    pz += 1
                }
                2 => px += 1,
                _ => {}
            }
            let mut r = 0u32;
            if let Some(a) = c.nb[i][d] {
                r = c.reg[a] as u32;
                if c.area[a] != c.area[si] {
                    r |= AREA_BORDER;
                }
            }
            if bv {
                r |= BORDER_VERTEX;
            }
            out.push(([px, h as i32, pz], r));
            flags[i] &= !(1 << d);
            d = (d + 1) & 3;
        } else {
            let Some(a) = c.nb[i][d] else { return out };
            i = a;
            d = (d + 3) & 3;
        }
        if i == si && d == sd {
            break;
        }
    }
    out
}

fn seg_dist(x: i32, z: i32, px: i32, pz: i32, qx: i32, qz: i32) -> f32 {
    let pqx = (qx - px) as f32;
    let pqz = (qz - pz) as f32;
    let mut dx = (x - px) as f32;
    let mut dz = (z - pz) as f32;
    let d = pqx * pqx + pqz * pqz;
    let mut t = pqx * dx + pqz * dz;
    if d > 0.0 {
        t /= d;
    }
    t = t.clamp(0.0, 1.0);
    dx = px as f32 + t * pqx - x as f32;
    dz = pz as f32 + t * pqz - z as f32;
    dx * dx + dz * dz
}

pub fn simplify(points: &[(V3, u32)], max_error: f32, max_edge: u16, flags: u8) -> Vec<(V3, u32)> {
    let n = points.len();
    let mut s: Vec<(V3, usize)> = vec![];
    if points.iter().any(|p| p.1 & REG_MASK != 0) {
        for i in 0..n {
            let a = points[i].1;
            let b = points[(i + 1) % n].1;
            if a & REG_MASK != b & REG_MASK || a & AREA_BORDER != b & AREA_BORDER {
                s.push((points[i].0, i));
            }
        }
    }
    if s.is_empty() {
        let (mut ll, mut ur) = (0, 0);
        for i in 0..n {
            let p = points[i].0;
            let l = points[ll].0;
            let u = points[ur].0;
            if p[0] < l[0] || (p[0] == l[0] && p[2] < l[2]) {
                ll = i;
            }
            if p[0] > u[0] || (p[0] == u[0] && p[2] > u[2]) {
                ur = i;
            }
        }
        s.push((points[ll].0, ll));
        s.push((points[ur].0, ur));
    }
    let mut i = 0;
    while i < s.len() {
        let (a, ai) = s[i];
        let (b, bi) = s[(i + 1) % s.len()];
        let fwd = b[0] > a[0] || (b[0] == a[0] && b[2] > a[2]);
        let (inc, mut ci, end, p, q) = if fwd { (1, (ai + 1) % n, bi, a, b) } else { (n - 1, (bi + n - 1) % n, ai, b, a) };
        let mut best = 0.0f32;
        let mut bi_ = None;
        let r = points[ci].1;
        if r & REG_MASK == 0 || r & AREA_BORDER != 0 {
            while ci != end {
                let t = points[ci].0;
                let d = seg_dist(t[0], t[2], p[0], p[2], q[0], q[2]);
                if d > best {
                    best = d;
                    bi_ = Some(ci);
                }
                ci = (ci + inc) % n;
            }
        }
        match bi_ {
            Some(k) if best > max_error * max_error => s.insert(i + 1, (points[k].0, k)),
            _ => i += 1,
        }
    }
    if max_edge > 0 && flags & 3 != 0 {
        let mut i = 0;
        while i < s.len() {
            let (a, ai) = s[i];
            let (b, bi) = s[(i + 1) % s.len()];
            let r = points[(ai + 1) % n].1;
            let tess = (flags & 1 != 0 && r & REG_MASK == 0) || (flags & 2 != 0 && r & AREA_BORDER != 0);
            let mut at = None;
            if tess {
                let dx = (b[0] - a[0]) as i64;
                let dz = (b[2] - a[2]) as i64;
                if dx * dx + dz * dz > max_edge as i64 * max_edge as i64 {
                    let k = if bi < ai { bi + n - ai } else { bi - ai };
                    if k > 1 {
                        at = Some(if b[0] > a[0] || (b[0] == a[0] && b[2] > a[2]) { (ai + k / 2) % n } else { (ai + (k + 1) / 2) % n });
                    }
                }
            }
            match at {
                Some(k) => s.insert(i + 1, (points[k].0, k)),
                None => i += 1,
            }
        }
    }
    s.iter().map(|(p, i)| (*p, (points[(i + 1) % n].1 & (REG_MASK | AREA_BORDER)) | (points[*i].1 & BORDER_VERTEX))).collect()
}

fn remove_degenerate(s: &mut Vec<(V3, u32)>) {
    let mut i = 0;
    while i < s.len() {
        let ni = (i + 1) % s.len();
        if s[i].0[0] == s[ni].0[0] && s[i].0[2] == s[ni].0[2] {
            s.remove(i);
        }
        i += 1;
    }
}

pub fn calc_area(v: &[(V3, u32)]) -> i64 {
    let n = v.len();
    let mut a = 0i64;
    for i in 0..n {
        let vi = v[i].0;
        let vj = v[(i + n - 1) % n].0;
        a += vi[0] as i64 * vj[2] as i64 - vj[0] as i64 * vi[2] as i64;
    }
    (a + 1) / 2
}

pub fn left(a: V3, b: V3, c: V3) -> bool {
    area2(a, b, c) < 0
}
pub fn left_on(a: V3, b: V3, c: V3) -> bool {
    area2(a, b, c) <= 0
}
pub fn collinear(a: V3, b: V3, c: V3) -> bool {
    area2(a, b, c) == 0
}
pub fn intersect_prop(a: V3, b: V3, c: V3, d: V3) -> bool {
    if collinear(a, b, c) || collinear(a, b, d) || collinear(c, d, a) || collinear(c, d, b) {
        return false;
    }
    (left(a, b, c) ^ left(a, b, d)) && (left(c, d, a) ^ left(c, d, b))
}
pub fn between(a: V3, b: V3, c: V3) -> bool {
    if !collinear(a, b, c) {
        return false;
    }
    if a[0] != b[0] {
        (a[0] <= c[0] && c[0] <= b[0]) || (a[0] >= c[0] && c[0] >= b[0])
    } else {
        (a[2] <= c[2] && c[2] <= b[2]) || (a[2] >= c[2] && c[2] >= b[2])
    }
}
pub fn intersect(a: V3, b: V3, c: V3, d: V3) -> bool {
    intersect_prop(a, b, c, d) || between(a, b, c) || between(a, b, d) || between(c, d, a) || between(c, d, b)
}
fn veq(a: V3, b: V3) -> bool {
    a[0] == b[0] && a[2] == b[2]
}

fn seg_hits(d0: V3, d1: V3, skip: Option<usize>, v: &[(V3, u32)]) -> bool {
    let n = v.len();
    for k in 0..n {
        let k1 = (k + 1) % n;
        if skip == Some(k) || skip == Some(k1) {
            continue;
        }
        let (p0, p1) = (v[k].0, v[k1].0);
        if veq(d0, p0) || veq(d1, p0) || veq(d0, p1) || veq(d1, p1) {
            continue;
        }
        if intersect(d0, d1, p0, p1) {
            return true;
        }
    }
    false
}
fn cone_pt(i: usize, v: &[(V3, u32)], pj: V3) -> bool {
    let n = v.len();
    let pi = v[i].0;
    let p1 = v[(i + 1) % n].0;
    let p0 = v[(i + n - 1) % n].0;
    if left_on(p0, pi, p1) {
        left(pi, pj, p0) && left(pj, pi, p1)
    } else {
        !(left_on(pi, pj, p1) && left_on(pj, pi, p0))
    }
}

/// Merges hole contours (wound backwards) into the outline of their region.
/// Returns (holes found, holes that could not be merged).
pub fn merge_holes(conts: &mut [Cont]) -> (usize, usize) {
    let wind: Vec<bool> = conts.iter().map(|c| calc_area(&c.verts) < 0).collect();
    let nholes = wind.iter().filter(|h| **h).count();
    let mut failed = 0;
    if nholes == 0 {
        return (0, 0);
    }
    let mut regs: Vec<u16> = conts.iter().map(|c| c.reg).collect();
    regs.sort();
    regs.dedup();
    for r in regs {
        let outline = (0..conts.len()).filter(|&i| conts[i].reg == r && !wind[i]).last();
        let mut holes: Vec<usize> = (0..conts.len()).filter(|&i| conts[i].reg == r && wind[i]).collect();
        if holes.is_empty() {
            continue;
        }
        let Some(o) = outline else {
            failed += holes.len();
            continue;
        };
        let leftmost = |c: &Cont| {
            let mut b = 0;
            for i in 1..c.verts.len() {
                let (p, q) = (c.verts[i].0, c.verts[b].0);
                if p[0] < q[0] || (p[0] == q[0] && p[2] < q[2]) {
                    b = i;
                }
            }
            b
        };
        holes.sort_by_key(|&h| {
            let c = &conts[h];
            let p = c.verts[leftmost(c)].0;
            (p[0], p[2])
        });
        for hi in 0..holes.len() {
            let h = holes[hi];
            let mut best = leftmost(&conts[h]);
            let mut found = None;
            for _ in 0..conts[h].verts.len() {
                let corner = conts[h].verts[best].0;
                let ol = &conts[o].verts;
                let mut diags: Vec<(i64, usize)> = (0..ol.len())
                    .filter(|&j| cone_pt(j, ol, corner))
                    .map(|j| {
                        let dx = (ol[j].0[0] - corner[0]) as i64;
                        let dz = (ol[j].0[2] - corner[2]) as i64;
                        (dx * dx + dz * dz, j)
                    })
                    .collect();
                diags.sort_by_key(|d| d.0);
                for (_, j) in diags {
                    let pt = ol[j].0;
                    let mut hit = seg_hits(pt, corner, Some(j), ol);
                    for &k in &holes[hi..] {
                        if hit {
                            break;
                        }
                        hit |= seg_hits(pt, corner, None, &conts[k].verts);
                    }
                    if !hit {
                        found = Some(j);
                        break;
                    }
                }
                if found.is_some() {
                    break;
                }
                best = (best + 1) % conts[h].verts.len();
            }
            let Some(ia) = found else {
                failed += 1;
                continue;
            };
            let a = conts[o].verts.clone();
            let b = std::mem::take(&mut conts[h].verts);
            let mut v = Vec::with_capacity(a.len() + b.len() + 2);
            for k in 0..=a.len() {
                v.push(a[(ia + k) % a.len()]);
            }
            for k in 0..=b.len() {
                v.push(b[(best + k) % b.len()]);
            }
            conts[o].verts = v;
        }
    }
    (nholes, failed)
}

/// All contours before hole merging.
pub fn contours_raw(c: &Ch, max_error: f32, max_edge: u16, flags: u8) -> Vec<Cont> {
    let mut fl = contour_edge_flags(c);
    let mut out = vec![];
    for i in 0..c.n() {
        if fl[i] == 0 || fl[i] == 15 {
            fl[i] = 0;
            continue;
        }
        let reg = c.reg[i];
        if reg == 0 || reg & BORDER != 0 {
            continue;
        }
        let mut raw = walk(c, i, &mut fl);
        let mut s = simplify(&raw, max_error, max_edge, flags);
        remove_degenerate(&mut s);
        if s.len() >= 3 {
            let b = c.border as i32;
            for (p, _) in s.iter_mut().chain(raw.iter_mut()) {
                p[0] -= b;
                p[2] -= b;
            }
            out.push(Cont { verts: s, raw, reg, area: c.area[i] });
        }
    }
    out
}

pub struct ContourInfo {
    pub holes: usize,
    pub unmerged: usize,
}
pub fn contours(c: &Ch, max_error: f32, max_edge: u16, flags: u8) -> (Cs, ContourInfo) {
    let mut conts = contours_raw(c, max_error, max_edge, flags);
    let (holes, unmerged) = merge_holes(&mut conts);
    let pad = c.border as f32 * c.cs;
    let mut bmin = c.bmin;
    let mut bmax = c.bmax;
    if c.border > 0 {
        bmin.x += pad;
        bmin.z += pad;
        bmax.x -= pad;
        bmax.z -= pad;
    }
    (
        Cs {
            conts,
            bmin,
            bmax,
            cs: c.cs,
            ch: c.ch,
            w: c.w as i32 - 2 * c.border as i32,
            h: c.h as i32 - 2 * c.border as i32,
            border: c.border as i32,
            max_error,
        },
        ContourInfo { holes, unmerged },
    )
}

// ------------------------------------------------------------------ polygon mesh
fn in_cone(i: usize, j: usize, v: &[V3], loose: bool) -> bool {
    let n = v.len();
    let pi = v[i];
    let pj = v[j];
    let p1 = v[(i + 1) % n];
    let p0 = v[(i + n - 1) % n];
    if left_on(p0, pi, p1) {
        if loose { left_on(pi, pj, p0) && left_on(pj, pi, p1) } else { left(pi, pj, p0) && left(pj, pi, p1) }
    } else {
        !(left_on(pi, pj, p1) && left_on(pj, pi, p0))
    }
}
fn diagonalie(i: usize, j: usize, v: &[V3], loose: bool) -> bool {
    let n = v.len();
    let (d0, d1) = (v[i], v[j]);
    for k in 0..n {
        let k1 = (k + 1) % n;
        if k == i || k1 == i || k == j || k1 == j {
            continue;
        }
        let (p0, p1) = (v[k], v[k1]);
        if veq(d0, p0) || veq(d1, p0) || veq(d0, p1) || veq(d1, p1) {
            continue;
        }
        if if loose { intersect_prop(d0, d1, p0, p1) } else { intersect(d0, d1, p0, p1) } {
            return false;
        }
    }
    true
}
fn diagonal(i: usize, j: usize, v: &[V3], loose: bool) -> bool {
    in_cone(i, j, v, loose) && diagonalie(i, j, v, loose)
}

/// Ear clipping. None when no diagonal can be found.
pub fn triangulate(verts: &[V3]) -> Option<Vec<[usize; 3]>> {
    let mut idx: Vec<usize> = (0..verts.len()).collect();
    let mut v: Vec<V3> = verts.to_vec();
    let n0 = idx.len();
    let mut can: Vec<bool> = vec![false; n0];
    for i in 0..n0 {
        let i2 = (i + 2) % n0;
        if diagonal(i, i2, &v, false) {
            can[(i + 1) % n0] = true;
        }
    }
    let mut tris = vec![];
    let len = |a: V3, b: V3| {
        let dx = (b[0] - a[0]) as i64;
        let dz = (b[2] - a[2]) as i64;
        dx * dx + dz * dz
    };
    while idx.len() > 3 {
        let n = idx.len();
        let mut best: Option<(i64, usize)> = None;
        for i in 0..n {
            let i1 = (i + 1) % n;
            if can[i1] {
                let l = len(v[i], v[(i1 + 1) % n]);
                if best.is_none_or(|b| l < b.0) {
                    best = Some((l, i));
                }
            }
        }
        if best.is_none() {
            for i in 0..n {
                let i2 = (i + 2) % n;
                if diagonal(i, i2, &v, true) {
                    let l = len(v[i], v[(i2 + 1) % n]);
                    if best.is_none_or(|b| l < b.0) {
                        best = Some((l, i));
                    }
                }
            }
        }
        let (_, i) = best?;
        let i1 = (i + 1) % n;
        let i2 = (i1 + 1) % n;
        tris.push([idx[i], idx[i1], idx[i2]]);
        idx.remove(i1);
        v.remove(i1);
        can.remove(i1);
        let n = n - 1;
        let i1 = if i1 >= n { 0 } else { i1 };
        let i = (i1 + n - 1) % n;
        can[i] = diagonal((i + n - 1) % n, i1, &v, false);
        can[i1] = diagonal(i, (i1 + 1) % n, &v, false);
    }
    tris.push([idx[0], idx[1], idx[2]]);
    Some(tris)
}

fn merge_value(pa: &[usize], pb: &[usize], verts: &[V3], nvp: usize) -> Option<(i64, usize, usize)> {
    let (na, nb) = (pa.len(), pb.len());
    if na + nb - 2 > nvp {
        return None;
    }
    let (mut ea, mut eb) = (None, None);
    for i in 0..na {
        let (a0, a1) = (pa[i], pa[(i + 1) % na]);
        let (a0, a1) = (a0.min(a1), a0.max(a1));
        for j in 0..nb {
            let (b0, b1) = (pb[j], pb[(j + 1) % nb]);
            let (b0, b1) = (b0.min(b1), b0.max(b1));
            if a0 == b0 && a1 == b1 {
                ea = Some(i);
                eb = Some(j);
                break;
            }
        }
    }
    let (ea, eb) = (ea?, eb?);
    if !left(verts[pa[(ea + na - 1) % na]], verts[pa[ea]], verts[pb[(eb + 2) % nb]]) {
        return None;
    }
    if !left(verts[pb[(eb + nb - 1) % nb]], verts[pb[eb]], verts[pa[(ea + 2) % na]]) {
        return None;
    }
    let (p, q) = (verts[pa[ea]], verts[pa[(ea + 1) % na]]);
    let dx = (p[0] - q[0]) as i64;
    let dz = (p[2] - q[2]) as i64;
    Some((dx * dx + dz * dz, ea, eb))
}

fn merge_polys(polys: &mut Vec<Vec<usize>>, verts: &[V3], nvp: usize, mut on_merge: impl FnMut(usize, usize, usize)) {
    if nvp <= 3 {
        return;
    }
    loop {
        let mut best = (0i64, 0, 0, 0, 0);
        for j in 0..polys.len().saturating_sub(1) {
            for k in j + 1..polys.len() {
                if let Some((v, ea, eb)) = merge_value(&polys[j], &polys[k], verts, nvp) {
                    if v > best.0 {
                        best = (v, j, k, ea, eb);
                    }
                }
            }
        }
        if best.0 <= 0 {
            break;
        }
        let (_, j, k, ea, eb) = best;
        let (pa, pb) = (polys[j].clone(), polys[k].clone());
        let mut m = vec![];
        for i in 0..pa.len() - 1 {
            m.push(pa[(ea + 1 + i) % pa.len()]);
        }
        for i in 0..pb.len() - 1 {
            m.push(pb[(eb + 1 + i) % pb.len()]);
        }
        polys[j] = m;
        let last = polys.len() - 1;
        on_merge(j, k, last);
        polys.swap_remove(k);
    }
}

#[derive(Clone)]
struct WPoly {
    v: Vec<usize>,
    reg: u16,
    area: u8,
}

fn can_remove(polys: &[WPoly], rem: usize) -> bool {
    let mut remaining: i64 = 0;
    for p in polys {
        let k = p.v.iter().filter(|v| **v == rem).count() as i64;
        if k > 0 {
            remaining += p.v.len() as i64 - (k + 1);
        }
    }
    if remaining <= 2 {
        return false;
    }
    let mut edges: Vec<(usize, usize)> = vec![]; // (other, count)
    for p in polys {
        let n = p.v.len();
        for j in 0..n {
            let (a, b) = (p.v[j], p.v[(j + n - 1) % n]);
            if a == rem || b == rem {
                let o = if b == rem { a } else { b };
                match edges.iter_mut().find(|e| e.0 == o) {
                    Some(e) => e.1 += 1,
                    None => edges.push((o, 1)),
                }
            }
        }
    }
    edges.iter().filter(|e| e.1 < 2).count() <= 2
}

fn remove_vertex(polys: &mut Vec<WPoly>, verts: &mut Vec<V3>, rem: usize, max_tris: usize, nvp: usize) -> Result<(), MeshErr> {
    let mut edges: Vec<(usize, usize, u16, u8)> = vec![];
    let mut i = 0;
    while i < polys.len() {
        if !polys[i].v.contains(&rem) {
            i += 1;
            continue;
        }
        let p = polys[i].clone();
        let n = p.v.len();
        for j in 0..n {
            let k = (j + n - 1) % n;
            if p.v[j] != rem && p.v[k] != rem {
                edges.push((p.v[k], p.v[j], p.reg, p.area));
            }
        }
        polys.swap_remove(i);
    }
    verts.remove(rem);
    for p in polys.iter_mut() {
        for v in p.v.iter_mut() {
            if *v > rem {
                *v -= 1;
            }
        }
    }
    for e in edges.iter_mut() {
        if e.0 > rem {
            e.0 -= 1;
        }
        if e.1 > rem {
            e.1 -= 1;
        }
    }
    if edges.is_empty() {
        return Ok(());
    }
    let mut hole = std::collections::VecDeque::new();
    hole.push_back((edges[0].0, edges[0].2, edges[0].3));
    while !edges.is_empty() {
        let mut matched = false;
        let mut i = 0;
        while i < edges.len() {
            let (ea, eb, r, a) = edges[i];
            let mut add = false;
            if hole.front().unwrap().0 == eb {
                hole.push_front((ea, r, a));
                add = true;
            } else if hole.back().unwrap().0 == ea {
                hole.push_back((eb, r, a));
                add = true;
            }
            if add {
                edges.swap_remove(i);
                matched = true;
            } else {
                i += 1;
            }
        }
        if !matched {
            break;
        }
    }
    let hole: Vec<(usize, u16, u8)> = hole.into_iter().collect();
    let tv: Vec<V3> = hole.iter().map(|h| verts[h.0]).collect();
    if tv.len() < 3 {
        return Ok(()); // nothing to fill
    }
    let tris = triangulate(&tv).ok_or(MeshErr::HoleTriangulation)?;
    let mut ps: Vec<Vec<usize>> = vec![];
    let mut meta: Vec<(u16, u8)> = vec![];
    for t in tris {
        if t[0] != t[1] && t[0] != t[2] && t[1] != t[2] {
            ps.push(t.iter().map(|k| hole[*k].0).collect());
            let (a, b, c) = (hole[t[0]].1, hole[t[1]].1, hole[t[2]].1);
            meta.push((if a != b || b != c { 0 } else { a }, hole[t[0]].2));
        }
    }
    merge_polys(&mut ps, verts, nvp, |j, k, _last| {
        if meta[j].0 != meta[k].0 {
            meta[j].0 = 0;
        }
        meta.swap_remove(k);
    });
    for (p, m) in ps.into_iter().zip(meta) {
        if polys.len() >= max_tris {
            break;
        }
        polys.push(WPoly { v: p, reg: m.0, area: m.1 });
    }
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum MeshErr {
    TooManyVerts,
    Triangulation,
    HoleTriangulation,
}
#[derive(Default, Debug, Clone)]
pub struct MeshInfo {
    pub removable_marked: usize,
    pub removed: usize,
}

pub fn polymesh(cs: &Cs, nvp: usize) -> (Result<Pm, MeshErr>, MeshInfo) {
    let mut info = MeshInfo::default();
    let r = polymesh_(cs, nvp, &mut info);
    (r, info)
}
fn polymesh_(cs: &Cs, nvp: usize, info: &mut MeshInfo) -> Result<Pm, MeshErr> {
    let mut verts: Vec<V3> = vec![];
    let mut flagged: Vec<bool> = vec![];
    let mut polys: Vec<WPoly> = vec![];
    let conts: Vec<&Cont> = cs.conts.iter().filter(|c| c.verts.len() >= 3).collect();
    let total: usize = conts.iter().map(|c| c.verts.len()).sum();
    if total > 65535 {
        return Err(MeshErr::TooManyVerts);
    }
    let max_tris: usize = conts.iter().map(|c| c.verts.len() - 2).sum();
    // upstream hashes columns and prepends: newest match first
    let mut cols: std::collections::HashMap<(i32, i32), Vec<usize>> = Default::default();
    for c in conts {
        let tv: Vec<V3> = c.verts.iter().map(|v| v.0).collect();
        let tris = triangulate(&tv).ok_or(MeshErr::Triangulation)?;
        let mut idx = vec![];
        for (v, r) in &c.verts {
            let e = cols.entry((v[0], v[2])).or_default();
            let k = match e.iter().rev().find(|k| (verts[**k][1] - v[1]).abs() <= 2) {
                Some(k) => *k,
                None => {
                    verts.push(*v);
                    flagged.push(false);
                    e.push(verts.len() - 1);
                    verts.len() - 1
                }
            };
            if r & BORDER_VERTEX != 0 {
                flagged[k] = true;
            }
            idx.push(k);
        }
        let mut ps: Vec<Vec<usize>> = tris
            .iter()
            .filter(|t| t[0] != t[1] && t[0] != t[2] && t[1] != t[2])
            .map(|t| t.iter().map(|k| idx[*k]).collect())
            .collect();
        if ps.is_empty() {
            continue;
        }
        merge_polys(&mut ps, &verts, nvp, |_, _, _| {});
        for p in ps {
            polys.push(WPoly { v: p, reg: c.reg, area: c.area });
        }
    }
    let mut i = 0;
    while i < verts.len() {
        if flagged[i] {
            info.removable_marked += 1;
            if !can_remove(&polys, i) {
                i += 1;
                continue;
            }
            remove_vertex(&mut polys, &mut verts, i, max_tris, nvp)?;
            info.removed += 1;
            flagged.remove(i);
            continue;
        }
        i += 1;
    }
    // adjacency: first polygon to own an undirected edge (as v0<v1), then first opposite user
    let mut edges: Vec<(usize, usize, usize, usize, usize, usize)> = vec![]; // v0,v1,p0,e0,p1,e1
    let mut by_v: std::collections::HashMap<usize, Vec<usize>> = Default::default();
    for (pi, p) in polys.iter().enumerate() {
        for j in 0..p.v.len() {
            let (a, b) = (p.v[j], p.v[(j + 1) % p.v.len()]);
            if a < b {
                edges.push((a, b, pi, j, pi, 0));
                by_v.entry(a).or_default().push(edges.len() - 1);
            }
        }
    }
    for (pi, p) in polys.iter().enumerate() {
        for j in 0..p.v.len() {
            let (a, b) = (p.v[j], p.v[(j + 1) % p.v.len()]);
            if a > b {
                if let Some(l) = by_v.get(&b) {
                    for &e in l.iter().rev() {
                        let ed = &mut edges[e];
                        if ed.1 == a && ed.2 == ed.4 {
                            ed.4 = pi;
                            ed.5 = j;
                            break;
                        }
                    }
                }
            }
        }
    }
    let mut out: Vec<Poly> = polys.iter().map(|p| Poly { v: p.v.clone(), nb: vec![NULL; p.v.len()], reg: p.reg, area: p.area }).collect();
    for e in edges {
        if e.2 != e.4 {
            out[e.2].nb[e.3] = e.4 as u16;
            out[e.4].nb[e.5] = e.2 as u16;
        }
    }
    if cs.border > 0 {
        for p in out.iter_mut() {
            let n = p.v.len();
            for j in 0..n {
                if p.nb[j] != NULL {
                    continue;
                }
                let (a, b) = (verts[p.v[j]], verts[p.v[(j + 1) % n]]);
                if a[0] == 0 && b[0] == 0 {
                    p.nb[j] = 0x8000;
                } else if a[2] == cs.h && b[2] == cs.h {
                    p.nb[j] = 0x8001;
                } else if a[0] == cs.w && b[0] == cs.w {
                    p.nb[j] = 0x8002;
                } else if a[2] == 0 && b[2] == 0 {
                    p.nb[j] = 0x8003;
                }
            }
        }
    }
    Ok(Pm { verts, polys: out, nvp, bmin: cs.bmin, bmax: cs.bmax, cs: cs.cs, ch: cs.ch, border: cs.border })
}
