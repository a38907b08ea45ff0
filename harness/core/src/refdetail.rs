//! Independent reference model of the detail mesh stage (height patches, edge tessellation,
//! interior sampling, Delaunay triangulation), written from the published Recast algorithm.
use crate::model::*;

pub const UNSET: u16 = 0xffff;
const MAX_VERTS: usize = 127;
const MAX_TRIS: usize = 255;
const MAX_EDGE: usize = 32;

#[derive(Clone, Debug)]
pub struct Patch {
    pub xmin: i32,
    pub zmin: i32,
    pub w: i32,
    pub h: i32,
    pub data: Vec<u16>,
    /// true when the patch was seeded from the polygon centre
    pub seeded: bool,
    /// the reference could not find any seed span (upstream asserts)
    pub no_seed: bool,
}

pub fn bounds(pm: &Pm, c: &Ch, p: &Poly) -> (i32, i32, i32, i32) {
    let (mut x0, mut x1, mut z0, mut z1) = (c.w as i32, 0, c.h as i32, 0);
    for v in &p.v {
        let q = pm.verts[*v];
        x0 = x0.min(q[0]);
        x1 = x1.max(q[0]);
        z0 = z0.min(q[2]);
        z1 = z1.max(q[2]);
    }
    ((x0 - 1).max(0), (x1 + 1).min(c.w as i32), (z0 - 1).max(0), (z1 + 1).min(c.h as i32))
}

pub fn patch(pm: &Pm, c: &Ch, p: &Poly) -> Patch {
    let (x0, x1, z0, z1) = bounds(pm, c, p);
    let (w, h) = (x1 - x0, z1 - z0);
    let bs = pm.border;
    let mut hp = Patch { xmin: x0, zmin: z0, w, h, data: vec![UNSET; (w.max(0) * h.max(0)) as usize], seeded: false, no_seed: false };
    let mut queue: std::collections::VecDeque<(i32, i32, usize)> = Default::default();
    let mut empty = true;
    if p.reg != 0 {
        for hz in 0..h {
            for hx in 0..w {
                let (x, z) = ((x0 + hx + bs) as usize, (z0 + hz + bs) as usize);
                for i in c.col(x, z) {
                    if c.reg[i] == p.reg {
                        hp.data[(hx + hz * w) as usize] = c.y[i];
                        empty = false;
                        if (0..4).any(|d| c.nb[i][d].is_some_and(|a| c.reg[a] != p.reg)) {
                            queue.push_back((x as i32, z as i32, i));
                        }
                        break;
                    }
                }
            }
        }
    }
    if empty {
        hp.seeded = true;
        if !seed_center(pm, c, p, &mut hp, &mut queue) {
            hp.no_seed = true;
            return hp;
        }
    }
    while let Some((cx, cz, ci)) = queue.pop_front() {
        for d in 0..4 {
            let Some(a) = c.nb[ci][d] else { continue };
            let (ax, az) = (cx + DX[d] as i32, cz + DZ[d] as i32);
            let (hx, hz) = (ax - x0 - bs, az - z0 - bs);
            if hx < 0 || hz < 0 || hx >= w || hz >= h {
                continue;
            }
            let k = (hx + hz * w) as usize;
            if hp.data[k] != UNSET {
                continue;
            }
            hp.data[k] = c.y[a];
            queue.push_back((ax, az, a));
        }
    }
    hp
}

fn seed_center(pm: &Pm, c: &Ch, p: &Poly, hp: &mut Patch, queue: &mut std::collections::VecDeque<(i32, i32, usize)>) -> bool {
    const OFF: [(i32, i32); 9] = [(0, 0), (-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0)];
    let bs = pm.border;
    let mut best: Option<(i32, i32, usize)> = None;
    let mut dmin = UNSET as i32;
    for v in &p.v {
        for o in OFF {
            if dmin <= 0 {
                break;
            }
            let q = pm.verts[*v];
            let (ax, az) = (q[0] + o.0, q[2] + o.1);
            if ax < hp.xmin || ax >= hp.xmin + hp.w || az < hp.zmin || az >= hp.zmin + hp.h {
                continue;
            }
            for i in c.col((ax + bs) as usize, (az + bs) as usize) {
                let d = (q[1] - c.y[i] as i32).abs();
                if d < dmin {
                    dmin = d;
                    best = Some((ax, az, i));
                }
            }
        }
    }
    let Some(start) = best else { return false };
    let n = p.v.len() as i32;
    let pcx = p.v.iter().map(|v| pm.verts[*v][0]).sum::<i32>() / n;
    let pcz = p.v.iter().map(|v| pm.verts[*v][2]).sum::<i32>() / n;
    let mut stack = vec![start];
    let mut seen = vec![false; hp.data.len()];
    let mut cur = start;
    let mut dirs = [0usize, 1, 2, 3];
    while let Some(e) = stack.pop() {
        cur = e;
        let (cx, cz, ci) = e;
        if cx == pcx && cz == pcz {
            break;
        }
        let direct = if cx == pcx {
            if pcz > cz { 1 } else { 3 }
        } else if pcx > cx {
            2
        } else {
            0
        };
        // the library swaps by *slot*, as upstream does
        dirs.swap(direct, 3);
        for d in dirs {
            let Some(a) = c.nb[ci][d] else { continue };
            let (nx, nz) = (cx + DX[d] as i32, cz + DZ[d] as i32);
            let (hx, hz) = (nx - hp.xmin, nz - hp.zmin);
            if hx < 0 || hz < 0 || hx >= hp.w || hz >= hp.h {
                continue;
            }
            let k = (hx + hz * hp.w) as usize;
            if seen[k] {
                continue;
            }
            seen[k] = true;
            stack.push((nx, nz, a));
        }
        dirs.swap(direct, 3);
    }
    let (cx, cz, ci) = cur;
    queue.clear();
    queue.push_back((cx + bs, cz + bs, ci));
    hp.data[(cx - hp.xmin + (cz - hp.zmin) * hp.w) as usize] = c.y[ci];
    true
}

/// rounding could put this (in cells) on either side of a cell border
pub fn near_cell_edge(g: f32) -> bool {
    (g - g.round()).abs() < 1e-3 + 1e-6 * g.abs()
}
pub fn height_at(hp: &Patch, fx: f32, fy: f32, fz: f32, ics: f32, ch: f32, radius: i32) -> u16 {
    height_tie(hp, fx, fy, fz, ics, ch, radius).0
}
/// the height, and whether rounding could have decided between two different ones
pub fn height_tie(hp: &Patch, fx: f32, fy: f32, fz: f32, ics: f32, ch: f32, radius: i32) -> (u16, bool) {
    let ix = ((fx * ics + 0.01).floor() as i32 - hp.xmin).clamp(0, hp.w - 1);
    let iz = ((fz * ics + 0.01).floor() as i32 - hp.zmin).clamp(0, hp.h - 1);
    let mut h = hp.data[(ix + iz * hp.w) as usize];
    if h != UNSET {
        return (h, false);
    }
    let mut found: Vec<(u16, f32)> = vec![];
    // nearest ring that has any height; in that ring the height closest to fy.
    // Ties keep the first cell in spiral order, so walk the very same spiral.
    let (mut x, mut z, mut dx, mut dz) = (1i32, 0i32, 1i32, 0i32);
    let max_size = radius * 2 + 1;
    let max_iter = max_size * max_size - 1;
    let mut ring_start = 8;
    let mut ring_iters = 16;
    let mut dmin = f32::MAX;
    for i in 0..max_iter {
        let (nx, nz) = (ix + x, iz + z);
        if nx >= 0 && nz >= 0 && nx < hp.w && nz < hp.h {
            let nh = hp.data[(nx + nz * hp.w) as usize];
            if nh != UNSET {
                let d = (nh as f32 * ch - fy).abs();
                found.push((nh, d));
                if d < dmin {
                    h = nh;
                    dmin = d;
                }
            }
        }
        if i + 1 == ring_start {
            if h != UNSET {
                break;
            }
            ring_start += ring_iters;
            ring_iters += 8;
        }
        if x == z || (x < 0 && x == -z) || (x > 0 && x == 1 - z) {
            let t = dx;
            dx = -dz;
            dz = t;
        }
        x += dx;
        z += dz;
    }
    let eps = 1e-3 * ch + 4e-6 * fy.abs();
    (h, found.iter().any(|(n, d)| *n != h && *d - dmin < eps))
}

pub type P3 = [f32; 3];
#[derive(Clone, Debug, Default)]
pub struct Sub {
    pub verts: Vec<P3>,
    pub tris: Vec<[usize; 3]>,
    pub flags: Vec<u8>,
    pub hull: Vec<usize>,
    pub samples: usize,
    pub added: usize,
    pub seeded: bool,
    pub no_seed: bool,
    pub delaunay: bool,
    /// a numeric decision was too close to call in f32; parity of this sub-mesh is not asserted
    pub ambiguous: bool,
}

pub fn d2seg(p: P3, a: P3, b: P3, y: bool) -> f32 {
    let (pqx, pqz) = (b[0] - a[0], b[2] - a[2]);
    let pqy = if y { b[1] - a[1] } else { 0.0 };
    let (dx, dz) = (p[0] - a[0], p[2] - a[2]);
    let dy = if y { p[1] - a[1] } else { 0.0 };
    let d = pqx * pqx + pqy * pqy + pqz * pqz;
    let mut t = pqx * dx + pqy * dy + pqz * dz;
    if d > 0.0 {
        t /= d;
    }
    let t = t.clamp(0.0, 1.0);
    let (ex, ez) = (a[0] + t * pqx - p[0], a[2] + t * pqz - p[2]);
    let ey = if y { a[1] + t * pqy - p[1] } else { 0.0 };
    ex * ex + ey * ey + ez * ez
}
fn dxz(a: P3, b: P3) -> f32 {
    let (x, z) = (a[0] - b[0], a[2] - b[2]);
    (x * x + z * z).sqrt()
}
fn cross2(a: P3, b: P3, c: P3) -> f32 {
    (b[0] - a[0]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[0] - a[0])
}

fn tri_hull(v: &[P3], hull: &[usize], nin: usize, amb: &mut bool) -> Vec<[usize; 3]> {
    let n = hull.len();
    let (mut start, mut left, mut right) = (0, 1, n - 1);
    let mut dmin = f32::MAX;
    for i in 0..n {
        if hull[i] >= nin {
            continue;
        }
        let (pi, ni) = ((i + n - 1) % n, (i + 1) % n);
        let d = dxz(v[hull[pi]], v[hull[i]]) + dxz(v[hull[i]], v[hull[ni]]) + dxz(v[hull[ni]], v[hull[pi]]);
        close(d, dmin, amb);
        if d < dmin {
            start = i;
            left = ni;
            right = pi;
            dmin = d;
        }
    }
    let mut t = vec![[hull[start], hull[left], hull[right]]];
    while (left + 1) % n != right {
        let nl = (left + 1) % n;
        let nr = (right + n - 1) % n;
        let dl = dxz(v[hull[left]], v[hull[nl]]) + dxz(v[hull[nl]], v[hull[right]]);
        let dr = dxz(v[hull[right]], v[hull[nr]]) + dxz(v[hull[left]], v[hull[nr]]);
        close(dl, dr, amb);
        if dl < dr {
            t.push([hull[left], hull[nl], hull[right]]);
            left = nl;
        } else {
            t.push([hull[left], hull[nr], hull[right]]);
            right = nr;
        }
    }
    t
}
fn close(a: f32, b: f32, amb: &mut bool) {
    if a != b && (a - b).abs() <= 1e-4 * (a.abs() + b.abs()) {
        *amb = true;
    }
}

const EU: i32 = -1;
const EH: i32 = -2;
fn circum(p1: P3, p2: P3, p3: P3) -> ([f32; 2], f32) {
    let v2 = [p2[0] - p1[0], p2[2] - p1[2]];
    let v3 = [p3[0] - p1[0], p3[2] - p1[2]];
    let cp = v2[0] * v3[1] - v2[1] * v3[0];
    if cp.abs() > 1e-6 {
        let (a, b) = (v2[0] * v2[0] + v2[1] * v2[1], v3[0] * v3[0] + v3[1] * v3[1]);
        let c = [(a * v3[1] - b * v2[1]) / (2.0 * cp), (b * v2[0] - a * v3[0]) / (2.0 * cp)];
        let r = c[0] * c[0] + c[1] * c[1];
        ([c[0] + p1[0], c[1] + p1[2]], r)
    } else {
        ([p1[0], p1[2]], 0.0)
    }
}
fn find_edge(e: &[[i32; 4]], s: i32, t: i32) -> Option<usize> {
    e.iter().position(|k| (k[0] == s && k[1] == t) || (k[0] == t && k[1] == s))
}
fn upd_left(e: &mut [i32; 4], s: i32, t: i32, f: i32) {
    if e[0] == s && e[1] == t && e[2] == EU {
        e[2] = f;
    } else if e[1] == s && e[0] == t && e[3] == EU {
        e[3] = f;
    }
}
fn overlap(v: &[P3], e: &[[i32; 4]], s1: usize, t1: usize) -> bool {
    for k in e {
        let (s0, t0) = (k[0] as usize, k[1] as usize);
        if s0 == s1 || s0 == t1 || t0 == s1 || t0 == t1 {
            continue;
        }
        let (a, b, c, d) = (v[s0], v[t0], v[s1], v[t1]);
        let a1 = cross2(a, b, d);
        let a2 = cross2(a, b, c);
        if a1 * a2 < 0.0 {
            let a3 = cross2(c, d, a);
            let a4 = a3 + a2 - a1;
            if a3 * a4 < 0.0 {
                return true;
            }
        }
    }
    false
}
fn complete(v: &[P3], e: &mut Vec<[i32; 4]>, nf: &mut i32, ei: usize, amb: &mut bool) {
    let (s, t) = if e[ei][2] == EU {
        (e[ei][0], e[ei][1])
    } else if e[ei][3] == EU {
        (e[ei][1], e[ei][0])
    } else {
        return;
    };
    let maxe = v.len() * 10;
    let (su, tu) = (s as usize, t as usize);
    let mut pt = None;
    let mut c = [0.0f32; 2];
    let mut r2 = -1.0f32;
    let mut set = false;
    for u in 0..v.len() {
        if u == su || u == tu {
            continue;
        }
        let cr = cross2(v[su], v[tu], v[u]);
        if (cr - 1e-5).abs() < 1e-4 && cr != 0.0 {
            *amb = true;
        }
        if cr > 1e-5 {
            let upd = |pt: &mut Option<usize>, c: &mut [f32; 2], r2: &mut f32| {
                *pt = Some(u);
                (*c, *r2) = circum(v[su], v[tu], v[u]);
            };
            if !set {
                set = true;
                upd(&mut pt, &mut c, &mut r2);
                continue;
            }
            let (dx, dz) = (c[0] - v[u][0], c[1] - v[u][2]);
            let d2 = dx * dx + dz * dz;
            let hi = r2 * 1.001 * 1.001;
            let lo = r2 * 0.999 * 0.999;
            close(d2, hi, amb);
            close(d2, lo, amb);
            if d2 > hi {
                continue;
            } else if d2 < lo {
                upd(&mut pt, &mut c, &mut r2);
            } else {
                if overlap(v, e, su, u) || overlap(v, e, tu, u) {
                    continue;
                }
                upd(&mut pt, &mut c, &mut r2);
            }
        }
    }
    let add = |e: &mut Vec<[i32; 4]>, s: i32, t: i32, l: i32, r: i32| {
        if e.len() < maxe && find_edge(e, s, t).is_none() {
            e.push([s, t, l, r]);
        }
    };
    if let Some(p) = pt {
        let p = p as i32;
        upd_left(&mut e[ei], s, t, *nf);
        match find_edge(e, p, s) {
            None => add(e, p, s, *nf, EU),
            Some(k) => upd_left(&mut e[k], p, s, *nf),
        }
        match find_edge(e, t, p) {
            None => add(e, t, p, *nf, EU),
            Some(k) => upd_left(&mut e[k], t, p, *nf),
        }
        *nf += 1;
    } else {
        upd_left(&mut e[ei], s, t, EH);
    }
}
fn delaunay(v: &[P3], hull: &[usize], amb: &mut bool) -> Vec<[usize; 3]> {
    let mut e: Vec<[i32; 4]> = vec![];
    let mut nf = 0;
    let mut j = hull.len() - 1;
    for i in 0..hull.len() {
        if find_edge(&e, hull[j] as i32, hull[i] as i32).is_none() {
            e.push([hull[j] as i32, hull[i] as i32, EH, EU]);
        }
        j = i;
    }
    let mut cur = 0;
    while cur < e.len() {
        if e[cur][2] == EU {
            complete(v, &mut e, &mut nf, cur, amb);
        }
        if e[cur][3] == EU {
            complete(v, &mut e, &mut nf, cur, amb);
        }
        cur += 1;
    }
    let mut t = vec![[EU; 3]; nf as usize];
    for k in &e {
        if k[3] >= 0 {
            let f = &mut t[k[3] as usize];
            if f[0] == EU {
                f[0] = k[0];
                f[1] = k[1];
            } else if f[0] == k[1] {
                f[2] = k[0];
            } else if f[1] == k[0] {
                f[2] = k[1];
            }
        }
        if k[2] >= 0 {
            let f = &mut t[k[2] as usize];
            if f[0] == EU {
                f[0] = k[1];
                f[1] = k[0];
            } else if f[0] == k[0] {
                f[2] = k[1];
            } else if f[1] == k[1] {
                f[2] = k[0];
            }
        }
    }
    let mut i = 0;
    while i < t.len() {
        if t[i].contains(&EU) {
            t.swap_remove(i);
        } else {
            i += 1;
        }
    }
    t.iter().map(|k| [k[0] as usize, k[1] as usize, k[2] as usize]).collect()
}

pub fn dist_tri_mesh(p: P3, v: &[P3], tris: &[[usize; 3]], amb: &mut bool) -> Option<f32> {
    let mut dmin = f32::MAX;
    for t in tris {
        let (a, b, c) = (v[t[0]], v[t[1]], v[t[2]]);
        let v0 = [c[0] - a[0], c[1] - a[1], c[2] - a[2]];
        let v1 = [b[0] - a[0], b[1] - a[1], b[2] - a[2]];
        let v2 = [p[0] - a[0], p[1] - a[1], p[2] - a[2]];
        let dot = |x: P3, y: P3| x[0] * y[0] + x[2] * y[2];
        let (d00, d01, d02, d11, d12) = (dot(v0, v0), dot(v0, v1), dot(v0, v2), dot(v1, v1), dot(v1, v2));
        let inv = 1.0 / (d00 * d11 - d01 * d01);
        let u = (d11 * d02 - d01 * d12) * inv;
        let w = (d00 * d12 - d01 * d02) * inv;
        let e = 1e-4;
        for q in [u + e, w + e, 1.0 + e - u - w] {
            if q.abs() < 2e-5 {
                *amb = true;
            }
        }
        if u >= -e && w >= -e && u + w <= 1.0 + e {
            let y = a[1] + v0[1] * u + v1[1] * w;
            dmin = dmin.min((y - p[1]).abs());
        }
    }
    if dmin == f32::MAX { None } else { Some(dmin) }
}

pub fn dist_to_poly(inp: &[P3], p: P3) -> f32 {
    let mut dmin = f32::MAX;
    let mut c = false;
    let n = inp.len();
    let mut j = n - 1;
    for i in 0..n {
        let (vi, vj) = (inp[i], inp[j]);
        if (vi[2] > p[2]) != (vj[2] > p[2]) && p[0] < (vj[0] - vi[0]) * (p[2] - vi[2]) / (vj[2] - vi[2]) + vi[0] {
            c = !c;
        }
        dmin = dmin.min(d2seg(p, vj, vi, false));
        j = i;
    }
    if c { -dmin } else { dmin }
}

pub fn jx(i: usize) -> f32 {
    (((i * 0x8da6b343) & 0xffff) as f32 / 65535.0 * 2.0) - 1.0
}
pub fn jz(i: usize) -> f32 {
    (((i * 0xd8163841) & 0xffff) as f32 / 65535.0 * 2.0) - 1.0
}

/// Sub-mesh of one polygon in local space (polygon grid units * cell size, before adding the origin).
pub fn submesh(pm: &Pm, c: &Ch, p: &Poly, sample_dist: f32, max_err: f32, max_edge_error: f32) -> (Sub, Patch) {
    let mut out = Sub::default();
    let hp = patch(pm, c, p);
    out.seeded = hp.seeded;
    if hp.no_seed {
        out.no_seed = true;
        return (out, hp);
    }
    let (cs, ch) = (pm.cs, pm.ch);
    let ics = 1.0 / cs;
    let radius = (max_edge_error.ceil() as i32).max(1);
    let inp: Vec<P3> = p.v.iter().map(|v| pm.verts[*v]).map(|q| [q[0] as f32 * cs, q[1] as f32 * ch, q[2] as f32 * cs]).collect();
    let nin = inp.len();
    let mut v = inp.clone();
    let mut amb = false;
    // minimum extent
    let mut min_ext = f32::MAX;
    for i in 0..nin {
        let ni = (i + 1) % nin;
        let mut m = 0.0f32;
        for j in 0..nin {
            if j != i && j != ni {
                m = m.max(d2seg(v[j], v[i], v[ni], false));
            }
        }
        min_ext = min_ext.min(m);
    }
    let mut hull = vec![];
    if sample_dist > 0.0 {
        let mut j = nin - 1;
        for i in 0..nin {
            let (mut vj, mut vi) = (inp[j], inp[i]);
            let mut swapped = false;
            if (vj[0] - vi[0]).abs() < 1e-6 {
                if vj[2] > vi[2] {
                    std::mem::swap(&mut vj, &mut vi);
                    swapped = true;
                }
            } else if vj[0] > vi[0] {
                std::mem::swap(&mut vj, &mut vi);
                swapped = true;
            }
            let dl = [vi[0] - vj[0], vi[1] - vj[1], vi[2] - vj[2]];
            let d = (dl[0] * dl[0] + dl[2] * dl[2]).sqrt();
            let q = d / sample_dist;
            if (q - q.round()).abs() < 1e-4 {
                amb = true;
            }
            let mut nn = 1 + q.floor() as usize;
            nn = nn.min(MAX_EDGE - 1);
            if v.len() + nn >= MAX_VERTS {
                nn = MAX_VERTS - 1 - v.len();
            }
            let mut edge = vec![];
            for k in 0..=nn {
                let u = k as f32 / nn as f32;
                let mut q = [vj[0] + dl[0] * u, vj[1] + dl[1] * u, vj[2] + dl[2] * u];
                for a in [q[0], q[2]] {
                    let f = a * ics + 0.01;
                    if near_cell_edge(f) {
                        amb = true;
                    }
                }
                let (h, tie) = height_tie(&hp, q[0], q[1], q[2], ics, ch, radius);
                amb |= tie;
                q[1] = h as f32 * ch;
                edge.push(q);
            }
            let mut idx = vec![0, nn];
            let mut k = 0;
            while k + 1 < idx.len() {
                let (a, b) = (idx[k], idx[k + 1]);
                let mut best = (0.0f32, None);
                for m in a + 1..b {
                    let dev = d2seg(edge[m], edge[a], edge[b], true);
                    close(dev, best.0, &mut amb);
                    if dev > best.0 {
                        best = (dev, Some(m));
                    }
                }
                close(best.0, max_err * max_err, &mut amb);
                match best.1 {
                    Some(m) if best.0 > max_err * max_err => idx.insert(k + 1, m),
                    _ => k += 1,
                }
            }
            hull.push(j);
            let mid: Vec<usize> = if swapped { idx[1..idx.len() - 1].iter().rev().copied().collect() } else { idx[1..idx.len() - 1].to_vec() };
            for m in mid {
                hull.push(v.len());
                v.push(edge[m]);
            }
            j = i;
        }
    } else {
        hull.push(nin - 1);
        hull.extend(0..nin - 1);
    }
    let lim = (sample_dist * 2.0) * (sample_dist * 2.0);
    close(min_ext, lim, &mut amb);
    let mut tris = tri_hull(&v, &hull, nin, &mut amb);
    if min_ext >= lim && sample_dist > 0.0 {
        let (mut lo, mut hi) = (inp[0], inp[0]);
        for q in &inp {
            for k in 0..3 {
                lo[k] = lo[k].min(q[k]);
                hi[k] = hi[k].max(q[k]);
            }
        }
        let x0 = (lo[0] / sample_dist).floor() as i32;
        let x1 = (hi[0] / sample_dist).ceil() as i32;
        let z0 = (lo[2] / sample_dist).floor() as i32;
        let z1 = (hi[2] / sample_dist).ceil() as i32;
        let mut samples = vec![];
        for z in z0..z1 {
            for x in x0..x1 {
                let pt = [x as f32 * sample_dist, (hi[1] + lo[1]) * 0.5, z as f32 * sample_dist];
                let dp = dist_to_poly(&inp, pt);
                close(dp, -sample_dist / 2.0, &mut amb);
                if dp > -sample_dist / 2.0 {
                    continue;
                }
                for a in [pt[0], pt[2]] {
                    let f = a * ics + 0.01;
                    if near_cell_edge(f) {
                        amb = true;
                    }
                }
                let y = height_at(&hp, pt[0], pt[1], pt[2], ics, ch, radius);
                samples.push((x, y, z, false));
            }
        }
        out.samples = samples.len();
        for _ in 0..samples.len() {
            if v.len() >= MAX_VERTS {
                break;
            }
            let mut best = (0.0f32, None, [0.0f32; 3]);
            for (i, s) in samples.iter().enumerate() {
                if s.3 {
                    continue;
                }
                let pt = [s.0 as f32 * sample_dist + jx(i) * cs * 0.1, s.1 as f32 * ch, s.2 as f32 * sample_dist + jz(i) * cs * 0.1];
                let Some(d) = dist_tri_mesh(pt, &v, &tris, &mut amb) else { continue };
                close(d, best.0, &mut amb);
                if d > best.0 {
                    best = (d, Some(i), pt);
                }
            }
            close(best.0, max_err, &mut amb);
            if best.0 <= max_err {
                break;
            }
            let Some(bi) = best.1 else { break };
            samples[bi].3 = true;
            v.push(best.2);
            out.added += 1;
            tris = delaunay(&v, &hull, &mut amb);
            out.delaunay = true;
        }
    }
    tris.truncate(MAX_TRIS);
    out.flags = tris.iter().map(|t| (0..3).map(|k| (on_hull(&hull, t[k], t[(k + 1) % 3]) as u8) << (2 * k)).sum()).collect();
    out.verts = v;
    out.tris = tris;
    out.hull = hull;
    out.ambiguous = amb;
    (out, hp)
}
fn on_hull(hull: &[usize], a: usize, b: usize) -> bool {
    let n = hull.len();
    (0..n).any(|i| hull[(i + n - 1) % n] == a && hull[i] == b)
}
