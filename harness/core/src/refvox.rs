//! Independent reference model of the voxel and region stages (written from the published Recast
//! algorithm, on plain column vectors and a span graph; no code shared with the library).
use crate::model::*;
use glam::Vec3;

// ---------------------------------------------------------------- rasterisation
fn divide(inp: &[[f32; 3]], off: f32, ax: usize) -> (Vec<[f32; 3]>, Vec<[f32; 3]>) {
    let n = inp.len();
    let (mut o1, mut o2) = (vec![], vec![]);
    if n == 0 {
        return (o1, o2);
    }
    let d: Vec<f32> = inp.iter().map(|v| off - v[ax]).collect();
    let mut b = n - 1;
    for a in 0..n {
        let same = (d[a] >= 0.0) == (d[b] >= 0.0);
        if !same {
            let s = d[b] / (d[b] - d[a]);
            let mut p = [0.0f32; 3];
            for k in 0..3 {
                p[k] = inp[b][k] + (inp[a][k] - inp[b][k]) * s;
            }
            o1.push(p);
            o2.push(p);
            if d[a] > 0.0 {
                o1.push(inp[a]);
            } else if d[a] < 0.0 {
                o2.push(inp[a]);
            }
        } else {
            if d[a] >= 0.0 {
                o1.push(inp[a]);
                if d[a] != 0.0 {
                    b = a;
                    continue;
                }
            }
            o2.push(inp[a]);
        }
        b = a;
    }
    (o1, o2)
}

/// Spans (x, z, min, max) one triangle contributes, in the reference's f32 arithmetic.
pub fn raster_tri(t: [Vec3; 3], hf: &Hf) -> Vec<(usize, usize, u16, u16)> {
    let mut out = vec![];
    let tmin = t[0].min(t[1]).min(t[2]);
    let tmax = t[0].max(t[1]).max(t[2]);
    if !(tmin.cmple(hf.bmax).all() && tmax.cmpge(hf.bmin).all()) {
        return out;
    }
    let (w, h) = (hf.w as i32, hf.h as i32);
    if w == 0 || h == 0 {
        return out;
    }
    let ics = 1.0 / hf.cs;
    let ich = 1.0 / hf.ch;
    let by = hf.bmax.y - hf.bmin.y;
    let z0 = (((tmin.z - hf.bmin.z) * ics) as i32).clamp(-1, h - 1);
    let z1 = (((tmax.z - hf.bmin.z) * ics) as i32).clamp(0, h - 1);
    let mut rest: Vec<[f32; 3]> = t.iter().map(|v| v.to_array()).collect();
    for z in z0..=z1 {
        let cz = hf.bmin.z + z as f32 * hf.cs;
        let (row, r) = divide(&rest, cz + hf.cs, 2);
        rest = r;
        if row.len() < 3 || z < 0 {
            continue;
        }
        let mnx = row.iter().map(|v| v[0]).fold(f32::INFINITY, f32::min);
        let mxx = row.iter().map(|v| v[0]).fold(f32::NEG_INFINITY, f32::max);
        let x0 = ((mnx - hf.bmin.x) * ics) as i32;
        let x1 = ((mxx - hf.bmin.x) * ics) as i32;
        if x1 < 0 || x0 >= w {
            continue;
        }
        let x0 = x0.clamp(-1, w - 1);
        let x1 = x1.clamp(0, w - 1);
        let mut rrow = row;
        for x in x0..=x1 {
            let cx = hf.bmin.x + x as f32 * hf.cs;
            let (cell, r) = divide(&rrow, cx + hf.cs, 0);
            rrow = r;
            if cell.len() < 3 || x < 0 {
                continue;
            }
            let mut lo = cell.iter().map(|v| v[1]).fold(f32::INFINITY, f32::min) - hf.bmin.y;
            let mut hi = cell.iter().map(|v| v[1]).fold(f32::NEG_INFINITY, f32::max) - hf.bmin.y;
            if hi < 0.0 || lo > by {
                continue;
            }
            lo = lo.max(0.0);
            hi = hi.min(by);
            let mn = ((lo * ich).floor() as i32).clamp(0, 65534);
            let mx = ((hi * ich).ceil() as i32).clamp(mn + 1, 65535);
            out.push((x as usize, z as usize, mn as u16, mx as u16));
        }
    }
    out
}

/// Column model of span insertion: union of touching intervals, area priority by flag_merge.
pub fn add_span(col: &mut Vec<Sp>, s: Sp, merge: u16) {
    let mut n = s;
    let mut out: Vec<Sp> = Vec::with_capacity(col.len() + 1);
    let mut i = 0;
    while i < col.len() && col[i].max < n.min {
        out.push(col[i]);
        i += 1;
    }
    while i < col.len() && col[i].min <= n.max {
        let c = col[i];
        n.min = n.min.min(c.min);
        n.max = n.max.max(c.max);
        if n.max - c.max <= merge {
            n.area = n.area.max(c.area);
        }
        i += 1;
    }
    out.push(n);
    out.extend_from_slice(&col[i..]);
    *col = out;
}

// ---------------------------------------------------------------- slope
pub fn normal_y(a: Vec3, b: Vec3, c: Vec3) -> (f64, f64) {
    // (ny, |n|) in f64
    let d = |p: Vec3| [p.x as f64, p.y as f64, p.z as f64];
    let (a, b, c) = (d(a), d(b), d(c));
    let e1 = [b[0] - a[0], b[1] - a[1], b[2] - a[2]];
    let e2 = [c[0] - a[0], c[1] - a[1], c[2] - a[2]];
    let n = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]];
    (n[1], (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt())
}

// ---------------------------------------------------------------- filters
const MAXH: i32 = 65535;
pub fn low_hanging(hf: &mut Hf, climb: u16) {
    for c in hf.cols.iter_mut() {
        let orig: Vec<u8> = c.iter().map(|s| s.area).collect();
        for i in 1..c.len() {
            // an obstacle directly above an (originally) walkable span, low enough to climb
            if orig[i] == 0 && orig[i - 1] != 0 && c[i].max as i32 - c[i - 1].max as i32 <= climb as i32 {
                c[i].area = orig[i - 1];
            }
        }
    }
}

/// (floor, ceiling) openings above each span of a column
fn openings(c: &[Sp]) -> Vec<(i32, i32)> {
    (0..c.len()).map(|i| (c[i].max as i32, c.get(i + 1).map(|s| s.min as i32).unwrap_or(MAXH))).collect()
}

pub fn ledge(hf: &mut Hf, wh: u16, climb: u16) {
    let (wh, climb) = (wh as i32, climb as i32);
    let open: Vec<Vec<(i32, i32)>> = hf.cols.iter().map(|c| openings(c)).collect();
    for z in 0..hf.h {
        for x in 0..hf.w {
            for si in 0..hf.cols[x + z * hf.w].len() {
                if hf.cols[x + z * hf.w][si].area == 0 {
                    continue;
                }
                let (floor, ceil) = open[x + z * hf.w][si];
                let mut is_ledge = false;
                let (mut lo, mut hi) = (floor, floor);
                for d in 0..4 {
                    let nx = x as i64 + DX[d];
                    let nz = z as i64 + DZ[d];
                    if nx < 0 || nz < 0 || nx >= hf.w as i64 || nz >= hf.h as i64 {
                        is_ledge = true;
                        continue;
                    }
                    let nc = nx as usize + nz as usize * hf.w;
                    // the void below the neighbour's lowest span
                    let first = hf.cols[nc].first().map(|s| s.min as i32).unwrap_or(MAXH);
                    if ceil.min(first) - floor >= wh {
                        is_ledge = true;
                        continue;
                    }
                    for &(nf, ncl) in &open[nc] {
                        if ceil.min(ncl) - floor.max(nf) >= wh {
                            let diff = nf - floor;
                            if diff < -climb {
                                is_ledge = true;
                            } else if diff <= climb {
                                lo = lo.min(nf);
                                hi = hi.max(nf);
                            }
                        }
                    }
                }
                if is_ledge || hi - lo > climb {
                    hf.cols[x + z * hf.w][si].area = 0;
                }
            }
        }
    }
}

pub fn low_height(hf: &mut Hf, wh: u16) {
    for c in hf.cols.iter_mut() {
        let o = openings(c);
        for i in 0..c.len() {
            if o[i].1 - o[i].0 < wh as i32 {
                c[i].area = 0;
            }
        }
    }
}

// ---------------------------------------------------------------- compact
/// Err when some connectable neighbour lies beyond the addressable layers.
pub fn compact(hf: &Hf, wh: u16, wc: u16) -> Result<Ch, String> {
    let mut c = Ch {
        w: hf.w,
        h: hf.h,
        wh,
        wc,
        border: 0,
        bmin: hf.bmin,
        bmax: hf.bmax,
        cs: hf.cs,
        ch: hf.ch,
        start: vec![],
        x: vec![],
        z: vec![],
        y: vec![],
        hgt: vec![],
        nb: vec![],
        area: vec![],
        dist: vec![],
        max_dist: 0,
        reg: vec![],
        max_reg: 0,
    };
    c.bmax.y += wh as f32 * hf.ch;
    for z in 0..hf.h {
        for x in 0..hf.w {
            c.start.push(c.y.len());
            let col = &hf.cols[x + z * hf.w];
            let o = openings(col);
            for i in 0..col.len() {
                if col[i].area != 0 {
                    c.x.push(x);
                    c.z.push(z);
                    c.y.push(o[i].0 as u16);
                    c.hgt.push((o[i].1 - o[i].0).clamp(0, 255) as u8);
                    c.area.push(col[i].area);
                }
            }
        }
    }
    c.start.push(c.y.len());
    if let Some(k) = c.start.windows(2).map(|s| s[1] - s[0]).find(|k| *k > 255) {
        return Err(format!("layer {k}"));
    }
    let n = c.y.len();
    c.reg = vec![0; n];
    c.nb = vec![[None; 4]; n];
    let mut maxl = 0;
    for i in 0..n {
        for d in 0..4 {
            let nx = c.x[i] as i64 + DX[d];
            let nz = c.z[i] as i64 + DZ[d];
            if nx < 0 || nz < 0 || nx >= c.w as i64 || nz >= c.h as i64 {
                continue;
            }
            for (layer, k) in c.col(nx as usize, nz as usize).enumerate() {
                if !connectable(&c, i, k) {
                    continue;
                }
                if layer > 62 {
                    maxl = maxl.max(layer);
                    continue;
                }
                c.nb[i][d] = Some(k);
                break;
            }
        }
    }
    if maxl > 62 {
        return Err(format!("layer {maxl}"));
    }
    Ok(c)
}
pub fn connectable(c: &Ch, i: usize, k: usize) -> bool {
    let bot = c.y[i].max(c.y[k]) as i32;
    let top = (c.y[i] as i32 + c.hgt[i] as i32).min(c.y[k] as i32 + c.hgt[k] as i32);
    top - bot >= c.wh as i32 && (c.y[i] as i32 - c.y[k] as i32).abs() <= c.wc as i32
}

/// 4-neighbour then 8-neighbour steps of the (2,3) chamfer metric, as the two passes traverse them.
fn chamfer(c: &Ch, d: &mut [u32]) {
    let relax = |d: &mut [u32], i: usize, a: usize, b: usize| {
        if let Some(ai) = c.nb[i][a] {
            d[i] = d[i].min(d[ai] + 2);
            if let Some(bi) = c.nb[ai][b] {
                d[i] = d[i].min(d[bi] + 3);
            }
        }
    };
    for i in 0..c.n() {
        relax(d, i, 0, 3);
        relax(d, i, 3, 2);
    }
    // second pass: columns in reverse order, spans of a column in forward order
    for col in (0..c.w * c.h).rev() {
        for i in c.start[col]..c.start[col + 1] {
            relax(d, i, 2, 1);
            relax(d, i, 1, 0);
        }
    }
}

/// Fixpoint of the chamfer relaxation: the true shortest chamfer distance.
pub fn chamfer_exact(c: &Ch, seed: &[u32]) -> Vec<u32> {
    let mut d = seed.to_vec();
    let mut changed = true;
    let mut back = true;
    while changed {
        changed = false;
        back = !back;
        for k in 0..c.n() {
            let i = if back { c.n() - 1 - k } else { k };
            for (a, b) in [(0, 3), (3, 2), (2, 1), (1, 0)] {
                if let Some(ai) = c.nb[i][a] {
                    let mut v = d[ai] + 2;
                    if let Some(bi) = c.nb[ai][b] {
                        v = v.min(d[bi] + 3);
                    }
                    if v < d[i] {
                        d[i] = v;
                        changed = true;
                    }
                }
            }
        }
    }
    d
}
pub const FAR: u32 = 1 << 30;
pub fn erosion_seed(c: &Ch) -> Vec<u32> {
    (0..c.n())
        .map(|i| {
            if c.area[i] == 0 {
                return 0;
            }
            let k = (0..4).filter(|&d| c.nb[i][d].is_some_and(|j| c.area[j] != 0)).count();
            if k != 4 { 0 } else { FAR }
        })
        .collect()
}
pub fn erosion_dist(c: &Ch) -> Vec<u32> {
    let mut d = erosion_seed(c);
    chamfer(c, &mut d);
    d
}
pub fn erode(c: &mut Ch, radius: u16) {
    let d = erosion_dist(c);
    for i in 0..c.n() {
        if d[i] < radius as u32 * 2 {
            c.area[i] = 0;
        }
    }
}

pub struct Vol {
    pub verts: Vec<[f32; 2]>,
    pub min_y: f32,
    pub max_y: f32,
    pub area: u8,
}

// ---------------------------------------------------------------- distance field
pub fn raw_dist(c: &Ch) -> Vec<u32> {
    let mut d: Vec<u32> = (0..c.n())
        .map(|i| {
            let k = (0..4).filter(|&d| c.nb[i][d].is_some_and(|j| c.area[j] == c.area[i])).count();
            if k < 4 { 0 } else { FAR }
        })
        .collect();
    chamfer(c, &mut d);
    d
}
pub fn blur(c: &Ch, d: &[u32]) -> Vec<u16> {
    (0..c.n())
        .map(|i| {
            let cd = d[i];
            if cd <= 2 {
                return cd as u16;
            }
            let mut s = cd;
            for dir in 0..4 {
                match c.nb[i][dir] {
                    Some(a) => {
                        s += d[a];
                        s += c.nb[a][(dir + 1) & 3].map(|b| d[b]).unwrap_or(cd);
                    }
                    None => s += cd * 2,
                }
            }
            ((s + 5) / 9) as u16
        })
        .collect()
}
pub fn distance_field(c: &mut Ch) {
    let d = raw_dist(c);
    c.max_dist = d.iter().copied().max().unwrap_or(0) as u16;
    c.dist = blur(c, &d);
}

// ---------------------------------------------------------------- regions (watershed)
pub const BORDER: u16 = 0x8000;

#[derive(Clone, Debug)]
struct Rg {
    n: usize,
    id: u16,
    area: u8,
    visited: bool,
    overlap: bool,
    con: Vec<u16>,
    floors: Vec<u16>,
}

fn dedup_ring(v: &mut Vec<u16>) {
    let mut i = 0;
    while i < v.len() && v.len() > 1 {
        let ni = (i + 1) % v.len();
        if v[i] == v[ni] {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}

fn expand(c: &Ch, max_iter: usize, level: u16, reg: &mut [u16], dst: &mut [u32], stack: &mut [Option<usize>]) {
    let mut iter = 0;
    while !stack.is_empty() {
        let mut failed = 0;
        let mut dirty = vec![];
        for e in stack.iter_mut() {
            let Some(i) = *e else {
                failed += 1;
                continue;
            };
            let mut r = reg[i];
            let mut best = 0xffffu32;
            for d in 0..4 {
                let Some(a) = c.nb[i][d] else { continue };
                if c.area[a] != c.area[i] {
                    continue;
                }
                if reg[a] > 0 && reg[a] & BORDER == 0 && dst[a] + 2 < best {
                    r = reg[a];
                    best = dst[a] + 2;
                }
            }
            if r != 0 {
                *e = None;
                dirty.push((i, r, best));
            } else {
                failed += 1;
            }
        }
        for (i, r, d) in dirty {
            reg[i] = r;
            dst[i] = d;
        }
        if failed == stack.len() {
            break;
        }
        if level > 0 {
            iter += 1;
            if iter >= max_iter {
                break;
            }
        }
    }
}

fn flood(c: &Ch, i0: usize, level: u16, r: u16, reg: &mut [u16], dst: &mut [u32]) -> bool {
    let area = c.area[i0];
    let mut stack = vec![i0];
    reg[i0] = r;
    dst[i0] = 0;
    let lev = level.saturating_sub(2);
    let mut count = 0;
    while let Some(ci) = stack.pop() {
        let mut ar = 0;
        for d in 0..4 {
            let Some(a) = c.nb[ci][d] else { continue };
            if c.area[a] != area {
                continue;
            }
            let nr = reg[a];
            if nr & BORDER != 0 {
                continue;
            }
            if nr != 0 && nr != r {
                ar = nr;
                break;
            }
            if let Some(b) = c.nb[a][(d + 1) & 3] {
                if c.area[b] != area {
                    continue;
                }
                let nr2 = reg[b];
                if nr2 != 0 && nr2 != r {
                    ar = nr2;
                    break;
                }
            }
        }
        if ar != 0 {
            reg[ci] = 0;
            continue;
        }
        count += 1;
        for d in 0..4 {
            let Some(a) = c.nb[ci][d] else { continue };
            if c.area[a] != area {
                continue;
            }
            if c.dist[a] >= lev && reg[a] == 0 {
                reg[a] = r;
                dst[a] = 0;
                stack.push(a);
            }
        }
    }
    count > 0
}

fn solid_edge(c: &Ch, reg: &[u16], i: usize, d: usize) -> bool {
    c.nb[i][d].map(|a| reg[a]).unwrap_or(0) != reg[i]
}

fn walk_con(c: &Ch, mut i: usize, mut dir: usize, reg: &[u16], out: &mut Vec<u16>) {
    let (si, sd) = (i, dir);
    let mut cur = c.nb[i][dir].map(|a| reg[a]).unwrap_or(0);
    out.push(cur);
    for _ in 0..40_000.max(4 * c.n()) {
        if solid_edge(c, reg, i, dir) {
            let r = c.nb[i][dir].map(|a| reg[a]).unwrap_or(0);
            if r != cur {
                cur = r;
                out.push(r);
            }
            dir = (dir + 1) & 3;
        } else {
            let Some(a) = c.nb[i][dir] else { return };
            i = a;
            dir = (dir + 3) & 3;
        }
        if i == si && dir == sd {
            break;
        }
    }
    dedup_ring(out);
}

/// More regions than their ids can tell apart.
pub const TOO_MANY: usize = usize::MAX;
/// Result: the reference's count of overlapping regions (regions covering one column twice).
pub fn regions(c: &mut Ch, border: usize, min_area: u16, merge_area: u16) -> usize {
    let n = c.n();
    let mut reg = vec![0u16; n];
    let mut dst = vec![0u32; n];
    let mut id: u16 = 1;
    if border > 0 {
        let bw = border.min(c.w);
        let bh = border.min(c.h);
        let rects = [(0, bw, 0, c.h), (c.w - bw, c.w, 0, c.h), (0, c.w, 0, bh), (0, c.w, c.h - bh, c.h)];
        for (x0, x1, z0, z1) in rects {
            for i in 0..n {
                if c.area[i] != 0 && c.x[i] >= x0 && c.x[i] < x1 && c.z[i] >= z0 && c.z[i] < z1 {
                    reg[i] = id | BORDER;
                }
            }
            id += 1;
        }
    }
    c.border = border;
    const NB: usize = 8;
    let mut stacks: Vec<Vec<Option<usize>>> = vec![vec![]; NB];
    let mut level = (c.max_dist + 1) & !1;
    let mut sid: usize = NB - 1;
    while level > 0 {
        level = level.saturating_sub(2);
        sid = (sid + 1) % NB;
        if sid == 0 {
            for s in stacks.iter_mut() {
                s.clear();
            }
            let start = (level >> 1) as i32;
            for i in 0..n {
                if c.area[i] == 0 || reg[i] != 0 {
                    continue;
                }
                let s = (start - (c.dist[i] >> 1) as i32).max(0);
                if s < NB as i32 {
                    stacks[s as usize].push(Some(i));
                }
            }
        } else {
            let left: Vec<Option<usize>> = stacks[sid - 1].iter().copied().filter(|e| e.is_some_and(|i| reg[i] == 0)).collect();
            stacks[sid].extend(left);
        }
        let mut st = std::mem::take(&mut stacks[sid]);
        for e in st.iter_mut() {
            if e.is_some_and(|i| reg[i] != 0) {
                *e = None;
            }
        }
        expand(c, 8, level, &mut reg, &mut dst, &mut st);
        for e in &st {
            if let Some(i) = *e {
                if reg[i] == 0 && flood(c, i, level, id, &mut reg, &mut dst) {
                    id += 1;
                    if id & BORDER != 0 {
                        return TOO_MANY;
                    }
                }
            }
        }
        stacks[sid] = st;
    }
    let mut st: Vec<Option<usize>> = (0..n).filter(|&i| reg[i] == 0 && c.area[i] != 0).map(Some).collect();
    expand(c, 64, 0, &mut reg, &mut dst, &mut st);

    // ---- merge and filter
    let nreg = id as usize + 1;
    let mut rs: Vec<Rg> = (0..nreg)
        .map(|i| Rg { n: 0, id: i as u16, area: 0, visited: false, overlap: false, con: vec![], floors: vec![] })
        .collect();
    for col in 0..c.w * c.h {
        for i in c.start[col]..c.start[col + 1] {
            let r = reg[i] as usize;
            if r == 0 || r >= nreg {
                continue;
            }
            rs[r].n += 1;
            for j in c.start[col]..c.start[col + 1] {
                if i == j {
                    continue;
                }
                let f = reg[j];
                if f == 0 || f as usize >= nreg {
                    continue;
                }
                if f as usize == r {
                    rs[r].overlap = true;
                }
                if !rs[r].floors.contains(&f) {
                    rs[r].floors.push(f);
                }
            }
            if !rs[r].con.is_empty() {
                continue;
            }
            rs[r].area = c.area[i];
            if let Some(d) = (0..4).find(|&d| solid_edge(c, &reg, i, d)) {
                let mut con = vec![];
                walk_con(c, i, d, &reg, &mut con);
                rs[r].con = con;
            }
        }
    }
    for i in 0..nreg {
        if rs[i].id == 0 || rs[i].id & BORDER != 0 || rs[i].n == 0 || rs[i].visited {
            continue;
        }
        let mut touches = false;
        let mut total = 0;
        let mut trace = vec![];
        let mut stack = vec![i];
        rs[i].visited = true;
        while let Some(ri) = stack.pop() {
            total += rs[ri].n;
            trace.push(ri);
            for &k in &rs[ri].con.clone() {
                if k & BORDER != 0 {
                    touches = true;
                    continue;
                }
                let k = k as usize;
                if rs[k].visited || rs[k].id == 0 || rs[k].id & BORDER != 0 {
                    continue;
                }
                stack.push(rs[k].id as usize);
                rs[k].visited = true;
            }
        }
        if total < min_area as usize && !touches {
            for t in trace {
                rs[t].n = 0;
                rs[t].id = 0;
            }
        }
    }
    let can = |a: &Rg, b: &Rg| a.area == b.area && a.con.iter().filter(|k| **k == b.id).count() <= 1 && !a.floors.contains(&b.id);
    loop {
        let mut merges = 0;
        for i in 0..nreg {
            let me = rs[i].clone();
            if me.id == 0 || me.id & BORDER != 0 || me.overlap || me.n == 0 {
                continue;
            }
            if me.n > merge_area as usize && me.con.contains(&0) {
                continue;
            }
            let mut smallest = 0xfffffff;
            let mut into = me.id;
            for &k in &me.con {
                if k & BORDER != 0 {
                    continue;
                }
                let o = &rs[k as usize];
                if o.id == 0 || o.id & BORDER != 0 || o.overlap {
                    continue;
                }
                if o.n < smallest && can(&me, o) && can(o, &me) {
                    smallest = o.n;
                    into = o.id;
                }
            }
            if into == me.id {
                continue;
            }
            let old = me.id;
            let t = into as usize;
            let (Some(ia), Some(ib)) = (rs[t].con.iter().position(|k| *k == old), me.con.iter().position(|k| *k == into)) else {
                continue;
            };
            let (ac, bc) = (rs[t].con.clone(), me.con.clone());
            let mut nc = vec![];
            for k in 0..ac.len() - 1 {
                nc.push(ac[(ia + 1 + k) % ac.len()]);
            }
            for k in 0..bc.len() - 1 {
                nc.push(bc[(ib + 1 + k) % bc.len()]);
            }
            dedup_ring(&mut nc);
            rs[t].con = nc;
            for f in me.floors.clone() {
                if !rs[t].floors.contains(&f) {
                    rs[t].floors.push(f);
                }
            }
            rs[t].n += me.n;
            rs[i].n = 0;
            rs[i].con.clear();
            for r in rs.iter_mut() {
                if r.id == 0 || r.id & BORDER != 0 {
                    continue;
                }
                if r.id == old {
                    r.id = into;
                }
                let mut ch = false;
                for k in r.con.iter_mut() {
                    if *k == old {
                        *k = into;
                        ch = true;
                    }
                }
                for k in r.floors.iter_mut() {
                    if *k == old {
                        *k = into;
                    }
                }
                if ch {
                    dedup_ring(&mut r.con);
                }
            }
            merges += 1;
        }
        if merges == 0 {
            break;
        }
    }
    let mut remap: Vec<bool> = rs.iter().map(|r| r.id != 0 && r.id & BORDER == 0).collect();
    let mut genid = 0;
    for i in 0..nreg {
        if !remap[i] {
            continue;
        }
        let old = rs[i].id;
        genid += 1;
        for j in i..nreg {
            if rs[j].id == old && remap[j] {
                rs[j].id = genid;
                remap[j] = false;
            }
        }
    }
    c.max_reg = genid;
    for r in reg.iter_mut() {
        if *r & BORDER == 0 {
            *r = rs[*r as usize].id;
        }
    }
    c.reg = reg;
    rs.iter().filter(|r| r.overlap).count()
}
