//! Workload generators: triangle scenes, directly built heightfields, configurations.
use crate::model::*;
use crate::rng::Rng;
use glam::{Vec2, Vec3};
use rerecast::*;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub cs: f32,
    pub ch: f32,
    pub wh: u16,
    pub wc: u16,
    pub rad: u16,
    pub border: u16,
    pub min_area: u16,
    pub merge_area: u16,
    pub max_edge: u16,
    pub max_err: f32,
    pub flags: u8,
    pub nvp: u16,
    pub sample: f32,
    pub det_err: f32,
    pub slope: f32,
}

pub fn cfg(r: &mut Rng) -> Cfg {
    let cs = *r.pick(&[0.25f32, 0.3, 0.5, 1.0, 0.1, 0.7]);
    let ch = *r.pick(&[0.125f32, 0.2, 0.25, 0.5, 0.1, 0.3]);
    Cfg {
        cs,
        ch,
        wh: r.r(3, 12) as u16,
        wc: r.r(0, 6) as u16,
        rad: *r.pick(&[0u16, 0, 1, 1, 2, 3]),
        border: if r.p(0.03) { r.r(7, 70) as u16 } else { *r.pick(&[0u16, 0, 0, 1, 2, 4, 6]) },
        min_area: if r.p(0.04) { *r.pick(&[300u16, 1000, 65535]) } else { *r.pick(&[0u16, 0, 2, 8, 20, 64]) },
        merge_area: if r.p(0.04) { *r.pick(&[3000u16, 65535]) } else { *r.pick(&[0u16, 5, 20, 50, 400]) },
        max_edge: *r.pick(&[0u16, 0, 3, 6, 12, 20, 40, 255]),
        max_err: *r.pick(&[0.0f32, 0.5, 1.0, 1.3, 1.3, 1.5, 2.0, 4.0]),
        flags: *r.pick(&[1u8, 1, 1, 0, 2, 3]),
        nvp: *r.pick(&[3u16, 4, 5, 6, 6, 6, 8, 12]),
        sample: *r.pick(&[0.0f32, 0.9, 1.0, 2.0, 3.0, 6.0, 6.0]),
        det_err: *r.pick(&[0.0f32, 0.05, 0.2, 0.5, 1.0]),
        slope: *r.pick(&[0.785398f32, 0.785398, 0.5, 1.0, 1.4, 0.0]),
    }
}

// ------------------------------------------------------------------ 2D masks
pub fn mask(r: &mut Rng, w: usize, h: usize) -> (Vec<bool>, &'static str) {
    let mut m = vec![false; w * h];
    let kind = r.n(12);
    let name;
    let at = |x: i64, z: i64| -> Option<usize> {
        if x < 0 || z < 0 || x >= w as i64 || z >= h as i64 { None } else { Some(x as usize + z as usize * w) }
    };
    match kind {
        0 => {
            name = "full";
            m.fill(true);
        }
        1 => {
            name = "noise";
            let p = r.fr(0.4, 0.97);
            for c in m.iter_mut() {
                *c = r.p(p);
            }
        }
        2 | 3 => {
            name = "cave";
            let p = r.fr(0.5, 0.7);
            for c in m.iter_mut() {
                *c = r.p(p);
            }
            for _ in 0..r.r(1, 4) {
                let o = m.clone();
                for z in 0..h as i64 {
                    for x in 0..w as i64 {
                        let mut k = 0;
                        for dz in -1..=1 {
                            for dx in -1..=1 {
                                if at(x + dx, z + dz).is_some_and(|i| o[i]) {
                                    k += 1;
                                }
                            }
                        }
                        m[x as usize + z as usize * w] = k >= 5;
                    }
                }
            }
        }
        4 => {
            name = "rings";
            let (cx, cz) = (w as i64 / 2, h as i64 / 2);
            let per = r.r(3, 8);
            let thick = r.r(1, per - 1);
            let cheb = r.p(0.5);
            for z in 0..h as i64 {
                for x in 0..w as i64 {
                    let (dx, dz) = ((x - cx).abs(), (z - cz).abs());
                    let d = if cheb { dx.max(dz) } else { ((dx * dx + dz * dz) as f64).sqrt() as i64 };
                    m[x as usize + z as usize * w] = d % per < thick;
                }
            }
        }
        5 => {
            name = "comb";
            let per = r.r(2, 6);
            let t = r.r(1, per);
            let spine = r.r(1, 3);
            for z in 0..h as i64 {
                for x in 0..w as i64 {
                    m[x as usize + z as usize * w] = x % per < t || z < spine;
                }
            }
        }
        6 => {
            name = "spiral";
            let (mut x, mut z, mut d) = (0i64, 0i64, 0usize);
            let mut seen = vec![false; w * h];
            let t = r.r(1, 3);
            let (mut left, mut top, mut right, mut bot) = (0i64, 0i64, w as i64 - 1, h as i64 - 1);
            let gap = t + r.r(1, 2);
            for _ in 0..4 * (w + h) {
                if left > right || top > bot {
                    break;
                }
                let (tx, tz) = match d {
                    0 => (right, z),
                    1 => (x, bot),
                    2 => (left, z),
                    _ => (x, top),
                };
                while (x, z) != (tx, tz) {
                    for a in 0..t {
                        for b in 0..t {
                            if let Some(i) = at(x + a, z + b) {
                                seen[i] = true;
                            }
                        }
                    }
                    x += (tx - x).signum();
                    z += (tz - z).signum();
                }
                match d {
                    0 => top += gap,
                    1 => right -= gap,
                    2 => bot -= gap,
                    _ => left += gap,
                }
                d = (d + 1) & 3;
            }
            m = seen;
        }
        7 => {
            name = "pillars";
            m.fill(true);
            for _ in 0..r.r(1, 14) {
                let (x, z) = (r.r(0, w as i64 - 1), r.r(0, h as i64 - 1));
                let (a, b) = (r.r(1, 4), r.r(1, 4));
                for dz in 0..b {
                    for dx in 0..a {
                        if let Some(i) = at(x + dx, z + dz) {
                            m[i] = false;
                        }
                    }
                }
            }
        }
        8 => {
            name = "rooms";
            for _ in 0..r.r(1, 10) {
                let (x, z) = (r.r(0, w as i64 - 1), r.r(0, h as i64 - 1));
                let (a, b) = (r.r(1, 14), r.r(1, 14));
                for dz in 0..b {
                    for dx in 0..a {
                        if let Some(i) = at(x + dx, z + dz) {
                            m[i] = true;
                        }
                    }
                }
            }
        }
        9 => {
            name = "maze";
            // random walk corridors of width 1..3
            let t = r.r(1, 3);
            let (mut x, mut z) = (w as i64 / 2, h as i64 / 2);
            for _ in 0..r.r(5, 60) {
                let d = r.n(4);
                for _ in 0..r.r(2, 8) {
                    for a in 0..t {
                        for b in 0..t {
                            if let Some(i) = at(x + a, z + b) {
                                m[i] = true;
                            }
                        }
                    }
                    x = (x + DX[d]).clamp(0, w as i64 - 1);
                    z = (z + DZ[d]).clamp(0, h as i64 - 1);
                }
            }
        }
        10 => {
            name = "diag";
            let per = r.r(3, 9);
            let t = r.r(1, per);
            let s = if r.p(0.5) { 1 } else { -1 };
            for z in 0..h as i64 {
                for x in 0..w as i64 {
                    m[x as usize + z as usize * w] = (x + s * z).rem_euclid(per) < t;
                }
            }
        }
        _ => {
            name = "blobs";
            for _ in 0..r.r(1, 6) {
                let (cx, cz, rad) = (r.r(0, w as i64), r.r(0, h as i64), r.r(2, 12));
                for z in 0..h as i64 {
                    for x in 0..w as i64 {
                        if (x - cx).pow(2) + (z - cz).pow(2) <= rad * rad {
                            m[x as usize + z as usize * w] = true;
                        }
                    }
                }
            }
        }
    }
    (m, name)
}

/// Integer height function
pub fn height_fn(r: &mut Rng, w: usize, h: usize, base: i64) -> Vec<i64> {
    let kind = r.n(6);
    let (a, b) = (r.fr(-1.5, 1.5), r.fr(-1.5, 1.5));
    let (fx, fz, amp) = (r.fr(0.05, 0.6), r.fr(0.05, 0.6), r.fr(0.0, 8.0));
    let step = r.r(2, 6);
    let sh = r.r(1, 4);
    let mut v = vec![0i64; w * h];
    for z in 0..h {
        for x in 0..w {
            let k = match kind {
                0 => 0.0,
                1 => a * x as f32 + b * z as f32,
                2 => amp * ((fx * x as f32).sin() + (fz * z as f32).cos()),
                3 => ((x as i64 / step) * sh) as f32,
                4 => r.fr(0.0, amp * 0.5),
                _ => ((x as i64 / step + z as i64 / step) % 3 * sh) as f32,
            };
            v[x + z * w] = base + k as i64;
        }
    }
    let lo = *v.iter().min().unwrap_or(&0);
    if lo < 1 {
        for k in v.iter_mut() {
            *k += 1 - lo;
        }
    }
    v
}

/// Heightfield from stacked floors (each a mask with a height function), plus blocks and ceilings.
pub fn layered_hf(r: &mut Rng, c: &Cfg, max_dim: i64) -> (Hf, String) {
    let small = r.p(0.25);
    let (w, h) = if small { (r.r(1, 8) as usize, r.r(1, 8) as usize) } else { (r.r(6, max_dim) as usize, r.r(6, max_dim) as usize) };
    layered_sized(r, c, w, h)
}
pub fn layered_sized(r: &mut Rng, c: &Cfg, w: usize, h: usize) -> (Hf, String) {
    let layers = *r.pick(&[1usize, 1, 1, 2, 2, 3, 4]);
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 1.0);
    let mut name = String::new();
    let mut base = r.r(1, 4);
    // now and then far up, where heights need all their bits
    if r.p(0.06) {
        base += *r.pick(&[250i64, 4000, 32700, 33000, 60000]);
    }
    let multi_area = r.p(0.35);
    let mut floors: Vec<Vec<(i64, i64, u8)>> = vec![vec![]; w * h];
    for _ in 0..layers {
        let (m, n) = mask(r, w, h);
        let hs = height_fn(r, w, h, base);
        let (m2, _) = mask(r, w, h);
        let a1 = if multi_area { *r.pick(&[1u8, 2, 63, 127, 129, 255]) } else { 255 };
        let a2 = if multi_area { *r.pick(&[1u8, 5, 0, 127, 129, 255]) } else { 255 };
        let thick = r.r(1, 3);
        for i in 0..w * h {
            if m[i] {
                floors[i].push((hs[i] - thick, hs[i], if m2[i] { a1 } else { a2 }));
            }
        }
        // obstacles on the floor
        if r.p(0.3) {
            let (m3, _) = mask(r, w, h);
            let oh = r.r(1, 6);
            let a = *r.pick(&[0u8, 0, 255]);
            for i in 0..w * h {
                if m[i] && !m3[i] {
                    let lift = if r.p(0.8) { 0 } else { r.r(1, 4) };
                    floors[i].push((hs[i] + lift, hs[i] + lift + oh, a));
                }
            }
        }
        base += r.r(2, 2 * c.wh as i64 + 6);
        if !name.is_empty() {
            name.push('+');
        }
        name.push_str(n);
    }
    let mut ymax = 1;
    for i in 0..w * h {
        let f = &mut floors[i];
        f.sort();
        for &(lo, hi, a) in f.iter() {
            let lo = lo.clamp(0, 65533) as u16;
            let hi = (hi.clamp(1, 65535) as u16).max(lo + 1);
            let col = &mut hf.cols[i];
            if let Some(last) = col.last_mut() {
                if lo <= last.max {
                    if hi > last.max {
                        last.max = hi;
                        last.area = a;
                    }
                    continue;
                }
            }
            col.push(Sp { min: lo, max: hi, area: a });
        }
        if let Some(l) = hf.cols[i].last() {
            ymax = ymax.max(l.max);
        }
    }
    hf.bmax.y = ymax as f32 * c.ch;
    if r.p(0.4) {
        let off = Vec3::new(r.fr(-50.0, 50.0), r.fr(-50.0, 50.0), r.fr(-50.0, 50.0));
        hf.bmin += off;
        hf.bmax += off;
    }
    (hf, name)
}

/// Fields with more columns than small integers can count: long strips, very long lines, open squares.
pub fn large_hf(r: &mut Rng, c: &Cfg, square: bool) -> (Hf, String) {
    let (mut w, mut h) = match r.n(if square { 3 } else { 1 }) {
        0 if !square && r.p(0.12) => (*r.pick(&[1040usize, 2060, 4110, 8200]), r.r(3, 9) as usize),
        0 if !square => (r.r(250, 340) as usize, r.r(3, 10) as usize),
        0 => (r.r(250, 700) as usize, r.r(3, 12) as usize),
        1 => (r.r(1000, 5000) as usize, r.r(1, 3) as usize),
        _ => (r.r(250, 560) as usize, r.r(250, 560) as usize),
    };
    if r.p(0.5) {
        std::mem::swap(&mut w, &mut h);
    }
    if w.min(h) > 12 {
        // open but for a few holes and patches
        let mut hf = Hf::empty(w, h, c.cs, c.ch, 1.0);
        hf.cols.fill(vec![Sp { min: 0, max: 1, area: 255 }]);
        for _ in 0..r.n(4) {
            let i = r.n(w * h);
            hf.cols[i].clear();
        }
        for _ in 0..r.n(3) {
            let (x0, z0) = (r.n(w), r.n(h));
            let (pw, ph) = (r.r(1, 60) as usize, r.r(1, 60) as usize);
            let (a, up) = (*r.pick(&[0u8, 1, 7]), r.r(1, 12) as u16);
            for z in z0..(z0 + ph).min(h) {
                for x in x0..(x0 + pw).min(w) {
                    hf.cols[x + z * w] = vec![Sp { min: 0, max: up, area: a }];
                }
            }
        }
        return (hf, "open square".into());
    }
    let (hf, n) = layered_sized(r, c, w, h);
    (hf, format!("strip {n}"))
}
/// One floor wound into corridors (a serpentine or a comb), so that a single region has an outline
/// of tens of thousands of edges.
pub fn winding_hf(r: &mut Rng, c: &Cfg) -> Hf {
    let lane = *r.pick(&[1usize, 1, 1, 2, 3]);
    let d = if lane == 1 { (60, 210) } else { (200, 320) };
    let (w, h) = (r.r(d.0, d.1) as usize, r.r(d.0, d.1) as usize);
    let (turn, comb, area, up) = (r.p(0.5), r.p(0.5), *r.pick(&[0u8, 0, 1, 7]), r.p(0.5));
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 1.0);
    for z in 0..h {
        for x in 0..w {
            let (a, b, len) = if turn { (z, x, h) } else { (x, z, w) };
            let wall = b % (lane + 1) == lane && (if comb || (b / (lane + 1)) % 2 == 0 { a + lane < len } else { a >= lane });
            let sp = Sp { min: 0, max: 1, area: 255 };
            if !wall {
                hf.cols[x + z * w].push(sp);
            } else if up || area != 0 {
                hf.cols[x + z * w].push(Sp { max: if up { 1 + c.wc.saturating_add(5).min(50) } else { 1 }, area, ..sp });
            }
        }
    }
    hf
}
/// More separate patches than a signed 16-bit id can tell apart, or almost.
pub fn speckle_hf(r: &mut Rng, c: &Cfg) -> Hf {
    let (w, h) = (r.r(168, 215) as usize, r.r(170, 200) as usize);
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 1.0);
    for z in 0..h {
        for x in 0..w {
            // a small open patch gives the field a distance to descend from
            let area = if x < 6 && z < 6 { 5 } else { 1 + ((x + z) % 2) as u8 };
            hf.cols[x + z * w].push(Sp { min: 0, max: 1, area });
        }
    }
    hf
}
/// Hundreds of regions of a few spans.
pub fn checkers_hf(r: &mut Rng, c: &Cfg, max: i64) -> Hf {
    let (w, h, k) = (r.r(12, max) as usize, r.r(12, max) as usize, r.r(1, 3) as usize);
    checkers_sized(w, h, k, c)
}
pub fn checkers_sized(w: usize, h: usize, k: usize, c: &Cfg) -> Hf {
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 1.0);
    for (i, col) in hf.cols.iter_mut().enumerate() {
        let (x, z) = (i % w, i / w);
        col.push(Sp { min: 0, max: 1, area: if x < 4 && z < 4 { 9 } else { 1 + ((x / k + z / k) % 2) as u8 } });
    }
    hf
}
/// An open floor with pillars: basins that touch each other in several places, and many holes.
pub fn pillars_hf(r: &mut Rng, c: &Cfg, w: usize, h: usize) -> Hf {
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 1.0);
    hf.cols.fill(vec![Sp { min: 0, max: 1, area: 255 }]);
    let k = hf.cols.len() / *r.pick(&[20usize, 40, 80, 160]);
    for _ in 0..k {
        let i = r.n(hf.cols.len());
        hf.cols[i].clear();
    }
    hf
}
/// More holes than there is room for in small tables.
pub fn sieve_hf(r: &mut Rng, c: &Cfg) -> Hf {
    let (w, h, k) = (r.r(20, 150) as usize, r.r(20, 150) as usize, r.r(2, 3) as usize);
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 1.0);
    for (i, col) in hf.cols.iter_mut().enumerate() {
        let (x, z) = (i % w, i / w);
        if x == 0 || z == 0 || x + 1 == w || z + 1 == h || x % k != 1 || z % k != 1 {
            col.push(Sp { min: 0, max: 1, area: 255 });
        }
    }
    hf
}
/// A ramp winding up around a core, far enough to pass over itself dozens of times.
pub fn helix_hf(r: &mut Rng, c: &Cfg) -> Hf {
    let (w, lane) = (r.r(8, 15) as usize, r.r(2, 6) as usize);
    let h = (r.r(8, 15) as usize).max(2 * lane + 1);
    let w = w.max(2 * lane + 1);
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 100.0);
    let turns = r.r(2, 60);
    let rise = (c.wh as i64 + r.r(2, 6)).max(1);
    let (patch, odd) = (r.r(1, 9), *r.pick(&[0u8, 0, 1, 7, 200]));
    let gaps = *r.pick(&[0.0, 0.02, 0.06, 0.12]);
    for z in 0..h {
        for x in 0..w {
            if x >= lane && x + lane < w && z >= lane && z + lane < h {
                continue;
            }
            let (dx, dz) = (x as f32 - (w - 1) as f32 / 2.0, z as f32 - (h - 1) as f32 / 2.0);
            let t = (dz.atan2(dx) / std::f32::consts::TAU + 0.5).clamp(0.0, 0.999);
            for k in 0..turns {
                if r.p(gaps) {
                    continue;
                }
                let y = 1 + k * rise + (t * rise as f32) as i64;
                let a = if odd > 0 && (k * 8 + (t * 8.0) as i64) % (patch * 3) < patch { odd } else { 255 };
                hf.cols[x + z * w].push(Sp { min: y as u16, max: y as u16 + 1, area: a });
            }
        }
    }
    hf
}
/// Wide islands of thousands of spans.
pub fn slabs_hf(r: &mut Rng, c: &Cfg) -> Hf {
    let (w, h) = (r.r(60, 270) as usize, r.r(60, 270) as usize);
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 1.0);
    hf.cols.fill(vec![Sp { min: 0, max: 1, area: 255 }]);
    for _ in 0..r.r(1, 4) {
        let (along, at, dead) = (r.p(0.5), r.n(w.min(h)), *r.pick(&[0u8, 0, 1, 9]));
        for i in 0..w * h {
            if (if along { i % w } else { i / w }) == at {
                if dead == 0 {
                    hf.cols[i].clear();
                } else {
                    hf.cols[i][..].iter_mut().for_each(|s| s.area = dead);
                }
            }
        }
    }
    hf
}
/// Small fields with many storeys, so that neighbours sit on high layers.
pub fn stack_hf(r: &mut Rng, c: &Cfg) -> Hf {
    let (w, h) = (r.r(2, 9) as usize, r.r(2, 9) as usize);
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 100.0);
    let step = c.wh as i64 + r.r(1, 5);
    let n = *r.pick(&[5i64, 9, 10, 18, 34, 60]);
    let wob = r.n(c.wc as usize + 2) as i64;
    let skip = *r.pick(&[0.0, 0.0, 0.02, 0.1]);
    let odd = *r.pick(&[0.0, 0.02, 0.1]);
    for col in hf.cols.iter_mut() {
        let mut last = -1;
        for k in 0..n {
            let y = 1 + k * step + if wob > 0 { r.n(wob as usize) as i64 } else { 0 };
            if y <= last + 1 || y > 65000 || r.p(skip) {
                continue;
            }
            let a = if r.p(odd) { *r.pick(&[0u8, 1, 200]) } else { 255 };
            col.push(Sp { min: y as u16, max: y as u16 + 1, area: a });
            last = y;
        }
    }
    hf
}

/// Completely random columns (sorted, disjoint, non-touching), optionally extreme values.
pub fn random_hf(r: &mut Rng, c: &Cfg) -> Hf {
    let (w, h) = (r.r(1, 7) as usize, r.r(1, 7) as usize);
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 100.0);
    let extreme = r.p(0.3);
    let maxgap = *r.pick(&[2i64, 6, 15, 40]);
    let maxspans = *r.pick(&[1i64, 3, 6, 10]);
    for col in hf.cols.iter_mut() {
        let mut y = r.r(0, maxgap);
        if extreme && r.p(0.3) {
            y = r.r(65000, 65500);
        }
        for _ in 0..r.r(0, maxspans) {
            let t = r.r(1, maxgap);
            if y + t > 65535 {
                break;
            }
            let a = *r.pick(&[0u8, 0, 1, 2, 255, 255, 255]);
            col.push(Sp { min: y as u16, max: (y + t) as u16, area: a });
            y += t + r.r(1, maxgap);
            if extreme && r.p(0.1) {
                y += r.r(100, 40000);
            }
        }
    }
    hf
}

/// Few, very tall columns around the limits on layers per column.
pub fn tower_hf(r: &mut Rng, c: &Cfg) -> Hf {
    let (w, h) = (r.r(1, 3) as usize, r.r(1, 3) as usize);
    let mut hf = Hf::empty(w, h, c.cs, c.ch, 100.0);
    let step = c.wh.min(40) as i64 + r.r(1, 5);
    let n = *r.pick(&[61i64, 62, 63, 64, 65, 254, 255, 256, 257, 300, 520]);
    let off = r.r(0, 3);
    let drop = r.p(0.5);
    for (i, col) in hf.cols.iter_mut().enumerate() {
        let mut y = if i % 2 == 0 { 0 } else { off };
        let n = if r.p(0.7) { n } else { r.r(0, n) };
        for _ in 0..n {
            if y + step > 65000 {
                break;
            }
            let a = if drop && r.p(0.02) { 0 } else { 255 };
            col.push(Sp { min: y as u16, max: y as u16 + 1, area: a });
            y += step;
        }
    }
    hf
}

// ------------------------------------------------------------------ triangle scenes
#[derive(Clone, Debug, Default)]
pub struct Scene {
    pub tris: Vec<[Vec3; 3]>,
    pub name: String,
}
impl Scene {
    pub fn quad(&mut self, a: Vec3, b: Vec3, c: Vec3, d: Vec3) {
        self.tris.push([a, b, c]);
        self.tris.push([a, c, d]);
    }
    /// horizontal or tilted rectangle over xz, facing up
    pub fn floor(&mut self, x0: f32, z0: f32, x1: f32, z1: f32, y: [f32; 4]) {
        let v = |x, y, z| Vec3::new(x, y, z);
        self.quad(v(x0, y[0], z0), v(x0, y[3], z1), v(x1, y[2], z1), v(x1, y[1], z0));
    }
    pub fn boxx(&mut self, lo: Vec3, hi: Vec3) {
        let v = |x: usize, y: usize, z: usize| {
            Vec3::new([lo.x, hi.x][x], [lo.y, hi.y][y], [lo.z, hi.z][z])
        };
        self.quad(v(0, 1, 0), v(0, 1, 1), v(1, 1, 1), v(1, 1, 0)); // top up
        self.quad(v(0, 0, 0), v(1, 0, 0), v(1, 0, 1), v(0, 0, 1)); // bottom
        self.quad(v(0, 0, 0), v(0, 1, 0), v(1, 1, 0), v(1, 0, 0));
        self.quad(v(0, 0, 1), v(1, 0, 1), v(1, 1, 1), v(0, 1, 1));
        self.quad(v(0, 0, 0), v(0, 0, 1), v(0, 1, 1), v(0, 1, 0));
        self.quad(v(1, 0, 0), v(1, 1, 0), v(1, 1, 1), v(1, 0, 1));
    }
    pub fn aabb(&self) -> Option<(Vec3, Vec3)> {
        let mut it = self.tris.iter().flatten();
        let f = *it.next()?;
        Some(it.fold((f, f), |(a, b), v| (a.min(*v), b.max(*v))))
    }
    pub fn to_trimesh(&self) -> TriMesh {
        let mut t = TriMesh::default();
        for (i, tr) in self.tris.iter().enumerate() {
            for v in tr {
                t.vertices.push((*v).into());
            }
            t.indices.push(glam::UVec3::new(3 * i as u32, 3 * i as u32 + 1, 3 * i as u32 + 2));
            t.area_types.push(AreaType::NOT_WALKABLE);
        }
        t
    }
}

pub fn rotate(p: Vec3, ang: f32) -> Vec3 {
    let (s, c) = ang.sin_cos();
    Vec3::new(p.x * c - p.z * s, p.y, p.x * s + p.z * c)
}

pub fn scene(r: &mut Rng, c: &Cfg) -> Scene {
    let mut s = Scene::default();
    let size = c.cs * r.fr(6.0, 45.0);
    let v = |x, y, z| Vec3::new(x, y, z);
    let kind = r.n(10);
    match kind {
        0 => {
            s.name = "terrain".into();
            let n = r.r(2, 12) as usize;
            let amp = r.fr(0.0, size * 0.25);
            let hs: Vec<f32> = (0..(n + 1) * (n + 1)).map(|_| r.fr(0.0, amp)).collect();
            let st = size / n as f32;
            for z in 0..n {
                for x in 0..n {
                    let g = |a: usize, b: usize| hs[a + b * (n + 1)];
                    s.floor(
                        x as f32 * st,
                        z as f32 * st,
                        (x + 1) as f32 * st,
                        (z + 1) as f32 * st,
                        [g(x, z), g(x + 1, z), g(x + 1, z + 1), g(x, z + 1)],
                    );
                }
            }
        }
        1 | 2 => {
            s.name = "boxes".into();
            s.floor(0.0, 0.0, size, size, [0.0; 4]);
            for _ in 0..r.r(1, 12) {
                let lo = v(r.fr(0.0, size), r.fr(-0.5, 3.0) * r.f(), r.fr(0.0, size));
                let e = v(r.fr(0.1, 0.4) * size, r.fr(0.1, 3.0), r.fr(0.1, 0.4) * size);
                s.boxx(lo, lo + e);
            }
        }
        3 => {
            s.name = "stairs".into();
            let n = r.r(2, 12);
            let rise = c.ch * r.fr(0.5, (c.wc as f32).max(1.0) * 1.4);
            let run = size / n as f32;
            let wid = size * r.fr(0.2, 0.8);
            for i in 0..n {
                s.boxx(v(i as f32 * run, 0.0, 0.0), v((i + 1) as f32 * run, (i + 1) as f32 * rise, wid));
            }
            s.floor(-size * 0.3, -size * 0.3, size * 1.2, size, [0.0; 4]);
        }
        4 => {
            s.name = "floors".into();
            let n = r.r(2, 4);
            let gap = c.ch * c.wh as f32 * r.fr(0.7, 2.5);
            for i in 0..n {
                let (a, b) = (r.fr(0.0, 0.3) * size, r.fr(0.0, 0.3) * size);
                s.floor(a, b, size - r.fr(0.0, 0.3) * size, size - r.fr(0.0, 0.3) * size, [i as f32 * gap; 4]);
            }
            // ramp connecting first two
            s.floor(0.0, 0.0, size, size * 0.25, [0.0, gap, gap, 0.0]);
        }
        5 => {
            s.name = "holes".into();
            let n = r.r(3, 9) as usize;
            let st = size / n as f32;
            for z in 0..n {
                for x in 0..n {
                    if r.p(0.75) {
                        let y = if r.p(0.8) { 0.0 } else { r.fr(0.0, 3.0) };
                        s.floor(x as f32 * st, z as f32 * st, (x + 1) as f32 * st, (z + 1) as f32 * st, [y; 4]);
                    }
                }
            }
        }
        6 => {
            s.name = "soup".into();
            for _ in 0..r.r(1, 40) {
                let p = v(r.fr(0.0, size), r.fr(0.0, size * 0.3), r.fr(0.0, size));
                let e = size * r.fr(0.02, 0.7);
                let q = |r: &mut Rng| v(r.fr(-e, e), r.fr(-e, e) * 0.3, r.fr(-e, e));
                s.tris.push([p, p + q(r), p + q(r)]);
            }
        }
        7 => {
            s.name = "spiral-ramp".into();
            let n = r.r(8, 40);
            let turn = r.fr(0.2, 0.7);
            let rise = c.ch * r.fr(0.3, (c.wc as f32).max(1.0));
            let (r0, r1) = (size * 0.15, size * 0.5);
            for i in 0..n {
                let (a, b) = (i as f32 * turn, (i + 1) as f32 * turn);
                let (ya, yb) = (i as f32 * rise, (i + 1) as f32 * rise);
                let p = |ang: f32, rad: f32, y: f32| v(rad * ang.cos(), y, rad * ang.sin());
                s.quad(p(a, r0, ya), p(b, r0, yb), p(b, r1, yb), p(a, r1, ya));
            }
        }
        8 => {
            s.name = "aligned".into();
            // everything exactly on the voxel grid
            let n = (size / c.cs) as i64;
            for _ in 0..r.r(1, 15) {
                let (x, z) = (r.r(0, n), r.r(0, n));
                let (a, b) = (r.r(1, n / 2 + 1), r.r(1, n / 2 + 1));
                let y = r.r(0, 20) as f32 * c.ch;
                s.floor(x as f32 * c.cs, z as f32 * c.cs, (x + a) as f32 * c.cs, (z + b) as f32 * c.cs, [y; 4]);
            }
        }
        _ => {
            s.name = "ramps".into();
            s.floor(0.0, 0.0, size, size, [0.0; 4]);
            for _ in 0..r.r(1, 8) {
                let (x, z) = (r.fr(0.0, size), r.fr(0.0, size));
                let (a, b) = (r.fr(0.1, 0.5) * size, r.fr(0.1, 0.5) * size);
                let y = |r: &mut Rng| r.fr(0.0, size * 0.4);
                let ys = [y(r), y(r), y(r), y(r)];
                s.floor(x, z, x + a, z + b, ys);
            }
        }
    }
    if r.p(0.35) {
        let a = if r.p(0.5) { r.fr(0.0, 6.28) } else { std::f32::consts::FRAC_PI_4 };
        for t in s.tris.iter_mut() {
            for p in t.iter_mut() {
                *p = rotate(*p, a);
            }
        }
    }
    if r.p(0.4) {
        let off = v(r.fr(-60.0, 60.0), r.fr(-60.0, 60.0), r.fr(-60.0, 60.0));
        for t in s.tris.iter_mut() {
            for p in t.iter_mut() {
                *p += off;
            }
        }
    }
    s
}

pub fn volume(r: &mut Rng, bmin: Vec3, bmax: Vec3) -> (Vec<Vec2>, f32, f32, u8) {
    let e = bmax - bmin;
    let n = if r.p(0.04) { r.r(9, 300) } else { r.r(3, 8) } as usize;
    let (cx, cz) = (bmin.x + e.x * r.fr(-0.1, 1.1), bmin.z + e.z * r.fr(-0.1, 1.1));
    let rad = e.x.max(e.z) * r.fr(0.05, 0.7);
    let mut angs: Vec<f32> = (0..n).map(|_| r.fr(0.0, 6.28)).collect();
    angs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if r.p(0.5) {
        angs.reverse();
    }
    let v: Vec<Vec2> = angs.iter().map(|a| Vec2::new(cx + rad * a.cos(), cz + rad * a.sin())).collect();
    let y0 = bmin.y + e.y * r.fr(-0.3, 0.8);
    let y1 = y0 + e.y * r.fr(0.0, 1.0) + r.fr(0.0, 2.0);
    let area = *r.pick(&[0u8, 0, 1, 2, 7, 63, 127, 129, 255]);
    (v, y0, y1, area)
}
