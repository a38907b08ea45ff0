//! Plain-data views of the library's structures plus conversions in both directions.
//! Everything the monitors look at goes through these views, so that they see behaviour
//! (public data of the pipeline stages), not how it was computed.
use crate::rng::Fnv;
use glam::{U16Vec3, Vec3};
use rerecast::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Sp {
    pub min: u16,
    pub max: u16,
    pub area: u8,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Hf {
    pub w: usize,
    pub h: usize,
    pub bmin: Vec3,
    pub bmax: Vec3,
    pub cs: f32,
    pub ch: f32,
    pub cols: Vec<Vec<Sp>>,
}

impl Hf {
    pub fn empty(w: usize, h: usize, cs: f32, ch: f32, ymax: f32) -> Hf {
        Hf {
            w,
            h,
            bmin: Vec3::ZERO,
            bmax: Vec3::new(w as f32 * cs, ymax, h as f32 * cs),
            cs,
            ch,
            cols: vec![vec![]; w * h],
        }
    }
    /// Observes a heightfield. Fails when the column lists are malformed.
    pub fn observe(hf: &Heightfield) -> Result<Hf, String> {
        let w = hf.width as usize;
        let h = hf.height as usize;
        if hf.spans.len() != w * h {
            return Err(format!("spans.len()={} but width*height={}", hf.spans.len(), w * h));
        }
        let mut cols = Vec::with_capacity(w * h);
        let total = hf.allocated_spans.len();
        let mut seen = 0usize;
        for i in 0..w * h {
            let mut c = vec![];
            let mut it = hf.spans[i];
            while let Some(k) = it {
                let Some(s) = hf.allocated_spans.get(k) else {
                    return Err(format!("column {i} links to a freed span"));
                };
                seen += 1;
                if seen > total {
                    return Err(format!("column {i}: span list is cyclic or shared"));
                }
                c.push(Sp { min: s.min, max: s.max, area: s.area.0 });
                it = s.next;
            }
            cols.push(c);
        }
        if seen != total {
            return Err(format!("{} spans allocated but only {} reachable", total, seen));
        }
        Ok(Hf { w, h, bmin: hf.aabb.min, bmax: hf.aabb.max, cs: hf.cell_size, ch: hf.cell_height, cols })
    }
    pub fn to_real(&self) -> Heightfield {
        let mut hf = Heightfield {
            width: self.w as u16,
            height: self.h as u16,
            aabb: Aabb3d { min: self.bmin, max: self.bmax },
            cell_size: self.cs,
            cell_height: self.ch,
            spans: vec![None; self.w * self.h],
            allocated_spans: Spans::default(),
        };
        for i in 0..self.cols.len() {
            let mut next = None;
            for s in self.cols[i].iter().rev() {
                let k = hf.allocated_spans.insert(Span { min: s.min, max: s.max, area: AreaType(s.area), next });
                next = Some(k);
            }
            hf.spans[i] = next;
        }
        hf
    }
    pub fn fingerprint(&self) -> u64 {
        let mut f = Fnv::new();
        f.u((self.w as u64) << 32 | self.h as u64);
        for c in &self.cols {
            f.u(c.len() as u64);
            for s in c {
                f.u(s.min as u64 | (s.max as u64) << 16 | (s.area as u64) << 32);
            }
        }
        f.0
    }
}

pub const DX: [i64; 4] = [-1, 0, 1, 0];
pub const DZ: [i64; 4] = [0, 1, 0, -1];

/// Compact heightfield as a graph of open spans.
#[derive(Clone, PartialEq, Debug)]
pub struct Ch {
    pub w: usize,
    pub h: usize,
    pub wh: u16,
    pub wc: u16,
    pub border: usize,
    pub bmin: Vec3,
    pub bmax: Vec3,
    pub cs: f32,
    pub ch: f32,
    /// start index per column (len w*h+1)
    pub start: Vec<usize>,
    pub x: Vec<usize>,
    pub z: Vec<usize>,
    pub y: Vec<u16>,
    pub hgt: Vec<u8>,
    pub nb: Vec<[Option<usize>; 4]>,
    pub area: Vec<u8>,
    pub dist: Vec<u16>,
    pub max_dist: u16,
    pub reg: Vec<u16>,
    pub max_reg: u16,
}

impl Ch {
    pub fn n(&self) -> usize {
        self.y.len()
    }
    pub fn col(&self, x: usize, z: usize) -> std::ops::Range<usize> {
        let c = x + z * self.w;
        self.start[c]..self.start[c + 1]
    }
    pub fn observe(c: &CompactHeightfield) -> Result<Ch, String> {
        let w = c.width as usize;
        let h = c.height as usize;
        if c.cells.len() != w * h {
            return Err(format!("cells.len()={} != {}", c.cells.len(), w * h));
        }
        let n = c.spans.len();
        if c.areas.len() != n {
            return Err(format!("areas.len()={} != spans.len()={n}", c.areas.len()));
        }
        if !c.dist.is_empty() && c.dist.len() != n {
            return Err(format!("dist.len()={} != spans.len()={n}", c.dist.len()));
        }
        let mut start = Vec::with_capacity(w * h + 1);
        let mut next = 0usize;
        let (mut xs, mut zs) = (vec![], vec![]);
        for z in 0..h {
            for x in 0..w {
                let cell = &c.cells[x + z * w];
                start.push(next);
                if cell.count() > 0 && cell.index() as usize != next {
                    return Err(format!(
                        "cell ({x},{z}) starts at {} but {next} spans precede it",
                        cell.index()
                    ));
                }
                let r = cell.index_range();
                if cell.count() > 0 && (r.start != next || r.end != next + cell.count() as usize) {
                    return Err(format!("cell ({x},{z}) index_range wrong"));
                }
                next += cell.count() as usize;
                for _ in 0..cell.count() {
                    xs.push(x);
                    zs.push(z);
                }
            }
        }
        start.push(next);
        if next != n {
            return Err(format!("cells cover {next} spans, spans.len()={n}"));
        }
        let mut nb = vec![[None; 4]; n];
        for i in 0..n {
            for d in 0..4u8 {
                if let Some(k) = c.spans[i].con(d) {
                    let nx = xs[i] as i64 + DX[d as usize];
                    let nz = zs[i] as i64 + DZ[d as usize];
                    if nx < 0 || nz < 0 || nx >= w as i64 || nz >= h as i64 {
                        return Err(format!("span {i} connects out of the grid in dir {d}"));
                    }
                    let cc = nx as usize + nz as usize * w;
                    let idx = start[cc] + k as usize;
                    if idx >= start[cc + 1] {
                        return Err(format!("span {i} dir {d} connects to layer {k} of a column with {} spans", start[cc + 1] - start[cc]));
                    }
                    let (ax, az, ai) = c.con_indices(xs[i] as i32, zs[i] as i32, d, k);
                    if (ax as i64, az as i64, ai) != (nx, nz, idx) {
                        return Err(format!("con_indices({},{},{d},{k}) = ({ax},{az},{ai}), expected ({nx},{nz},{idx})", xs[i], zs[i]));
                    }
                    nb[i][d as usize] = Some(idx);
                }
            }
        }
        Ok(Ch {
            w,
            h,
            wh: c.walkable_height,
            wc: c.walkable_climb,
            border: c.border_size as usize,
            bmin: c.aabb.min,
            bmax: c.aabb.max,
            cs: c.cell_size,
            ch: c.cell_height,
            start,
            x: xs,
            z: zs,
            y: c.spans.iter().map(|s| s.y).collect(),
            hgt: c.spans.iter().map(|s| s.height()).collect(),
            nb,
            area: c.areas.iter().map(|a| a.0).collect(),
            dist: c.dist.clone(),
            max_dist: c.max_distance,
            reg: c.spans.iter().map(|s| s.region.bits()).collect(),
            max_reg: c.max_region.bits(),
        })
    }
    pub fn to_real(&self) -> CompactHeightfield {
        let n = self.n();
        let mut cells = vec![CompactCell::default(); self.w * self.h];
        for i in 0..cells.len() {
            let k = self.start[i + 1] - self.start[i];
            if k > 0 {
                cells[i].set_index(self.start[i] as u32);
                cells[i].set_count(k as u8);
            }
        }
        let mut spans = vec![CompactSpan::default(); n];
        for i in 0..n {
            spans[i].y = self.y[i];
            spans[i].region = RegionId::from(self.reg[i]);
            spans[i].set_height(self.hgt[i]);
            for d in 0..4 {
                let con = self.nb[i][d].map(|j| {
                    let c = self.x[j] + self.z[j] * self.w;
                    (j - self.start[c]) as u8
                });
                spans[i].set_con(d as u8, con);
            }
        }
        CompactHeightfield {
            width: self.w as u16,
            height: self.h as u16,
            walkable_height: self.wh,
            walkable_climb: self.wc,
            border_size: self.border as u16,
            max_distance: self.max_dist,
            max_region: RegionId::from(self.max_reg),
            aabb: Aabb3d { min: self.bmin, max: self.bmax },
            cell_size: self.cs,
            cell_height: self.ch,
            cells,
            spans,
            dist: self.dist.clone(),
            areas: self.area.iter().map(|a| AreaType(*a)).collect(),
        }
    }
    pub fn fingerprint(&self) -> u64 {
        let mut f = Fnv::new();
        for i in 0..self.n() {
            f.u(self.x[i] as u64 | (self.z[i] as u64) << 16 | (self.y[i] as u64) << 32 | (self.area[i] as u64) << 48);
            f.u(self.reg[i] as u64 | (self.dist.get(i).copied().unwrap_or(0) as u64) << 16);
        }
        f.0
    }
}

pub type V3 = [i32; 3];
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Cont {
    pub verts: Vec<(V3, u32)>,
    pub raw: Vec<(V3, u32)>,
    pub reg: u16,
    pub area: u8,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Cs {
    pub conts: Vec<Cont>,
    pub bmin: Vec3,
    pub bmax: Vec3,
    pub cs: f32,
    pub ch: f32,
    pub w: i32,
    pub h: i32,
    pub border: i32,
    pub max_error: f32,
}
pub fn v3(v: U16Vec3) -> V3 {
    [v.x as i32, v.y as i32, v.z as i32]
}
impl Cs {
    pub fn observe(c: &ContourSet) -> Cs {
        Cs {
            conts: c
                .contours
                .iter()
                .map(|k| Cont {
                    verts: k.vertices.iter().map(|(v, r)| (v3(*v), *r)).collect(),
                    raw: k.raw_vertices.iter().map(|(v, r)| (v3(*v), r.bits())).collect(),
                    reg: k.region.bits(),
                    area: k.area.0,
                })
                .collect(),
            bmin: c.aabb.min,
            bmax: c.aabb.max,
            cs: c.cell_size,
            ch: c.cell_height,
            w: c.width as i32,
            h: c.height as i32,
            border: c.border_size as i32,
            max_error: c.max_error,
        }
    }
    pub fn to_real(&self) -> ContourSet {
        ContourSet {
            contours: self
                .conts
                .iter()
                .map(|k| Contour {
                    vertices: k.verts.iter().map(|(v, r)| (U16Vec3::new(v[0] as u16, v[1] as u16, v[2] as u16), *r)).collect(),
                    raw_vertices: k
                        .raw
                        .iter()
                        .map(|(v, r)| (U16Vec3::new(v[0] as u16, v[1] as u16, v[2] as u16), RegionVertexId::from(*r)))
                        .collect(),
                    region: RegionId::from(k.reg),
                    area: AreaType(k.area),
                })
                .collect(),
            aabb: Aabb3d { min: self.bmin, max: self.bmax },
            cell_size: self.cs,
            cell_height: self.ch,
            width: self.w as u16,
            height: self.h as u16,
            border_size: self.border as u16,
            max_error: self.max_error,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Poly {
    pub v: Vec<usize>,
    pub nb: Vec<u16>,
    pub reg: u16,
    pub area: u8,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Pm {
    pub verts: Vec<V3>,
    pub polys: Vec<Poly>,
    pub nvp: usize,
    pub bmin: Vec3,
    pub bmax: Vec3,
    pub cs: f32,
    pub ch: f32,
    pub border: i32,
}
pub const NULL: u16 = 0xffff;
impl Pm {
    /// Observes a polygon mesh, checking the documented array layout.
    pub fn observe(m: &PolygonNavmesh) -> Result<Pm, String> {
        let nvp = m.max_vertices_per_polygon as usize;
        if nvp == 0 {
            return Err("max_vertices_per_polygon is 0".into());
        }
        if m.polygons.len() % nvp != 0 {
            return Err(format!("polygons.len()={} is not a multiple of nvp={nvp}", m.polygons.len()));
        }
        let n = m.polygons.len() / nvp;
        if m.polygon_count() != n {
            return Err(format!("polygon_count()={} but {n} polygons stored", m.polygon_count()));
        }
        for (name, len, want) in [
            ("polygon_neighbors", m.polygon_neighbors.len(), n * nvp),
            ("regions", m.regions.len(), n),
            ("areas", m.areas.len(), n),
            ("flags", m.flags.len(), n),
        ] {
            if len != want {
                return Err(format!("{name}.len()={len}, expected {want} for {n} polygons (nvp={nvp})"));
            }
        }
        let mut polys = vec![];
        let via_iter: Vec<Vec<u16>> = m.polygons().map(|p| p.collect()).collect();
        for i in 0..n {
            let p = &m.polygons[i * nvp..(i + 1) * nvp];
            let nb = &m.polygon_neighbors[i * nvp..(i + 1) * nvp];
            let nv = p.iter().position(|v| *v == PolygonNavmesh::NO_INDEX).unwrap_or(nvp);
            for j in nv..nvp {
                if p[j] != PolygonNavmesh::NO_INDEX {
                    return Err(format!("polygon {i}: index after NO_INDEX"));
                }
                if nb[j] != PolygonNavmesh::NO_CONNECTION {
                    return Err(format!("polygon {i}: neighbour {} stored on unused edge {j}", nb[j]));
                }
            }
            if via_iter[i] != p[..nv] {
                return Err(format!("polygons() iterator disagrees with stored polygon {i}"));
            }
            for v in &p[..nv] {
                if *v as usize >= m.vertices.len() {
                    return Err(format!("polygon {i} references vertex {v} of {}", m.vertices.len()));
                }
            }
            polys.push(Poly {
                v: p[..nv].iter().map(|v| *v as usize).collect(),
                nb: nb[..nv].to_vec(),
                reg: m.regions[i].bits(),
                area: m.areas[i].0,
            });
        }
        Ok(Pm {
            verts: m.vertices.iter().map(|v| v3(*v)).collect(),
            polys,
            nvp,
            bmin: m.aabb.min,
            bmax: m.aabb.max,
            cs: m.cell_size,
            ch: m.cell_height,
            border: m.border_size as i32,
        })
    }
    pub fn world(&self, v: usize) -> Vec3 {
        let p = self.verts[v];
        Vec3::new(
            self.bmin.x + p[0] as f32 * self.cs,
            self.bmin.y + p[1] as f32 * self.ch,
            self.bmin.z + p[2] as f32 * self.cs,
        )
    }
    pub fn fingerprint(&self) -> u64 {
        let mut f = Fnv::new();
        for v in &self.verts {
            f.u(v[0] as u64 | (v[1] as u64) << 16 | (v[2] as u64) << 32);
        }
        for p in &self.polys {
            f.u(p.reg as u64 | (p.area as u64) << 16);
            for v in &p.v {
                f.u(*v as u64);
            }
            for v in &p.nb {
                f.u(*v as u64);
            }
        }
        f.0
    }
}
/// Twice the signed area (xz) as upstream's winding: negative = inside on the left as Recast defines it.
pub fn area2(a: V3, b: V3, c: V3) -> i64 {
    (b[0] - a[0]) as i64 * (c[2] - a[2]) as i64 - (c[0] - a[0]) as i64 * (b[2] - a[2]) as i64
}
pub fn poly_area2(p: &[V3]) -> i64 {
    let n = p.len();
    let mut s = 0i64;
    for i in 0..n {
        let a = p[i];
        let b = p[(i + 1) % n];
        s += a[0] as i64 * b[2] as i64 - b[0] as i64 * a[2] as i64;
    }
    s
}
