//! Drives the real pipeline up to a stage and hands the monitors real inputs.
use crate::fw::*;
use crate::r#gen::*;
use crate::model::*;
use crate::rng::Rng;
use glam::Vec3;
use rerecast::*;

pub fn hfb(bmin: Vec3, bmax: Vec3, cs: f32, ch: f32) -> Result<Heightfield, V> {
    HeightfieldBuilder { aabb: Aabb3d { min: bmin, max: bmax }, cell_size: cs, cell_height: ch }
        .build()
        .map_err(|e| v("builder-error", e))
}
pub fn obs(hf: &Heightfield) -> Result<Hf, V> {
    Hf::observe(hf).map_err(|e| v("heightfield-malformed", e))
}
pub fn obs_c(c: &CompactHeightfield) -> Result<Ch, V> {
    Ch::observe(c).map_err(|e| v("compact-malformed", e))
}
pub fn obs_m(m: &PolygonNavmesh) -> Result<Pm, V> {
    Pm::observe(m).map_err(|e| v("mesh-malformed", e))
}

/// scene → marked trimesh → filtered heightfield, with the real code
pub fn scene_hf(s: &Scene, c: &Cfg) -> Result<Option<Heightfield>, V> {
    let Some((mn, mx)) = s.aabb() else { return Ok(None) };
    let mut tm = s.to_trimesh();
    tm.mark_walkable_triangles(c.slope);
    let mut hf = hfb(mn, mx, c.cs, c.ch)?;
    if hf.width == 0 || hf.height == 0 {
        return Ok(None);
    }
    hf.rasterize_triangles(&tm, c.wc).map_err(|e| v("raster-error", e))?;
    hf.filter_low_hanging_walkable_obstacles(c.wc);
    hf.filter_ledge_spans(c.wh, c.wc);
    hf.filter_walkable_low_height_spans(c.wh);
    Ok(Some(hf))
}

/// A real compact heightfield (real into_compact), from scenes or directly built fields.
pub fn chf(r: &mut Rng, c: &Cfg, max_dim: i64) -> Result<(CompactHeightfield, String), V> {
    loop {
        let k = r.n(10);
        let (hf, name) = if r.p(0.003) {
            let (h, n) = large_hf(r, c, false);
            (h.to_real(), n)
        } else if r.p(0.03) {
            (stack_hf(r, c).to_real(), "storeys".to_string())
        } else if k < 6 {
            let (h, n) = layered_hf(r, c, max_dim);
            let mut hf = h.to_real();
            if r.p(0.3) {
                hf.filter_ledge_spans(c.wh, c.wc);
            }
            if r.p(0.5) {
                hf.filter_walkable_low_height_spans(c.wh);
            }
            (hf, n)
        } else if k < 7 {
            (random_hf(r, c).to_real(), "random".to_string())
        } else {
            let s = scene(r, c);
            match scene_hf(&s, c)? {
                Some(h) => (h, s.name),
                None => continue,
            }
        };
        match hf.into_compact(c.wh, c.wc) {
            Ok(ch) => return Ok((ch, name)),
            Err(_) => continue,
        }
    }
}
/// chf plus erosion, area marks
pub fn chf_marked(r: &mut Rng, c: &Cfg, max_dim: i64) -> Result<(CompactHeightfield, String), V> {
    let (mut ch, name) = chf(r, c, max_dim)?;
    if c.rad > 0 && r.p(0.7) {
        ch.erode_walkable_area(c.rad);
    }
    if r.p(0.35) {
        for _ in 0..r.r(1, 3) {
            let (vs, y0, y1, a) = volume(r, ch.aabb.min, ch.aabb.max);
            ch.mark_convex_poly_area(ConvexVolume { vertices: vs, min_y: y0, max_y: y1, area: AreaType(a) });
        }
    }
    Ok((ch, name))
}
pub fn chf_regions(r: &mut Rng, c: &Cfg, max_dim: i64) -> Result<(CompactHeightfield, String), V> {
    loop {
        let (mut ch, name) = chf_marked(r, c, max_dim)?;
        if ch.spans.is_empty() {
            return Ok((ch, name));
        }
        ch.build_distance_field();
        let b = border_for(&ch, c);
        match ch.build_regions(b, c.min_area, c.merge_area) {
            Ok(()) => return Ok((ch, name)),
            // that so many spans can be more regions than ids is for R02 to judge
            Err(_) if ch.spans.len() > 32_000 => continue,
            Err(e) => return Err(v("regions-error", e)),
        }
    }
}
/// keeps 2*border inside the field: anything else is not a field with a border
pub fn border_for(ch: &CompactHeightfield, c: &Cfg) -> u16 {
    c.border.min((ch.width.min(ch.height).saturating_sub(1)) / 2)
}
