//! C01: world measures → cell counts. Needs the `rerecast_hooks` accessor, the fields are private.
use crate::fw::*;
use crate::rng::*;
use crate::ensure;
use glam::Vec3;
use rerecast::*;

const E: f64 = 4.0 / (1u64 << 23) as f64;
/// the smallest whole number not below q, up to the rounding of one f32 division
fn is_ceil(n: u16, q: f64) -> bool {
    (n as f64) >= q * (1.0 - E) && (n as f64) - 1.0 < q * (1.0 + E)
}
fn is_floor(n: u16, q: f64) -> bool {
    (n as f64) <= q * (1.0 + E) && (n as f64) + 1.0 > q * (1.0 - E)
}

pub fn c01(c: &mut Ctx) -> R {
    let r = &mut c.r;
    let default = r.p(0.02);
    let cs = if r.p(0.4) { *r.pick(&[0.05f32, 0.1, 0.125, 0.2, 0.25, 0.3, 0.5, 1.0, 2.0]) } else { r.fr(0.05, 4.0) };
    let ch = if r.p(0.4) { *r.pick(&[0.05f32, 0.1, 0.125, 0.2, 0.25, 0.3, 0.5, 1.0, 2.0]) } else { r.fr(0.05, 4.0) };
    // measures that are whole multiples of a cell, just beside one, or anything
    fn measure(r: &mut Rng, cell: f32, max: f64) -> f32 {
        match r.n(5) {
            0 => cell * r.n(12) as f32,
            1 => (cell * r.n(12) as f32) * (1.0 + 1e-5),
            2 => (cell * r.n(12) as f32) * (1.0 - 1e-5),
            3 => r.fr(0.0, (max * 40.0) as f32),
            _ => r.fr(0.0, max as f32),
        }
    }
    let h = measure(r, ch, 4.0);
    let rad = measure(r, cs, 3.0);
    let climb = measure(r, ch, 2.0);
    let slope = r.fr(0.0, 1.5);
    let rmin = if r.p(0.5) { r.n(30) as f32 } else { r.fr(0.0, 60.0) };
    let rmerge = if r.p(0.5) { r.n(60) as f32 } else { r.fr(0.0, 120.0) };
    let edge = measure(r, cs, 30.0);
    let err = r.fr(0.0, 5.0);
    let nvp = r.r(3, 14) as f32;
    let sd = match r.n(4) {
        0 => 0.0,
        1 => *r.pick(&[0.9f32, 0.89, 0.91, 0.8999, 1.0]),
        _ => r.fr(0.0, 20.0),
    };
    let se = r.fr(0.0, 4.0);
    let tile = *r.pick(&[0u16, 1, 16, 32, 48, 100, 1000, 20000]);
    let tiling = r.p(0.5);
    let mn = Vec3::new(r.fr(-200.0, 200.0), r.fr(-50.0, 50.0), r.fr(-200.0, 200.0));
    let mx = mn + Vec3::new(measure(r, cs, 25.0), r.fr(0.0, 50.0), measure(r, cs, 25.0));
    let aabb = Aabb3d { min: mn, max: mx };
    let flags = BuildContoursFlags::from_bits_truncate(r.n(4) as u8);
    #[cfg(rerecast_hooks)]
    let b = NavmeshConfigBuilder::hook_new([cs, ch, h, rad, climb, slope, rmin, rmerge, edge, err, nvp, sd, se], tile, tiling, aabb, flags);
    #[cfg(not(rerecast_hooks))]
    let b = NavmeshConfigBuilder::default();
    if default || cfg!(not(rerecast_hooks)) {
        // an adult human, in metres
        let d = NavmeshConfigBuilder::default().build();
        let near = |a: f64, b: f64| (a - b).abs() < 1e-5;
        ensure!(near(d.cell_size as f64, 0.3) && near(d.cell_height as f64, 0.2), "default-cells", "cells {} {}", d.cell_size, d.cell_height);
        ensure!(d.walkable_height == 10 && d.walkable_climb == 4 && d.walkable_radius == 2, "default-agent", "{d:?}");
        ensure!(near(d.walkable_slope_angle as f64, std::f64::consts::FRAC_PI_4), "default-agent", "{d:?}");
        ensure!(d.min_region_area == 64 && d.merge_region_area == 400 && (39..=40).contains(&d.max_edge_len), "default-regions", "{d:?}");
        ensure!(near(d.max_simplification_error as f64, 1.3) && d.max_vertices_per_polygon == 6, "default-contours", "{d:?}");
        ensure!(near(d.detail_sample_dist as f64, 1.8) && near(d.detail_sample_max_error as f64, 0.2), "default-detail", "{d:?}");
        ensure!(d.width == 0 && d.height == 0 && d.contour_flags == BuildContoursFlags::default(), "default-field", "{d:?}");
        c.add("defaults", 1);
        if cfg!(not(rerecast_hooks)) {
            c.seen(c.case);
            return Ok(());
        }
    }
    let k = b.build();
    let (fcs, fch) = (cs as f64, ch as f64);
    ensure!(is_ceil(k.walkable_height, h as f64 / fch), "height-cells", "agent height {h} at {ch} → {} cells", k.walkable_height);
    ensure!(is_ceil(k.walkable_radius, rad as f64 / fcs), "radius-cells", "agent radius {rad} at {cs} → {} cells", k.walkable_radius);
    ensure!(is_floor(k.walkable_climb, climb as f64 / fch), "climb-cells", "agent climb {climb} at {ch} → {} cells", k.walkable_climb);
    ensure!(is_floor(k.max_edge_len, edge as f64 / fcs), "edge-cells", "edge length {edge} at {cs} → {} cells", k.max_edge_len);
    ensure!(is_floor(k.min_region_area, rmin as f64 * rmin as f64), "region-cells", "region size {rmin} → {} cells", k.min_region_area);
    ensure!(is_floor(k.merge_region_area, rmerge as f64 * rmerge as f64), "merge-cells", "merge size {rmerge} → {} cells", k.merge_region_area);
    ensure!(k.border_size as u32 == k.walkable_radius as u32 + 3, "border", "radius {} cells, border {}", k.walkable_radius, k.border_size);
    ensure!(k.cell_size == cs && k.cell_height == ch && k.walkable_slope_angle == slope && k.max_simplification_error == err, "carried", "{k:?}");
    ensure!(k.max_vertices_per_polygon as f32 == nvp && k.tile_size == tile && k.aabb == aabb && k.contour_flags == flags, "carried", "{k:?}");
    if tiling {
        let w = tile as u32 + 2 * k.border_size as u32;
        ensure!(k.width as u32 == w && k.height as u32 == w, "tile-cells", "tile {tile} with border {} → {}x{}", k.border_size, k.width, k.height);
    } else {
        // the same grid as the field built from these bounds
        if k.width as u64 * k.height as u64 > 1 << 18 {
            // only the extent is judged, the field itself would be large
        } else if let Ok(f) = (HeightfieldBuilder { aabb, cell_size: cs, cell_height: ch }).build()
        {
            ensure!(k.width == f.width && k.height == f.height, "field-cells", "{}x{} but the field is {}x{}", k.width, k.height, f.width, f.height);
            c.add("fields_built", 1);
        }
        for (n, e) in [(k.width, mx.x as f64 - mn.x as f64), (k.height, mx.z as f64 - mn.z as f64)] {
            let q = e / fcs;
            if q > 65534.0 {
                continue;
            }
            let tol = 0.5 + (mn.abs().max_element().max(mx.abs().max_element()) as f64 / fcs + q + 1.0) * E;
            ensure!((n as f64 - q).abs() <= tol, "field-cells", "extent of {q} cells → {n}");
        }
    }
    let want = if sd < 0.9 { 0.0 } else { fcs * sd as f64 };
    ensure!((k.detail_sample_dist as f64 - want).abs() <= want * E, "sample-dist", "{sd} cells of {cs} → {}", k.detail_sample_dist);
    let want = fch * se as f64;
    ensure!((k.detail_sample_max_error as f64 - want).abs() <= want * E, "sample-error", "{se} cells of {ch} → {}", k.detail_sample_max_error);
    if k.walkable_radius > 0 && k.walkable_climb > 0 {
        c.add("configurations", 1);
        c.add(if tiling { "tiles" } else { "fields" }, 1);
        let mut f = Fnv::new();
        for x in [k.walkable_height, k.walkable_radius, k.walkable_climb, k.width, k.height, k.max_edge_len] {
            f.u(x as u64);
        }
        c.seen(f.0);
        c.sample(|| format!("height {h} radius {rad} climb {climb} at {cs}/{ch} → {} {} {} cells", k.walkable_height, k.walkable_radius, k.walkable_climb));
    }
    Ok(())
}
