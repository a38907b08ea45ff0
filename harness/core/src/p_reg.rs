//! Monitors for the distance field and the watershed regions (R01-R03).
use crate::fw::*;
use crate::r#gen::*;
use crate::model::*;
use crate::pipe::*;
use crate::refvox as rf;
use crate::rng::*;
use crate::{bail, ensure};
use rerecast::*;

/// R01: distance to the nearest area boundary and its smoothing.
pub fn r01(cx: &mut Ctx) -> R {
    let c = cfg(&mut cx.r);
    let dim = if cx.r.p(0.15) { 90 } else { 30 };
    let (mut ch, name) = chf_marked(&mut cx.r, &c, dim)?;
    if cx.r.p(0.008) {
        let hf = if cx.r.p(0.02) {
            // open so far that distances exceed a thousand cells
            let mut hf = Hf::empty(cx.r.r(1030, 1200) as usize, cx.r.r(1030, 1200) as usize, c.cs, c.ch, 1.0);
            hf.cols.fill(vec![Sp { min: 0, max: 1, area: 255 }]);
            hf
        } else {
            large_hf(&mut cx.r, &c, true).0
        };
        ch = hf.to_real().into_compact(c.wh, c.wc).map_err(|e| v("compact-error", e))?;
    } else if cx.r.p(0.02) {
        // no walkable space at all
        ch = Hf::empty(5, 4, c.cs, c.ch, 1.0).to_real().into_compact(c.wh, c.wc).map_err(|e| v("compact-error", e))?;
    }
    let before = obs_c(&ch)?;
    guard("build_distance_field", || ch.build_distance_field())?;
    let o = obs_c(&ch)?;
    ensure!(o.dist.len() == o.n(), "dist-missing", "{} distances for {} spans", o.dist.len(), o.n());
    let raw = rf::raw_dist(&before);
    let exact = {
        let seed: Vec<u32> = (0..before.n())
            .map(|i| if (0..4).filter(|&d| before.nb[i][d].is_some_and(|j| before.area[j] == before.area[i])).count() < 4 { 0 } else { rf::FAR })
            .collect();
        rf::chamfer_exact(&before, &seed)
    };
    let blur = rf::blur(&before, &raw);
    let max = raw.iter().copied().max().unwrap_or(0);
    ensure!(o.max_dist as u32 == max, "max-distance", "max_distance {} but the largest distance is {max}", o.max_dist);
    let mut inner = 0;
    for i in 0..o.n() {
        ensure!(
            o.dist[i] == blur[i],
            "distance",
            "span ({},{}) y={} area={}: distance {} expected {} (unsmoothed {})",
            o.x[i],
            o.z[i],
            o.y[i],
            o.area[i],
            o.dist[i],
            blur[i],
            raw[i]
        );
        // independent of how the passes run: never below the true chamfer distance of its surroundings,
        // zero exactly on boundary spans
        if exact[i] == 0 {
            ensure!(o.dist[i] == 0, "boundary-distance", "boundary span ({},{}) has distance {}", o.x[i], o.z[i], o.dist[i]);
        } else {
            ensure!(o.dist[i] > 0, "inner-distance", "inner span ({},{}) has distance 0", o.x[i], o.z[i]);
            inner += 1;
        }
    }
    let mut o2 = o.clone();
    o2.dist = before.dist.clone();
    o2.max_dist = before.max_dist;
    ensure!(o2 == before, "distance-side-effect", "building the distance field changed something else");
    cx.add("spans", o.n());
    cx.add("inner_spans", inner);
    cx.max("max_distance_seen", max as usize);
    if inner > 0 && max > 2 {
        cx.seen(o.fingerprint());
        cx.sample(|| format!("{name} {}x{}: {} spans, {inner} inner, max distance {max}", o.w, o.h, o.n()));
    }
    Ok(())
}

struct Reg {
    before: Ch,
    o: Ch,
    m: Ch,
    overlaps: usize,
    name: String,
    c: Cfg,
}
/// Now and then a field of unusual size or shape.
fn special(cx: &mut Ctx, c: &Cfg, ch: &mut CompactHeightfield, name: &mut String) -> R {
    let r = &mut cx.r;
    let (hf, n) = if r.p(0.0008) {
        (winding_hf(r, c), "winding".to_string())
    } else if r.p(0.0008) {
        large_hf(r, c, true)
    } else if r.p(0.004) {
        (checkers_hf(r, c, 50), "checkers".to_string())
    } else if r.p(0.004) {
        (helix_hf(r, c), "helix".to_string())
    } else if r.p(0.0015) {
        (slabs_hf(r, c), "slabs".to_string())
    } else if r.p(0.02) {
        let (w, h) = (r.r(20, 70) as usize, r.r(20, 70) as usize);
        (pillars_hf(r, c, w, h), "pillars".to_string())
    } else {
        return Ok(());
    };
    *name = n;
    *ch = hf.to_real().into_compact(c.wh, c.wc).map_err(|e| v("compact-error", e))?;
    Ok(())
}
/// None: more regions than ids, reported as such.
fn regions_case(cx: &mut Ctx) -> Result<Option<Reg>, V> {
    let c = cfg(&mut cx.r);
    let dim = if cx.r.p(0.1) { 80 } else { 34 };
    let (mut ch, mut name) = chf_marked(&mut cx.r, &c, dim)?;
    special(cx, &c, &mut ch, &mut name)?;
    guard("build_distance_field", || ch.build_distance_field())?;
    if cx.r.p(0.0001) {
        name = "speckle".into();
        ch = speckle_hf(&mut cx.r, &c).to_real().into_compact(c.wh, c.wc).map_err(|e| v("compact-error", e))?;
        ch.build_distance_field();
    }
    // sometimes a border that leaves nothing inside, or is wider than the field
    let b = if cx.r.p(0.15) { cx.r.r(1, ch.width.max(ch.height) as i64 + 4) as u16 } else { border_for(&ch, &c) };
    let before = obs_c(&ch)?;
    let res = guard("build_regions", || ch.build_regions(b, c.min_area, c.merge_area).map_err(|e| format!("{e}")))?;
    let mut m = before.clone();
    let overlaps = rf::regions(&mut m, b as usize, c.min_area, c.merge_area);
    if let Err(e) = res {
        ensure!(overlaps == rf::TOO_MANY, "regions-error", "build_regions failed: {e}");
        return Ok(None);
    }
    ensure!(overlaps != rf::TOO_MANY, "regions-overflow", "more than 32767 regions, of which the ids beyond are taken for borders ({name})");
    let o = obs_c(&ch)?;
    Ok(Some(Reg { before, o, m, overlaps, name, c }))
}
fn side_effects(q: &Reg) -> R {
    let mut o2 = q.o.clone();
    o2.reg = q.before.reg.clone();
    o2.max_reg = q.before.max_reg;
    ensure!(o2.border == q.m.border, "border-size", "border_size recorded as {}, given {}", o2.border, q.m.border);
    o2.border = q.before.border;
    ensure!(o2 == q.before, "regions-side-effect", "building regions changed something else");
    Ok(())
}

/// R02: partition structure.
pub fn r02(cx: &mut Ctx) -> R {
    let Some(q) = regions_case(cx)? else {
        cx.add("too_many_regions_refused", 1);
        return Ok(());
    };
    side_effects(&q)?;
    let o = &q.o;
    let n = o.n();
    let border = o.border;
    let mut spans_of: Vec<Vec<usize>> = vec![vec![]; o.max_reg as usize + 1];
    for i in 0..n {
        let r = o.reg[i];
        if o.area[i] == 0 {
            ensure!(r == 0, "region-on-unwalkable", "unwalkable span ({},{}) belongs to region {r}", o.x[i], o.z[i]);
            continue;
        }
        let inb = border > 0 && (o.x[i] < border || o.z[i] < border || o.x[i] + border >= o.w || o.z[i] + border >= o.h);
        ensure!((r & rf::BORDER != 0) == inb, "border-region", "span ({},{}) of a {}x{} field with border {border} has region {r:#x}", o.x[i], o.z[i], o.w, o.h);
        if inb {
            continue;
        }
        ensure!(r <= o.max_reg, "region-id", "region {r} exceeds max_region {}", o.max_reg);
        spans_of[r as usize].push(i);
    }
    // each region: a single area type
    for (r, s) in spans_of.iter().enumerate().skip(1) {
        if let Some(&f) = s.first() {
            ensure!(s.iter().all(|&i| o.area[i] == o.area[f]), "region-areas", "region {r} mixes area types");
        }
    }
    // same partition as the reference watershed (ids up to renaming)
    compare_partition(&q)?;
    let used = spans_of.iter().skip(1).filter(|s| !s.is_empty()).count();
    cx.add("spans", n);
    cx.add("regions", used);
    cx.add("overlapping_reference_regions", q.overlaps);
    if used > 1 {
        cx.seen(o.fingerprint());
        cx.sample(|| format!("{} {}x{} border {border} min {} merge {}: {used} regions over {n} spans", q.name, o.w, o.h, q.c.min_area, q.c.merge_area));
    }
    Ok(())
}
fn compare_partition(q: &Reg) -> R {
    use std::collections::HashMap;
    let (o, m) = (&q.o, &q.m);
    let (mut f, mut g): (HashMap<u16, u16>, HashMap<u16, u16>) = Default::default();
    for i in 0..o.n() {
        let (a, b) = (o.reg[i], m.reg[i]);
        let special = |k: u16| k == 0 || k & rf::BORDER != 0;
        if special(a) || special(b) {
            ensure!(
                (a == 0) == (b == 0) && (a & rf::BORDER) == (b & rf::BORDER),
                "region-membership",
                "span ({},{}) y={} area {}: region {a:#x}, expected {b:#x} (min {} merge {} border {})",
                o.x[i],
                o.z[i],
                o.y[i],
                o.area[i],
                q.c.min_area,
                q.c.merge_area,
                o.border
            );
            continue;
        }
        let x = *f.entry(a).or_insert(b);
        let y = *g.entry(b).or_insert(a);
        ensure!(
            x == b && y == a,
            "region-partition",
            "span ({},{}) y={}: region {a} corresponds to reference regions {x} and {b} / reference region {b} to {y} and {a} (min {} merge {} border {}, {}x{} {})",
            o.x[i],
            o.z[i],
            o.y[i],
            q.c.min_area,
            q.c.merge_area,
            o.border,
            o.w,
            o.h,
            q.name
        );
    }
    Ok(())
}

/// 4-connected components of spans by link, restricted by a predicate on pairs.
fn components(o: &Ch, ok: impl Fn(usize, usize) -> bool, inn: impl Fn(usize) -> bool) -> Vec<Vec<usize>> {
    let n = o.n();
    let mut radj: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..n {
        for d in 0..4 {
            if let Some(j) = o.nb[i][d] {
                if inn(i) && inn(j) && ok(i, j) {
                    radj[i].push(j);
                    radj[j].push(i);
                }
            }
        }
    }
    let mut seen = vec![false; n];
    let mut out = vec![];
    for i in 0..n {
        if seen[i] || !inn(i) {
            continue;
        }
        let mut st = vec![i];
        seen[i] = true;
        let mut c = vec![];
        while let Some(k) = st.pop() {
            c.push(k);
            for &j in &radj[k] {
                if !seen[j] {
                    seen[j] = true;
                    st.push(j);
                }
            }
        }
        out.push(c);
    }
    out
}

/// R03: what removal and merging may and may not do.
pub fn r03(cx: &mut Ctx) -> R {
    let c = cfg(&mut cx.r);
    let dim = if cx.r.p(0.1) { 70 } else { 30 };
    let (mut ch, mut name) = chf_marked(&mut cx.r, &c, dim)?;
    special(cx, &c, &mut ch, &mut name)?;
    guard("build_distance_field", || ch.build_distance_field())?;
    // sometimes a border that leaves nothing inside, or is wider than the field
    let b = if cx.r.p(0.15) { cx.r.r(1, ch.width.max(ch.height) as i64 + 4) as u16 } else { border_for(&ch, &c) };
    let before = obs_c(&ch)?;
    let go = |min: u16, merge: u16| -> Result<Ch, V> {
        let mut k = before.to_real();
        guard("build_regions", || k.build_regions(b, min, merge).map_err(|e| v("regions-error", format!("{e}"))))??;
        obs_c(&k)
    };
    let base = match go(0, 0) {
        // that so many spans can be more regions than ids is for R02 to judge
        Err(_) if before.n() > 32_000 && rf::regions(&mut before.clone(), b as usize, 0, 0) == rf::TOO_MANY => {
            cx.add("too_many_regions_refused", 1);
            return Ok(());
        }
        x => x?,
    };
    // without removal nothing walkable outside the border is dropped
    let inner = |i: usize| before.area[i] != 0 && base.reg[i] & rf::BORDER == 0;
    let groups = components(&before, |_, _| true, inner);
    let touching = |g: &Vec<usize>| g.iter().any(|&i| (0..4).any(|d| before.nb[i][d].is_some_and(|j| base.reg[j] & rf::BORDER != 0)));
    for g in &groups {
        // a field in which every span is a boundary span has no basins, hence no regions at all; spans
        // next to the border strip may be left to it
        if before.max_dist > 0 && !touching(g) {
            for &i in g {
                ensure!(base.reg[i] != 0, "region-lost", "walkable span ({},{}) has no region although min_region_area is 0", before.x[i], before.z[i]);
            }
        }
    }
    let (mut min, mut merge) = (*cx.r.pick(&[0u16, 1, 4, 9, 20, 64, 150, 1000, 65535]), *cx.r.pick(&[0u16, 0, 10, 60, 400, 5000, 65535]));
    // limits exactly at the size of an island or region, or next to it
    if !groups.is_empty() && cx.r.p(0.3) {
        let k = cx.r.n(groups.len());
        min = (groups[k].len() as i64 + cx.r.r(-1, 1)).clamp(0, 65535) as u16;
    }
    if base.max_reg > 0 && cx.r.p(0.3) {
        let id = cx.r.r(1, base.max_reg as i64) as u16;
        let n = (0..before.n()).filter(|&i| base.reg[i] == id).count();
        merge = (n as i64 + cx.r.r(-1, 1)).clamp(0, 65535) as u16;
    }
    let got = go(min, merge)?;
    let mut m = before.clone();
    rf::regions(&mut m, b as usize, min, merge);
    let q = Reg { before: before.clone(), o: got.clone(), m, overlaps: 0, name, c: Cfg { min_area: min, merge_area: merge, ..c } };
    side_effects(&q)?;
    compare_partition(&q)?;
    // a whole island (spans mutually reachable) of at least min_region_area spans of one region is
    // never removed, and merging never loses spans
    let mut removed = 0;
    let mut merged = 0;
    let mut small = 0;
    for g in &groups {
        let touches_border = touching(g);
        let gone = g.iter().filter(|&&i| got.reg[i] == 0).count();
        removed += gone;
        if g.len() < min as usize && !touches_border {
            small += 1;
            ensure!(gone == g.len(), "small-island-kept", "an isolated island of {} spans (at ({},{})) survives min_region_area {min}", g.len(), before.x[g[0]], before.z[g[0]]);
        }
    }
    // regions at least as large as the minimum are kept whole
    let mut size = vec![0usize; base.max_reg as usize + 1];
    for i in 0..before.n() {
        if inner(i) {
            size[base.reg[i] as usize] += 1;
        }
    }
    for i in 0..before.n() {
        if inner(i) && got.reg[i] == 0 && base.reg[i] != 0 {
            ensure!(size[base.reg[i] as usize] < min as usize, "large-region-lost", "span ({},{}) of a region with {} spans was removed by min_region_area {min}", before.x[i], before.z[i], size[base.reg[i] as usize]);
        }
    }
    // merged regions keep a single area type and lie in one island
    {
        let mut of: Vec<Vec<usize>> = vec![vec![]; got.max_reg as usize + 1];
        let mut base_ids: Vec<std::collections::HashSet<u16>> = vec![Default::default(); got.max_reg as usize + 1];
        for i in 0..before.n() {
            if inner(i) && got.reg[i] != 0 {
                of[got.reg[i] as usize].push(i);
                base_ids[got.reg[i] as usize].insert(base.reg[i]);
            }
        }
        let mut group = vec![usize::MAX; before.n()];
        for (k, g) in groups.iter().enumerate() {
            g.iter().for_each(|&i| group[i] = k);
        }
        for (r, s) in of.iter().enumerate() {
            if let Some(&f) = s.first() {
                ensure!(s.iter().all(|&i| before.area[i] == before.area[f]), "merge-areas", "region {r} mixes area types");
                ensure!(s.iter().all(|&i| group[i] == group[f]), "merge-islands", "region {r} spans unconnected islands");
            }
            merged += base_ids[r].len().saturating_sub(1);
        }
    }
    cx.add("spans", before.n());
    cx.add("islands", groups.len());
    cx.add("small_islands", small);
    cx.add("removed_spans", removed);
    cx.add("merged_regions", merged);
    if removed > 0 || merged > 0 {
        cx.seen(got.fingerprint());
        cx.sample(|| format!("{} {}x{}: min {min} removed {removed} spans, merge {merge} merged {merged} regions", q.name, before.w, before.h));
    }
    Ok(())
}
