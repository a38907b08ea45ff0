//! B04: colliders become triangles that trace their surface.
use crate::backends::*;
use crate::fw::*;
use crate::rng::*;
use avian3d::parry::shape::SharedShape;
use avian3d::prelude::*;
use bevy::math::{DVec3, Isometry3d};
use bevy::prelude::*;
use rerecast::{AreaType, TriMesh};

type T3 = [DVec3; 3];
/// what a shape is supposed to look like, in its own words
#[derive(Clone, Debug)]
enum Truth {
    /// closed convex surface: signed distance is in `dist`, size for tolerances, exact volume
    Round { kind: Kind, size: f64, volume: f64 },
    /// exactly these triangles
    Exact(Vec<T3>),
    /// convex hull of these points
    Hull(Vec<DVec3>),
    Nothing,
    Compound(Vec<(Isometry3d, Collider, Truth)>),
}
#[derive(Clone, Debug)]
enum Kind {
    Box(DVec3),
    Ball(f64),
    Capsule(DVec3, DVec3, f64),
    Cylinder(f64, f64),
    Cone(f64, f64),
}
fn seg_dist(p: DVec3, a: DVec3, b: DVec3) -> f64 {
    let d = b - a;
    let t = if d.length_squared() > 0.0 { ((p - a).dot(d) / d.length_squared()).clamp(0.0, 1.0) } else { 0.0 };
    p.distance(a + d * t)
}
fn tri_dist(p: DVec3, t: &T3) -> f64 {
    let n = (t[1] - t[0]).cross(t[2] - t[0]);
    let edges = (0..3).map(|i| seg_dist(p, t[i], t[(i + 1) % 3])).fold(f64::MAX, f64::min);
    let l = n.length();
    if l == 0.0 {
        return edges;
    }
    let inside = (0..3).all(|i| n.dot((t[(i + 1) % 3] - t[i]).cross(p - t[i])) >= 0.0);
    if inside { ((p - t[0]).dot(n) / l).abs() } else { edges }
}
impl Kind {
    /// distance of a point to the surface
    fn dist(&self, p: DVec3) -> f64 {
        match self {
            Kind::Box(h) => {
                let q = p.abs() - *h;
                if q.max_element() <= 0.0 { -q.max_element() } else { q.max(DVec3::ZERO).length() }
            }
            Kind::Ball(r) => (p.length() - r).abs(),
            Kind::Capsule(a, b, r) => (seg_dist(p, *a, *b) - r).abs(),
            Kind::Cylinder(h, r) => {
                // in the half plane (radius, height) the outline is three segments
                let q = DVec3::new(p.x.hypot(p.z), p.y, 0.0);
                let c = [DVec3::new(0.0, *h, 0.0), DVec3::new(*r, *h, 0.0), DVec3::new(*r, -h, 0.0), DVec3::new(0.0, -h, 0.0)];
                (0..3).map(|i| seg_dist(q, c[i], c[i + 1])).fold(f64::MAX, f64::min)
            }
            Kind::Cone(h, r) => {
                let q = DVec3::new(p.x.hypot(p.z), p.y, 0.0);
                let c = [DVec3::new(0.0, *h, 0.0), DVec3::new(*r, -h, 0.0), DVec3::new(0.0, -h, 0.0)];
                (0..2).map(|i| seg_dist(q, c[i], c[i + 1])).fold(f64::MAX, f64::min)
            }
        }
    }
    /// some point on the surface
    fn point(&self, r: &mut Rng) -> DVec3 {
        let dir = |r: &mut Rng| loop {
            let d = DVec3::new(r.fr(-1.0, 1.0) as f64, r.fr(-1.0, 1.0) as f64, r.fr(-1.0, 1.0) as f64);
            if d.length() > 0.1 && d.length() <= 1.0 {
                return d.normalize();
            }
        };
        let ang = r.fr(0.0, std::f32::consts::TAU) as f64;
        let f = r.fr(0.0, 1.0) as f64;
        let round = |q: f64, y: f64| DVec3::new(q * ang.cos(), y, q * ang.sin());
        match self {
            Kind::Box(h) => {
                let mut p = DVec3::new(r.fr(-1.0, 1.0) as f64, r.fr(-1.0, 1.0) as f64, r.fr(-1.0, 1.0) as f64) * *h;
                let k = r.n(3);
                p[k] = if r.p(0.5) { h[k] } else { -h[k] };
                p
            }
            Kind::Ball(q) => dir(r) * *q,
            Kind::Capsule(a, b, q) => {
                let axis = (*b - *a).normalize_or(DVec3::Y);
                let d = dir(r);
                let side = d.dot(axis);
                if r.p(0.5) {
                    // on the caps
                    if side > 0.0 { *b + d * *q } else { *a + d * *q }
                } else {
                    a.lerp(*b, f) + (d - axis * side).normalize_or(axis.any_orthonormal_vector()) * *q
                }
            }
            Kind::Cylinder(h, q) => match r.n(3) {
                0 => round(*q, h * (2.0 * f - 1.0)),
                1 => round(q * f.sqrt(), *h),
                _ => round(q * f.sqrt(), -h),
            },
            Kind::Cone(h, q) => {
                if r.p(0.7) { round(q * (1.0 - f), h * (2.0 * f - 1.0)) } else { round(q * f.sqrt(), -h) }
            }
        }
    }
}
fn pt(r: &mut Rng) -> Vec3 {
    if r.p(0.2) {
        Vec3::new(r.r(-4, 4) as f32, r.r(-4, 4) as f32, r.r(-4, 4) as f32)
    } else {
        Vec3::new(r.fr(-4.0, 4.0), r.fr(-4.0, 4.0), r.fr(-4.0, 4.0))
    }
}
fn d(v: Vec3) -> DVec3 {
    v.as_dvec3()
}
fn shape(r: &mut Rng, nested: bool) -> (Collider, Truth, &'static str) {
    use std::f64::consts::PI;
    let mut q = || if r.p(0.1) { r.r(1, 5) as f32 } else { r.fr(0.05, 5.0) };
    let (x, y, z, b) = (q(), q(), q(), q() * 0.3);
    let (dx, dy, dz) = (x as f64, y as f64, z as f64);
    let boxed = Truth::Round { kind: Kind::Box(DVec3::new(dx, dy, dz) * 0.5), size: dx.max(dy).max(dz), volume: dx * dy * dz };
    let cyl = Truth::Round { kind: Kind::Cylinder(dy * 0.5, dx), size: dx.max(dy), volume: PI * dx * dx * dy };
    let cone = Truth::Round { kind: Kind::Cone(dy * 0.5, dx), size: dx.max(dy), volume: PI * dx * dx * dy / 3.0 };
    match r.n(if nested { 16 } else { 19 }) {
        0 => (Collider::cuboid(x, y, z), boxed, "cuboid"),
        1 => (Collider::round_cuboid(x, y, z, b), boxed, "rounded cuboid"),
        2 => (Collider::sphere(x), Truth::Round { kind: Kind::Ball(dx), size: dx, volume: 4.0 / 3.0 * PI * dx * dx * dx }, "sphere"),
        3 | 4 => {
            let (a, e) = if r.p(0.5) { (Vec3::new(0.0, y * 0.5, 0.0), Vec3::new(0.0, -y * 0.5, 0.0)) } else { (pt(r), pt(r)) };
            let h = d(a).distance(d(e));
            let t = Truth::Round { kind: Kind::Capsule(d(a), d(e), dx), size: dx.max(h), volume: PI * dx * dx * (h + 4.0 / 3.0 * dx) };
            (if r.p(0.5) && a.x == 0.0 && a.z == 0.0 && e.x == 0.0 { Collider::capsule(x, y) } else { Collider::capsule_endpoints(x, a, e) }, t, "capsule")
        }
        5 => (Collider::cylinder(x, y), cyl, "cylinder"),
        6 => (Collider::from(SharedShape::round_cylinder(y * 0.5, x, b)), cyl, "rounded cylinder"),
        7 => (Collider::cone(x, y), cone, "cone"),
        8 => (Collider::from(SharedShape::round_cone(y * 0.5, x, b)), cone, "rounded cone"),
        9 => {
            let t = [pt(r), pt(r), pt(r)];
            let tr = Truth::Exact(vec![t.map(d)]);
            if r.p(0.5) {
                (Collider::triangle(t[0], t[1], t[2]), tr, "triangle")
            } else {
                (Collider::from(SharedShape::round_triangle(t[0].into(), t[1].into(), t[2].into(), b)), tr, "rounded triangle")
            }
        }
        10 if !nested => {
            // now and then more vertices than 16 bits can count
            let n = if r.p(0.02) { r.r(65_530, 100_000) as usize } else { r.r(3, 12) as usize };
            let v: Vec<Vec3> = (0..n).map(|_| pt(r)).collect();
            let ix: Vec<[u32; 3]> = (0..r.r(1, 12)).map(|_| { let a = r.n(n); let b = (a + 1 + r.n(n - 1)) % n; let mut c = r.n(n); while c == a || c == b { c = (c + 1) % n } [a as u32, b as u32, c as u32] }).collect();
            let t = Truth::Exact(ix.iter().map(|i| i.map(|k| d(v[k as usize]))).collect());
            (Collider::trimesh(v, ix), t, "triangle mesh")
        }
        11 if !nested => {
            let (n, m) = (r.r(2, 6) as usize, r.r(2, 6) as usize);
            let h: Vec<Vec<f32>> = (0..n).map(|_| (0..m).map(|_| r.fr(-2.0, 2.0)).collect()).collect();
            let c = Collider::heightfield(h, Vec3::new(x, y, z));
            let t = c.shape().as_heightfield().unwrap().triangles().map(|t| [t.a, t.b, t.c].map(|p| DVec3::new(p.x as f64, p.y as f64, p.z as f64))).collect();
            (c, Truth::Exact(t), "height field")
        }
        12 | 13 => {
            let p: Vec<Vec3> = (0..r.r(4, 14)).map(|_| Vec3::new(r.fr(-4.0, 4.0), r.fr(-4.0, 4.0), r.fr(-4.0, 4.0))).collect();
            let t = Truth::Hull(p.iter().map(|v| d(*v)).collect());
            let q: Vec<_> = p.iter().map(|v| (*v).into()).collect();
            // degenerate hulls are the physics engine's business
            let made = guard("hull", || if r.p(0.5) { Collider::convex_hull(p) } else { SharedShape::round_convex_hull(&q, b).map(Collider::from) });
            match made {
                Ok(Some(c)) => (c, t, "convex hull"),
                _ => (Collider::cuboid(x, y, z), boxed, "cuboid"),
            }
        }
        14 => (Collider::half_space(pt(r).normalize_or(Vec3::Y)), Truth::Nothing, "half space"),
        15 => {
            if r.p(0.5) || nested {
                (Collider::segment(pt(r), pt(r)), Truth::Nothing, "segment")
            } else {
                (Collider::polyline((0..r.r(2, 6)).map(|_| pt(r)).collect(), None), Truth::Nothing, "polyline")
            }
        }
        10 | 11 => (Collider::cuboid(x, y, z), boxed, "cuboid"),
        _ => {
            let mut kids = vec![];
            for _ in 0..r.r(1, 5) {
                let (c, t, _) = shape(r, true);
                let rot = match r.n(3) {
                    0 => Quat::IDENTITY,
                    1 => Quat::from_rotation_y(r.fr(-3.0, 3.0)),
                    _ => Quat::from_euler(EulerRot::XYZ, r.fr(-3.0, 3.0), r.fr(-3.0, 3.0), r.fr(-3.0, 3.0)),
                };
                let p = if r.p(0.2) { Vec3::ZERO } else { pt(r) };
                kids.push((Isometry3d::new(p, rot), c, t));
            }
            let parts: Vec<(Position, Rotation, Collider)> =
                kids.iter().map(|(i, c, _)| (Position(Vec3::from(i.translation)), Rotation(i.rotation), c.clone())).collect();
            (Collider::compound(parts), Truth::Compound(kids), "compound")
        }
    }
}
fn tris(t: &TriMesh) -> Result<Vec<T3>, V> {
    for i in &t.indices {
        ensure!(i.to_array().iter().all(|k| (*k as usize) < t.vertices.len()), "bad-index", "triangle {i:?} with {} vertices", t.vertices.len());
    }
    Ok(t.indices.iter().map(|i| i.to_array().map(|k| DVec3::from_array(t.vertices[k as usize].to_array().map(|x| x as f64)))).collect())
}
/// each wanted triangle once, corner order kept up to rotation
fn same(what: &str, got: &[T3], want: &[T3], eps: f64) -> R {
    ensure!(got.len() == want.len(), "triangle-count", "{what}: {} triangles, {} expected", got.len(), want.len());
    let mut used = vec![false; got.len()];
    for (k, w) in want.iter().enumerate() {
        // usually at the same place
        let hit = std::iter::once(k).chain(0..got.len()).find(|g| {
            !used[*g] && (0..3).any(|s| (0..3).all(|c| got[*g][(c + s) % 3].distance(w[c]) <= eps))
        });
        let Some(h) = hit else { bail!("triangle-lost", "{what}: no triangle {w:?}") };
        used[h] = true;
    }
    Ok(())
}
fn backend(c: Collider) -> Result<Option<TriMesh>, V> {
    let mut a = App::new();
    a.add_plugins(TaskPoolPlugin::default());
    a.add_plugins(avian_rerecast::AvianRerecastPlugin::default());
    let e = a.world_mut().spawn((RigidBody::Static, c, GlobalTransform::IDENTITY)).id();
    a.world_mut().entity_mut(e).insert(ColliderOf { body: e });
    let mut o = run_backend(&mut a)?;
    ensure!(o.len() <= 1, "affectors", "{} affectors for one collider", o.len());
    Ok(o.pop().map(|x| x.1))
}
fn check(what: &str, got: Option<TriMesh>, truth: &Truth, r: &mut Rng) -> Result<usize, V> {
    let Some(t) = got else {
        let nothing = match truth {
            Truth::Nothing => true,
            Truth::Compound(k) => k.iter().all(|k| matches!(k.2, Truth::Nothing)),
            _ => false,
        };
        ensure!(nothing, "missing", "{what} gives no triangles");
        return Ok(0);
    };
    ensure!(t.area_types.len() == t.indices.len() && t.area_types.iter().all(|a| *a == AreaType::NOT_WALKABLE), "areas", "{what}: area types do not match the triangles or are walkable");
    let g = tris(&t)?;
    match truth {
        Truth::Nothing => bail!("unsupported", "{what} has no surface to stand on, yet gives {} triangles", g.len()),
        Truth::Exact(w) => same(what, &g, w, 0.0)?,
        Truth::Round { kind, size, volume } => {
            let eps = 2e-5 * size + if let Kind::Capsule(a, b, _) = kind { 2e-6 * a.abs().max(b.abs()).max_element() } else { 0.0 };
            for v in g.iter().flatten() {
                ensure!(kind.dist(*v) <= eps, "off-surface", "{what} {kind:?}: vertex {v} is {} off the surface", kind.dist(*v));
            }
            closed(what, &g, eps, 1e-9)?;
            let vol: f64 = g.iter().map(|t| t[0].dot(t[1].cross(t[2])) / 6.0).sum();
            let exact = matches!(kind, Kind::Box(_));
            let lo = if exact { 0.9999 } else { 0.8 };
            ensure!(vol >= lo * volume && vol <= 1.0001 * volume, "volume", "{what} {kind:?}: the mesh holds {vol}, the shape {volume}");
            let round = match kind {
                Kind::Box(_) => 0.0,
                Kind::Ball(r) | Kind::Capsule(_, _, r) => 0.11 * r,
                Kind::Cylinder(_, r) | Kind::Cone(_, r) => 0.055 * r,
            };
            for _ in 0..30 {
                let p = kind.point(r);
                let off = g.iter().map(|t| tri_dist(p, t)).fold(f64::MAX, f64::min);
                ensure!(off <= round + eps, "uncovered", "{what} {kind:?}: the mesh stays {off} away from the surface point {p}");
            }
        }
        Truth::Hull(p) => {
            for v in g.iter().flatten() {
                ensure!(p.contains(v), "off-surface", "{what}: vertex {v} is not one of the points");
            }
            // a hull of points in nearly one plane may come out either way round
            closed(what, &g, 1e-9, 1.0)?;
            // it reaches as far as the points do in every direction (the hull itself is the physics engine's, to its precision)
            for _ in 0..40 {
                let n = DVec3::new(r.fr(-1.0, 1.0) as f64, r.fr(-1.0, 1.0) as f64, r.fr(-1.0, 1.0) as f64).normalize_or(DVec3::Y);
                let far = |q: &mut dyn Iterator<Item = &DVec3>| q.map(|v| v.dot(n)).fold(f64::MIN, f64::max);
                let (a, b) = (far(&mut p.iter()), far(&mut g.iter().flatten()));
                ensure!((a - b).abs() <= 0.05, "not-convex", "{what}: towards {n} the points reach {a}, the mesh {b}");
            }
        }
        Truth::Compound(kids) => {
            let mut want = vec![];
            for (k, (i, c, truth)) in kids.iter().enumerate() {
                let m = backend(c.clone())?;
                if let Some(m) = m {
                    want.extend(tris(&m)?.iter().map(|t| t.map(|v| i.rotation.as_dquat() * v + Vec3::from(i.translation).as_dvec3())));
                    check(&format!("{what}, part {k}"), Some(m), truth, r)?;
                } else {
                    check(&format!("{what}, part {k}"), None, truth, r)?;
                }
            }
            same(what, &g, &want, 1e-4)?;
        }
    }
    Ok(g.len())
}
/// every edge is used once in each direction, corners matched by position; and the faces look outward
fn closed(what: &str, g: &[T3], eps: f64, slack: f64) -> R {
    let mut pts: Vec<DVec3> = vec![];
    let mut id = |p: DVec3| {
        pts.iter().position(|q| q.distance(p) <= 2.0 * eps).unwrap_or_else(|| {
            pts.push(p);
            pts.len() - 1
        })
    };
    let t: Vec<[usize; 3]> = g.iter().map(|t| t.map(&mut id)).collect();
    let mut edges = std::collections::HashMap::<(usize, usize), i32>::new();
    for t in &t {
        for i in 0..3 {
            let (a, b) = (t[i], t[(i + 1) % 3]);
            if a < b {
                *edges.entry((a, b)).or_default() += 1;
            } else if b < a {
                *edges.entry((b, a)).or_default() -= 1;
            }
        }
    }
    ensure!(edges.values().all(|x| *x == 0), "open", "{what}: the surface has holes or faces that look the wrong way");
    let vol: f64 = g.iter().map(|t| t[0].dot(t[1].cross(t[2])) / 6.0).sum();
    ensure!(vol >= -slack, "inside-out", "{what}: the surface is inside out");
    Ok(())
}
pub fn b04(cx: &mut Ctx) -> R {
    let (c, truth, what) = shape(&mut cx.r, false);
    let got = guard("the collider backend", || backend(c))??;
    let has = got.is_some();
    let fp = got.as_ref().map(|t| {
        let mut f = Fnv::new();
        t.vertices.iter().for_each(|v| v.to_array().iter().for_each(|x| f.u(x.to_bits() as u64)));
        f.0
    });
    let n = check(what, got, &truth, &mut cx.r)?;
    cx.add(what, 1);
    cx.add("triangles", n);
    if let Some(f) = fp.filter(|_| n > 0) {
        cx.seen(f);
    }
    if !has {
        cx.add("without_surface", 1);
    }
    cx.sample(|| format!("{what}: {n} triangles"));
    Ok(())
}
