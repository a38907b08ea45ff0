//! B02, B03: what the affector backends hand out, over histories of world edits.
use crate::fw::*;
use crate::gens::*;
use crate::rng::*;
use avian3d::prelude::*;
use bevy::asset::AssetPlugin;
use bevy::prelude::*;
use bevy::render::mesh::{PrimitiveTopology, VertexAttributeValues};
use bevy::transform::TransformPlugin;
use bevy_rerecast_core::{Mesh3dNavmeshPlugin, NavmeshAffectorBackend, NavmeshApp as _};
use rerecast::{AreaType, TriMesh};

pub type Aff = Vec<(GlobalTransform, TriMesh)>;

pub fn gt_bits(g: &GlobalTransform) -> [u32; 12] {
    g.affine().to_cols_array().map(f32::to_bits)
}
pub fn app() -> App {
    let mut a = App::new();
    a.add_plugins((TaskPoolPlugin::default(), AssetPlugin::default(), TransformPlugin));
    a.init_asset::<Mesh>();
    a
}
pub fn run_backend(a: &mut App) -> Result<Aff, V> {
    let Some(b) = a.world().get_resource::<NavmeshAffectorBackend>().cloned() else { bail!("no-backend", "a backend was set but none is registered") };
    match guard("the backend", || a.world_mut().run_system(*b))? {
        Ok(x) => Ok(x),
        Err(e) => bail!("backend-failed", "{e}"),
    }
}
/// transform, vertices, triangles
pub type Key = ([u32; 12], Vec<[u32; 3]>, Vec<[u32; 3]>);
pub fn key(g: &GlobalTransform, t: &TriMesh) -> Key {
    (gt_bits(g), t.vertices.iter().map(|v| v.to_array().map(f32::to_bits)).collect(), t.indices.iter().map(|i| i.to_array()).collect())
}
/// what a mesh asset must become, worked out from the asset itself
pub fn expected_tri(m: &Mesh) -> Option<(Vec<[u32; 3]>, Vec<[u32; 3]>)> {
    if m.primitive_topology() != PrimitiveTopology::TriangleList {
        return None;
    }
    let Some(VertexAttributeValues::Float32x3(p)) = m.attribute(Mesh::ATTRIBUTE_POSITION) else { return None };
    let (_, ix) = idx(m)?;
    if ix.len() % 3 != 0 {
        return None;
    }
    Some((p.iter().map(|v| v.map(f32::to_bits)).collect(), ix.chunks(3).map(|c| [c[0], c[1], c[2]]).collect()))
}
pub fn compare(what: &str, got: &Aff, want: &[Key]) -> R {
    let mut g: Vec<Key> = got.iter().map(|(g, t)| key(g, t)).collect();
    let mut w = want.to_vec();
    g.sort();
    w.sort();
    for (_, t) in got {
        ensure!(t.area_types.len() == t.indices.len() && t.area_types.iter().all(|a| *a == AreaType::NOT_WALKABLE), "areas", "{what}: area types do not match the triangles or are walkable");
    }
    if g != w {
        let extra = g.iter().filter(|x| w.binary_search(x).is_err()).count();
        let lost = w.iter().filter(|x| g.binary_search(x).is_err()).count();
        bail!("affectors", "{what}: {} affectors, {} expected; {lost} missing, {extra} unexpected", g.len(), w.len());
    }
    Ok(())
}
fn some_mesh(r: &mut Rng) -> Mesh {
    if r.p(0.7) { solid_mesh(r) } else { mesh(r) }
}
fn gt(r: &mut Rng) -> GlobalTransform {
    if r.p(0.2) {
        GlobalTransform::from(bevy::math::Affine3A::from_cols_array(&std::array::from_fn(|_| r.fr(-3.0, 3.0))))
    } else {
        GlobalTransform::from(transform(r))
    }
}

/// at the place of another entity, or just beside it
fn beside(r: &mut Rng, a: &App, ents: &[Entity]) -> GlobalTransform {
    let g = gt(r);
    if ents.is_empty() || r.p(0.7) {
        return g;
    }
    let Some(o) = a.world().get::<GlobalTransform>(*r.pick(ents)).copied() else { return g };
    let mut f = if r.p(0.3) { o.affine() } else { g.affine() };
    f.translation = o.affine().translation;
    if r.p(0.5) {
        f.translation += bevy::math::Vec3A::new(r.fr(-0.1, 0.1), r.fr(-0.1, 0.1), r.fr(-0.1, 0.1));
    }
    GlobalTransform::from(f)
}

/// B02: every entity with a usable mesh, once, with its place in the world.
pub fn b02(cx: &mut Ctx) -> R {
    let mut a = app();
    let mut handles: Vec<Handle<Mesh>> = vec![];
    let mut ents: Vec<Entity> = vec![];
    // which backend was set last: None = the mesh backend, Some(k) = a stand-in that reports k
    let mut last: Option<Option<u32>> = None;
    let mut plugged = false;
    let stand_in = |k: u32| {
        move |q: Query<&GlobalTransform>| -> Aff {
            let _ = q.iter().count();
            vec![(GlobalTransform::from_xyz(k as f32, 0.0, 0.0), TriMesh::default())]
        }
    };
    let steps = cx.r.r(5, 40);
    let (mut out, mut left) = (0, 0);
    let mut fp = Fnv::new();
    let mut log = String::new();
    for step in 0..steps {
        let r = &mut cx.r;
        let op = if step == 0 && r.p(0.8) { 12 } else { r.n(14) };
        log += &format!("{op},");
        match op {
            0..=2 => {
                let h = if handles.is_empty() || r.p(0.3) {
                    let m = some_mesh(r);
                    let mut assets = a.world_mut().resource_mut::<Assets<Mesh>>();
                    let h = if r.p(0.2) { assets.reserve_handle() } else { assets.add(m) };
                    handles.push(h.clone());
                    h
                } else {
                    r.pick(&handles).clone()
                };
                let t = transform(r);
                let parent = (!ents.is_empty() && r.p(0.4)).then(|| *r.pick(&ents));
                let mut e = a.world_mut().spawn((Mesh3d(h), t));
                if r.p(0.3) {
                    e.insert(if r.p(0.5) { Visibility::Hidden } else { Visibility::Visible });
                }
                if r.p(0.3) {
                    e.insert(Name::new("thing"));
                }
                let e = e.id();
                if let Some(p) = parent {
                    a.world_mut().entity_mut(p).add_child(e);
                }
                ents.push(e);
            }
            3 => {
                // no mesh at all
                let e = a.world_mut().spawn(transform(r)).id();
                ents.push(e);
            }
            4 if !ents.is_empty() => {
                let e = ents.swap_remove(r.n(ents.len()));
                a.world_mut().despawn(e);
                ents.retain(|e| a.world().get_entity(*e).is_ok());
            }
            5 if !ents.is_empty() => {
                let e = *r.pick(&ents);
                if a.world().get::<Mesh3d>(e).is_some() && r.p(0.5) {
                    a.world_mut().entity_mut(e).remove::<Mesh3d>();
                } else if !handles.is_empty() {
                    let h = r.pick(&handles).clone();
                    a.world_mut().entity_mut(e).insert(Mesh3d(h));
                }
            }
            6 if !ents.is_empty() => {
                let (e, t) = (*r.pick(&ents), transform(r));
                a.world_mut().entity_mut(e).insert(t);
            }
            7 if !ents.is_empty() => {
                let (e, g) = (*r.pick(&ents), gt(r));
                a.world_mut().entity_mut(e).insert(g);
            }
            8 if !handles.is_empty() => {
                let h = r.pick(&handles).clone();
                let m = some_mesh(r);
                a.world_mut().resource_mut::<Assets<Mesh>>().insert(h.id(), m);
            }
            9 if !handles.is_empty() => {
                let h = r.pick(&handles).clone();
                a.world_mut().resource_mut::<Assets<Mesh>>().remove(h.id());
            }
            10 => a.update(),
            11 => {
                let k = r.n(1000) as u32;
                a.set_navmesh_affector_backend(stand_in(k));
                last = Some(Some(k));
            }
            12 if !plugged => {
                a.add_plugins(Mesh3dNavmeshPlugin::default());
                (last, plugged) = (Some(None), true);
            }
            13 if !ents.is_empty() => {
                // an entity loses its place in the world
                let e = *r.pick(&ents);
                a.world_mut().entity_mut(e).remove::<GlobalTransform>();
            }
            _ => {}
        }
        let Some(b) = last else {
            ensure!(a.world().get_resource::<NavmeshAffectorBackend>().is_none(), "default-backend", "a backend exists before one is set");
            continue;
        };
        let got = run_backend(&mut a)?;
        match b {
            Some(k) => {
                ensure!(
                    got.len() == 1 && got[0].0.translation().x == k as f32,
                    "stale-backend",
                    "step {step}: the backend set last was not the one that ran"
                );
            }
            None => {
                let w = a.world();
                let assets = w.resource::<Assets<Mesh>>();
                let mut want = vec![];
                for e in &ents {
                    let (Some(g), Some(m)) = (w.get::<GlobalTransform>(*e), w.get::<Mesh3d>(*e)) else { continue };
                    match assets.get(&m.0).and_then(expected_tri) {
                        Some((v, t)) => want.push((gt_bits(g), v, t)),
                        None => left += 1,
                    }
                }
                compare(&format!("step {step} of {log}"), &got, &want)?;
                out += want.len();
                want.sort();
                want.iter().flat_map(|k| k.0.iter().chain(k.1.iter().flatten())).for_each(|x| fp.u(*x as u64));
            }
        }
    }
    cx.add("affectors", out);
    cx.add("left_out", left);
    if out > 0 {
        cx.seen(fp.0);
    }
    cx.sample(|| format!("{steps} edits ({log}), {out} affectors"));
    Ok(())
}

fn body_kind(r: &mut Rng) -> RigidBody {
    *r.pick(&[RigidBody::Static, RigidBody::Static, RigidBody::Dynamic, RigidBody::Kinematic])
}
/// B03: every collider of a static body, once, with its place in the world.
pub fn b03(cx: &mut Ctx) -> R {
    let mut a = App::new();
    a.add_plugins((TaskPoolPlugin::default(), TransformPlugin));
    a.add_plugins(avian_rerecast::AvianRerecastPlugin::default());
    let auto = cx.r.p(0.5);
    if auto {
        a.add_plugins(ColliderHierarchyPlugin);
    }
    let mut ents: Vec<Entity> = vec![];
    let steps = cx.r.r(5, 40);
    let (mut out, mut left) = (0, 0);
    let mut fp = Fnv::new();
    let mut log = String::new();
    // half sizes identify a collider
    let shape = |r: &mut Rng| -> Collider {
        if r.p(0.15) {
            match r.n(3) {
                0 => Collider::half_space(Vec3::Y),
                1 => Collider::segment(Vec3::ZERO, Vec3::X),
                _ => Collider::polyline(vec![Vec3::ZERO, Vec3::X, Vec3::ONE], None),
            }
        } else {
            Collider::cuboid(r.fr(0.1, 9.0), r.fr(0.1, 9.0), r.fr(0.1, 9.0))
        }
    };
    for step in 0..steps {
        let r = &mut cx.r;
        let op = if step < 3 { r.n(5) } else { r.n(12) };
        log += &format!("{op},");
        match op {
            0 => {
                let b = body_kind(r);
                let e = a.world_mut().spawn((b, gt(r))).id();
                ents.push(e);
            }
            1 | 2 => {
                let c = shape(r);
                let g = beside(r, &a, &ents);
                let mut e = a.world_mut().spawn((c, g));
                if auto {
                    e.insert(ColliderMarker);
                }
                if r.p(0.3) {
                    e.insert(body_kind(r));
                }
                if r.p(0.2) {
                    e.insert(Sensor);
                }
                let e = e.id();
                // belongs to another entity, or to itself, or to nothing
                if !auto || r.p(0.3) {
                    let body = match r.n(6) {
                        0 => None,
                        1 => Some(e),
                        _ => (!ents.is_empty()).then(|| *r.pick(&ents)),
                    };
                    if let Some(body) = body {
                        a.world_mut().entity_mut(e).insert(ColliderOf { body });
                    }
                } else if !ents.is_empty() && r.p(0.7) {
                    let p = *r.pick(&ents);
                    a.world_mut().entity_mut(p).add_child(e);
                }
                ents.push(e);
            }
            3 | 4 if !ents.is_empty() => {
                let (e, b) = (*r.pick(&ents), body_kind(r));
                a.world_mut().entity_mut(e).insert(b);
            }
            5 if !ents.is_empty() => {
                let e = *r.pick(&ents);
                a.world_mut().entity_mut(e).remove::<RigidBody>();
            }
            6 if !ents.is_empty() => {
                let e = ents.swap_remove(r.n(ents.len()));
                a.world_mut().despawn(e);
                ents.retain(|e| a.world().get_entity(*e).is_ok());
            }
            7 if !ents.is_empty() => {
                let (e, c) = (*r.pick(&ents), shape(r));
                if a.world().get::<Collider>(e).is_some() {
                    a.world_mut().entity_mut(e).insert(c);
                }
            }
            8 if !ents.is_empty() => {
                let (e, g) = (*r.pick(&ents), beside(r, &a, &ents));
                a.world_mut().entity_mut(e).insert(g);
            }
            9 if !ents.is_empty() => {
                // moved to another body
                let (e, body) = (*r.pick(&ents), *r.pick(&ents));
                if a.world().get::<Collider>(e).is_some() && a.world().get::<RigidBody>(body).is_some() {
                    a.world_mut().entity_mut(e).insert(ColliderOf { body });
                }
            }
            10 => a.update(),
            11 if !ents.is_empty() => {
                let e = *r.pick(&ents);
                a.world_mut().entity_mut(e).remove::<(Collider, ColliderOf)>();
            }
            _ => {}
        }
        let got = run_backend(&mut a)?;
        let w = a.world();
        let mut want: Vec<([u32; 12], [u32; 3])> = vec![];
        for e in &ents {
            let (Some(g), Some(c), Some(of)) = (w.get::<GlobalTransform>(*e), w.get::<Collider>(*e), w.get::<ColliderOf>(*e)) else { continue };
            let fixed = w.get_entity(of.body).is_ok() && w.get::<RigidBody>(of.body).is_some_and(|b| matches!(b, RigidBody::Static));
            match c.shape().as_cuboid() {
                Some(q) if fixed => want.push((gt_bits(g), [q.half_extents.x, q.half_extents.y, q.half_extents.z].map(f32::to_bits))),
                _ => left += 1,
            }
        }
        let mut have: Vec<([u32; 12], [u32; 3])> = vec![];
        for (g, t) in &got {
            let hi = t.vertices.iter().fold(Vec3::ZERO, |m, v| m.max(Vec3::from_array(v.to_array())));
            ensure!(t.area_types.len() == t.indices.len() && t.area_types.iter().all(|a| *a == AreaType::NOT_WALKABLE), "areas", "area types do not match the triangles or are walkable");
            have.push((gt_bits(g), hi.to_array().map(f32::to_bits)));
        }
        want.sort();
        have.sort();
        if have != want {
            let extra = have.iter().filter(|x| want.binary_search(x).is_err()).count();
            let lost = want.iter().filter(|x| have.binary_search(x).is_err()).count();
            bail!("affectors", "step {step} of {log}: {} affectors, {} expected; {lost} missing, {extra} unexpected", have.len(), want.len());
        }
        out += want.len();
        want.iter().flat_map(|k| k.0.iter().chain(k.1.iter())).for_each(|x| fp.u(*x as u64));
    }
    cx.add("affectors", out);
    cx.add("left_out", left);
    if out > 0 && left > 0 {
        cx.seen(fp.0);
    }
    cx.sample(|| format!("{steps} edits ({log}), {out} affectors"));
    Ok(())
}
