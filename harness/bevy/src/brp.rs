//! B09: what the remote method tells the editor about a world.
use crate::backends::*;
use crate::fw::*;
use crate::gens::*;
use crate::rng::*;
use bevy::asset::AssetPlugin;
use bevy::pbr::{MeshMaterial3d, StandardMaterial};
use bevy::platform::collections::HashMap as PHashMap;
use bevy::prelude::*;
use bevy::remote::{BrpResult, RemoteMethodSystemId, RemoteMethods, error_codes};
use bevy::transform::TransformPlugin;
use bevy_rerecast_core::{Mesh3dNavmeshPlugin, NavmeshApp as _};
use bevy_rerecast_editor_integration::brp::*;
use bevy_rerecast_editor_integration::transmission::*;
use bevy_rerecast_editor_integration::*;
use rerecast::{AreaType, TriMesh};
use std::collections::BTreeSet;

fn call(a: &mut App, params: Option<serde_json::Value>) -> Result<BrpResult, V> {
    let id = match a.world().resource::<RemoteMethods>().get(BRP_GET_NAVMESH_INPUT_METHOD) {
        Some(RemoteMethodSystemId::Instant(id)) => *id,
        _ => bail!("no-method", "the method is not registered"),
    };
    match guard("the remote method", || a.world_mut().run_system_with(id, params))? {
        Ok(r) => Ok(r),
        Err(e) => bail!("method-failed", "{e}"),
    }
}
fn expect_error(r: BrpResult, code: i16, what: &str) -> R {
    match r {
        Ok(_) => bail!("no-error", "{what} was answered as if nothing was wrong"),
        Err(e) => ensure!(e.code == code, "error-code", "{what} gives error {}, not {code}", e.code),
    }
    Ok(())
}
type AffKey = (Key, Vec<u8>);
fn aff_keys(a: impl Iterator<Item = (GlobalTransform, TriMesh)>) -> Vec<AffKey> {
    let mut k: Vec<AffKey> = a.map(|(g, t)| (key(&g, &t), t.area_types.iter().map(|a| a.0).collect())).collect();
    k.sort();
    k
}
fn material_text(m: &StandardMaterial, images: &Assets<Image>) -> Option<String> {
    let (mut s, t) = material_content(m);
    for (n, h) in t {
        if let Some(h) = h {
            s += &format!("|{n}={}", image_content(images.get(&h)?));
        }
    }
    Some(s)
}

pub fn b09(cx: &mut Ctx) -> R {
    let manual = cx.r.p(0.5);
    let mut a = App::new();
    a.add_plugins((TaskPoolPlugin::default(), AssetPlugin::default(), TransformPlugin));
    a.init_asset::<Mesh>().init_asset::<Image>().init_asset::<StandardMaterial>();
    if cx.r.p(0.02) {
        // without a remote there is nothing to register, and nothing fails
        a.add_plugins(RerecastEditorIntegrationPlugin::default());
        guard("an app without a remote", || a.update())?;
        return Ok(());
    }
    a.init_resource::<RemoteMethods>();
    let mut p = RerecastEditorIntegrationPlugin::default();
    if manual {
        p.visibility_settings = EditorVisibilitySettings::Manual;
    } else if cx.r.p(0.5) {
        p.visibility_settings = EditorVisibilitySettings::AllMeshes;
    }
    a.add_plugins(p);
    guard("startup", || a.update())?;
    if cx.r.p(0.2) {
        expect_error(call(&mut a, None)?, error_codes::INTERNAL_ERROR, "a request without a backend")?;
    }
    let mut fixed = None;
    if cx.r.p(0.6) {
        a.add_plugins(Mesh3dNavmeshPlugin::default());
    } else {
        let mut out: Aff = vec![];
        for _ in 0..cx.r.n(4) {
            use bevy_rerecast_core::TriMeshFromBevyMesh as _;
            let mut t = TriMesh::from_mesh(&solid_mesh(&mut cx.r)).unwrap_or_default();
            t.area_types.iter_mut().for_each(|a| *a = AreaType(cx.r.n(64) as u8));
            out.push((GlobalTransform::from(transform(&mut cx.r)), t));
        }
        let o = out.clone();
        fixed = Some(out);
        a.set_navmesh_affector_backend(move || -> Aff { o.clone() });
    }
    if cx.r.p(0.1) {
        let p = cx.r.pick(&[serde_json::json!({}), serde_json::json!([]), serde_json::json!("x"), serde_json::Value::Null, serde_json::json!(3)]).clone();
        expect_error(call(&mut a, Some(p.clone()))?, error_codes::INVALID_PARAMS, &format!("a request with the parameters {p}"))?;
    }
    let (mut meshes, mut mats, mut images): (Vec<Handle<Mesh>>, Vec<Handle<StandardMaterial>>, Vec<Handle<Image>>) = (vec![], vec![], vec![]);
    let mut ents: Vec<Entity> = vec![];
    let mut fp = Fnv::new();
    let (mut nv, mut na, mut hidden, mut bare) = (0, 0, 0, 0);
    for round in 0..cx.r.r(1, 4) {
        for _ in 0..cx.r.r(3, 14) {
            let r = &mut cx.r;
            match r.n(15) {
                0..=4 => {
                    let w = a.world_mut();
                    if meshes.is_empty() || r.p(0.3) {
                        let m = if r.p(0.5) { solid_mesh(r) } else { mesh(r) };
                        let mut s = w.resource_mut::<Assets<Mesh>>();
                        meshes.push(if r.p(0.15) { s.reserve_handle() } else { s.add(m) });
                    }
                    if images.len() < 5 && r.p(0.4) {
                        let i = image(r);
                        let mut s = w.resource_mut::<Assets<Image>>();
                        images.push(if r.p(0.15) { s.reserve_handle() } else { s.add(i) });
                    }
                    if mats.is_empty() || r.p(0.3) {
                        let m = material(r, &images, 0.15)?;
                        let mut s = w.resource_mut::<Assets<StandardMaterial>>();
                        mats.push(if r.p(0.15) { s.reserve_handle() } else { s.add(m) });
                    }
                    let mut e = w.spawn((transform(r), Mesh3d(r.pick(&meshes).clone())));
                    if r.p(0.7) {
                        e.insert(MeshMaterial3d(r.pick(&mats).clone()));
                    }
                    if r.p(0.9) {
                        e.insert(if r.p(0.8) { InheritedVisibility::VISIBLE } else { InheritedVisibility::HIDDEN });
                    }
                    if manual && r.p(0.7) {
                        e.insert(EditorVisible);
                    }
                    let e = e.id();
                    ensure!(manual || a.world().get::<EditorVisible>(e).is_some(), "not-marked", "a new mesh is not shown in the editor although all are to be");
                    if !ents.is_empty() && r.p(0.3) {
                        let p = *r.pick(&ents);
                        a.world_mut().entity_mut(p).add_child(e);
                    }
                    ents.push(e);
                }
                5 => {
                    let e = a.world_mut().spawn((transform(r), InheritedVisibility::VISIBLE)).id();
                    if r.p(0.5) {
                        a.world_mut().entity_mut(e).insert(EditorVisible);
                    }
                    if r.p(0.5) && !meshes.is_empty() {
                        // becomes a mesh later
                        let h = r.pick(&meshes).clone();
                        let marked = a.world().get::<EditorVisible>(e).is_some();
                        a.world_mut().entity_mut(e).insert(Mesh3d(h));
                        let now = a.world().get::<EditorVisible>(e).is_some();
                        ensure!(now == (marked || !manual), "not-marked", "marking of meshes does not follow the settings");
                    }
                    ents.push(e);
                }
                6 if !ents.is_empty() => {
                    let e = ents.swap_remove(r.n(ents.len()));
                    a.world_mut().despawn(e);
                    ents.retain(|e| a.world().get_entity(*e).is_ok());
                }
                7 if !ents.is_empty() => {
                    let e = *r.pick(&ents);
                    let v = if r.p(0.5) { InheritedVisibility::VISIBLE } else { InheritedVisibility::HIDDEN };
                    a.world_mut().entity_mut(e).insert(v);
                }
                8 if !ents.is_empty() => {
                    let e = *r.pick(&ents);
                    if a.world().get::<EditorVisible>(e).is_some() {
                        a.world_mut().entity_mut(e).remove::<EditorVisible>();
                    } else {
                        a.world_mut().entity_mut(e).insert(EditorVisible);
                    }
                }
                9 if !ents.is_empty() && !mats.is_empty() => {
                    let (e, m) = (*r.pick(&ents), r.pick(&mats).clone());
                    a.world_mut().entity_mut(e).insert(MeshMaterial3d(m));
                }
                10 if !meshes.is_empty() => {
                    let (h, m) = (r.pick(&meshes).clone(), mesh(r));
                    a.world_mut().resource_mut::<Assets<Mesh>>().insert(h.id(), m);
                }
                11 if !mats.is_empty() => {
                    let (h, m) = (r.pick(&mats).clone(), material(r, &images, 0.15)?);
                    a.world_mut().resource_mut::<Assets<StandardMaterial>>().insert(h.id(), m);
                }
                12 if !images.is_empty() => {
                    let (h, i) = (r.pick(&images).clone(), image(r));
                    let mut s = a.world_mut().resource_mut::<Assets<Image>>();
                    if r.p(0.3) {
                        s.remove(h.id());
                    } else {
                        s.insert(h.id(), i);
                    }
                }
                13 => a.update(),
                14 => match r.n(3) {
                    0 if !meshes.is_empty() => {
                        let h = r.pick(&meshes).clone();
                        a.world_mut().resource_mut::<Assets<Mesh>>().remove(h.id());
                    }
                    1 if !mats.is_empty() => {
                        let h = r.pick(&mats).clone();
                        a.world_mut().resource_mut::<Assets<StandardMaterial>>().remove(h.id());
                    }
                    _ => {}
                },
                _ => {}
            }
        }
        // what the world holds
        let w = a.world();
        let (sm, si, st) = (w.resource::<Assets<Mesh>>(), w.resource::<Assets<Image>>(), w.resource::<Assets<StandardMaterial>>());
        let mut want: Vec<String> = vec![];
        let mut aff: Vec<(Key, Vec<u8>)> = vec![];
        let (mut used_meshes, mut used_mats, mut used_images) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for e in &ents {
            let (Some(g), Some(m)) = (w.get::<GlobalTransform>(*e), w.get::<Mesh3d>(*e)) else { continue };
            let Some(m3) = sm.get(&m.0) else { continue };
            if let Some((v, t)) = expected_tri(m3) {
                let areas = vec![0u8; t.len()];
                aff.push(((gt_bits(g), v, t), areas));
            }
            if w.get::<EditorVisible>(*e).is_none() || w.get::<InheritedVisibility>(*e) != Some(&InheritedVisibility::VISIBLE) {
                hidden += 1;
                continue;
            }
            used_meshes.insert(m.0.id());
            let mut text = format!("{:?}|{}", gt_bits(g), mesh_content(m3));
            let mat = w.get::<MeshMaterial3d<StandardMaterial>>(*e).map(|h| &h.0);
            match mat.and_then(|h| st.get(h)) {
                Some(sm) => {
                    used_images.extend(material_content(sm).1.into_iter().filter_map(|x| x.1).map(|h| h.id()));
                    match material_text(sm, si) {
                        Some(s) => {
                            used_mats.insert(mat.unwrap().id());
                            text += &s;
                        }
                        None => {
                            bare += 1;
                            text += "|bare"
                        }
                    }
                }
                None => text += "|bare",
            }
            want.push(text);
        }
        want.sort();
        aff.sort();
        // what the editor is told
        let v = match call(&mut a, None)? {
            Ok(v) => v,
            Err(e) => bail!("refused", "the request was refused: {}", e.message),
        };
        let v: serde_json::Value = serde_json::from_str(&v.to_string()).unwrap();
        let res: NavmeshInputResponse = match guard("deserialize", || deserialize(&v))? {
            Ok(x) => x,
            Err(e) => bail!("unreadable", "round {round}: the response cannot be read: {e:#}"),
        };
        let got_aff = aff_keys(res.affector_meshes.into_iter().map(|x| (x.transform, x.mesh)));
        let want_aff = match &fixed {
            Some(f) => aff_keys(f.iter().cloned()),
            None => aff,
        };
        ensure!(got_aff == want_aff, "affectors", "round {round}: {} affectors told, {} from the backend, or different ones", got_aff.len(), want_aff.len());
        ensure!(res.meshes.len() == used_meshes.len(), "meshes", "round {round}: {} meshes sent, {} in use", res.meshes.len(), used_meshes.len());
        ensure!(res.materials.len() == used_mats.len(), "materials", "round {round}: {} materials sent, {} in use", res.materials.len(), used_mats.len());
        ensure!(res.images.len() <= used_images.len(), "images", "round {round}: {} images sent, {} in use", res.images.len(), used_images.len());
        let got_meshes: Vec<String> = res.meshes.into_iter().map(|m| mesh_content(&m.into_mesh())).collect();
        let mut there = Assets::<Image>::default();
        let mut ix = PHashMap::default();
        let mut got_mats = vec![];
        for m in res.materials {
            let m = guard("into_standard_material", || m.into_standard_material(&mut ix, &mut there, &res.images))?;
            let Some(s) = material_text(&m, &there) else { bail!("lost-texture", "round {round}: a received texture does not exist") };
            got_mats.push(s);
        }
        let mut got = vec![];
        for x in &res.visual_meshes {
            let Some(m) = got_meshes.get(x.mesh as usize) else { bail!("bad-index", "round {round}: mesh {} of {}", x.mesh, got_meshes.len()) };
            let mut text = format!("{:?}|{m}", gt_bits(&x.transform));
            match x.material {
                None => text += "|bare",
                Some(k) => match got_mats.get(k as usize) {
                    Some(s) => text += s,
                    None => bail!("bad-index", "round {round}: material {k} of {}", got_mats.len()),
                },
            }
            got.push(text);
        }
        got.sort();
        ensure!(got.len() == want.len(), "visuals", "round {round}: {} visuals told, {} in the world", got.len(), want.len());
        for (g, w) in got.iter().zip(&want) {
            ensure!(g == w, "visuals", "round {round}: a visual differs: {}", differ(w, g));
        }
        nv += got.len();
        na += got_aff.len();
        got.iter().for_each(|s| fp.u(hash(s)));
    }
    if cx.r.p(0.05) {
        a.world_mut().remove_resource::<Assets<Image>>();
        expect_error(call(&mut a, None)?, error_codes::INTERNAL_ERROR, "a request without images")?;
    }
    cx.add("visuals", nv);
    cx.add("affectors", na);
    cx.add("not_shown", hidden);
    cx.add("without_material", bare);
    if nv > 0 && na > 0 {
        cx.seen(fp.0);
    }
    cx.sample(|| format!("{nv} visuals, {na} affectors"));
    Ok(())
}
