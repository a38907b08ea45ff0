//! B01, B05-B08: conversions and the transmission format.
use crate::fw::*;
use crate::gens::*;
use crate::rng::*;
use base64::prelude::*;
use bevy::platform::collections::HashMap as PHashMap;
use bevy::prelude::*;
use bevy::render::mesh::{PrimitiveTopology, VertexAttributeValues};
use bevy_rerecast_core::TriMeshFromBevyMesh as _;
use bevy_rerecast_editor_integration::brp::*;
use bevy_rerecast_editor_integration::transmission::*;
use rerecast::{AreaType, TriMesh};
use std::collections::HashMap;
use std::io::{Read, Write};

/// B01: a Bevy mesh becomes exactly its triangles.
pub fn b01(cx: &mut Ctx) -> R {
    let m = mesh(&mut cx.r);
    let t = guard("from_mesh", || TriMesh::from_mesh(&m))?;
    let pos = match m.attribute(Mesh::ATTRIBUTE_POSITION) {
        Some(VertexAttributeValues::Float32x3(p)) => Some(p.clone()),
        _ => None,
    };
    let ok = m.primitive_topology() == PrimitiveTopology::TriangleList && pos.is_some() && idx(&m).is_some_and(|(_, i)| i.len() % 3 == 0);
    if !ok {
        cx.add("refused", 1);
        ensure!(t.is_none(), "not-refused", "a mesh that is no indexed triangle list was converted");
        return Ok(());
    }
    let Some(t) = t else { bail!("refused", "an indexed triangle list with positions was refused") };
    let (pos, (_, ix)) = (pos.unwrap(), idx(&m).unwrap());
    ensure!(t.vertices.len() == pos.len(), "vertices", "{} vertices from {} positions", t.vertices.len(), pos.len());
    for (a, b) in t.vertices.iter().zip(&pos) {
        ensure!(a.to_array().map(f32::to_bits) == b.map(f32::to_bits), "vertices", "{b:?} became {a:?}");
    }
    let got: Vec<u32> = t.indices.iter().flat_map(|i| i.to_array()).collect();
    ensure!(got == ix, "indices", "{ix:?} became {got:?}");
    ensure!(t.area_types.len() == t.indices.len(), "areas", "{} area types for {} triangles", t.area_types.len(), t.indices.len());
    ensure!(t.area_types.iter().all(|a| *a == AreaType::NOT_WALKABLE), "areas", "a triangle is walkable before anything marked it");
    cx.add("triangles", t.indices.len());
    if !t.indices.is_empty() {
        cx.seen(hash(&mesh_content(&m)));
    }
    cx.sample(|| format!("{} vertices, {} triangles", t.vertices.len(), t.indices.len()));
    Ok(())
}

fn trip<T: serde::Serialize + serde::de::DeserializeOwned>(what: &str, v: &T) -> Result<T, V> {
    let s = guard("serialize", || serialize(v))?.map_err(|e| crate::fw::v("serialize", format!("{what}: {e}")))?;
    // as it travels: as text
    let s: serde_json::Value = serde_json::from_str(&s.to_string()).unwrap();
    guard("deserialize", || deserialize(&s))?.map_err(|e| crate::fw::v("deserialize", format!("{what}: {e:#}")))
}

/// B05: meshes arrive as they were sent.
pub fn b05(cx: &mut Ctx) -> R {
    let m = mesh(&mut cx.r);
    let s = guard("SerializedMesh::from_mesh", || SerializedMesh::from_mesh(&m))?;
    let s = if cx.r.p(0.8) { trip("mesh", &s)? } else { s };
    let n = guard("SerializedMesh::into_mesh", || s.into_mesh())?;
    let (a, b) = (mesh_content(&m), mesh_content(&n));
    ensure!(a == b, "mesh-changed", "{}", differ(&a, &b));
    ensure!(!n.contains_attribute(CUSTOM), "unknown-attribute", "an attribute unknown to the format arrived");
    cx.add("attributes", m.attributes().count());
    if m.attributes().count() > 0 {
        cx.seen(hash(&a));
    }
    cx.sample(|| format!("{} attributes, {:?}", m.attributes().count(), m.primitive_topology()));
    Ok(())
}

/// B06: images arrive as they were sent.
pub fn b06(cx: &mut Ctx) -> R {
    let i = image(&mut cx.r);
    let s = guard("SerializedImage::from_image", || SerializedImage::from_image(i.clone()))?;
    let s = trip("image", &s)?;
    let j = guard("SerializedImage::into_image", || s.into_image())?;
    let (a, b) = (image_content(&i), image_content(&j));
    ensure!(a == b, "image-changed", "{}", differ(&a, &b));
    cx.add("pixels", i.data.as_ref().map_or(0, |d| d.len()));
    cx.seen(hash(&a));
    cx.sample(|| format!("{:?} {:?}", i.texture_descriptor.size, i.texture_descriptor.format));
    Ok(())
}

/// B07: materials arrive as they were sent, textures stay shared.
pub fn b07(cx: &mut Ctx) -> R {
    let r = &mut cx.r;
    let mut images = Assets::<Image>::default();
    let mut pool: Vec<Handle<Image>> = (0..r.n(6)).map(|_| images.add(image(r))).collect();
    // a texture that is not loaded
    let missing = if r.p(0.2) { Some(images.reserve_handle()) } else { None };
    pool.extend(missing.clone());
    let mut sent = vec![];
    let (mut ix, mut cache) = (PHashMap::default(), vec![]);
    let mut textures = 0;
    for _ in 0..r.r(1, 5) {
        let tex = *r.pick(&[0.0f32, 0.1, 0.6, 1.0]);
        let m = material(r, &pool, tex)?;
        let (_, t) = material_content(&m);
        let lost = t.iter().any(|(_, h)| h.is_some() && *h == missing);
        let s = guard("try_from_standard_material", || SerializedStandardMaterial::try_from_standard_material(m.clone(), &mut ix, &images, &mut cache))?;
        match s {
            Err(e) => ensure!(lost, "refused", "a material whose textures all exist was refused: {e}"),
            Ok(s) => {
                ensure!(!lost, "not-refused", "a material with a texture that does not exist was accepted");
                textures += t.iter().filter(|x| x.1.is_some()).count();
                sent.push((m, s));
            }
        }
    }
    let used: std::collections::BTreeSet<_> = sent.iter().flat_map(|(m, _)| material_content(m).1).filter_map(|x| x.1).map(|h| h.id()).collect();
    ensure!(cache.len() >= used.len(), "images-missing", "{} images sent, {} in use", cache.len(), used.len());
    let (ser, cache): (Vec<SerializedStandardMaterial>, Vec<SerializedImage>) =
        trip("materials", &(sent.iter().map(|s| s.1.clone()).collect::<Vec<_>>(), cache))?;
    ensure!(ser.len() == sent.len(), "count", "{} materials became {}", sent.len(), ser.len());
    let mut there = Assets::<Image>::default();
    let mut jx = PHashMap::default();
    let mut map = HashMap::new();
    let mut all = String::new();
    for (k, ((m, _), s)) in sent.iter().zip(ser).enumerate() {
        let n = guard("into_standard_material", || s.into_standard_material(&mut jx, &mut there, &cache))?;
        let ((a, ta), (b, tb)) = (material_content(m), material_content(&n));
        ensure!(a == b, "material-changed", "{}", differ(&a, &b));
        same_textures(&format!("material {k}"), &ta, &tb, &images, &there, &mut map)?;
        all += &a;
    }
    ensure!(there.len() == map.len(), "extra-images", "{} images in use after receiving, {} created", map.len(), there.len());
    cx.add("materials", sent.len());
    cx.add("textures", textures);
    if textures > 0 {
        cx.seen(hash(&all));
    }
    cx.sample(|| format!("{} materials, {textures} textures", sent.len()));
    Ok(())
}

fn some_response(r: &mut Rng) -> NavmeshInputResponse {
    let mut images = Assets::<Image>::default();
    let pool: Vec<Handle<Image>> = (0..r.n(4)).map(|_| images.add(image(r))).collect();
    let (mut ix, mut cache) = (PHashMap::default(), vec![]);
    let mut x = NavmeshInputResponse::default();
    for _ in 0..r.n(4) {
        if let Some(mesh) = TriMesh::from_mesh(&solid_mesh(r)) {
            x.affector_meshes.push(AffectorMesh { transform: transform(r).into(), mesh });
        }
    }
    for _ in 0..r.n(3) {
        let m = material(r, &pool, 0.2).ok().unwrap();
        x.materials.extend(SerializedStandardMaterial::try_from_standard_material(m, &mut ix, &images, &mut cache));
    }
    for _ in 0..r.n(4) {
        x.meshes.push(SerializedMesh::from_mesh(&mesh(r)));
    }
    for _ in 0..r.n(6) {
        x.visual_meshes.push(VisualMesh { transform: transform(r).into(), mesh: r.n(9) as u32, material: r.p(0.5).then(|| r.u64() as u32) });
    }
    x.images = cache;
    x
}
fn unpack(v: &serde_json::Value) -> Vec<u8> {
    let gz = BASE64_STANDARD.decode(v.as_str().unwrap()).unwrap();
    let mut b = vec![];
    flate2::read::GzDecoder::new(&gz[..]).read_to_end(&mut b).unwrap();
    b
}
fn pack(b: &[u8]) -> serde_json::Value {
    let mut gz = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    gz.write_all(b).unwrap();
    serde_json::Value::String(BASE64_STANDARD.encode(gz.finish().unwrap()))
}
/// B08: payloads survive the trip; damaged ones are refused, not misread, and bring nothing down.
pub fn b08(cx: &mut Ctx) -> R {
    let x = some_response(&mut cx.r);
    let s = guard("serialize", || serialize(&x))?.map_err(|e| v("serialize", e))?;
    let y: NavmeshInputResponse = trip("response", &x)?;
    let s2 = guard("serialize", || serialize(&y))?.map_err(|e| v("serialize", e))?;
    // compressed bytes may differ, what they hold may not
    let (p, p2) = (unpack(&s), unpack(&s2));
    ensure!(p == p2, "payload-changed", "{} bytes sent, {} bytes after the round trip, or different ones", p.len(), p2.len());
    cx.add("payload_bytes", p.len());
    cx.seen({
        let mut f = Fnv::new();
        p.iter().for_each(|b| f.u(*b as u64));
        f.0
    });
    let r = &mut cx.r;
    let text = s.as_str().unwrap().as_bytes().to_vec();
    let gz = BASE64_STANDARD.decode(&text).unwrap();
    let (bad, what, must) = match r.n(9) {
        0 => (r.pick(&[serde_json::Value::Null, serde_json::json!(5), serde_json::json!([1, 2]), serde_json::json!({"result": "x"}), serde_json::json!(true)]).clone(), "no string", true),
        1 => {
            let mut t = text;
            t.truncate(r.n(t.len()));
            (serde_json::Value::String(String::from_utf8(t).unwrap()), "cut text", true)
        }
        2 => {
            let mut t = text;
            let k = r.n(t.len());
            t[k] = *r.pick(b"*!\n -_~");
            (serde_json::Value::String(String::from_utf8(t).unwrap()), "foreign character", true)
        }
        3 => {
            let g = &gz[..r.n(gz.len())];
            (serde_json::Value::String(BASE64_STANDARD.encode(g)), "cut archive", true)
        }
        4 => {
            // the 10 bytes of header say nothing about the content, the last 8 are checked
            let mut g = gz.clone();
            let k = r.n(g.len());
            g[k] ^= 1 << r.n(8);
            (serde_json::Value::String(BASE64_STANDARD.encode(g)), "flipped bit", k >= 10)
        }
        5 => (serde_json::Value::String(BASE64_STANDARD.encode((0..r.n(60)).map(|_| r.u64() as u8).collect::<Vec<_>>())), "noise", true),
        6 => {
            let q = &p[..r.n(p.len())];
            (pack(q), "cut content", true)
        }
        _ => {
            let mut q = p.clone();
            for _ in 0..r.r(1, 5) {
                let k = r.n(q.len());
                q[k] = *r.pick(&[0, 1, 250, 251, 252, 253, 254, 255, 127, r.clone().u64() as u8]);
            }
            (pack(&q), "changed content", false)
        }
    };
    let got = guard("deserialize a damaged payload", || deserialize::<NavmeshInputResponse>(&bad))?;
    match got {
        Err(_) => cx.add("damaged_refused", 1),
        Ok(z) => {
            let q = unpack(&serialize(&z).map_err(|e| v("serialize", e))?);
            ensure!(!must || q == p, "damage-unnoticed", "a payload with {what} was read as something else");
            cx.add("damaged_read", 1);
        }
    }
    cx.sample(|| format!("{} bytes, damaged: {what}", p.len()));
    Ok(())
}
