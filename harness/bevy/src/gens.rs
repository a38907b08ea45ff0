//! Generators of Bevy meshes, images and materials, and content comparison.
use crate::fw::*;
use crate::rng::*;
use bevy::image::*;
use bevy::math::Affine2;
use bevy::pbr::{OpaqueRendererMethod, ParallaxMappingMethod, StandardMaterial, UvChannel};
use bevy::prelude::*;
use bevy::reflect::{PartialReflect, Struct};
use bevy::render::mesh::{Indices, MeshVertexAttribute, PrimitiveTopology, VertexAttributeValues};
use bevy::render::render_resource::*;
use bevy::asset::RenderAssetUsages;
use std::collections::HashMap;

pub fn num(r: &mut Rng) -> f32 {
    match r.n(12) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, 1e-42, f32::MAX]),
        1 => f32::from_bits(r.u64() as u32),
        _ => r.fr(-100.0, 100.0),
    }
}
pub fn coord(r: &mut Rng) -> f32 {
    if r.p(0.2) { r.r(-9, 9) as f32 } else { r.fr(-50.0, 50.0) }
}
pub fn transform(r: &mut Rng) -> Transform {
    let q = match r.n(3) {
        0 => Quat::IDENTITY,
        1 => Quat::from_rotation_y(r.fr(-4.0, 4.0)),
        _ => Quat::from_euler(EulerRot::XYZ, r.fr(-3.0, 3.0), r.fr(-3.0, 3.0), r.fr(-3.0, 3.0)),
    };
    let s = match r.n(4) {
        0 | 1 => Vec3::ONE,
        2 => Vec3::splat(r.fr(0.1, 4.0)),
        _ => Vec3::new(r.fr(0.1, 4.0), r.fr(0.1, 4.0), r.fr(0.1, 4.0)),
    };
    Transform { translation: Vec3::new(coord(r), coord(r), coord(r)), rotation: q, scale: s }
}
pub const CUSTOM: MeshVertexAttribute = MeshVertexAttribute::new("Custom", 988_540_917, VertexFormat::Uint8x4);

/// any mesh at all
pub fn mesh(r: &mut Rng) -> Mesh {
    let topo = if r.p(0.7) {
        PrimitiveTopology::TriangleList
    } else {
        *r.pick(&[PrimitiveTopology::PointList, PrimitiveTopology::LineList, PrimitiveTopology::LineStrip, PrimitiveTopology::TriangleStrip])
    };
    let mut m = Mesh::new(topo, RenderAssetUsages::all());
    let n = match r.n(6) {
        0 => r.n(4),
        1 => 3 * r.n(30),
        // more vertices than 16 bits can count
        _ if r.p(0.0006) => r.r(65_530, 66_500) as usize,
        _ => r.r(3, 40) as usize,
    };
    fn v<const N: usize>(r: &mut Rng, n: usize) -> Vec<[f32; N]> {
        (0..n).map(|_| std::array::from_fn(|_| num(r))).collect()
    }
    let full = r.p(0.3);
    let mut has = |r: &mut Rng, p: f32| full || r.p(p);
    if has(r, 0.9) {
        m.insert_attribute(Mesh::ATTRIBUTE_POSITION, v::<3>(r, n));
    }
    if has(r, 0.5) {
        m.insert_attribute(Mesh::ATTRIBUTE_NORMAL, v::<3>(r, n));
    }
    if has(r, 0.4) {
        m.insert_attribute(Mesh::ATTRIBUTE_UV_0, v::<2>(r, n));
    }
    if has(r, 0.3) {
        m.insert_attribute(Mesh::ATTRIBUTE_UV_1, v::<2>(r, n));
    }
    if has(r, 0.3) {
        m.insert_attribute(Mesh::ATTRIBUTE_TANGENT, v::<4>(r, n));
    }
    if has(r, 0.3) {
        m.insert_attribute(Mesh::ATTRIBUTE_COLOR, v::<4>(r, n));
    }
    if has(r, 0.2) {
        m.insert_attribute(Mesh::ATTRIBUTE_JOINT_WEIGHT, v::<4>(r, n));
    }
    if has(r, 0.2) {
        let w: Vec<[u16; 4]> = (0..n).map(|_| std::array::from_fn(|_| r.u64() as u16)).collect();
        m.insert_attribute(Mesh::ATTRIBUTE_JOINT_INDEX, VertexAttributeValues::Uint16x4(w));
    }
    if r.p(0.15) {
        let w: Vec<[u8; 4]> = (0..n).map(|_| std::array::from_fn(|_| r.u64() as u8)).collect();
        m.insert_attribute(CUSTOM, VertexAttributeValues::Uint8x4(w));
    }
    if r.p(0.85) && n > 0 {
        let k = if r.p(0.9) { 3 * r.n(20) } else { r.n(40) };
        let idx = if r.p(0.5) {
            Indices::U16((0..k).map(|_| r.n(n) as u16).collect())
        } else {
            Indices::U32((0..k).map(|_| r.n(n) as u32).collect())
        };
        m.insert_indices(idx);
    }
    m
}
/// a mesh with usable triangles
pub fn solid_mesh(r: &mut Rng) -> Mesh {
    let n = r.r(3, 12) as usize;
    let mut m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
    m.insert_attribute(Mesh::ATTRIBUTE_POSITION, (0..n).map(|_| [coord(r), coord(r), coord(r)]).collect::<Vec<_>>());
    let k = 3 * r.r(1, 8) as usize;
    m.insert_indices(if r.p(0.5) {
        Indices::U16((0..k).map(|_| r.n(n) as u16).collect())
    } else {
        Indices::U32((0..k).map(|_| r.n(n) as u32).collect())
    });
    m
}
pub fn idx(m: &Mesh) -> Option<(bool, Vec<u32>)> {
    m.indices().map(|i| match i {
        Indices::U16(v) => (false, v.iter().map(|x| *x as u32).collect()),
        Indices::U32(v) => (true, v.clone()),
    })
}
/// what an observer can tell about a mesh; attributes the transmission does not know are left out
pub fn mesh_content(m: &Mesh) -> String {
    let mut a: Vec<String> = m
        .attributes()
        .filter(|(a, _)| a.id != CUSTOM.id)
        .map(|(a, v)| format!("{}:{:?}:{:?}", a.name, a.format, v.get_bytes()))
        .collect();
    a.sort();
    format!("{:?}|{}|{:?}", m.primitive_topology(), a.join(";"), idx(m))
}
pub fn hash(s: &str) -> u64 {
    let mut f = Fnv::new();
    for b in s.as_bytes().chunks(8) {
        let mut x = [0u8; 8];
        x[..b.len()].copy_from_slice(b);
        f.u(u64::from_le_bytes(x));
    }
    f.0
}
/// a short description of where two descriptions part
pub fn differ(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.chars().skip(k.saturating_sub(60)).take(200).collect::<String>();
    format!("...{}... became ...{}...", cut(a), cut(b))
}

pub fn image(r: &mut Rng) -> Image {
    let formats = [
        TextureFormat::R8Unorm, TextureFormat::Rgba8Unorm, TextureFormat::Rgba8UnormSrgb, TextureFormat::Bgra8UnormSrgb, TextureFormat::Rg16Float,
        TextureFormat::Rgba16Float, TextureFormat::Rgba32Float, TextureFormat::R32Uint, TextureFormat::Rgb9e5Ufloat, TextureFormat::Depth32Float,
        TextureFormat::Bc7RgbaUnormSrgb, TextureFormat::Bc1RgbaUnorm, TextureFormat::Etc2Rgb8Unorm,
        TextureFormat::Astc { block: AstcBlock::B8x5, channel: AstcChannel::UnormSrgb },
    ];
    let mut i = Image::default();
    i.data = r.p(0.85).then(|| (0..r.n(200)).map(|_| r.u64() as u8).collect());
    let fmt = *r.pick(&formats);
    i.texture_descriptor = TextureDescriptor {
        label: r.p(0.2).then_some("label"),
        size: Extent3d { width: r.r(1, 70000) as u32, height: r.r(1, 300) as u32, depth_or_array_layers: r.r(1, 9) as u32 },
        mip_level_count: r.r(1, 12) as u32,
        sample_count: *r.pick(&[1, 4]),
        dimension: *r.pick(&[TextureDimension::D1, TextureDimension::D2, TextureDimension::D3]),
        format: fmt,
        usage: TextureUsages::from_bits_truncate(r.u64() as u32),
        view_formats: &[],
    };
    i.sampler = match r.n(4) {
        0 => ImageSampler::Default,
        1 => ImageSampler::linear(),
        _ => {
            let am = [ImageAddressMode::ClampToEdge, ImageAddressMode::Repeat, ImageAddressMode::MirrorRepeat, ImageAddressMode::ClampToBorder];
            let fm = [ImageFilterMode::Nearest, ImageFilterMode::Linear];
            ImageSampler::Descriptor(ImageSamplerDescriptor {
                label: r.p(0.4).then(|| format!("sampler {}", r.n(99))),
                address_mode_u: *r.pick(&am),
                address_mode_v: *r.pick(&am),
                address_mode_w: *r.pick(&am),
                mag_filter: *r.pick(&fm),
                min_filter: *r.pick(&fm),
                mipmap_filter: *r.pick(&fm),
                lod_min_clamp: num(r),
                lod_max_clamp: num(r),
                compare: r.p(0.5).then(|| *r.pick(&[ImageCompareFunction::Never, ImageCompareFunction::LessEqual, ImageCompareFunction::Always])),
                anisotropy_clamp: r.u64() as u16,
                border_color: r.p(0.5).then(|| *r.pick(&[ImageSamplerBorderColor::TransparentBlack, ImageSamplerBorderColor::OpaqueWhite, ImageSamplerBorderColor::Zero])),
            })
        }
    };
    i.texture_view_descriptor = r.p(0.5).then(|| TextureViewDescriptor {
        label: r.p(0.2).then_some("view"),
        format: r.p(0.5).then(|| *r.pick(&formats)),
        dimension: r.p(0.5).then(|| *r.pick(&[TextureViewDimension::D2, TextureViewDimension::Cube, TextureViewDimension::D2Array, TextureViewDimension::D3])),
        usage: r.p(0.5).then(|| TextureUsages::from_bits_truncate(r.u64() as u32)),
        aspect: *r.pick(&[TextureAspect::All, TextureAspect::DepthOnly, TextureAspect::StencilOnly]),
        base_mip_level: r.n(9) as u32,
        mip_level_count: r.p(0.5).then(|| r.n(9) as u32),
        base_array_layer: r.n(9) as u32,
        array_layer_count: r.p(0.5).then(|| r.n(9) as u32),
    });
    i
}
/// labels, view formats and asset usage are documented as not preserved
pub fn image_content(i: &Image) -> String {
    let d = &i.texture_descriptor;
    let fd = |s: &ImageSampler| match s {
        ImageSampler::Default => "default".to_string(),
        ImageSampler::Descriptor(d) => {
            let mut e = d.clone();
            (e.lod_min_clamp, e.lod_max_clamp) = (0.0, 0.0);
            format!("{e:?} {:x} {:x}", d.lod_min_clamp.to_bits(), d.lod_max_clamp.to_bits())
        }
    };
    let view = i.texture_view_descriptor.as_ref().map(|v| {
        format!(
            "{:?} {:?} {:?} {:?} {} {:?} {} {:?}",
            v.format, v.dimension, v.usage, v.aspect, v.base_mip_level, v.mip_level_count, v.base_array_layer, v.array_layer_count
        )
    });
    format!(
        "{:?}|{:?} {} {} {:?} {:?} {:?}|{}|{view:?}",
        i.data, d.size, d.mip_level_count, d.sample_count, d.dimension, d.format, d.usage, fd(&i.sampler)
    )
}

pub fn color(r: &mut Rng) -> Color {
    let (a, b, c, d) = (num(r), num(r), num(r), num(r));
    match r.n(10) {
        0 => Color::Srgba(Srgba::new(a, b, c, d)),
        1 => Color::LinearRgba(LinearRgba::new(a, b, c, d)),
        2 => Color::Hsla(Hsla::new(a, b, c, d)),
        3 => Color::Hsva(Hsva::new(a, b, c, d)),
        4 => Color::Hwba(Hwba::new(a, b, c, d)),
        5 => Color::Laba(Laba::new(a, b, c, d)),
        6 => Color::Lcha(Lcha::new(a, b, c, d)),
        7 => Color::Oklaba(Oklaba::new(a, b, c, d)),
        8 => Color::Oklcha(Oklcha::new(a, b, c, d)),
        _ => Color::Xyza(Xyza::new(a, b, c, d)),
    }
}
/// Fills every field of a material through reflection, so that none can be forgotten.
pub fn material(r: &mut Rng, pool: &[Handle<Image>], tex: f32) -> Result<StandardMaterial, V> {
    let mut m = StandardMaterial::default();
    for i in 0..m.field_len() {
        let name = m.name_at(i).unwrap().to_string();
        let f = m.field_at_mut(i).unwrap();
        if let Some(x) = f.try_downcast_mut::<f32>() {
            *x = num(r);
        } else if let Some(x) = f.try_downcast_mut::<bool>() {
            *x = r.p(0.5);
        } else if let Some(x) = f.try_downcast_mut::<u8>() {
            *x = r.u64() as u8;
        } else if let Some(x) = f.try_downcast_mut::<Color>() {
            *x = color(r);
        } else if let Some(x) = f.try_downcast_mut::<LinearRgba>() {
            *x = LinearRgba::new(num(r), num(r), num(r), num(r));
        } else if let Some(x) = f.try_downcast_mut::<UvChannel>() {
            *x = r.pick(&[UvChannel::Uv0, UvChannel::Uv1]).clone();
        } else if let Some(x) = f.try_downcast_mut::<Option<Handle<Image>>>() {
            *x = (!pool.is_empty() && r.p(tex)).then(|| r.pick(pool).clone());
        } else if let Some(x) = f.try_downcast_mut::<AlphaMode>() {
            let t = num(r);
            *x = *r.pick(&[
                AlphaMode::Opaque, AlphaMode::Mask(t), AlphaMode::Blend, AlphaMode::Premultiplied, AlphaMode::AlphaToCoverage, AlphaMode::Add, AlphaMode::Multiply,
            ]);
        } else if let Some(x) = f.try_downcast_mut::<ParallaxMappingMethod>() {
            *x = if r.p(0.5) { ParallaxMappingMethod::Occlusion } else { ParallaxMappingMethod::Relief { max_steps: r.u64() as u32 } };
        } else if let Some(x) = f.try_downcast_mut::<OpaqueRendererMethod>() {
            *x = *r.pick(&[OpaqueRendererMethod::Forward, OpaqueRendererMethod::Deferred, OpaqueRendererMethod::Auto]);
        } else if let Some(x) = f.try_downcast_mut::<Affine2>() {
            *x = Affine2::from_cols_array(&std::array::from_fn(|_| num(r)));
        } else {
            panic!("no generator for material field {name}");
        }
    }
    m.cull_mode = *r.pick(&[None, Some(Face::Front), Some(Face::Back)]);
    Ok(m)
}
/// every field but the textures, in a comparable form; and the textures by field name
pub fn material_content(m: &StandardMaterial) -> (String, Vec<(String, Option<Handle<Image>>)>) {
    let mut s = format!("cull_mode={:?};", m.cull_mode);
    let mut t = vec![];
    let b = |x: f32| format!("{:08x}", x.to_bits());
    for i in 0..m.field_len() {
        let name = m.name_at(i).unwrap();
        let f: &dyn PartialReflect = m.field_at(i).unwrap();
        let v = if let Some(x) = f.try_downcast_ref::<f32>() {
            b(*x)
        } else if let Some(x) = f.try_downcast_ref::<Option<Handle<Image>>>() {
            t.push((name.to_string(), x.clone()));
            continue;
        } else if let Some(x) = f.try_downcast_ref::<Color>() {
            let w = |n: &str, v: [f32; 4]| format!("{n}{:?}", v.map(b));
            match x {
                Color::Srgba(c) => w("srgb", [c.red, c.green, c.blue, c.alpha]),
                Color::LinearRgba(c) => w("lin", [c.red, c.green, c.blue, c.alpha]),
                Color::Hsla(c) => w("hsl", [c.hue, c.saturation, c.lightness, c.alpha]),
                Color::Hsva(c) => w("hsv", [c.hue, c.saturation, c.value, c.alpha]),
                Color::Hwba(c) => w("hwb", [c.hue, c.whiteness, c.blackness, c.alpha]),
                Color::Laba(c) => w("lab", [c.lightness, c.a, c.b, c.alpha]),
                Color::Lcha(c) => w("lch", [c.lightness, c.chroma, c.hue, c.alpha]),
                Color::Oklaba(c) => w("oklab", [c.lightness, c.a, c.b, c.alpha]),
                Color::Oklcha(c) => w("oklch", [c.lightness, c.chroma, c.hue, c.alpha]),
                Color::Xyza(c) => w("xyz", [c.x, c.y, c.z, c.alpha]),
            }
        } else if let Some(c) = f.try_downcast_ref::<LinearRgba>() {
            format!("{:?}", [c.red, c.green, c.blue, c.alpha].map(b))
        } else if let Some(a) = f.try_downcast_ref::<Affine2>() {
            format!("{:?}", a.to_cols_array().map(b))
        } else if let Some(AlphaMode::Mask(x)) = f.try_downcast_ref::<AlphaMode>() {
            format!("mask {}", b(*x))
        } else {
            format!("{f:?}")
        };
        s += &format!("{name}={v};");
    }
    (s, t)
}
/// textures may be renumbered, but equal ones stay shared and different ones apart
pub fn same_textures(
    what: &str,
    a: &[(String, Option<Handle<Image>>)],
    b: &[(String, Option<Handle<Image>>)],
    ia: &Assets<Image>,
    ib: &Assets<Image>,
    map: &mut HashMap<AssetId<Image>, AssetId<Image>>,
) -> R {
    for ((n, x), (_, y)) in a.iter().zip(b) {
        match (x, y) {
            (None, None) => {}
            (Some(x), Some(y)) => {
                let (Some(p), Some(q)) = (ia.get(x), ib.get(y)) else { bail!("lost-texture", "{what}: the received texture {n} does not exist") };
                let (p, q) = (image_content(p), image_content(q));
                ensure!(p == q, "wrong-texture", "{what}: texture {n} differs: {}", differ(&p, &q));
                let e = *map.entry(x.id()).or_insert(y.id());
                ensure!(e == y.id(), "unshared-texture", "{what}: the texture of {n} was shared and is now a second copy");
            }
            _ => bail!("lost-texture", "{what}: texture {n} was {} and is now {}", if x.is_some() { "set" } else { "unset" }, if y.is_some() { "set" } else { "unset" }),
        }
    }
    let mut back: Vec<_> = map.values().copied().collect();
    back.sort();
    back.dedup();
    ensure!(back.len() == map.len(), "merged-textures", "{what}: different textures became one");
    Ok(())
}
