//! C30-C32: what the game sends to the editor arrives there unchanged.
use bevy_asset::{Assets, Handle, RenderAssetUsages};
use bevy_color::prelude::*;
use bevy_image::{Image, ImageAddressMode, ImageCompareFunction, ImageFilterMode, ImageSampler, ImageSamplerBorderColor, ImageSamplerDescriptor};
use bevy_mesh::{Indices, Mesh, MeshVertexAttribute, VertexAttributeValues, VertexFormat};
use bevy_pbr::{OpaqueRendererMethod, ParallaxMappingMethod, StandardMaterial, UvChannel};
use bevy_platform::collections::HashMap;
use bevy_render::alpha::AlphaMode;
use bevy_rerecast_editor_integration::brp::{AffectorMesh, NavmeshInputResponse, VisualMesh};
use bevy_rerecast_editor_integration::transmission::{SerializedImage, SerializedMesh, SerializedStandardMaterial, deserialize, serialize};
use crate::meshes::{Lcg, TOPOLOGIES, placement};
use glam::{Affine2, Mat2, UVec3, Vec2};
use pbt::*;
use rerecast::{AreaType, TriMesh};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use wgpu_types::{AstcBlock, AstcChannel, Extent3d, Face, TextureAspect, TextureDescriptor, TextureDimension, TextureFormat, TextureUsages, TextureViewDescriptor, TextureViewDimension};

pub fn bits(s: &mut Src) -> f32 {
    match s.weighted(&[4, 3, 2]) {
        0 => s.int(-16, 16) as f32 / 8.0,
        1 => s.f32(-1000.0, 1000.0),
        _ => f32::from_bits(s.u32()),
    }
}
fn fail(e: impl std::fmt::Display) -> Fail {
    Fail::new("refused", format!("{e}"))
}
/// There and back over the wire.
pub fn wire<T: Serialize + DeserializeOwned>(t: &T) -> Result<T, Fail> {
    let v = serialize(t).map_err(fail)?;
    // the message travels as JSON text
    let v: Value = serde_json::from_str(&serde_json::to_string(&v).map_err(fail)?).map_err(fail)?;
    deserialize(&v).map_err(fail)
}

// ---------------------------------------------------------------- meshes
/// The bits of every attribute, by id, with its format.
pub type Attributes = Vec<(String, VertexFormat, Vec<u8>)>;
pub fn attributes(m: &Mesh) -> Attributes {
    let mut v: Vec<_> = m.attributes().map(|(a, v)| (a.name.to_string(), VertexFormat::from(v), v.get_bytes().to_vec())).collect();
    v.sort_by(|a, b| (&a.0, &a.2).cmp(&(&b.0, &b.2)));
    v
}
pub fn mesh(s: &mut Src, c: &mut Ctx, custom: bool) -> (Mesh, Attributes) {
    sized_mesh(s, c, custom, None)
}
fn sized_mesh(s: &mut Src, c: &mut Ctx, custom: bool, size: Option<(usize, usize)>) -> (Mesh, Attributes) {
    let mut m = Mesh::new(*s.pick(&TOPOLOGIES), RenderAssetUsages::all());
    let hi = if s.chance(1, 50) { 5000 } else { 24 };
    let n = size.map_or_else(|| s.small(0, hi) as usize, |z| z.0);
    let mut l = Lcg(n as u32);
    let order = {
        let mut o = [0, 1, 2, 3, 4, 5, 6, 7];
        s.shuffle(&mut o);
        o
    };
    let long = n > 100;
    let seed = bits(s);
    let mut k = 0u32;
    let mut f = |s: &mut Src| {
        k += 1;
        if long { seed + k as f32 } else { bits(s) }
    };
    for a in order {
        if !s.bool() {
            continue;
        }
        // every attribute may have its own length
        let n = if s.chance(1, 12) { s.usize(0, 9) } else { n };
        match a {
            0 => m.insert_attribute(Mesh::ATTRIBUTE_POSITION, (0..n).map(|_| [f(s), f(s), f(s)]).collect::<Vec<_>>()),
            1 => m.insert_attribute(Mesh::ATTRIBUTE_NORMAL, (0..n).map(|_| [f(s), f(s), f(s)]).collect::<Vec<_>>()),
            2 => m.insert_attribute(Mesh::ATTRIBUTE_UV_0, (0..n).map(|_| [f(s), f(s)]).collect::<Vec<_>>()),
            3 => m.insert_attribute(Mesh::ATTRIBUTE_UV_1, (0..n).map(|_| [f(s), f(s)]).collect::<Vec<_>>()),
            4 => m.insert_attribute(Mesh::ATTRIBUTE_TANGENT, (0..n).map(|_| [f(s), f(s), f(s), f(s)]).collect::<Vec<_>>()),
            5 => m.insert_attribute(Mesh::ATTRIBUTE_COLOR, (0..n).map(|_| [f(s), f(s), f(s), f(s)]).collect::<Vec<_>>()),
            6 => m.insert_attribute(Mesh::ATTRIBUTE_JOINT_WEIGHT, (0..n).map(|_| [f(s), f(s), f(s), f(s)]).collect::<Vec<_>>()),
            _ => m.insert_attribute(Mesh::ATTRIBUTE_JOINT_INDEX, VertexAttributeValues::Uint16x4((0..n).map(|_| if long { [l.next() as u16, 3, 65535, l.next() as u16] } else { [s.u32() as u16, s.below(5) as u16, 65535, s.u32() as u16] }).collect())),
        }
    }
    let expected = attributes(&m);
    if custom && s.chance(1, 4) {
        c.label("custom attribute");
        m.insert_attribute(MeshVertexAttribute::new("Harness", 988540917, VertexFormat::Float32x2), VertexAttributeValues::Float32x2(vec![[1.0, 2.0]; n]));
    }
    if s.chance(4, 5) {
        let k = size.map_or_else(|| s.small(0, 60) as usize, |z| z.1);
        let wide = s.bool();
        let i: Vec<u32> = (0..k).map(|_| if k > 60 { l.next() % n.max(1) as u32 } else if s.chance(1, 4) { s.u32() } else { s.below(n.max(1) as u64) as u32 }).collect();
        c.label(if wide { "32 bit indices" } else { "16 bit indices" });
        m.insert_indices(if wide { Indices::U32(i) } else { Indices::U16(i.into_iter().map(|i| i as u16).collect()) });
    } else {
        c.label("no indices");
    }
    (m, expected)
}
pub fn same_mesh(got: &Mesh, want: &Mesh, expected: &Attributes, what: &str) -> Res {
    ensure!(got.primitive_topology() == want.primitive_topology(), "topology", "{what}: topology {:?} instead of {:?}", got.primitive_topology(), want.primitive_topology());
    let same = match (got.indices(), want.indices()) {
        (None, None) => true,
        (Some(Indices::U16(a)), Some(Indices::U16(b))) => a == b,
        (Some(Indices::U32(a)), Some(Indices::U32(b))) => a == b,
        _ => false,
    };
    ensure!(same, "indices", "{what}: indices {:?} instead of {:?}", got.indices(), want.indices());
    let a = attributes(got);
    let names = |a: &Attributes| a.iter().map(|a| format!("{} {:?}", a.0, a.1)).collect::<Vec<_>>();
    ensure!(names(&a) == names(expected), "attributes", "{what}: attributes {:?} instead of {:?}", names(&a), names(expected));
    for (x, y) in a.iter().zip(expected) {
        ensure!(x.2 == y.2, "values", "{what}: other values of {} ({} and {} bytes)", x.0, x.2.len(), y.2.len());
    }
    Ok(())
}
fn c30_mesh(s: &mut Src, c: &mut Ctx) -> Res {
    let (m, e) = mesh(s, c, true);
    c.describe(|| format!("{:?} {:?} {:?}", m.primitive_topology(), e.iter().map(|a| (a.0.clone(), a.2.len())).collect::<Vec<_>>(), m.indices()));
    judge_mesh(m, e, c)
}
/// Meshes with more vertices and indices than sixteen bits count.
fn c30_large(s: &mut Src, c: &mut Ctx) -> Res {
    let z = (s.usize(60_000, 150_000), s.usize(60_000, 400_000));
    let (m, e) = sized_mesh(s, c, true, Some(z));
    c.describe(|| format!("{:?} {:?} {:?}", m.primitive_topology(), e.iter().map(|a| (a.0.clone(), a.2.len())).collect::<Vec<_>>(), m.indices().map(|i| i.len())));
    judge_mesh(m, e, c)
}
fn judge_mesh(m: Mesh, e: Attributes, c: &mut Ctx) -> Res {
    c.nontrivial_if(e.iter().any(|a| !a.2.is_empty()));
    let snap = SerializedMesh::from_mesh(&m);
    same_mesh(&snap.clone().into_mesh(), &m, &e, "conversion")?;
    let there = wire(&snap)?;
    same_mesh(&there.clone().into_mesh(), &m, &e, "over the wire")?;
    // twice
    same_mesh(&wire(&SerializedMesh::from_mesh(&there.into_mesh()))?.into_mesh(), &m, &e, "sent on")?;
    ensure!(canon(&snap) == canon(&wire(&snap)?), "snapshot", "the snapshot differs after the wire");
    Ok(())
}
/// An injective encoding made by the harness itself.
fn canon<T: Serialize>(t: &T) -> Vec<u8> {
    bincode::serde::encode_to_vec(t, bincode::config::standard()).unwrap()
}

// ---------------------------------------------------------------- images
fn formats() -> Vec<TextureFormat> {
    use TextureFormat::*;
    let mut v = vec![
        R8Unorm, R8Snorm, R8Uint, R8Sint, R16Uint, R16Sint, R16Unorm, R16Snorm, R16Float, Rg8Unorm, Rg8Snorm, Rg8Uint, Rg8Sint, R32Uint, R32Sint, R32Float, Rg16Uint, Rg16Sint, Rg16Unorm, Rg16Snorm, Rg16Float, Rgba8Unorm,
        Rgba8UnormSrgb, Rgba8Snorm, Rgba8Uint, Rgba8Sint, Bgra8Unorm, Bgra8UnormSrgb, Rgb9e5Ufloat, Rgb10a2Uint, Rgb10a2Unorm, Rg11b10Ufloat, R64Uint, Rg32Uint, Rg32Sint, Rg32Float, Rgba16Uint, Rgba16Sint, Rgba16Unorm, Rgba16Snorm,
        Rgba16Float, Rgba32Uint, Rgba32Sint, Rgba32Float, Stencil8, Depth16Unorm, Depth24Plus, Depth24PlusStencil8, Depth32Float, Depth32FloatStencil8, NV12, Bc1RgbaUnorm, Bc1RgbaUnormSrgb, Bc2RgbaUnorm, Bc2RgbaUnormSrgb,
        Bc3RgbaUnorm, Bc3RgbaUnormSrgb, Bc4RUnorm, Bc4RSnorm, Bc5RgUnorm, Bc5RgSnorm, Bc6hRgbUfloat, Bc6hRgbFloat, Bc7RgbaUnorm, Bc7RgbaUnormSrgb, Etc2Rgb8Unorm, Etc2Rgb8UnormSrgb, Etc2Rgb8A1Unorm, Etc2Rgb8A1UnormSrgb,
        Etc2Rgba8Unorm, Etc2Rgba8UnormSrgb, EacR11Unorm, EacR11Snorm, EacRg11Unorm, EacRg11Snorm,
    ];
    for block in [AstcBlock::B4x4, AstcBlock::B5x4, AstcBlock::B8x6, AstcBlock::B10x10, AstcBlock::B12x12] {
        for channel in [AstcChannel::Unorm, AstcChannel::UnormSrgb, AstcChannel::Hdr] {
            v.push(Astc { block, channel });
        }
    }
    v
}
/// A name of 300 bytes.
const LONG: &str = match std::str::from_utf8(&[b'n'; 300]) {
    Ok(s) => s,
    Err(_) => "",
};
pub fn image(s: &mut Src, mark: u32) -> Image {
    sized_image(s, mark, false)
}
fn sized_image(s: &mut Src, mark: u32, large: bool) -> Image {
    let fs = formats();
    let size = |s: &mut Src| match s.weighted(&[4, 1]) {
        0 => s.small(0, 40) as u32,
        _ => *s.pick(&[255, 256, 65535, 65536, u32::MAX, 0]),
    };
    let none = mark == u32::MAX && s.chance(1, 8);
    let data = (!s.chance(1, 6)).then(|| {
        if none {
            return vec![];
        }
        if large {
            // noise, stripes or a constant
            let (n, mut l, k) = (s.usize(200_000, 8_000_000), Lcg(s.u32()), s.below(3));
            return (0..n).map(|i| [(l.next() >> 9) as u8, (i / 4096) as u8, 77][k as usize]).collect();
        }
        let hi = if s.chance(1, 60) { 20_000 } else { 90 };
        let n = s.small(0, hi) as usize;
        let mut d: Vec<u8> = if n > 200 { vec![s.u32() as u8; n] } else { (0..n).map(|_| s.u32() as u8).collect() };
        d.extend(mark.to_le_bytes());
        d
    });
    let usages: Vec<_> = TextureUsages::all().iter().collect();
    let usage = |s: &mut Src| usages.iter().filter(|_| s.bool()).fold(TextureUsages::empty(), |a, b| a | *b);
    let sampler = if s.chance(1, 3) {
        ImageSampler::Default
    } else {
        let am = [ImageAddressMode::ClampToEdge, ImageAddressMode::Repeat, ImageAddressMode::MirrorRepeat, ImageAddressMode::ClampToBorder];
        let fm = [ImageFilterMode::Nearest, ImageFilterMode::Linear];
        use ImageCompareFunction::*;
        ImageSampler::Descriptor(ImageSamplerDescriptor {
            label: s.chance(1, 3).then(|| ["", "wood", "Stein-ß \u{1f9f1}\n", "0123456789012345678901234567890123456789", LONG][s.below(5) as usize].to_string()),
            address_mode_u: *s.pick(&am),
            address_mode_v: *s.pick(&am),
            address_mode_w: *s.pick(&am),
            mag_filter: *s.pick(&fm),
            min_filter: *s.pick(&fm),
            mipmap_filter: *s.pick(&fm),
            lod_min_clamp: s.f32(-9.0, 9.0),
            lod_max_clamp: s.f32(-9.0, 1e9),
            compare: s.bool().then(|| *s.pick(&[Never, Less, Equal, LessEqual, Greater, NotEqual, GreaterEqual, Always])),
            anisotropy_clamp: s.below(65536) as u16,
            border_color: s.bool().then(|| *s.pick(&[ImageSamplerBorderColor::TransparentBlack, ImageSamplerBorderColor::OpaqueBlack, ImageSamplerBorderColor::OpaqueWhite, ImageSamplerBorderColor::Zero])),
        })
    };
    let view = s.bool().then(|| TextureViewDescriptor {
        label: None,
        format: s.bool().then(|| *s.pick(&fs)),
        dimension: s.bool().then(|| {
            use TextureViewDimension::*;
            *s.pick(&[D1, D2, D2Array, Cube, CubeArray, D3])
        }),
        usage: s.bool().then(|| usage(s)),
        aspect: *s.pick(&[TextureAspect::All, TextureAspect::StencilOnly, TextureAspect::DepthOnly, TextureAspect::Plane0, TextureAspect::Plane1, TextureAspect::Plane2]),
        base_mip_level: size(s),
        mip_level_count: s.bool().then(|| size(s)),
        base_array_layer: size(s),
        array_layer_count: s.bool().then(|| size(s)),
    });
    Image {
        data,
        texture_descriptor: TextureDescriptor {
            label: None,
            size: Extent3d { width: size(s), height: mark, depth_or_array_layers: size(s) },
            mip_level_count: size(s),
            sample_count: size(s),
            dimension: *s.pick(&[TextureDimension::D1, TextureDimension::D2, TextureDimension::D3]),
            format: *s.pick(&fs),
            usage: usage(s),
            view_formats: &[],
        },
        sampler,
        texture_view_descriptor: view,
        asset_usage: RenderAssetUsages::all(),
    }
}
pub fn same_image(a: &Image, b: &Image, what: &str) -> Res {
    ensure!(a.data == b.data, "pixels", "{what}: other pixels ({:?} and {:?} bytes)", a.data.as_ref().map(|d| d.len()), b.data.as_ref().map(|d| d.len()));
    let show = |i: &Image| (format!("{:?}", i.texture_descriptor), format!("{:?}", i.sampler), format!("{:?}", i.texture_view_descriptor));
    let (x, y) = (show(a), show(b));
    ensure!(x.0 == y.0, "texture", "{what}: {} instead of {}", x.0, y.0);
    ensure!(x.1 == y.1, "sampler", "{what}: {} instead of {}", x.1, y.1);
    ensure!(x.2 == y.2, "view", "{what}: {} instead of {}", x.2, y.2);
    Ok(())
}
fn c31_image(s: &mut Src, c: &mut Ctx) -> Res {
    let i = image(s, u32::MAX);
    c.describe(|| format!("{i:?}"));
    judge_image(i, c)
}
/// Images of many megabytes.
fn c31_large(s: &mut Src, c: &mut Ctx) -> Res {
    let i = sized_image(s, 7, true);
    c.describe(|| format!("{:?} {:?}", i.data.as_ref().map(|d| (d.len(), &d[..d.len().min(20)])), i.texture_descriptor));
    judge_image(i, c)
}
fn judge_image(i: Image, c: &mut Ctx) -> Res {
    c.nontrivial_if(i.data.is_some());
    let snap = SerializedImage::from_image(i.clone());
    same_image(&snap.clone().into_image(), &i, "conversion")?;
    same_image(&wire(&snap)?.into_image(), &i, "over the wire")?;
    same_image(&wire(&SerializedImage::from_image(wire(&snap)?.into_image()))?.into_image(), &i, "sent on")
}

// ---------------------------------------------------------------- materials
macro_rules! floats {
    ($m:expr, $f:expr) => {{
        let m = $m;
        let mut f = $f;
        f("emissive_exposure_weight", &mut m.emissive_exposure_weight);
        f("perceptual_roughness", &mut m.perceptual_roughness);
        f("metallic", &mut m.metallic);
        f("reflectance", &mut m.reflectance);
        f("diffuse_transmission", &mut m.diffuse_transmission);
        f("specular_transmission", &mut m.specular_transmission);
        f("thickness", &mut m.thickness);
        f("ior", &mut m.ior);
        f("attenuation_distance", &mut m.attenuation_distance);
        f("clearcoat", &mut m.clearcoat);
        f("clearcoat_perceptual_roughness", &mut m.clearcoat_perceptual_roughness);
        f("anisotropy_strength", &mut m.anisotropy_strength);
        f("anisotropy_rotation", &mut m.anisotropy_rotation);
        f("depth_bias", &mut m.depth_bias);
        f("parallax_depth_scale", &mut m.parallax_depth_scale);
        f("max_parallax_layer_count", &mut m.max_parallax_layer_count);
        f("lightmap_exposure", &mut m.lightmap_exposure);
    }};
}
/// The texture slots with their coordinate sets (the depth map has none).
macro_rules! textures {
    ($m:expr, $f:expr) => {{
        let m = $m;
        let mut f = $f;
        f("base_color", &mut m.base_color_texture, Some(&mut m.base_color_channel));
        f("emissive", &mut m.emissive_texture, Some(&mut m.emissive_channel));
        f("metallic_roughness", &mut m.metallic_roughness_texture, Some(&mut m.metallic_roughness_channel));
        f("diffuse_transmission", &mut m.diffuse_transmission_texture, Some(&mut m.diffuse_transmission_channel));
        f("specular_transmission", &mut m.specular_transmission_texture, Some(&mut m.specular_transmission_channel));
        f("thickness", &mut m.thickness_texture, Some(&mut m.thickness_channel));
        f("normal_map", &mut m.normal_map_texture, Some(&mut m.normal_map_channel));
        f("occlusion", &mut m.occlusion_texture, Some(&mut m.occlusion_channel));
        f("specular", &mut m.specular_texture, Some(&mut m.specular_channel));
        f("specular_tint", &mut m.specular_tint_texture, Some(&mut m.specular_tint_channel));
        f("clearcoat", &mut m.clearcoat_texture, Some(&mut m.clearcoat_channel));
        f("clearcoat_roughness", &mut m.clearcoat_roughness_texture, Some(&mut m.clearcoat_roughness_channel));
        f("clearcoat_normal", &mut m.clearcoat_normal_texture, Some(&mut m.clearcoat_normal_channel));
        f("anisotropy", &mut m.anisotropy_texture, Some(&mut m.anisotropy_channel));
        f("depth_map", &mut m.depth_map, None::<&mut UvChannel>);
    }};
}
fn color(s: &mut Src) -> Color {
    let (a, b, d, e) = (bits(s), bits(s), bits(s), bits(s));
    match s.below(10) {
        0 => Color::srgba(a, b, d, e),
        1 => Color::linear_rgba(a, b, d, e),
        2 => Color::hsla(a, b, d, e),
        3 => Color::hsva(a, b, d, e),
        4 => Color::hwba(a, b, d, e),
        5 => Color::laba(a, b, d, e),
        6 => Color::lcha(a, b, d, e),
        7 => Color::oklaba(a, b, d, e),
        8 => Color::oklcha(a, b, d, e),
        _ => Color::xyza(a, b, d, e),
    }
}
fn color_bits(c: &Color) -> (usize, [u32; 4]) {
    let (k, v) = match *c {
        Color::Srgba(c) => (0, [c.red, c.green, c.blue, c.alpha]),
        Color::LinearRgba(c) => (1, [c.red, c.green, c.blue, c.alpha]),
        Color::Hsla(c) => (2, [c.hue, c.saturation, c.lightness, c.alpha]),
        Color::Hsva(c) => (3, [c.hue, c.saturation, c.value, c.alpha]),
        Color::Hwba(c) => (4, [c.hue, c.whiteness, c.blackness, c.alpha]),
        Color::Laba(c) => (5, [c.lightness, c.a, c.b, c.alpha]),
        Color::Lcha(c) => (6, [c.lightness, c.chroma, c.hue, c.alpha]),
        Color::Oklaba(c) => (7, [c.lightness, c.a, c.b, c.alpha]),
        Color::Oklcha(c) => (8, [c.lightness, c.chroma, c.hue, c.alpha]),
        Color::Xyza(c) => (9, [c.x, c.y, c.z, c.alpha]),
    };
    (k, v.map(f32::to_bits))
}
pub fn material(s: &mut Src, pool: &[Handle<Image>]) -> StandardMaterial {
    let mut m = StandardMaterial::default();
    let dense = s.bool();
    floats!(&mut m, |_, f: &mut f32| {
        if s.chance(2, 3) {
            *f = bits(s)
        }
    });
    textures!(&mut m, |_, t: &mut Option<Handle<Image>>, ch: Option<&mut UvChannel>| {
        if !pool.is_empty() && s.chance(if dense { 3 } else { 1 }, 4) {
            *t = Some(s.pick(pool).clone());
        }
        if let Some(ch) = ch
            && s.bool()
        {
            *ch = UvChannel::Uv1;
        }
    });
    m.base_color = color(s);
    m.specular_tint = color(s);
    m.attenuation_color = color(s);
    m.emissive = LinearRgba::new(bits(s), bits(s), bits(s), bits(s));
    m.flip_normal_map_y = s.bool();
    m.double_sided = s.bool();
    m.unlit = s.bool();
    m.fog_enabled = s.bool();
    m.cull_mode = *s.pick(&[None, Some(Face::Front), Some(Face::Back)]);
    m.alpha_mode = match s.below(7) {
        0 => AlphaMode::Opaque,
        1 => AlphaMode::Mask(s.f32(-2.0, 2.0)),
        2 => AlphaMode::Blend,
        3 => AlphaMode::Premultiplied,
        4 => AlphaMode::AlphaToCoverage,
        5 => AlphaMode::Add,
        _ => AlphaMode::Multiply,
    };
    m.parallax_mapping_method = if s.bool() { ParallaxMappingMethod::Occlusion } else { ParallaxMappingMethod::Relief { max_steps: s.u32() } };
    m.opaque_render_method = *s.pick(&[OpaqueRendererMethod::Forward, OpaqueRendererMethod::Deferred, OpaqueRendererMethod::Auto]);
    m.deferred_lighting_pass_id = s.u32() as u8;
    m.uv_transform = Affine2 { matrix2: Mat2::from_cols(Vec2::new(bits(s), bits(s)), Vec2::new(bits(s), bits(s))), translation: Vec2::new(bits(s), bits(s)) };
    m
}
pub fn slots(m: &StandardMaterial) -> Vec<(&'static str, Option<Handle<Image>>)> {
    let mut v = vec![];
    textures!(&mut m.clone(), |n, t: &mut Option<Handle<Image>>, _: Option<&mut UvChannel>| v.push((n, t.clone())));
    v
}
/// Everything about a material except for its images.
pub fn same_material(a: &StandardMaterial, b: &StandardMaterial, what: &str) -> Res {
    let (mut x, mut y) = (vec![], vec![]);
    floats!(&mut a.clone(), |n: &'static str, f: &mut f32| x.push((n, f.to_bits())));
    floats!(&mut b.clone(), |n: &'static str, f: &mut f32| y.push((n, f.to_bits())));
    for (x, y) in x.iter().zip(&y) {
        ensure!(x == y, "value", "{what}: {} is {} instead of {}", x.0, f32::from_bits(x.1), f32::from_bits(y.1));
    }
    let (mut x, mut y) = (vec![], vec![]);
    textures!(&mut a.clone(), |n, t: &mut Option<Handle<Image>>, c: Option<&mut UvChannel>| x.push((n, t.is_some(), c.cloned())));
    textures!(&mut b.clone(), |n, t: &mut Option<Handle<Image>>, c: Option<&mut UvChannel>| y.push((n, t.is_some(), c.cloned())));
    for (x, y) in x.iter().zip(&y) {
        ensure!(x.2 == y.2, "channel", "{what}: the {} texture uses {:?} instead of {:?}", x.0, x.2, y.2);
        ensure!(x.1 == y.1, "slot", "{what}: the {} texture is {} instead of {}", x.0, x.1, y.1);
    }
    for (n, x, y) in [("base_color", &a.base_color, &b.base_color), ("specular_tint", &a.specular_tint, &b.specular_tint), ("attenuation_color", &a.attenuation_color, &b.attenuation_color)] {
        ensure!(color_bits(x) == color_bits(y), "color", "{what}: {n} is {x:?} instead of {y:?}");
    }
    ensure!(a.emissive.to_f32_array().map(f32::to_bits) == b.emissive.to_f32_array().map(f32::to_bits), "color", "{what}: emissive is {:?} instead of {:?}", a.emissive, b.emissive);
    let flags = |m: &StandardMaterial| {
        format!(
            "{:?}",
            (m.flip_normal_map_y, m.double_sided, m.unlit, m.fog_enabled, m.cull_mode, m.alpha_mode, m.parallax_mapping_method, m.opaque_render_method, m.deferred_lighting_pass_id)
        )
    };
    ensure!(flags(a) == flags(b), "flags", "{what}: {} instead of {}", flags(a), flags(b));
    let t = |m: &StandardMaterial| [m.uv_transform.matrix2.x_axis, m.uv_transform.matrix2.y_axis, m.uv_transform.translation].map(|v| v.to_array().map(f32::to_bits));
    ensure!(t(a) == t(b), "transform", "{what}: texture transform {:?} instead of {:?}", a.uv_transform, b.uv_transform);
    Ok(())
}
/// Checks that the images of all slots are the original ones, and that slots share images exactly as before.
#[derive(Default)]
pub struct Sharing {
    pairs: Vec<(Handle<Image>, Handle<Image>)>,
}
impl Sharing {
    pub fn check(&mut self, got: &StandardMaterial, got_images: &Assets<Image>, want: &StandardMaterial, images: &Assets<Image>, what: &str) -> Res {
        for ((n, g), (_, w)) in slots(got).into_iter().zip(slots(want)) {
            let (Some(g), Some(w)) = (g, w) else { continue };
            let Some(i) = got_images.get(&g) else { return Err(Fail::new("image", format!("{what}: the {n} texture does not exist"))) };
            same_image(i, images.get(&w).unwrap(), &format!("{what}, {n} texture"))?;
            for (a, b) in &self.pairs {
                ensure!((*a == g) == (*b == w), "sharing", "{what}: the {n} texture is {} with another slot's", if *a == g { "wrongly shared" } else { "no longer shared" });
            }
            self.pairs.push((g, w));
        }
        Ok(())
    }
}
/// Some images with strong, weak and missing handles. The missing ones come last.
pub fn pool(s: &mut Src, images: &mut Assets<Image>, missing: bool) -> (Vec<Handle<Image>>, usize) {
    sized_pool(s, images, missing, 8)
}
fn sized_pool(s: &mut Src, images: &mut Assets<Image>, missing: bool, most: usize) -> (Vec<Handle<Image>>, usize) {
    let mut v = vec![];
    for i in 0..s.usize(1 + most / 2 * (most > 8) as usize, most) {
        let im = image(s, 100 + i as u32);
        if s.chance(1, 4) {
            let h = Handle::<Image>::weak_from_u128(77 + i as u128);
            images.insert(&h, im);
            v.push(h);
        } else {
            v.push(images.add(im));
        }
    }
    let there = v.len();
    if missing && s.chance(1, 3) {
        v.push(Handle::weak_from_u128(9999));
        let gone = images.add(Image::default());
        images.remove(&gone);
        v.push(gone);
    }
    (v, there)
}
fn c31_materials(s: &mut Src, c: &mut Ctx) -> Res {
    materials(s, c, 8, 5)
}
/// More images and materials than eight bits count.
fn c31_crowd(s: &mut Src, c: &mut Ctx) -> Res {
    materials(s, c, 600, 400)
}
fn materials(s: &mut Src, c: &mut Ctx, most_images: usize, most: usize) -> Res {
    let mut images = Assets::<Image>::default();
    let (pool, there) = sized_pool(s, &mut images, true, most_images);
    let originals: Vec<_> = (0..s.usize(1, most)).map(|_| {
        let all = s.chance(1, 3);
        material(s, if all { &pool } else { &pool[..there] })
    }).collect();
    c.describe(|| format!("{} images, materials {originals:?}", there));
    let (mut cache, mut indices) = (vec![], HashMap::new());
    let mut sent = vec![];
    for (i, m) in originals.iter().enumerate() {
        let bad = slots(m).iter().any(|(_, h)| h.as_ref().is_some_and(|h| images.get(h).is_none()));
        match SerializedStandardMaterial::try_from_standard_material(m.clone(), &mut indices, &images, &mut cache) {
            Ok(_) if bad => return Err(Fail::new("missing-image", format!("material {i} refers to a missing image, but was accepted"))),
            Err(e) if !bad => return Err(Fail::new("refused", format!("material {i}: {e}"))),
            Ok(t) => sent.push((i, t)),
            Err(_) => c.label("missing image"),
        }
    }
    let mut used: Vec<_> = originals.iter().flat_map(slots).filter_map(|s| s.1).filter(|h| images.get(h).is_some()).collect();
    used.sort();
    used.dedup();
    c.nontrivial_if(!sent.is_empty() && !used.is_empty());
    ensure!(cache.len() <= used.len(), "duplicates", "{} images are sent for {} different ones", cache.len(), used.len());
    let on_wire = s.bool();
    let (cache, sent) = if on_wire { wire(&(cache, sent))? } else { (cache, sent) };
    let mut back = Assets::<Image>::default();
    let mut map = HashMap::new();
    let mut sharing = Sharing::default();
    for (i, t) in sent {
        let got = t.into_standard_material(&mut map, &mut back, &cache);
        same_material(&got, &originals[i], &format!("material {i}"))?;
        sharing.check(&got, &back, &originals[i], &images, &format!("material {i}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- wire
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Node {
    Unit,
    Text(String),
    Pair(i64, u64),
    Wide { a: i128, b: u128, c: (i8, u16, bool, char) },
    Float(f32, f64),
    List(Vec<Node>),
    Map(BTreeMap<String, Option<Node>>),
    Bytes(Vec<u8>),
}
fn text(s: &mut Src) -> String {
    let n = s.small(0, 40);
    (0..n).map(|_| *s.pick(&['a', 'Z', '0', '/', '+', '=', '"', '\\', '\n', '\0', 'ß', '\u{ffff}', '\u{1f9f1}', ' '])).collect()
}
fn node(s: &mut Src, depth: usize) -> Node {
    let w: &[u64] = if depth == 0 { &[1, 2, 2, 2, 2, 0, 0, 2] } else { &[1, 2, 2, 2, 2, 3, 2, 2] };
    match s.weighted(w) {
        0 => Node::Unit,
        1 => Node::Text(text(s)),
        2 => {
            let e = [0, 1, 250, 251, 252, 253, 254, 255, 256, 65535, 65536, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX, i64::MAX as u64];
            Node::Pair(*s.pick(&e) as i64, if s.bool() { s.u64() } else { *s.pick(&e) })
        }
        3 => Node::Wide { a: *s.pick(&[0, -1, i128::MIN, i128::MAX, 1 << 70]), b: *s.pick(&[0, 1, u128::MAX, 1 << 64]), c: (s.u32() as i8, s.u32() as u16, s.bool(), *s.pick(&['a', '\0', 'ß', '\u{10ffff}'])) },
        4 => Node::Float(s.f32(-1e6, 1e6), *s.pick(&[0.0, -0.0, f64::INFINITY, f64::MIN_POSITIVE, f64::MAX, 1.0 / 3.0])),
        5 => Node::List((0..s.usize(0, 4)).map(|_| node(s, depth - 1)).collect()),
        6 => Node::Map((0..s.usize(0, 3)).map(|_| (text(s), s.bool().then(|| node(s, depth - 1)))).collect()),
        _ => {
            let hi = if s.chance(1, 100) { 300_000 } else { 300 };
            let n = s.small(0, hi) as usize;
            let b = s.u32();
            // incompressible or constant
            Node::Bytes(if s.bool() { vec![b as u8; n] } else { (0..n as u32).map(|i| (i.wrapping_mul(2654435761).wrapping_add(b)).wrapping_mul(0x9e3779b1).to_le_bytes()[3]).collect() })
        }
    }
}
pub fn trimesh(s: &mut Src) -> TriMesh {
    let n = s.usize(0, 6);
    let k = s.usize(0, 4);
    TriMesh {
        vertices: (0..n).map(|_| [bits(s), bits(s), bits(s)].into()).collect(),
        indices: (0..k).map(|_| UVec3::new(s.u32(), s.below(9) as u32, s.below(9) as u32)).collect(),
        area_types: (0..k).map(|_| AreaType::from(s.u32() as u8)).collect(),
    }
}
fn response(s: &mut Src, c: &mut Ctx) -> NavmeshInputResponse {
    let mut images = Assets::<Image>::default();
    let (pool, _) = pool(s, &mut images, false);
    let (mut cache, mut indices) = (vec![], HashMap::new());
    let materials = (0..s.usize(0, 3)).map(|_| SerializedStandardMaterial::try_from_standard_material(material(s, &pool), &mut indices, &images, &mut cache).unwrap()).collect();
    NavmeshInputResponse {
        affector_meshes: (0..s.usize(0, 3)).map(|i| AffectorMesh { transform: placement(i, s, c), mesh: trimesh(s) }).collect(),
        visual_meshes: (0..s.usize(0, 3)).map(|i| VisualMesh { transform: placement(i, s, c), mesh: s.u32(), material: s.bool().then(|| s.u32()) }).collect(),
        materials,
        meshes: (0..s.usize(0, 2)).map(|_| SerializedMesh::from_mesh(&mesh(s, c, false).0)).collect(),
        images: cache,
    }
}
fn c32_roundtrip(s: &mut Src, c: &mut Ctx) -> Res {
    match s.weighted(&[4, 2, 1]) {
        0 => {
            let d = s.usize(0, 3);
            let n = node(s, d);
            c.describe(|| format!("{n:?}").chars().take(2000).collect());
            c.nontrivial = n != Node::Unit;
            ensure!(wire(&n)? == n, "value", "{n:?} is not what arrives");
        }
        1 => {
            let r = response(s, c);
            c.describe(|| format!("{r:?}").chars().take(2000).collect());
            c.nontrivial = true;
            ensure!(canon(&wire(&r)?) == canon(&r), "value", "another response arrives");
        }
        _ => {
            let t = trimesh(s);
            c.nontrivial_if(!t.indices.is_empty());
            ensure!(canon(&wire(&t)?) == canon(&t), "value", "another mesh arrives");
        }
    }
    Ok(())
}
/// Messages of many megabytes, and lists longer than sixteen bits count.
fn c32_large(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.usize(66_000, 400_000);
    let mut l = Lcg(s.u32());
    c.nontrivial = true;
    let what = s.below(5);
    c.describe(|| format!("{n} items of kind {what}"));
    match what {
        0 | 1 => {
            let n = 40 * n;
            let t = Node::Bytes((0..n).map(|i| if what == 0 { (l.next() >> 7) as u8 } else { (i >> 12) as u8 }).collect());
            ensure!(wire(&t)? == t, "value", "{n} bytes do not arrive");
        }
        2 => {
            let t = Node::List((0..n).map(|i| if i % 3 == 0 { Node::Pair(l.next() as i64, i as u64) } else { Node::Text(format!("{i}")) }).collect());
            ensure!(wire(&t)? == t, "value", "a list of {n} values does not arrive");
        }
        3 => {
            let t = Node::Map((0..n).map(|i| (format!("{}-{i}", l.next()), (i % 2 == 0).then_some(Node::Unit))).collect());
            ensure!(wire(&t)? == t, "value", "a map of {n} values does not arrive");
        }
        _ => {
            let v = n as u32;
            let t = TriMesh {
                vertices: (0..v).map(|i| [i as f32, f32::from_bits(l.next()), 0.5].into()).collect(),
                indices: (0..v).map(|i| UVec3::new(i, l.next() % v, l.next() % v)).collect(),
                area_types: (0..v).map(|i| AreaType::from(i as u8)).collect(),
            };
            ensure!(canon(&wire(&t)?) == canon(&t), "value", "a mesh of {n} vertices does not arrive");
        }
    }
    Ok(())
}
const B64: base64::engine::GeneralPurpose = base64::engine::general_purpose::STANDARD;
fn gz(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn unbase(v: &Value) -> Result<Vec<u8>, Fail> {
    use base64::Engine;
    let s = v.as_str().ok_or_else(|| Fail::new("message", "the message is not a string"))?;
    B64.decode(s).map_err(|e| Fail::new("message", format!("the message is not base64: {e}")))
}
fn base(b: &[u8]) -> Value {
    use base64::Engine;
    Value::String(B64.encode(b))
}
fn bytes(s: &mut Src, hi: i64) -> Vec<u8> {
    let n = s.small(0, hi);
    (0..n).map(|_| if s.chance(1, 4) { *s.pick(&[0, 1, 250, 251, 252, 253, 254, 255]) } else { s.u32() as u8 }).collect()
}
/// What a decoder may answer.
#[derive(PartialEq)]
enum May {
    Anything,
    Error,
    /// the original value or an error
    Same,
}
fn garbage<T: Serialize + DeserializeOwned>(s: &mut Src, c: &mut Ctx, t: &T) -> Res {
    use serde_json::json;
    let v = serialize(t).map_err(fail)?;
    let zip = unbase(&v)?;
    let payload = canon(t);
    {
        let mut d = vec![];
        flate2::read::GzDecoder::new(&zip[..]).read_to_end(&mut d).map_err(|e| Fail::new("message", format!("the message is not gzip data: {e}")))?;
        ensure!(d == payload, "message", "the message does not contain the encoding of the value");
    }
    let text = v.as_str().unwrap().to_string();
    let huge = |s: &mut Src| {
        // a length that cannot be true, at a place where a length or a value is
        let mut p = payload.clone();
        let at = s.below(p.len() as u64 + 1) as usize;
        let len = *s.pick(&[u64::MAX, u64::MAX / 2, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 60, 1 << 47, 1 << 40, 1 << 33, 1 << 29, 70_000]);
        p.truncate(at);
        p.push(253);
        p.extend(len.to_le_bytes());
        p.extend(&payload[at.min(payload.len())..]);
        p
    };
    let (what, msg, may): (&'static str, Value, May) = match s.weighted(&[2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 2, 2, 3]) {
        0 => ("other JSON value", [json!(null), json!(true), json!(1), json!(-1.5), json!([]), json!([text]), json!({}), json!({"value": text}), json!({ text.clone(): 1 })][s.below(9) as usize].clone(), May::Error),
        1 => ("random text", Value::String(self::text(s)), May::Error),
        2 => ("random bytes", base(&bytes(s, 60)), May::Error),
        3 => ("truncated text", Value::String(text[..s.below(text.len() as u64) as usize].to_string()), May::Error),
        4 => {
            let mut t: Vec<char> = text.chars().collect();
            let at = s.below(t.len() as u64) as usize;
            t[at] = *s.pick(&['*', ' ', '\n', 'ß', '-', '_', '\0', '=', 'A', 'b', '/']);
            ("another character", Value::String(t.into_iter().collect()), May::Same)
        }
        5 => ("truncated gzip data", base(&zip[..s.below(zip.len() as u64) as usize]), May::Error),
        6 => {
            let mut z = zip.clone();
            let at = s.below(z.len() as u64) as usize;
            z[at] ^= 1 << s.below(8);
            ("a flipped bit in the gzip data", base(&z), May::Same)
        }
        7 => {
            let mut z = zip.clone();
            let mut extra = bytes(s, 20);
            extra.push(s.u32() as u8);
            if s.chance(1, 3) {
                extra = zip.clone(); // another complete message
            }
            z.extend(extra);
            ("more data after the gzip data", base(&z), May::Error)
        }
        8 => {
            ensure!(!payload.is_empty(), "message", "empty payload");
            ("truncated payload", base(&gz(&payload[..s.below(payload.len() as u64) as usize])), May::Error)
        }
        9 => {
            let mut p = payload.clone();
            let mut extra = bytes(s, 20);
            extra.push(s.u32() as u8);
            if s.chance(1, 4) {
                extra = payload.clone();
            }
            p.extend(extra);
            ("a longer payload", base(&gz(&p)), May::Error)
        }
        10 => {
            let mut p = payload.clone();
            for _ in 0..s.usize(1, 3) {
                let at = s.below(p.len() as u64) as usize;
                p[at] = if s.bool() { p[at] ^ (1 << s.below(8)) } else { *s.pick(&[0, 1, 250, 251, 252, 253, 254, 255]) };
            }
            ("a changed payload", base(&gz(&p)), May::Anything)
        }
        11 => ("a random payload", base(&gz(&bytes(s, 60))), May::Anything),
        _ => ("an impossible length", base(&gz(&huge(s))), May::Anything),
    };
    c.label(what);
    c.describe(|| format!("{what}: {}", msg.to_string().chars().take(600).collect::<String>()));
    c.nontrivial = true;
    match deserialize::<T>(&msg) {
        Ok(x) => {
            ensure!(may != May::Error, "accepted", "{what} was accepted");
            if may == May::Same {
                ensure!(canon(&x) == payload, "changed", "{what} was accepted as another value");
            }
            c.label("accepted");
        }
        Err(_) => c.label("refused"),
    }
    // and the intact message is still fine afterwards
    let again: T = deserialize(&v).map_err(fail)?;
    ensure!(canon(&again) == payload, "value", "the intact message is decoded to something else");
    Ok(())
}
fn c32_garbage(s: &mut Src, c: &mut Ctx) -> Res {
    match s.weighted(&[3, 3, 1, 1, 2]) {
        0 => {
            let d = s.usize(0, 2);
            let n = node(s, d);
            garbage(s, c, &n)
        }
        1 => {
            let r = response(s, c);
            garbage(s, c, &r)
        }
        2 => {
            let t = trimesh(s);
            garbage(s, c, &t)
        }
        3 => {
            let m = mesh(s, c, false).0;
            garbage(s, c, &SerializedMesh::from_mesh(&m))
        }
        _ => {
            let i = image(s, 7);
            garbage(s, c, &SerializedImage::from_image(i))
        }
    }
}
#[allow(dead_code)]
fn _unused() -> Value {
    json!(null)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C30",
            rule: "at least one vertex attribute with values",
            assumptions: &["the snapshot is documented to keep built-in attributes only", "morph targets are not part of a snapshot"],
            subs: vec![Sub { name: "mesh", quick: 60_000, thorough: 3_000_000, f: c30_mesh }, Sub { name: "large", quick: 24, thorough: 2_000, f: c30_large }],
        },
        Prop {
            id: "C31",
            rule: "image: it has pixels; materials: at least one is sent and refers to an image",
            assumptions: &["labels and view formats are documented to be lost"],
            subs: vec![Sub { name: "image", quick: 60_000, thorough: 3_000_000, f: c31_image }, Sub { name: "materials", quick: 40_000, thorough: 2_000_000, f: c31_materials }, Sub { name: "crowd", quick: 150, thorough: 5_000, f: c31_crowd }, Sub { name: "large", quick: 30, thorough: 1_500, f: c31_large }],
        },
        Prop {
            id: "C32",
            rule: "every message counts, except for the unit value and meshes without triangles",
            assumptions: &["bincode, gzip and base64 are what they are elsewhere: the harness reads and writes them independently"],
            subs: vec![Sub { name: "roundtrip", quick: 80_000, thorough: 4_000_000, f: c32_roundtrip }, Sub { name: "garbage", quick: 200_000, thorough: 8_000_000, f: c32_garbage }, Sub { name: "large", quick: 40, thorough: 2_000, f: c32_large }],
        },
    ]
}
