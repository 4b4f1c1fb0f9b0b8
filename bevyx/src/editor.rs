//! C33: the answer to the editor's request for the scene.
use crate::meshes::{placement, unique};
use crate::transfer::{Attributes, Sharing, image, material, mesh, same_image, same_material, same_mesh, slots, trimesh};
use bevy_app::App;
use bevy_asset::{Assets, Handle};
use bevy_ecs::change_detection::Res as In;
use bevy_ecs::prelude::{Entity, Resource};
use bevy_image::Image;
use bevy_mesh::Mesh;
use bevy_pbr::{MeshMaterial3d, StandardMaterial};
use bevy_platform::collections::HashMap as BevyMap;
use bevy_remote::{BrpResult, RemoteMethodSystemId, RemoteMethods, error_codes};
use bevy_render::mesh::Mesh3d;
use bevy_render::view::InheritedVisibility;
use bevy_rerecast_core::NavmeshApp;
use bevy_rerecast_editor_integration::brp::{BRP_GET_NAVMESH_INPUT_METHOD, NavmeshInputResponse};
use bevy_rerecast_editor_integration::transmission::deserialize;
use bevy_rerecast_editor_integration::{EditorVisibilitySettings, EditorVisible, RerecastEditorIntegrationPlugin};
use bevy_transform::components::GlobalTransform;
use pbt::*;
use rerecast::TriMesh;
use serde_json::{Value, json};
use std::sync::{Arc, Mutex};

#[derive(Resource, Clone, Default)]
struct Scene(Vec<(GlobalTransform, TriMesh)>);
type Log = Arc<Mutex<Vec<usize>>>;

pub fn ask(app: &mut App, params: Option<Value>) -> Result<BrpResult, Fail> {
    let id = match app.world().resource::<RemoteMethods>().get(BRP_GET_NAVMESH_INPUT_METHOD) {
        Some(RemoteMethodSystemId::Instant(id)) => *id,
        Some(_) => return Err(Fail::new("method", "the method is not answered at once")),
        None => return Err(Fail::new("method", "the method is not registered")),
    };
    app.world_mut().run_system_with(id, params).map_err(|e| Fail::new("method", e.to_string()))
}
pub fn refused(r: &BrpResult, code: i16, what: &str) -> Res {
    match r {
        Err(e) if e.code == code => Ok(()),
        Err(e) => Err(Fail::new("error-code", format!("{what}: error code {} instead of {code}", e.code))),
        Ok(_) => Err(Fail::new("accepted", format!("{what}: the request was answered"))),
    }
}
struct Visual {
    entity: Entity,
    at: GlobalTransform,
    mesh: Option<usize>,
    material: Option<usize>,
    seen: Option<bool>,
    editor: bool,
}
fn affectors_differ(got: &[(GlobalTransform, TriMesh)], want: &[(GlobalTransform, TriMesh)]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} affectors instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g.0 != w.0 {
            return Some(format!("affector {i} is at {:?} instead of {:?}", g.0.translation(), w.0.translation()));
        }
        if let Some(d) = crate::meshes::differ(&g.1, &w.1) {
            return Some(format!("affector {i}: {d}"));
        }
    }
    None
}
fn c33_scene(s: &mut Src, c: &mut Ctx) -> Res {
    scene(s, c, 1)
}
/// More assets and entities than eight bits count.
fn c33_crowd(s: &mut Src, c: &mut Ctx) -> Res {
    scene(s, c, 75)
}
fn scene(s: &mut Src, c: &mut Ctx, crowd: usize) -> Res {
    let mut app = App::new();
    app.insert_resource(RemoteMethods::new());
    let mut plugin = RerecastEditorIntegrationPlugin::default();
    let manual = s.bool();
    if manual {
        plugin.visibility_settings = EditorVisibilitySettings::Manual;
    }
    app.add_plugins(plugin);
    let mut images = Assets::<Image>::default();
    let (mut meshes, mut materials) = (Assets::<Mesh>::default(), Assets::<StandardMaterial>::default());

    // assets, some of which are missing
    let mut pool: Vec<Handle<Image>> = (0..s.usize(crowd, 5 * crowd)).map(|i| images.add(image(s, 100 + i as u32))).collect();
    if s.chance(1, 3) {
        pool.push(Handle::weak_from_u128(4711));
    }
    let broken = |m: &StandardMaterial, images: &Assets<Image>| slots(m).iter().any(|(_, h)| h.as_ref().is_some_and(|h| images.get(h).is_none()));
    let mut mats: Vec<(Handle<StandardMaterial>, Option<StandardMaterial>)> = vec![];
    for i in 0..s.usize(0, 4 * crowd) {
        let mut m = material(s, &pool);
        m.deferred_lighting_pass_id = i as u8; // all different
        if i > 255 {
            m.depth_bias = i as f32;
        }
        if s.chance(1, 10) {
            mats.push((Handle::weak_from_u128(800 + i as u128), None));
        } else {
            mats.push((materials.add(m.clone()), (!broken(&m, &images)).then_some(m)));
        }
    }
    let mut pile: Vec<(Handle<Mesh>, Option<(Mesh, Attributes)>)> = vec![];
    for i in 0..s.usize(crowd, 4 * crowd) {
        if s.chance(1, 10) {
            pile.push((Handle::weak_from_u128(900 + i as u128), None));
        } else {
            let m = mesh(s, c, false);
            pile.push((meshes.add(m.0.clone()), Some(m)));
        }
    }
    app.update();

    // nothing can be answered before there is a backend and a place for assets
    let no_backend = s.chance(1, 4);
    let log: Log = Default::default();
    let mut latest = 0;
    let world_driven = s.bool();
    let mut fixed: Vec<(GlobalTransform, TriMesh)> = vec![];
    app.insert_resource(Scene::default());
    let mut set_backend = |app: &mut App, s: &mut Src, fixed: &mut Vec<(GlobalTransform, TriMesh)>| {
        latest += 1;
        let (n, log) = (latest, log.clone());
        let mine: Vec<(GlobalTransform, TriMesh)> = (0..s.usize(0, 4)).map(|i| (unique(n * 10 + i, s), trimesh(s))).collect();
        *fixed = mine.clone();
        if world_driven {
            app.set_navmesh_affector_backend(move |w: In<Scene>| {
                log.lock().unwrap().push(n);
                w.0.clone()
            });
        } else {
            app.set_navmesh_affector_backend(move || {
                log.lock().unwrap().push(n);
                mine.clone()
            });
        }
        n
    };
    if no_backend {
        let mut bare = App::new();
        bare.insert_resource(RemoteMethods::new());
        bare.add_plugins(RerecastEditorIntegrationPlugin::default());
        bare.insert_resource(Assets::<Image>::default()).insert_resource(Assets::<Mesh>::default()).insert_resource(Assets::<StandardMaterial>::default());
        bare.update();
        refused(&ask(&mut bare, None)?, error_codes::INTERNAL_ERROR, "no backend")?;
    }
    let mut current = set_backend(&mut app, s, &mut fixed);
    if s.chance(1, 6) {
        refused(&ask(&mut app, None)?, error_codes::INTERNAL_ERROR, "no assets")?;
        log.lock().unwrap().clear();
    }
    app.insert_resource(images).insert_resource(meshes).insert_resource(materials);

    let mut visuals: Vec<Visual> = vec![];
    let mut serial = 1000;
    for round in 0..s.usize(1, 3) {
        // the world changes
        if s.chance(1, 2) || round == 0 {
            for _ in 0..s.usize(0, 2) {
                current = set_backend(&mut app, s, &mut fixed);
                c.label("another backend");
            }
        }
        if world_driven {
            fixed = (0..s.usize(0, 4 * crowd)).map(|i| (placement(500 + i, s, c), trimesh(s))).collect();
            app.insert_resource(Scene(fixed.clone()));
        }
        for _ in 0..s.usize(0, 10 * crowd - 4) {
            serial += 1;
            let at = placement(serial, s, c);
            let mesh = (!s.chance(1, 8)).then(|| s.below(pile.len() as u64) as usize);
            let material = (!mats.is_empty() && s.chance(3, 4)).then(|| s.below(mats.len() as u64) as usize);
            let seen = *s.pick(&[Some(true), Some(true), Some(true), Some(false), None]);
            let by_hand = s.bool();
            let mut e = app.world_mut().spawn_empty();
            if by_hand && s.bool() {
                e.insert(EditorVisible);
            }
            if let Some(m) = mesh {
                e.insert(Mesh3d(pile[m].0.clone()));
            }
            if by_hand {
                e.insert(EditorVisible);
            }
            if let Some(m) = material {
                e.insert(MeshMaterial3d(mats[m].0.clone()));
            }
            match seen {
                Some(true) => drop(e.insert(InheritedVisibility::VISIBLE)),
                Some(false) => drop(e.insert(InheritedVisibility::HIDDEN)),
                None => drop(e.remove::<InheritedVisibility>()),
            }
            e.insert(at);
            let entity = e.id();
            visuals.push(Visual { entity, at, mesh, material, seen, editor: by_hand || (!manual && mesh.is_some()) });
        }
        if !visuals.is_empty() {
            let j = s.below(visuals.len() as u64) as usize;
            let v = &mut visuals[j];
            let mut e = app.world_mut().entity_mut(v.entity);
            match s.weighted(&[6, 1, 1, 1, 1, 1]) {
                0 => {}
                1 => {
                    e.remove::<EditorVisible>();
                    v.editor = false;
                }
                2 => {
                    e.insert(InheritedVisibility::HIDDEN);
                    v.seen = Some(false);
                }
                3 => {
                    e.remove::<MeshMaterial3d<StandardMaterial>>();
                    v.material = None;
                }
                4 => {
                    serial += 1;
                    v.at = placement(serial, s, c);
                    e.insert(v.at);
                }
                _ => {
                    e.despawn();
                    visuals.remove(j);
                }
            }
        }
        if s.chance(1, 3) {
            let p = [json!(null), json!({}), json!([]), json!(1), json!("x")][s.below(5) as usize].clone();
            refused(&ask(&mut app, Some(p.clone()))?, error_codes::INVALID_PARAMS, &format!("parameters {p}"))?;
        }
        log.lock().unwrap().clear();
        let answer = match ask(&mut app, None)? {
            Ok(v) => v,
            Err(e) => return Err(Fail::new("refused", format!("round {round}: {} {}", e.code, e.message))),
        };
        let ran = log.lock().unwrap().clone();
        ensure!(ran == vec![current], "backend", "round {round}: the backends {ran:?} were used, the latest is {current}");
        let r: NavmeshInputResponse = deserialize(&answer).map_err(|e| Fail::new("message", format!("{e}")))?;

        let got: Vec<_> = r.affector_meshes.iter().map(|a| (a.transform, a.mesh.clone())).collect();
        if let Some(d) = affectors_differ(&got, &fixed) {
            return Err(Fail::new("affectors", format!("round {round}: {d}")));
        }
        let mut want: Vec<&Visual> = visuals.iter().filter(|v| v.editor && v.seen == Some(true) && v.mesh.is_some_and(|m| pile[m].1.is_some())).collect();
        c.describe(|| format!("round {round}: manual {manual}, {} affectors, {} entities, {} expected, {} materials, {} meshes", fixed.len(), visuals.len(), want.len(), mats.len(), pile.len()));
        c.nontrivial_if(want.len() > 1 && want.len() < visuals.len());
        ensure!(r.visual_meshes.len() == want.len(), "count", "round {round}: {} visuals instead of {}", r.visual_meshes.len(), want.len());
        let world_images = app.world().resource::<Assets<Image>>();
        let mut back = Assets::<Image>::default();
        let mut map = BevyMap::new();
        let mut sharing = Sharing::default();
        let (mut mesh_pairs, mut material_pairs) = (vec![], vec![]);
        for v in &r.visual_meshes {
            let Some(i) = want.iter().position(|w| w.at == v.transform) else {
                return Err(Fail::new("transform", format!("round {round}: no visible entity is at {:?}", v.transform.translation())));
            };
            let w = want.swap_remove(i);
            let what = format!("round {round}, entity at {:?}", w.at.translation());
            let Some(m) = r.meshes.get(v.mesh as usize) else {
                return Err(Fail::new("range", format!("{what}: mesh {} of {}", v.mesh, r.meshes.len())));
            };
            let (mesh, attributes) = pile[w.mesh.unwrap()].1.as_ref().unwrap();
            same_mesh(&m.clone().into_mesh(), mesh, attributes, &what)?;
            mesh_pairs.push((v.mesh, w.mesh.unwrap()));
            let expected = w.material.and_then(|m| Some((m, mats[m].1.as_ref()?)));
            match (v.material, expected) {
                (None, None) => {}
                (Some(_), None) => return Err(Fail::new("material", format!("{what} has no usable material, but the answer refers to one"))),
                (None, Some(_)) => return Err(Fail::new("material", format!("{what} has lost its material"))),
                (Some(g), Some((i, m))) => {
                    let Some(t) = r.materials.get(g as usize) else {
                        return Err(Fail::new("range", format!("{what}: material {g} of {}", r.materials.len())));
                    };
                    let t = t.clone().into_standard_material(&mut map, &mut back, &r.images);
                    same_material(&t, m, &what)?;
                    sharing.check(&t, &back, m, world_images, &what)?;
                    material_pairs.push((g, i));
                }
            }
        }
        for (what, pairs, len) in [("mesh", &mut mesh_pairs.into_iter().map(|(a, b)| (a as usize, b)).collect::<Vec<_>>(), r.meshes.len()), ("material", &mut material_pairs.into_iter().map(|(a, b)| (a as usize, b)).collect(), r.materials.len())] {
            pairs.sort();
            pairs.dedup();
            let mut sources: Vec<usize> = pairs.iter().map(|p| p.1).collect();
            sources.sort();
            let n = sources.len();
            sources.dedup();
            ensure!(sources.len() == n, "shared", "round {round}: the same {what} is sent several times: {pairs:?}");
            ensure!(len == n, "shared", "round {round}: {len} entries for {n} different {what} assets");
            c.label_if(n > 1, if what == "mesh" { "several meshes" } else { "several materials" });
        }
        // every image once, and only images that some material uses
        let marks: Vec<(u32, Image)> = r.images.iter().map(|i| i.clone().into_image()).map(|i| (i.texture_descriptor.size.height, i)).collect();
        for (i, (m, im)) in marks.iter().enumerate() {
            ensure!(marks[..i].iter().all(|n| n.0 != *m), "shared", "round {round}: the image {m} is sent several times");
            let k = (*m as usize).wrapping_sub(100);
            ensure!(k < pool.len(), "images", "round {round}: an unknown image is sent");
            same_image(im, world_images.get(&pool[k]).unwrap(), &format!("round {round}, image {k}"))?;
        }
    }
    Ok(())
}
/// More assets and entities than sixteen bits count: every entity still finds its own mesh, material and texture.
fn c33_vast(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.usize(66_000, 80_000);
    let (meshes_n, materials_n, images_n) = (s.usize(n - 400, n), s.usize(n - 400, n), s.usize(n - 400, n));
    let mut app = App::new();
    app.insert_resource(RemoteMethods::new());
    app.add_plugins(RerecastEditorIntegrationPlugin::default());
    app.update();
    let mut images = Assets::<Image>::default();
    let (mut meshes, mut materials) = (Assets::<Mesh>::default(), Assets::<StandardMaterial>::default());
    let ih: Vec<_> = (0..images_n)
        .map(|i| {
            let mut m = Image::default();
            m.data = Some((i as u32).to_le_bytes().to_vec());
            images.add(m)
        })
        .collect();
    let mut which = ih.clone();
    let mut l = crate::meshes::Lcg(s.u32());
    for i in (1..which.len()).rev() {
        which.swap(i, l.next() as usize % (i + 1));
    }
    let mh: Vec<_> = (0..meshes_n)
        .map(|i| {
            let mut m = Mesh::new(bevy_mesh::PrimitiveTopology::TriangleList, bevy_asset::RenderAssetUsages::all());
            m.insert_attribute(Mesh::ATTRIBUTE_POSITION, vec![[i as f32, 0.0, 0.0]]);
            meshes.add(m)
        })
        .collect();
    let th: Vec<_> = (0..materials_n).map(|i| materials.add(StandardMaterial { depth_bias: i as f32, normal_map_texture: Some(which[i % images_n].clone()), ..Default::default() })).collect();
    let image_of: std::collections::HashMap<Handle<Image>, u32> = ih.iter().enumerate().map(|(i, h)| (h.clone(), i as u32)).collect();
    app.insert_resource(images).insert_resource(meshes).insert_resource(materials);
    let affectors = s.usize(66_000, 80_000);
    app.set_navmesh_affector_backend(move || (0..affectors).map(|i| (GlobalTransform::from_xyz(i as f32, 0.0, 0.0), TriMesh { vertices: vec![[0.0, i as f32, 1.0].into()], ..Default::default() })).collect::<Vec<_>>());
    for i in 0..n {
        app.world_mut().spawn((GlobalTransform::from_xyz(i as f32, 1.0, 2.0), Mesh3d(mh[i % meshes_n].clone()), MeshMaterial3d(th[i % materials_n].clone()), InheritedVisibility::VISIBLE, EditorVisible));
    }
    c.describe(|| format!("{n} entities, {meshes_n} meshes, {materials_n} materials, {images_n} images, {affectors} affectors"));
    c.nontrivial = true;
    let answer = ask(&mut app, None)?.map_err(|e| Fail::new("refused", e.message))?;
    let r: NavmeshInputResponse = deserialize(&answer).map_err(|e| Fail::new("message", format!("{e}")))?;
    ensure!(r.affector_meshes.len() == affectors, "affectors", "{} affectors instead of {affectors}", r.affector_meshes.len());
    for (i, a) in r.affector_meshes.iter().enumerate() {
        ensure!(a.transform.translation().x == i as f32 && a.mesh.vertices.len() == 1 && a.mesh.vertices[0].y == i as f32, "affectors", "affector {i} is another one: {:?} {:?}", a.transform.translation(), a.mesh.vertices);
    }
    ensure!(r.visual_meshes.len() == n, "count", "{} visuals instead of {n}", r.visual_meshes.len());
    ensure!(r.meshes.len() == meshes_n && r.materials.len() == materials_n, "shared", "{} meshes and {} materials instead of {meshes_n} and {materials_n}", r.meshes.len(), r.materials.len());
    ensure!(r.images.len() == images_n.min(materials_n), "shared", "{} images instead of {}", r.images.len(), images_n.min(materials_n));
    let position: Vec<f32> = r.meshes.iter().map(|m| m.clone().into_mesh().attribute(Mesh::ATTRIBUTE_POSITION).and_then(|a| a.as_float3().map(|v| v[0][0])).unwrap_or(-1.0)).collect();
    let mut back = Assets::<Image>::default();
    let mut map = BevyMap::new();
    let sent: Vec<StandardMaterial> = r.materials.into_iter().map(|m| m.into_standard_material(&mut map, &mut back, &r.images)).collect();
    let mut seen = vec![false; n];
    for v in &r.visual_meshes {
        let i = v.transform.translation().x as usize;
        ensure!(i < n && !std::mem::replace(&mut seen[i], true), "transform", "entity {i} is unknown or sent twice");
        ensure!(position.get(v.mesh as usize) == Some(&((i % meshes_n) as f32)), "mesh", "entity {i} has the mesh {:?} instead of {}", position.get(v.mesh as usize), i % meshes_n);
        let m = v.material.and_then(|m| sent.get(m as usize));
        let Some(m) = m else { return Err(Fail::new("material", format!("entity {i} refers to material {:?}", v.material))) };
        ensure!(m.depth_bias == (i % materials_n) as f32, "material", "entity {i} has the material {} instead of {}", m.depth_bias, i % materials_n);
        let data = m.normal_map_texture.as_ref().and_then(|h| back.get(h)).and_then(|i| i.data.clone());
        let e = image_of[&which[i % materials_n % images_n]];
        ensure!(data == Some(e.to_le_bytes().to_vec()), "image", "entity {i} has the texture {data:?} instead of number {e}");
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        rule: "at least two visible entities are expected and some other entity is not",
        assumptions: &["an entity whose mesh asset is missing is not renderable", "a material with a missing texture counts as no material"],
        subs: vec![Sub { name: "scene", quick: 40_000, thorough: 2_000_000, f: c33_scene }, Sub { name: "crowd", quick: 60, thorough: 3_000, f: c33_crowd }, Sub { name: "vast", quick: 3, thorough: 60, f: c33_vast }],
    }]
}
