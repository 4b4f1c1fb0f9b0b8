//! C35: loading a scene, C36: building its navmesh, C37: showing it.
use crate::build::{BuildNavmesh, BuildNavmeshConfig, NavmeshAffector};
use crate::get_navmesh_input::GetNavmeshInput;
use crate::meshes::{differ, unique};
use crate::transfer::{Sharing, image, material, mesh, same_material, same_mesh, trimesh};
use crate::visualization::{AvailableGizmos, GizmosToDraw, Navmesh, VisualMesh};
use bevy::asset::RenderAssetUsages;
use bevy::ecs::error::GLOBAL_ERROR_HANDLER;
use bevy::platform::collections::HashMap as BevyMap;
use bevy::prelude::*;
use bevy::render::mesh::{Indices, PrimitiveTopology};
use bevy_rerecast::TriMeshFromBevyMesh;
use bevy_rerecast::editor_integration::brp::{AffectorMesh, BRP_GET_NAVMESH_INPUT_METHOD, NavmeshInputResponse, VisualMesh as SentVisual};
use bevy_rerecast::editor_integration::transmission::{SerializedMesh, SerializedStandardMaterial, serialize};
use glam::{Affine3A, UVec3, Vec3A};
use pbt::{Ctx, Fail, Prop, Src, Sub, ensure};
use rerecast::{Aabb3d, AreaType, BuildContoursFlags, DetailNavmesh, HeightfieldBuilder, NavmeshConfig, NavmeshConfigBuilder, PolygonNavmesh, TriMesh};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Mutex, MutexGuard};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- the editor
thread_local! {
    static ERRORS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// Errors reported by the editor's systems are collected instead of logged.
pub fn start() {
    let _ = GLOBAL_ERROR_HANDLER.set(|e, _| ERRORS.with(|v| v.borrow_mut().push(e.to_string())));
}
pub fn errors() -> Vec<String> {
    ERRORS.with(|v| std::mem::take(&mut *v.borrow_mut()))
}
fn editor() -> App {
    errors();
    let mut app = App::new();
    app.add_plugins((TaskPoolPlugin::default(), TransformPlugin));
    app.init_resource::<Assets<Mesh>>().init_resource::<Assets<Image>>().init_resource::<Assets<StandardMaterial>>().init_resource::<Assets<GizmoAsset>>();
    app.add_plugins((crate::get_navmesh_input::plugin, crate::build::plugin, crate::visualization::plugin));
    app
}

// ---------------------------------------------------------------- the game's side of the connection
/// The editor asks at this address.
const ADDRESS: &str = "127.0.0.1:15702";
#[derive(Clone, Debug)]
enum Reply {
    Json(Value),
    Status(u16, Value),
    Text(String),
    Silence,
    HalfAnswer(Value),
}
static REPLY: Mutex<Option<Reply>> = Mutex::new(None);
static ASKED: Mutex<Vec<Value>> = Mutex::new(Vec::new());
/// Held while a scene is loaded: there is one address and many cases at a time.
static LINE: Mutex<bool> = Mutex::new(false);

fn serve(mut t: TcpStream) -> std::io::Result<()> {
    t.set_read_timeout(Some(Duration::from_secs(20)))?;
    let (mut got, mut buf) = (vec![], [0; 4096]);
    let body = loop {
        if let Some(p) = got.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&got[..p]).to_lowercase();
            let find = |name: &str| head.lines().find_map(|l| l.strip_prefix(name).map(|v| v.trim().to_string()));
            if let Some(n) = find("content-length:").and_then(|v| v.parse::<usize>().ok()) {
                if got.len() >= p + 4 + n {
                    break got[p + 4..p + 4 + n].to_vec();
                }
            } else if find("transfer-encoding:").is_some() {
                if got.ends_with(b"0\r\n\r\n") {
                    let (mut rest, mut body) = (&got[p + 4..], vec![]);
                    while let Some(e) = rest.windows(2).position(|w| w == b"\r\n") {
                        let n = usize::from_str_radix(String::from_utf8_lossy(&rest[..e]).trim(), 16).unwrap_or(0);
                        if n == 0 {
                            break;
                        }
                        body.extend_from_slice(&rest[e + 2..e + 2 + n]);
                        rest = &rest[e + 4 + n..];
                    }
                    break body;
                }
            } else {
                break got[p + 4..].to_vec();
            }
        }
        match t.read(&mut buf)? {
            0 => break vec![],
            n => got.extend_from_slice(&buf[..n]),
        }
    };
    ASKED.lock().unwrap().push(serde_json::from_slice(&body).unwrap_or(Value::Null));
    let reply = REPLY.lock().unwrap().clone();
    let (status, kind, body, half) = match reply {
        Some(Reply::Json(v)) => (200, "application/json", v.to_string(), false),
        Some(Reply::HalfAnswer(v)) => (200, "application/json", v.to_string(), true),
        Some(Reply::Status(n, v)) => (n, "application/json", v.to_string(), false),
        Some(Reply::Text(v)) => (200, "text/plain", v, false),
        Some(Reply::Silence) | None => return Ok(()),
    };
    write!(t, "HTTP/1.1 {status} X\r\nContent-Type: {kind}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len())?;
    let b = body.as_bytes();
    t.write_all(if half { &b[..b.len() / 2] } else { b })?;
    t.flush()
}
fn line() -> Result<MutexGuard<'static, bool>, Fail> {
    let mut up = LINE.lock().unwrap_or_else(|e| e.into_inner());
    if !*up {
        // another run of this check may be using the address
        let since = Instant::now();
        let l = loop {
            match TcpListener::bind(ADDRESS) {
                Ok(l) => break l,
                Err(_) if since.elapsed() < Duration::from_secs(240) => std::thread::sleep(Duration::from_millis(200)),
                Err(e) => {
                    eprintln!("cannot listen at {ADDRESS}: {e}");
                    std::process::exit(3);
                }
            }
        };
        std::thread::spawn(move || {
            for t in l.incoming().flatten() {
                let _ = serve(t);
            }
        });
        *up = true;
    }
    Ok(up)
}
/// Lets the editor load what `reply` contains; returns the errors it reported.
fn load(app: &mut App, reply: Reply) -> Result<Vec<String>, Fail> {
    let guard = line()?;
    *REPLY.lock().unwrap() = Some(reply);
    ASKED.lock().unwrap().clear();
    errors();
    app.world_mut().trigger(GetNavmeshInput);
    app.world_mut().flush();
    let asked = std::mem::take(&mut *ASKED.lock().unwrap());
    drop(guard);
    let e = errors();
    ensure!(!asked.is_empty(), "request", "the game was not asked: {e:?}");
    for a in &asked {
        ensure!(a["method"] == json!(BRP_GET_NAVMESH_INPUT_METHOD), "request", "the game was asked {a}");
        ensure!(a["jsonrpc"] == json!("2.0"), "request", "the game was asked in another version of the protocol: {a}");
        ensure!(a["params"].is_null(), "request", "the game was asked with parameters: {a}");
    }
    Ok(e)
}

// ---------------------------------------------------------------- C35
#[derive(Clone, PartialEq, Debug)]
struct Held {
    entity: Entity,
    mesh: Option<AssetId<Mesh>>,
    at: Option<GlobalTransform>,
}
/// Everything in the editor's world that belongs to a loaded scene.
fn held(app: &mut App) -> Vec<Held> {
    let mut q = app.world_mut().query_filtered::<(Entity, Option<&Mesh3d>, Option<&GlobalTransform>), Or<(With<VisualMesh>, With<NavmeshAffector>)>>();
    let mut v: Vec<Held> = q.iter(app.world()).map(|(entity, m, at)| Held { entity, mesh: m.map(|m| m.0.id()), at: at.copied() }).collect();
    v.sort_by_key(|h| h.entity);
    v
}
fn near(a: &GlobalTransform, b: &GlobalTransform) -> bool {
    let (a, b) = (a.affine(), b.affine());
    a.translation == b.translation && (0..3).all(|i| (a.matrix3.col(i) - b.matrix3.col(i)).abs().max_element() < 1e-4)
}
struct Picture {
    response: NavmeshInputResponse,
    meshes: Vec<(Mesh, crate::transfer::Attributes)>,
    materials: Vec<StandardMaterial>,
}
fn picture(s: &mut Src, c: &mut Ctx, images: &mut Assets<Image>, serial: &mut usize, crowd: usize) -> Picture {
    let pool: Vec<Handle<Image>> = (0..s.usize(crowd, 5 * crowd)).map(|i| images.add(image(s, 100 + i as u32))).collect();
    let meshes: Vec<_> = (0..s.usize(0, 4 * crowd)).map(|_| mesh(s, c, false)).collect();
    let materials: Vec<StandardMaterial> = (0..s.usize(0, 4 * crowd)).map(|_| material(s, &pool)).collect();
    let (mut cache, mut indices) = (vec![], BevyMap::new());
    let sent = materials.iter().map(|m| SerializedStandardMaterial::try_from_standard_material(m.clone(), &mut indices, images, &mut cache).unwrap()).collect();
    let mut at = |s: &mut Src| {
        *serial += 1;
        unique(*serial, s)
    };
    let response = NavmeshInputResponse {
        affector_meshes: (0..s.usize(0, 4 * crowd)).map(|_| AffectorMesh { transform: at(s), mesh: trimesh(s) }).collect(),
        visual_meshes: (0..if meshes.is_empty() { 0 } else { s.usize(0, 6 * crowd) })
            .map(|_| SentVisual { transform: at(s), mesh: s.below(meshes.len() as u64) as u32, material: (!materials.is_empty() && s.chance(3, 4)).then(|| s.below(materials.len() as u64) as u32) })
            .collect(),
        materials: sent,
        meshes: meshes.iter().map(|m| SerializedMesh::from_mesh(&m.0)).collect(),
        images: cache,
    };
    Picture { response, meshes, materials }
}
fn c35(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    scenes(s, c, 1)
}
/// More entities and assets than eight bits count.
fn c35_crowd(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    scenes(s, c, 80)
}
fn scenes(s: &mut Src, c: &mut Ctx, crowd: usize) -> pbt::Res {
    let mut app = editor();
    app.update();
    let mut serial = 0;
    let mut images = Assets::<Image>::default();
    let rounds = s.usize(1, 3);
    let mut loaded = 0;
    for round in 0..rounds {
        let p = picture(s, c, &mut images, &mut serial, crowd);
        let result = serialize(&p.response).map_err(|e| Fail::new("message", format!("{e}")))?;
        c.describe(|| format!("round {round} of {rounds}: {} affectors, {} visuals, {} meshes, {} materials, {} images", p.response.affector_meshes.len(), p.response.visual_meshes.len(), p.meshes.len(), p.materials.len(), p.response.images.len()));
        let good = json!({"jsonrpc": "2.0", "id": 1, "result": result});
        if s.chance(1, 4) {
            // nothing usable arrives: the editor says so and keeps its scene
            let text = result.as_str().unwrap_or("").to_string();
            let (name, reply) = match s.below(8) {
                0 => ("an error", Reply::Json(json!({"jsonrpc": "2.0", "id": 1, "error": {"code": -32603, "message": "no backend"}}))),
                1 => ("a failure status", Reply::Status(*s.pick(&[400, 404, 500, 503]), good.clone())),
                2 => ("no JSON", Reply::Text("{\"result\": ".into())),
                3 => ("silence", Reply::Silence),
                4 => ("half an answer", Reply::HalfAnswer(good.clone())),
                5 => {
                    let other = [json!(null), json!(1), json!({}), json!("")][s.below(4) as usize].clone();
                    ("another result", Reply::Json(json!({ "result": other })))
                }
                6 => {
                    let cut = &text[..s.below(text.len() as u64) as usize];
                    ("a cut value", Reply::Json(json!({ "result": cut })))
                }
                _ => ("no object", Reply::Json(json!([result]))),
            };
            let before = held(&mut app);
            let e = load(&mut app, reply)?;
            ensure!(!e.is_empty(), "no-error", "round {round}: {name} arrived, and no error was reported");
            ensure!(held(&mut app) == before, "lost-scene", "round {round}: {name} arrived, and the scene changed");
            c.label("failed load");
            continue;
        }
        let before = held(&mut app);
        let e = load(&mut app, Reply::Json(good))?;
        ensure!(e.is_empty(), "error", "round {round}: the scene was not loaded: {e:?}");
        app.update();
        loaded += 1;
        let now = held(&mut app);
        ensure!(now.iter().all(|h| before.iter().all(|b| b.entity != h.entity)), "stale", "round {round}: something of the previous scene is still there");
        for b in &before {
            ensure!(app.world().get_entity(b.entity).is_err(), "stale", "round {round}: something of the previous scene is still there");
        }
        let mut q = app.world_mut().query_filtered::<(&GlobalTransform, &Mesh3d, &Visibility), With<NavmeshAffector>>();
        let affectors: Vec<_> = q.iter(app.world()).map(|(t, m, v)| (*t, m.0.clone(), *v)).collect();
        let mut q = app.world_mut().query_filtered::<(&GlobalTransform, &Mesh3d, &MeshMaterial3d<StandardMaterial>, &Visibility), With<VisualMesh>>();
        let visuals: Vec<_> = q.iter(app.world()).map(|(t, m, k, v)| (*t, m.0.clone(), k.0.clone(), *v)).collect();
        let r = &p.response;
        ensure!(affectors.len() == r.affector_meshes.len(), "affectors", "round {round}: {} affectors instead of {}", affectors.len(), r.affector_meshes.len());
        ensure!(visuals.len() == r.visual_meshes.len(), "visuals", "round {round}: {} visuals instead of {}", visuals.len(), r.visual_meshes.len());
        ensure!(now.len() == affectors.len() + visuals.len(), "count", "round {round}: {} entities for {} affectors and {} visuals", now.len(), affectors.len(), visuals.len());
        let meshes = app.world().resource::<Assets<Mesh>>();
        let materials = app.world().resource::<Assets<StandardMaterial>>();
        let got_images = app.world().resource::<Assets<Image>>();
        for a in &r.affector_meshes {
            let what = format!("round {round}, affector at {:?}", a.transform.translation());
            let Some((_, m, v)) = affectors.iter().find(|(t, _, _)| near(t, &a.transform)) else {
                return Err(Fail::new("affector-transform", format!("{what} is not there")));
            };
            let t = meshes.get(m).and_then(TriMesh::from_mesh).ok_or(Fail::new("affector-mesh", format!("{what} has no triangles")))?;
            let want = TriMesh { area_types: vec![AreaType::NOT_WALKABLE; a.mesh.indices.len()], ..a.mesh.clone() };
            if let Some(d) = differ(&t, &want) {
                return Err(Fail::new("affector-mesh", format!("{what}: {d}")));
            }
            ensure!(*v == Visibility::Hidden, "affector-shown", "{what} is drawn as a mesh");
        }
        let mut pairs: Vec<(AssetId<Mesh>, u32)> = vec![];
        let mut kinds: Vec<(AssetId<StandardMaterial>, Option<u32>)> = vec![];
        let mut sharing = Sharing::default();
        for w in &r.visual_meshes {
            let what = format!("round {round}, visual at {:?}", w.transform.translation());
            let Some((_, m, k, v)) = visuals.iter().find(|(t, _, _, _)| near(t, &w.transform)) else {
                return Err(Fail::new("visual-transform", format!("{what} is not there")));
            };
            let got = meshes.get(m).ok_or(Fail::new("visual-mesh", format!("{what} has no mesh")))?;
            let (mesh, attributes) = &p.meshes[w.mesh as usize];
            same_mesh(got, mesh, attributes, &what)?;
            let got = materials.get(k).ok_or(Fail::new("visual-material", format!("{what} has no material")))?;
            match w.material {
                Some(i) => {
                    let want = &p.materials[i as usize];
                    same_material(got, want, &what)?;
                    sharing.check(got, got_images, want, &images, &what)?;
                }
                None => same_material(got, &StandardMaterial::from(Color::WHITE), &what)?,
            }
            ensure!(*v != Visibility::Hidden, "visual-hidden", "{what} is hidden");
            pairs.push((m.id(), w.mesh));
            kinds.push((k.id(), w.material));
        }
        // what was shared by the game is shared by the editor
        for (i, a) in pairs.iter().enumerate() {
            for b in &pairs[..i] {
                ensure!((a.0 == b.0) == (a.1 == b.1), "sharing", "round {round}: meshes {} and {} are {} asset", a.1, b.1, if a.0 == b.0 { "one" } else { "more than one" });
            }
        }
        for (i, a) in kinds.iter().enumerate() {
            for b in &kinds[..i] {
                ensure!((a.0 == b.0) == (a.1 == b.1), "sharing", "round {round}: materials {:?} and {:?} are {} asset", a.1, b.1, if a.0 == b.0 { "one" } else { "more than one" });
            }
        }
        c.label_if(!before.is_empty(), "another scene before");
        c.nontrivial_if(affectors.len() > 1 && visuals.len() > 1);
    }
    c.label_if(loaded > 1, "loaded more than once");
    Ok(())
}

/// A scene of tens of megabytes, between two small ones.
fn c35_large(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    let mut app = editor();
    app.update();
    let (seed, n) = (s.u64(), s.usize(1, 8) * 300_000 + s.usize(0, 2));
    let mut x = seed | 1;
    let mut number = || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 40) as u32
    };
    let t = TriMesh {
        vertices: (0..n).map(|_| Vec3A::new(number() as f32, number() as f32, number() as f32)).collect(),
        indices: (0..n).map(|_| UVec3::new(number() % n as u32, number() % n as u32, number() % n as u32)).collect(),
        area_types: vec![AreaType::NOT_WALKABLE; n],
    };
    let at = unique(1, s);
    let response = NavmeshInputResponse {
        affector_meshes: vec![AffectorMesh { transform: at, mesh: t }],
        visual_meshes: vec![SentVisual { transform: at, mesh: 0, material: None }],
        materials: vec![],
        meshes: vec![SerializedMesh::from_mesh(&bevy_mesh(&TriMesh { vertices: vec![Vec3A::ZERO; 3], indices: vec![UVec3::new(0, 1, 2)], area_types: vec![AreaType::NOT_WALKABLE] }, true))],
        images: vec![],
    };
    let result = serialize(&response).map_err(|e| Fail::new("message", format!("{e}")))?;
    let size = result.as_str().map_or(0, str::len);
    c.describe(|| format!("{n} vertices and triangles in an answer of {size} bytes"));
    let e = load(&mut app, Reply::Json(json!({"jsonrpc": "2.0", "id": 1, "result": result})))?;
    ensure!(e.is_empty(), "error", "an answer of {size} bytes was not loaded: {e:?}");
    app.update();
    let mut q = app.world_mut().query_filtered::<(&GlobalTransform, &Mesh3d), With<NavmeshAffector>>();
    let all: Vec<_> = q.iter(app.world()).map(|(t, m)| (*t, m.0.clone())).collect();
    ensure!(all.len() == 1 && near(&all[0].0, &at), "affectors", "{} affectors, or another place", all.len());
    let t = app.world().resource::<Assets<Mesh>>().get(&all[0].1).and_then(TriMesh::from_mesh).ok_or(Fail::new("affector-mesh", "no triangles"))?;
    if let Some(d) = differ(&t, &response.affector_meshes[0].mesh) {
        return Err(Fail::new("affector-mesh", d));
    }
    let mut q = app.world_mut().query_filtered::<Entity, With<VisualMesh>>();
    ensure!(q.iter(app.world()).count() == 1, "visuals", "not one visual");
    c.nontrivial_if(size > 10 << 20);
    Ok(())
}

// ---------------------------------------------------------------- C36
fn config(s: &mut Src) -> NavmeshConfigBuilder {
    let radius = *s.pick(&[0.0, 0.3, 0.5]);
    NavmeshConfigBuilder::verif_new(
        [
            *s.pick(&[0.25, 0.5, 0.3]),
            *s.pick(&[0.125, 0.25, 0.2]),
            *s.pick(&[1.0, 2.0]),
            radius,
            *s.pick(&[0.5, 0.9, 0.0]),
            [0.785, 0.5, 1.2][s.below(3) as usize],
            *s.pick(&[1.0, 0.0, 3.0]),
            *s.pick(&[0.0, 4.0]),
            *s.pick(&[12.0, 0.0, 3.0]),
            *s.pick(&[1.3, 0.0, 0.5]),
            *s.pick(&[6.0, 3.0, 4.0]),
            *s.pick(&[6.0, 0.0, 1.0]),
            *s.pick(&[1.0, 0.2]),
        ],
        0,
        Aabb3d { min: Vec3::ZERO, max: Vec3::ZERO },
        *s.pick(&[BuildContoursFlags::TESSELLATE_SOLID_WALL_EDGES, BuildContoursFlags::empty(), BuildContoursFlags::all()]),
        false,
    )
}
fn bevy_mesh(t: &TriMesh, wide: bool) -> Mesh {
    let all = t.indices.iter().flat_map(|i| i.to_array());
    Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all())
        .with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, t.vertices.iter().map(|v| v.to_array()).collect::<Vec<_>>())
        .with_inserted_indices(if wide { Indices::U32(all.collect()) } else { Indices::U16(all.map(|i| i as u16).collect()) })
}
fn quad(t: &mut TriMesh, p: [Vec3A; 4]) {
    let n = t.vertices.len() as u32;
    t.vertices.extend(p);
    t.indices.extend([UVec3::new(n, n + 1, n + 2), UVec3::new(n, n + 2, n + 3)]);
    t.area_types.extend([AreaType::NOT_WALKABLE; 2]);
}
/// A floor, a box, a ramp, or some triangles.
fn piece(s: &mut Src) -> TriMesh {
    let mut t = TriMesh::default();
    let g = |s: &mut Src, a: i64, b: i64| s.int(a, b) as f32 / 4.0;
    let (w, d) = (g(s, 4, 24), g(s, 4, 24));
    let v = Vec3A::new;
    match s.weighted(&[4, 3, 2, 1]) {
        0 => quad(&mut t, [v(0., 0., 0.), v(0., 0., d), v(w, 0., d), v(w, 0., 0.)]),
        1 => {
            let h = g(s, 1, 12);
            let p = |x: f32, y: f32, z: f32| v(x * w, y * h, z * d);
            quad(&mut t, [p(0., 1., 0.), p(0., 1., 1.), p(1., 1., 1.), p(1., 1., 0.)]);
            quad(&mut t, [p(0., 0., 0.), p(1., 0., 0.), p(1., 0., 1.), p(0., 0., 1.)]);
            quad(&mut t, [p(0., 0., 0.), p(0., 1., 0.), p(1., 1., 0.), p(1., 0., 0.)]);
            quad(&mut t, [p(0., 0., 1.), p(1., 0., 1.), p(1., 1., 1.), p(0., 1., 1.)]);
            quad(&mut t, [p(0., 0., 0.), p(0., 0., 1.), p(0., 1., 1.), p(0., 1., 0.)]);
            quad(&mut t, [p(1., 0., 0.), p(1., 1., 0.), p(1., 1., 1.), p(1., 0., 1.)]);
        }
        2 => {
            let h = g(s, 0, 12);
            quad(&mut t, [v(0., 0., 0.), v(0., 0., d), v(w, h, d), v(w, h, 0.)]);
        }
        _ => {
            let n = s.usize(0, 5);
            for _ in 0..n {
                let k = t.vertices.len() as u32;
                for _ in 0..3 {
                    t.vertices.push(v(g(s, 0, 24), g(s, 0, 6), g(s, 0, 24)));
                }
                t.indices.push(UVec3::new(k, k + 1, k + 2));
                t.area_types.push(AreaType::NOT_WALKABLE);
            }
        }
    }
    t
}
/// Mostly transforms that act exactly.
fn place(s: &mut Src, c: &mut Ctx) -> Transform {
    let g = |s: &mut Src, r: i64| s.int(-r, r) as f32 / 4.0;
    let translation = Vec3::new(g(s, 20), g(s, 8), g(s, 20));
    let rotation = match s.weighted(&[4, 2, 1, 1, 2]) {
        0 => Quat::IDENTITY,
        1 => Quat::from_xyzw(0.0, 1.0, 0.0, 0.0),
        2 => Quat::from_xyzw(1.0, 0.0, 0.0, 0.0),
        3 => Quat::from_xyzw(0.0, 0.0, 1.0, 0.0),
        _ => {
            c.label("turned freely");
            Quat::from_rotation_y(s.f32(0.0, 6.0)) * Quat::from_rotation_x(s.f32(-0.3, 0.3))
        }
    };
    let p = |s: &mut Src| *s.pick(&[1.0, 1.0, 2.0, 0.5, 0.25]);
    let scale = if s.bool() { Vec3::ONE } else { Vec3::new(p(s), p(s), p(s)) };
    Transform { translation, rotation, scale }
}
/// The library's steps for a union of triangle meshes.
fn build(mut all: TriMesh, k: &NavmeshConfig) -> Result<(PolygonNavmesh, DetailNavmesh), String> {
    let e = |e: &dyn std::fmt::Display| e.to_string();
    let aabb = all.compute_aabb().ok_or("empty")?;
    all.mark_walkable_triangles(k.walkable_slope_angle);
    let mut hf = HeightfieldBuilder { aabb, cell_size: k.cell_size, cell_height: k.cell_height }.build().map_err(|x| e(&x))?;
    hf.rasterize_triangles(&all, k.walkable_climb).map_err(|x| e(&x))?;
    hf.filter_low_hanging_walkable_obstacles(k.walkable_climb);
    hf.filter_ledge_spans(k.walkable_height, k.walkable_climb);
    hf.filter_walkable_low_height_spans(k.walkable_height);
    let mut chf = hf.into_compact(k.walkable_height, k.walkable_climb).map_err(|x| e(&x))?;
    chf.erode_walkable_area(k.walkable_radius);
    chf.build_distance_field();
    chf.build_regions(k.border_size, k.min_region_area, k.merge_region_area).map_err(|x| e(&x))?;
    let poly = chf.build_contours(k.max_simplification_error, k.max_edge_len, k.contour_flags).into_polygon_mesh(k.max_vertices_per_polygon).map_err(|x| e(&x))?;
    let detail = DetailNavmesh::new(&poly, &chf, k.detail_sample_dist, k.detail_sample_max_error).map_err(|x| e(&x))?;
    Ok((poly, detail))
}
/// Both ways to apply a transform, whose results differ in rounding only.
fn placed(t: &TriMesh, at: &GlobalTransform, decomposed: bool) -> TriMesh {
    let mut t = t.clone();
    let (whole, parts): (Affine3A, Transform) = (at.affine(), at.compute_transform());
    for v in &mut t.vertices {
        *v = if decomposed { parts.transform_point(Vec3::from(*v)).into() } else { whole.transform_point3a(*v) };
    }
    t
}
/// The next permutation.
fn next(v: &mut [usize]) -> bool {
    let Some(i) = (1..v.len()).rev().find(|i| v[i - 1] < v[*i]) else { return false };
    let j = (i..v.len()).rev().find(|j| v[*j] > v[i - 1]).unwrap();
    v.swap(i - 1, j);
    v[i..].reverse();
    true
}
fn navmesh(app: &App) -> Option<(PolygonNavmesh, DetailNavmesh)> {
    app.world().get_resource::<Navmesh>().map(|n| (n.poly_mesh.clone(), n.detail_mesh.clone()))
}
fn c36(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    let mut app = editor();
    app.update();
    let mut pieces: Vec<(Entity, Option<TriMesh>)> = vec![];
    let mut groups: Vec<Entity> = vec![];
    for round in 0..s.usize(1, 3) {
        for _ in 0..s.usize(0, 3).min(6 - pieces.len()) {
            let (at, wide, t) = (place(s, c), s.bool(), piece(s));
            let usable = s.weighted(&[9, 1, 1]);
            let handle = match usable {
                0 => app.world_mut().resource_mut::<Assets<Mesh>>().add(bevy_mesh(&t, wide)),
                // not there (yet), or not a triangle list
                1 => Handle::weak_from_u128(5000),
                _ => {
                    let m = Mesh::new(PrimitiveTopology::LineList, RenderAssetUsages::all()).with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, vec![[0.0, 50.0, 0.0], [90.0, 60.0, 90.0]]).with_inserted_indices(Indices::U32(vec![0, 1]));
                    app.world_mut().resource_mut::<Assets<Mesh>>().add(m)
                }
            };
            c.label_if(usable > 0, "an unusable mesh");
            let affects = s.chance(5, 6);
            let mut e = app.world_mut().spawn((Mesh3d(handle), at));
            if affects {
                e.insert(NavmeshAffector);
            } else {
                e.insert(VisualMesh);
            }
            if s.chance(1, 4) {
                e.insert(Visibility::Hidden);
            }
            let id = e.id();
            pieces.push((id, (affects && usable == 0).then_some(t)));
            // below a group that is itself placed somewhere (moved or turned, but not stretched)
            if s.chance(1, 5) {
                let mut at = place(s, c);
                at.scale = Vec3::ONE;
                let g = app.world_mut().spawn((at, Visibility::default())).id();
                app.world_mut().entity_mut(g).add_child(id);
                groups.push(g);
                c.label("in a group");
            }
        }
        if round > 0 && !pieces.is_empty() {
            let j = s.below(pieces.len() as u64) as usize;
            match s.below(4) {
                0 => {}
                1 => {
                    let at = place(s, c);
                    app.world_mut().entity_mut(pieces[j].0).insert(at);
                }
                2 => {
                    app.world_mut().entity_mut(pieces[j].0).despawn();
                    pieces.remove(j);
                }
                _ => {
                    app.world_mut().entity_mut(pieces[j].0).remove::<NavmeshAffector>();
                    pieces[j].1 = None;
                }
            }
        }
        let k = if s.chance(1, 3) { NavmeshConfigBuilder::default() } else { config(s) };
        let k: NavmeshConfigBuilder = k;
        let settings = k.build();
        **app.world_mut().resource_mut::<BuildNavmeshConfig>() = k;
        app.update();
        let before = navmesh(&app);
        let ids: Vec<Entity> = {
            let mut q = app.world_mut().query::<Entity>();
            q.iter(app.world()).collect()
        };
        errors();
        app.world_mut().trigger(BuildNavmesh);
        app.world_mut().flush();
        let e = errors();
        let mut q = app.world_mut().query_filtered::<(Entity, &GlobalTransform), (With<Mesh3d>, With<NavmeshAffector>)>();
        let parts: Vec<(GlobalTransform, &TriMesh)> = q.iter(app.world()).filter_map(|(e, t)| Some((*t, pieces.iter().find(|p| p.0 == e)?.1.as_ref()?))).collect();
        let union = |order: &[usize], decomposed: bool| {
            let mut all = TriMesh::default();
            for i in order {
                let n = all.vertices.len() as u32;
                let t = placed(parts[*i].1, &parts[*i].0, decomposed);
                all.vertices.extend(&t.vertices);
                all.indices.extend(t.indices.iter().map(|i| *i + n));
                all.area_types.extend(&t.area_types);
            }
            all
        };
        let mut order: Vec<usize> = (0..parts.len()).collect();
        let after = navmesh(&app);
        let want = [build(union(&order, true), &settings), build(union(&order, false), &settings)];
        c.describe(|| format!("round {round}: {} affectors among {} entities, expected {:?}", parts.len(), pieces.len(), want[0].as_ref().map(|w| (w.0.polygon_count(), w.1.triangles.len()))));
        if want.iter().all(|w| w.is_err()) {
            ensure!(!e.is_empty(), "no-error", "round {round}: nothing can be built ({:?}), and no error is reported", want[0].as_ref().err());
            ensure!(after == before, "replaced", "round {round}: a failed build changed the navmesh");
            c.label("nothing to build");
        } else if want.iter().all(|w| w.is_ok()) {
            ensure!(e.is_empty(), "error", "round {round}: the build failed: {e:?}");
            let Some(got) = after else {
                return Err(Fail::new("missing", format!("round {round}: no navmesh was built")));
            };
            let n = want[0].as_ref().map_or(0, |w| w.0.polygon_count());
            // surfaces that touch are merged in the order of the affectors, which is the editor's choice
            let mut same = want.iter().flatten().any(|w| *w == got);
            while !same && next(&mut order) {
                c.label("another order");
                same = [true, false].iter().any(|d| build(union(&order, *d), &settings).is_ok_and(|w| w == got));
            }
            if !same {
                return Err(Fail::new("navmesh", format!("round {round}: {} polygons and {} detail triangles instead of {n} and {}, or others", got.0.polygon_count(), got.1.triangles.len(), want[0].as_ref().map_or(0, |w| w.1.triangles.len()))));
            }
            c.nontrivial_if(n > 0 && parts.len() > 1);
            c.label_if(n > 0, "a navmesh");
        }
        let now: Vec<Entity> = {
            let mut q = app.world_mut().query::<Entity>();
            q.iter(app.world()).collect()
        };
        ensure!(now == ids, "entities", "round {round}: building changed the scene");
    }
    Ok(())
}

/// Hundreds of affectors, or some with tens of thousands of vertices, each on a place of its own: their order does not matter.
fn c36_many(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    let mut app = editor();
    app.update();
    let mut l = crate::meshes::Lcg(s.u32());
    let (nx, nz) = if s.bool() { (s.usize(1, 20), s.usize(2, 20)) } else { (s.usize(2, 4), s.usize(2, 3)) };
    let dense = nx * nz <= 12;
    let n = nx * nz;
    let mut pieces: Vec<(Entity, TriMesh)> = vec![];
    for i in 0..n {
        let mut t = TriMesh::default();
        let r = |l: &mut crate::meshes::Lcg, a: u32, b: u32| (a + l.next() % (b - a + 1)) as f32;
        let v = Vec3A::new;
        if dense {
            // a floor of many small steps
            let k = 60 + l.next() % 50;
            for x in 0..=k {
                for z in 0..=k {
                    t.vertices.push(v(x as f32, 0.0, z as f32) * (12.0 / k as f32) + v(0.0, r(&mut l, 0, 3) * 0.0625, 0.0));
                }
            }
            for x in 0..k {
                for z in 0..k {
                    let a = x * (k + 1) + z;
                    t.indices.extend([UVec3::new(a, a + 1, a + k + 2), UVec3::new(a, a + k + 2, a + k + 1)]);
                }
            }
            t.area_types = vec![AreaType::NOT_WALKABLE; t.indices.len()];
        } else {
            let (w, d, h) = (r(&mut l, 6, 12), r(&mut l, 6, 12), r(&mut l, 0, 8) * 0.25);
            quad(&mut t, [v(0., 0., 0.), v(0., 0., d), v(w, h, d), v(w, h, 0.)]);
        }
        let at = Transform::from_xyz((i % nx) as f32 * 16.0, r(&mut l, 0, 9) * 0.5, (i / nx) as f32 * 16.0).with_scale(Vec3::new(1.0, if l.next() % 2 == 0 { 1.0 } else { 0.5 }, 1.0));
        let wide = t.vertices.len() > 65536 || l.next() % 2 == 0;
        let h = app.world_mut().resource_mut::<Assets<Mesh>>().add(bevy_mesh(&t, wide));
        pieces.push((app.world_mut().spawn((Mesh3d(h), at, NavmeshAffector)).id(), t));
    }
    let k = config(s);
    let settings = k.clone().build();
    **app.world_mut().resource_mut::<BuildNavmeshConfig>() = k;
    app.update();
    errors();
    app.world_mut().trigger(BuildNavmesh);
    app.world_mut().flush();
    let e = errors();
    let corners: usize = pieces.iter().map(|p| p.1.vertices.len()).sum();
    let mut q = app.world_mut().query_filtered::<(Entity, &GlobalTransform), With<NavmeshAffector>>();
    let parts: Vec<(GlobalTransform, &TriMesh)> = q.iter(app.world()).map(|(e, t)| (*t, &pieces.iter().find(|p| p.0 == e).unwrap().1)).collect();
    let after = navmesh(&app);
    let (mut why, mut fine) = (vec![], vec![]);
    for decomposed in [true, false] {
        let mut all = TriMesh::default();
        for p in &parts {
            let first = all.vertices.len() as u32;
            let t = placed(p.1, &p.0, decomposed);
            all.vertices.extend(&t.vertices);
            all.indices.extend(t.indices.iter().map(|i| *i + first));
            all.area_types.extend(&t.area_types);
        }
        match build(all, &settings) {
            Ok(w) if after.as_ref() == Some(&w) => {
                c.nontrivial_if(w.0.polygon_count() > 0);
                fine.push(true);
                break;
            }
            Ok(w) => why.push(format!("{} polygons, {} detail triangles", w.0.polygon_count(), w.1.triangles.len())),
            Err(_) if after.is_none() && !e.is_empty() => fine.push(true),
            Err(e) => why.push(e),
        }
    }
    c.describe(|| format!("{n} affectors with {corners} vertices: {why:?}"));
    c.label_if(corners > 65536, "more vertices than sixteen bits count");
    c.label_if(n > 256, "more affectors than eight bits count");
    ensure!(!fine.is_empty(), "navmesh", "{n} affectors with {corners} vertices: {:?} instead of {why:?}, errors {e:?}", after.map(|a| (a.0.polygon_count(), a.1.triangles.len())));
    Ok(())
}

// ---------------------------------------------------------------- C37
/// A navmesh that nothing built: any polygons, and any triangles of them.
fn made(s: &mut Src, huge: bool) -> (PolygonNavmesh, DetailNavmesh) {
    let mut l = crate::meshes::Lcg(s.u32());
    let nvp = *s.pick(&[3u16, 4, 6, 6, 7, 12]);
    let (nv, np) = if huge { (s.usize(20_000, 65_000), s.usize(9_000, 40_000)) } else { (s.usize(12, 40), s.usize(0, 12)) };
    let mut p = PolygonNavmesh { max_vertices_per_polygon: nvp, ..default() };
    p.cell_size = *s.pick(&[0.25, 0.3, 1.0]);
    p.cell_height = *s.pick(&[0.125, 0.2, 0.5]);
    p.aabb = Aabb3d { min: Vec3::new(s.int(-40, 40) as f32 / 4.0, s.int(-9, 9) as f32 / 4.0, s.int(-40, 40) as f32 / 4.0), max: Vec3::splat(99.0) };
    p.vertices = (0..nv).map(|i| glam::U16Vec3::new(i as u16, l.next() as u16 % 50, if huge { l.next() as u16 } else { l.next() as u16 % 50 })).collect();
    for _ in 0..np {
        let n = 3 + l.next() as u16 % (nvp - 2);
        let first = l.next() as usize % (nv - n as usize + 1);
        let mut at: Vec<u16> = (0..n).map(|k| first as u16 + k).collect();
        for i in (1..at.len()).rev() {
            at.swap(i, l.next() as usize % (i + 1));
        }
        at.resize(nvp as usize, PolygonNavmesh::NO_INDEX);
        p.polygons.extend(at);
    }
    p.polygon_neighbors = vec![PolygonNavmesh::NO_CONNECTION; p.polygons.len()];
    p.flags = vec![0; np];
    p.regions = vec![default(); np];
    p.areas = vec![AreaType::DEFAULT_WALKABLE; np];
    let mut d = DetailNavmesh::default();
    for i in 0..np {
        // sometimes as large as a part may be
        let n = if huge || l.next() % 8 == 0 { 3 + l.next() % 125 } else { 3 + l.next() % 6 };
        let k = l.next() % if huge { 8 } else { 2 * n };
        d.meshes.push(rerecast::SubMesh { base_vertex_index: d.vertices.len() as u32, vertex_count: n, base_triangle_index: d.triangles.len() as u32, triangle_count: k });
        d.vertices.extend((0..n).map(|v| Vec3::new(i as f32, v as f32 / 8.0, (l.next() % 4096) as f32 / 4.0)));
        d.triangles.extend((0..k).map(|_| {
            let a = l.next() % n;
            let b = (a + 1 + l.next() % (n - 1)) % n;
            let c = (0..n).map(|j| (b + j) % n).find(|c| *c != a && *c != b).unwrap();
            [a as u8, b as u8, c as u8]
        }));
    }
    d.triangle_flags = vec![default(); d.triangles.len()];
    (p, d)
}
type Key = [u32; 3];
fn key(v: Vec3) -> Key {
    // zeros are alike
    v.to_array().map(|x| (x + 0.0).to_bits())
}
type Edges = BTreeMap<(Key, Key), i32>;
/// The edges of line strips, whichever way they run.
fn strips(g: &GizmoAsset) -> Edges {
    let b = g.buffer();
    let mut m = Edges::new();
    for w in b.strip_positions.windows(2) {
        if w.iter().all(|v| !v.is_nan()) {
            line_between(&mut m, w[0], w[1]);
        }
    }
    for w in b.list_positions.chunks(2) {
        line_between(&mut m, w[0], w[1]);
    }
    m
}
fn line_between(m: &mut Edges, a: Vec3, b: Vec3) {
    let (a, b) = (key(a), key(b));
    *m.entry(if a <= b { (a, b) } else { (b, a) }).or_default() += 1;
}
fn ring(m: &mut Edges, r: &[Vec3]) {
    for (i, a) in r.iter().enumerate() {
        line_between(m, *a, r[(i + 1) % r.len()]);
    }
}
/// Directed edges; two that run against each other cancel out.
fn rim(m: &mut Edges, r: &[Vec3]) {
    for (i, a) in r.iter().enumerate() {
        let (a, b) = (key(*a), key(r[(i + 1) % r.len()]));
        if a <= b {
            *m.entry((a, b)).or_default() += 1;
        } else {
            *m.entry((b, a)).or_default() -= 1;
        }
    }
}
fn corners(m: &Mesh) -> Result<Vec<[Vec3; 3]>, Fail> {
    let t = TriMesh::from_mesh(m).ok_or(Fail::new("surface", "the surface is not a triangle list"))?;
    let n = t.vertices.len();
    ensure!(t.indices.iter().all(|i| i.max_element() < n as u32), "surface", "the surface uses corners it does not have");
    Ok(t.indices.iter().map(|i| i.to_array().map(|k| t.vertices[k as usize].into())).collect())
}
fn polygons(p: &PolygonNavmesh) -> Vec<Vec<Vec3>> {
    let n = p.max_vertices_per_polygon as usize;
    (0..p.polygon_count())
        .map(|i| {
            p.polygons[i * n..][..n].iter().filter(|v| **v != PolygonNavmesh::NO_INDEX).map(|v| p.aabb.min + p.vertices[*v as usize].as_vec3() * Vec3::new(p.cell_size, p.cell_height, p.cell_size)).collect()
        })
        .collect()
}
fn details(d: &DetailNavmesh) -> Vec<[Vec3; 3]> {
    d.meshes.iter().flat_map(|m| d.triangles[m.base_triangle_index as usize..][..m.triangle_count as usize].iter().map(|t| [0, 1, 2].map(|k| d.vertices[m.base_vertex_index as usize + t[k] as usize]))).collect()
}
fn turned(mut t: [Key; 3]) -> [Key; 3] {
    let i = (0..3).min_by_key(|i| t[*i]).unwrap();
    t.rotate_left(i);
    t
}
fn c37_spawned(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    c37(s, c, Scenes::Spawned)
}
fn c37_loaded(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    c37(s, c, Scenes::Loaded)
}
fn c37_made(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    c37(s, c, Scenes::Made)
}
/// More polygons, corners and triangles than sixteen bits count.
fn c37_huge(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    c37(s, c, Scenes::Huge)
}
#[derive(PartialEq)]
enum Scenes {
    Spawned,
    Loaded,
    Made,
    Huge,
}
fn c37(s: &mut Src, c: &mut Ctx, scenes: Scenes) -> pbt::Res {
    let loads = scenes == Scenes::Loaded;
    let makes = scenes == Scenes::Made || scenes == Scenes::Huge;
    let mut app = editor();
    let mut on = [true, false, false, true]; // visual, affector, polygons, details
    let names = ["visual", "affector", "polygon", "detail"];
    app.update();
    let mut shown = false;
    for round in 0..s.usize(1, 4) {
        // another scene or another navmesh
        let changed = s.chance(2, 3);
        let mut fresh = false; // lines may be gone until they are drawn again
        if loads && s.chance(2, 3) {
            let mesh = SerializedMesh::from_mesh(&bevy_mesh(&piece(s), true));
            let response = NavmeshInputResponse {
                affector_meshes: (0..s.usize(0, 3)).map(|_| AffectorMesh { transform: GlobalTransform::from(place(s, c)), mesh: piece(s) }).collect(),
                visual_meshes: (0..s.usize(0, 2)).map(|_| SentVisual { transform: GlobalTransform::from(place(s, c)), mesh: 0, material: None }).collect(),
                materials: vec![],
                meshes: vec![mesh],
                images: vec![],
            };
            let result = serialize(&response).map_err(|e| Fail::new("message", format!("{e}")))?;
            let e = load(&mut app, Reply::Json(json!({"jsonrpc": "2.0", "id": 1, "result": result})))?;
            ensure!(e.is_empty(), "error", "round {round}: the scene was not loaded: {e:?}");
            fresh = true;
        }
        if changed {
            for _ in 0..if loads { 0 } else { s.usize(0, 2) } {
                let (t, at, wide) = (piece(s), place(s, c), s.bool());
                let h = app.world_mut().resource_mut::<Assets<Mesh>>().add(bevy_mesh(&t, wide));
                let g = app.world_mut().resource_mut::<Assets<GizmoAsset>>().add(GizmoAsset::new());
                app.world_mut().spawn((Mesh3d(h), at, NavmeshAffector, Visibility::Hidden, Gizmo { handle: g, ..default() }));
            }
            for _ in 0..if loads { 0 } else { s.usize(0, 1) } {
                let at = place(s, c);
                app.world_mut().spawn((Mesh3d(Handle::default()), at, VisualMesh));
            }
            if makes && s.chance(5, 6) {
                let (poly_mesh, detail_mesh) = made(s, scenes == Scenes::Huge);
                app.insert_resource(Navmesh { poly_mesh, detail_mesh });
            }
            let k = config(s);
            **app.world_mut().resource_mut::<BuildNavmeshConfig>() = k;
            app.update();
            errors();
            if !makes {
                app.world_mut().trigger(BuildNavmesh);
                app.world_mut().flush();
            }
            errors();
        }
        let mut toggled = [false; 4];
        for _ in 0..s.usize(0, 3) {
            let k = s.below(4) as usize;
            let g = [AvailableGizmos::Visual, AvailableGizmos::Affector, AvailableGizmos::PolyMesh, AvailableGizmos::DetailMesh][k];
            app.world_mut().resource_mut::<GizmosToDraw>().toggle(g);
            on[k] = !on[k];
            toggled[k] = true;
        }
        app.update();
        let e = errors();
        ensure!(e.is_empty(), "error", "round {round}: {e:?}");
        c.describe(|| format!("round {round}: changed {changed}, shown {:?}", names.iter().zip(on).filter(|n| n.1).map(|n| n.0).collect::<Vec<_>>()));
        let there = navmesh(&app);

        // the two overlays are whatever has lines and is neither an affector nor part of the scene
        let mut q = app.world_mut().query_filtered::<(&Gizmo, &Visibility, Option<&Mesh3d>), (Without<NavmeshAffector>, Without<VisualMesh>)>();
        let overlays: Vec<(Handle<GizmoAsset>, Visibility, Option<Handle<Mesh>>)> = q.iter(app.world()).map(|(g, v, m)| (g.handle.clone(), *v, m.map(|m| m.0.clone()))).collect();
        let gizmos = app.world().resource::<Assets<GizmoAsset>>();
        let meshes = app.world().resource::<Assets<Mesh>>();
        let lines = |g: &Handle<GizmoAsset>| gizmos.get(g).map(strips).unwrap_or_default();
        let mut visible: Vec<_> = vec![];
        for (g, v, m) in &overlays {
            if *v == Visibility::Hidden {
                ensure!(lines(g).is_empty(), "hidden-lines", "round {round}: an overlay is hidden, but its lines are drawn");
            } else {
                let m = m.as_ref().and_then(|m| meshes.get(m)).ok_or(Fail::new("surface", format!("round {round}: an overlay has no surface")))?;
                visible.push((lines(g), m));
            }
        }
        if let Some((p, d)) = &there {
            let expected = on[2] as usize + on[3] as usize;
            ensure!(visible.len() == expected, "overlays", "round {round}: {} overlays are visible instead of {expected}", visible.len());
            shown |= expected > 0 && p.polygon_count() > 0;
            if on[2] {
                let rings = polygons(p);
                let (mut want, mut outer) = (Edges::new(), Edges::new());
                for r in &rings {
                    ring(&mut want, r);
                    rim(&mut outer, r);
                }
                outer.retain(|_, n| *n != 0);
                let count: usize = rings.iter().map(|r| r.len() - 2).sum();
                let mut found = false;
                let mut why = String::new();
                for (l, m) in &visible {
                    let t = corners(m)?;
                    let mut got = Edges::new();
                    t.iter().for_each(|t| rim(&mut got, t));
                    got.retain(|_, n| *n != 0);
                    let ok = (*l == want || fresh && l.is_empty(), t.len() == count, got == outer);
                    found |= ok == (true, true, true);
                    why += &format!(" lines {} triangles {} rim {};", ok.0, ok.1, ok.2);
                }
                ensure!(found, "polygons", "round {round}: no overlay shows the {} polygons:{why}", rings.len());
            }
            if on[3] {
                let all = details(d);
                let mut want = Edges::new();
                all.iter().for_each(|t| ring(&mut want, t));
                let sorted = |t: Vec<[Vec3; 3]>| {
                    let mut v: Vec<[Key; 3]> = t.into_iter().map(|t| turned(t.map(key))).collect();
                    v.sort();
                    v
                };
                let surface = sorted(all.clone());
                let mut found = false;
                for (l, m) in &visible {
                    found |= (*l == want || fresh && l.is_empty()) && sorted(corners(m)?) == surface;
                }
                ensure!(found, "details", "round {round}: no overlay shows the {} detail triangles", all.len());
            }
            c.label_if(on[2] && on[3], "both overlays");
        } else {
            ensure!(visible.is_empty(), "overlays", "round {round}: an overlay is visible although there is no navmesh");
        }
        if toggled[1] || !on[1] {
            let mut q = app.world_mut().query_filtered::<(&Gizmo, &Mesh3d), With<NavmeshAffector>>();
            let all: Vec<_> = q.iter(app.world()).map(|(g, m)| (g.handle.clone(), m.0.clone())).collect();
            let gizmos = app.world().resource::<Assets<GizmoAsset>>();
            let meshes = app.world().resource::<Assets<Mesh>>();
            for (g, m) in all {
                let mut want = Edges::new();
                if on[1] {
                    for t in corners(meshes.get(&m).unwrap())? {
                        ring(&mut want, &t);
                    }
                    c.label("affector lines");
                }
                ensure!(gizmos.get(&g).map(strips).unwrap_or_default() == want, "affectors", "round {round}: the lines of an affector are not its triangles");
            }
        }
        if toggled[0] {
            let mut q = app.world_mut().query_filtered::<&Visibility, With<VisualMesh>>();
            for v in q.iter(app.world()) {
                ensure!((*v != Visibility::Hidden) == on[0], "visuals", "round {round}: the scene is {v:?}");
            }
        }
    }
    c.nontrivial_if(shown);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C35",
            rule: "at least two affectors and two visuals are loaded, or the answer is larger than 10 MB",
            assumptions: &["transforms without shear and with non-zero scale", "answers whose references are in range (C33)"],
            subs: vec![Sub { name: "load", quick: 12_000, thorough: 400_000, f: c35 }, Sub { name: "large", quick: 6, thorough: 100, f: c35_large }, Sub { name: "crowd", quick: 40, thorough: 2_000, f: c35_crowd }],
        },
        Prop {
            id: "C36",
            rule: "a navmesh with polygons is built from more than one affector",
            assumptions: &["transforms without shear", "a vertex may be placed through the matrix or through its parts, which differ in rounding"],
            subs: vec![Sub { name: "build", quick: 24_000, thorough: 1_000_000, f: c36 }, Sub { name: "many", quick: 24, thorough: 1_000, f: c36_many }],
        },
        Prop {
            id: "C37",
            rule: "some overlay shows a navmesh with polygons",
            assumptions: &["lines are compared by their end points"],
            subs: vec![Sub { name: "show", quick: 24_000, thorough: 1_000_000, f: c37_spawned }, Sub { name: "loaded", quick: 5_000, thorough: 200_000, f: c37_loaded }, Sub { name: "made", quick: 6_000, thorough: 300_000, f: c37_made }, Sub { name: "huge", quick: 10, thorough: 400, f: c37_huge }],
        },
    ]
}
