//! C41: how the plugins fit together, and the handles of requested navmeshes.
use crate::editor::{ask, refused};
use avian_rerecast::AvianRerecastPlugin;
use avian3d::prelude::{Collider, ColliderOf, RigidBody};
use bevy_app::{App, PluginGroup, ScheduleRunnerPlugin, TaskPoolPlugin};
use bevy_asset::{AssetPlugin, Assets, Handle, RenderAssetUsages};
use bevy_ecs::prelude::World;
use bevy_ecs::system::{RunSystemOnce, SystemState};
use bevy_image::Image;
use bevy_mesh::{Indices, Mesh, PrimitiveTopology};
use bevy_pbr::StandardMaterial;
use bevy_remote::{RemoteMethods, error_codes};
use bevy_render::mesh::Mesh3d;
use bevy_render::view::InheritedVisibility;
use bevy_rerecast::{Mesh3dNavmeshPlugin, Navmesh, NavmeshApp, NavmeshPlugins, generator::NavmeshGenerator};
use bevy_rerecast_editor_integration::brp::NavmeshInputResponse;
use bevy_rerecast_editor_integration::transmission::deserialize;
use bevy_rerecast_editor_integration::{EditorVisibilitySettings, EditorVisible, RerecastEditorIntegrationPlugin};
use bevy_transform::components::GlobalTransform;
use glam::Vec3;
use pbt::*;
use rerecast::{Aabb3d, BuildContoursFlags, NavmeshConfig, NavmeshConfigBuilder, TriMesh};
use std::collections::HashSet;

fn at(n: usize) -> GlobalTransform {
    GlobalTransform::from_xyz(n as f32, 0.5, -2.0)
}
fn triangle(n: usize) -> Mesh {
    let mut m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
    m.insert_attribute(Mesh::ATTRIBUTE_POSITION, vec![[n as f32, 0.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]]);
    m.insert_indices(Indices::U32(vec![0, 1, 2]));
    m
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Group,
    Meshes,
    Colliders,
    Own(usize),
    Methods,
    Assets,
    Spawn,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Backend {
    Meshes,
    Colliders,
    Own(usize),
}
fn c41_plugins(s: &mut Src, c: &mut Ctx) -> Res {
    let mut steps = vec![Step::Group, Step::Methods, Step::Assets];
    for (p, k) in [(2, Step::Meshes), (2, Step::Colliders)] {
        if s.chance(1, p) {
            steps.push(k);
        }
    }
    steps.extend((0..s.usize(0, 2)).map(Step::Own));
    steps.extend((0..s.usize(1, 4)).map(|_| Step::Spawn));
    for i in (1..steps.len()).rev() {
        let j = s.usize(0, i);
        steps.swap(i, j);
    }
    // 0: as it comes, 1: configured for everything, 2: by hand, 3: without the editor
    let editor = s.weighted(&[4, 1, 2, 1]);
    c.describe(|| format!("editor {editor}: {steps:?}"));

    let mut app = App::new();
    app.add_plugins((TaskPoolPlugin::default(), AssetPlugin::default(), ScheduleRunnerPlugin::default()));
    let (mut meshes, mut has_group, mut backend) = (Assets::<Mesh>::default(), false, None);
    let handle = meshes.add(triangle(7));
    let mut store = Some(meshes);
    let body = app.world_mut().spawn(RigidBody::Static).id();
    let (mut n, mut entities) = (0, vec![]);
    let mut spawn = |world: &mut World, s: &mut Src, has_group: bool| {
        n += 1;
        let mut e = world.spawn((at(n), InheritedVisibility::VISIBLE));
        let (mesh, collider, by_hand) = (s.chance(3, 4), s.bool(), s.chance(1, 4));
        if mesh {
            e.insert(Mesh3d(handle.clone()));
        }
        if collider {
            e.insert((Collider::cuboid(1.0, 2.0, 3.0), ColliderOf { body }));
        }
        if by_hand {
            e.insert(EditorVisible);
        }
        entities.push((n, mesh, collider, mesh && (by_hand || has_group && editor < 2)));
    };
    for k in &steps {
        match *k {
            Step::Group => {
                has_group = true;
                match editor {
                    0 => app.add_plugins(NavmeshPlugins::default()),
                    3 => app.add_plugins(NavmeshPlugins::default().build().disable::<RerecastEditorIntegrationPlugin>()),
                    e => {
                        let mut p = RerecastEditorIntegrationPlugin::default();
                        p.visibility_settings = if e == 1 { EditorVisibilitySettings::AllMeshes } else { EditorVisibilitySettings::Manual };
                        app.add_plugins(NavmeshPlugins::default().set(p))
                    }
                };
            }
            Step::Meshes => {
                app.add_plugins(Mesh3dNavmeshPlugin::default());
                backend = Some(Backend::Meshes);
            }
            Step::Colliders => {
                app.add_plugins(AvianRerecastPlugin::default());
                backend = Some(Backend::Colliders);
            }
            Step::Own(k) => {
                app.set_navmesh_affector_backend(move || (0..=k).map(|i| (at(1000 + 10 * k + i), TriMesh::default())).collect::<Vec<_>>());
                backend = Some(Backend::Own(k));
            }
            Step::Methods => {
                app.insert_resource(RemoteMethods::new());
            }
            Step::Assets => {
                app.insert_resource(Assets::<Image>::default()).insert_resource(store.take().unwrap()).insert_resource(Assets::<StandardMaterial>::default());
            }
            Step::Spawn => spawn(app.world_mut(), s, has_group),
        }
    }
    app.update();
    for round in 0..2 {
        if editor == 3 {
            ensure!(ask(&mut app, None).is_err(), "editor", "the editor is answered by an app without the editor plugin");
            c.label("no editor");
        } else {
            let answer = ask(&mut app, None)?;
            match backend {
                None => {
                    refused(&answer, error_codes::INTERNAL_ERROR, "no backend")?;
                    c.label("no backend");
                }
                Some(b) => {
                    let v = answer.map_err(|e| Fail::new("refused", format!("round {round}: {} {}", e.code, e.message)))?;
                    let r: NavmeshInputResponse = deserialize(&v).map_err(|e| Fail::new("message", format!("{e}")))?;
                    let mut got: Vec<f32> = r.affector_meshes.iter().map(|a| a.transform.translation().x).collect();
                    let mut want: Vec<usize> = match b {
                        Backend::Own(k) => (0..=k).map(|i| 1000 + 10 * k + i).collect(),
                        Backend::Meshes => entities.iter().filter(|e| e.1).map(|e| e.0).collect(),
                        Backend::Colliders => entities.iter().filter(|e| e.2).map(|e| e.0).collect(),
                    };
                    got.sort_by(f32::total_cmp);
                    want.sort();
                    ensure!(got == want.iter().map(|w| *w as f32).collect::<Vec<_>>(), "affectors", "round {round}: affectors at {got:?} instead of {want:?}, the last backend is {b:?}");
                    let corners = match b {
                        Backend::Own(_) => 0,
                        Backend::Meshes => 3,
                        Backend::Colliders => 8,
                    };
                    ensure!(r.affector_meshes.iter().all(|a| a.mesh.vertices.len() == corners), "geometry", "round {round}: the affectors are not those of {b:?}");
                    let mut got: Vec<f32> = r.visual_meshes.iter().map(|a| a.transform.translation().x).collect();
                    got.sort_by(f32::total_cmp);
                    let want: Vec<f32> = entities.iter().filter(|e| e.3).map(|e| e.0 as f32).collect();
                    ensure!(got == want, "visuals", "round {round}: visuals at {got:?} instead of {want:?}");
                    c.nontrivial_if(!want.is_empty() && !r.affector_meshes.is_empty());
                    c.label(match b {
                        Backend::Own(_) => "own backend",
                        Backend::Meshes => "mesh backend",
                        Backend::Colliders => "collider backend",
                    });
                }
            }
        }
        // the world goes on
        let mut more = vec![];
        for _ in 0..s.usize(0, 2) {
            n_spawn(&mut app, s, &handle, body, editor < 2, entities.len() + more.len() + 1, &mut more);
        }
        entities.extend(more);
        app.update();
    }
    Ok(())
}
fn n_spawn(app: &mut App, s: &mut Src, handle: &Handle<Mesh>, body: bevy_ecs::entity::Entity, all: bool, n: usize, entities: &mut Vec<(usize, bool, bool, bool)>) {
    // first without a mesh, which comes later
    let e = app.world_mut().spawn((at(n), InheritedVisibility::VISIBLE)).id();
    let (mesh, collider) = (s.chance(3, 4), s.bool());
    if s.bool() {
        app.update();
    }
    if mesh {
        app.world_mut().entity_mut(e).insert(Mesh3d(handle.clone()));
    }
    if collider {
        app.world_mut().entity_mut(e).insert((Collider::cuboid(1.0, 2.0, 3.0), ColliderOf { body }));
    }
    entities.push((n, mesh, collider, mesh && all));
}

fn config(s: &mut Src) -> NavmeshConfig {
    let k = s.int(0, 3) as f32;
    let values = [0.3 + k, 0.2, 2.0, 0.6, 0.9, 0.785, 8.0, 20.0, 12.0, 1.3, 6.0, 6.0, 1.0];
    NavmeshConfigBuilder::verif_new(values, 32, Aabb3d { min: Vec3::ZERO, max: Vec3::splat(20.0) }, BuildContoursFlags::default(), false).build()
}
struct Other;
fn c41_handles(s: &mut Src, c: &mut Ctx) -> Res {
    let mut app = App::new();
    app.add_plugins((TaskPoolPlugin::default(), AssetPlugin::default(), ScheduleRunnerPlugin::default()));
    app.add_plugins(NavmeshPlugins::default());
    let mut two = SystemState::<(NavmeshGenerator<()>,)>::new(app.world_mut());
    let mut seen = HashSet::new();
    // what is held, and whether there is a navmesh behind it
    let mut held: Vec<(Handle<Navmesh>, bool)> = vec![];
    let mut asked = 0;
    for step in 0..s.usize(1, 12) {
        let mut fresh: Vec<Handle<Navmesh>> = vec![];
        match s.weighted(&[6, 2, 2, 2, 1]) {
            0 => {
                let (kind, same) = (s.usize(0, 2), s.bool());
                let mut configs: Vec<NavmeshConfig> = (0..s.usize(1, 4)).map(|_| config(s)).collect();
                if same {
                    let k = configs[0];
                    configs.fill(k);
                    c.label_if(configs.len() > 1, "the same settings again");
                }
                asked += configs.len();
                let (kind, configs): (usize, &[NavmeshConfig]) = (kind, &configs);
                let own = configs.to_vec();
                fresh = match kind {
                    0 => app.world_mut().run_system_once(move |mut g: NavmeshGenerator<()>| own.iter().map(|k| g.generate(*k)).collect::<Vec<_>>()).map_err(|e| Fail::new("system", e.to_string()))?,
                    1 => app.world_mut().run_system_once(move |mut g: NavmeshGenerator<Other>| own.iter().map(|k| g.generate(*k)).collect::<Vec<_>>()).map_err(|e| Fail::new("system", e.to_string()))?,
                    _ => {
                        let mut g = two.get_mut(app.world_mut()).0;
                        configs.iter().map(|k| g.generate(*k)).collect()
                    }
                };
                let navmeshes = app.world().resource::<Assets<Navmesh>>();
                for h in &fresh {
                    ensure!(h.is_strong(), "weak", "step {step}: the handle does not keep the navmesh");
                    ensure!(navmeshes.get(h).is_none(), "taken", "step {step}: there is a navmesh behind a new handle");
                }
                held.extend(fresh.iter().map(|h| (h.clone(), false)));
            }
            1 => {
                let h = app.world_mut().resource_mut::<Assets<Navmesh>>().add(Navmesh::default());
                fresh.push(h.clone());
                held.push((h, true));
            }
            2 => {
                if !held.is_empty() {
                    // the navmesh arrives
                    let i = s.usize(0, held.len() - 1);
                    app.world_mut().resource_mut::<Assets<Navmesh>>().insert(&held[i].0, Navmesh::default());
                    held[i].1 = true;
                }
            }
            3 => {
                if !held.is_empty() {
                    let i = s.usize(0, held.len() - 1);
                    held.swap_remove(i);
                    c.label("handle dropped");
                }
            }
            _ => app.update(),
        }
        for h in &fresh {
            ensure!(seen.insert(h.id()), "shared", "step {step}: the handle {:?} has been handed out before", h.id());
        }
        let navmeshes = app.world().resource::<Assets<Navmesh>>();
        for (h, there) in &held {
            ensure!(navmeshes.get(h).is_some() == *there, "stored", "step {step}: the navmesh of {:?} {}", h.id(), if *there { "is gone" } else { "is there too early" });
        }
    }
    c.nontrivial_if(asked > 1);
    c.describe(|| format!("{asked} requests, {} handles, {} held", seen.len(), held.len()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C41",
        assumptions: &["Bevy, Avian and the remote protocol plugin behave as documented"],
        rule: "plugins: at least one affector and one visual are expected; handles: more than one request",
        subs: vec![Sub { name: "plugins", quick: 12_000, thorough: 600_000, f: c41_plugins }, Sub { name: "handles", quick: 12_000, thorough: 600_000, f: c41_handles }],
    }]
}
