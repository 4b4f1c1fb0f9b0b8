//! C28: render meshes as triangle meshes, and the backend built on them.
use bevy_app::App;
use bevy_asset::{Assets, Handle, RenderAssetUsages};
use bevy_mesh::{Indices, Mesh, MeshVertexAttribute, PrimitiveTopology, VertexAttributeValues, VertexFormat};
use bevy_render::mesh::Mesh3d;
use bevy_rerecast_core::{Mesh3dNavmeshPlugin, NavmeshAffectorBackend, TriMeshFromBevyMesh};
use bevy_transform::components::GlobalTransform;
use glam::{Affine3A, Quat, UVec3, Vec3};
use pbt::*;
use rerecast::{AreaType, TriMesh};

pub const TOPOLOGIES: [PrimitiveTopology; 5] = [PrimitiveTopology::TriangleList, PrimitiveTopology::TriangleStrip, PrimitiveTopology::LineList, PrimitiveTopology::LineStrip, PrimitiveTopology::PointList];

pub fn float(s: &mut Src) -> f32 {
    match s.weighted(&[4, 3, 1]) {
        0 => s.int(-64, 64) as f32 / 8.0,
        1 => s.f32(-1000.0, 1000.0),
        _ => f32::from_bits(s.u32()),
    }
}
pub fn unique(i: usize, s: &mut Src) -> GlobalTransform {
    let q = Quat::from_xyzw(s.f32(-1.0, 1.0), s.f32(-1.0, 1.0), s.f32(-1.0, 1.0), s.f32(0.1, 1.0)).normalize();
    let scale = if s.chance(1, 3) { Vec3::new(s.f32(0.5, 2.0), s.f32(0.5, 2.0), s.f32(0.5, 2.0)) } else { Vec3::ONE };
    GlobalTransform::from(Affine3A::from_scale_rotation_translation(scale, q, Vec3::new(i as f32, s.int(-9, 9) as f32, s.f32(-9.0, 9.0))))
}
/// Also the placements a chain of parents can produce: sheared, mirrored, flattened, huge or tiny.
pub fn placement(i: usize, s: &mut Src, c: &mut Ctx) -> GlobalTransform {
    let t = unique(i, s);
    if s.chance(2, 3) {
        return t;
    }
    let mut a = t.affine();
    match s.usize(0, 4) {
        0 => {
            c.label("sheared placement");
            a.matrix3.y_axis += a.matrix3.x_axis * s.f32(-2.0, 2.0);
        }
        1 => {
            c.label("mirrored placement");
            a.matrix3.x_axis = -a.matrix3.x_axis;
        }
        2 => {
            c.label("flattened placement");
            let axis = s.usize(0, 2);
            *a.matrix3.col_mut(axis) = glam::Vec3A::ZERO;
        }
        3 => {
            c.label("huge placement");
            a.translation *= 1.0e30;
            a.matrix3 = a.matrix3 * 1.0e20;
        }
        _ => {
            c.label("tiny placement");
            a.translation *= 1.0e-38;
            a.matrix3 = a.matrix3 * 1.0e-30;
        }
    }
    GlobalTransform::from(a)
}

/// Fills long lists from a single choice.
pub struct Lcg(pub u32);
impl Lcg {
    pub fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(1664525).wrapping_add(1013904223);
        self.0.rotate_left(15)
    }
}
#[derive(Clone, Debug)]
pub struct Raw {
    pub topology: PrimitiveTopology,
    pub positions: Option<Vec<[f32; 3]>>,
    pub wide: bool,
    pub indices: Option<Vec<u32>>,
}
pub fn raw(s: &mut Src, c: &mut Ctx) -> (Raw, Mesh) {
    let topology = if s.chance(4, 5) { PrimitiveTopology::TriangleList } else { *s.pick(&TOPOLOGIES) };
    let hi = if s.chance(1, 40) { 70_000 } else { 60 };
    let n = s.small(0, hi) as usize;
    let long = s.chance(1, 300);
    let k = match s.weighted(&[8, 2]) {
        _ if long => *s.pick(&[3, 3, 3, 1]) * s.usize(20_000, 80_000),
        0 => 3 * s.small(0, 40) as usize,
        _ => s.small(0, 50) as usize,
    };
    let wide = s.bool();
    let mut mesh = Mesh::new(topology, *s.pick(&[RenderAssetUsages::all(), RenderAssetUsages::MAIN_WORLD, RenderAssetUsages::RENDER_WORLD]));
    let mut positions = None;
    match s.weighted(&[12, 1, 1]) {
        0 => {
            // long lists are filled from few choices
            let p: Vec<[f32; 3]> = if n > 200 {
                let o = float(s);
                (0..n).map(|i| [o, i as f32, -(i as f32)]).collect()
            } else {
                (0..n).map(|_| [float(s), float(s), float(s)]).collect()
            };
            mesh.insert_attribute(Mesh::ATTRIBUTE_POSITION, p.clone());
            positions = Some(p);
        }
        1 => c.label("no positions"),
        _ => {
            // positions that are not three floats
            let f = MeshVertexAttribute::new("Vertex_Position", 0, VertexFormat::Float32x2);
            let g = MeshVertexAttribute::new("Vertex_Position", 0, VertexFormat::Uint32x3);
            if s.bool() {
                mesh.insert_attribute(f, VertexAttributeValues::Float32x2(vec![[1.0, 2.0]; n]));
            } else {
                mesh.insert_attribute(g, VertexAttributeValues::Uint32x3(vec![[1, 2, 3]; n]));
            }
            c.label("positions are not three floats");
        }
    }
    // other attributes must not matter
    if s.bool() {
        mesh.insert_attribute(Mesh::ATTRIBUTE_NORMAL, vec![[0.0f32, 1.0, 0.0]; n]);
    }
    if s.chance(1, 4) {
        mesh.insert_attribute(Mesh::ATTRIBUTE_UV_0, vec![[0.5f32, 1.0]; n]);
    }
    let indices = (!s.chance(1, 12)).then(|| {
        let mut l = Lcg(s.u32());
        (0..k)
            .map(|_| {
                let m = if wide { u32::MAX } else { 65535 };
                if long {
                    return l.next() % n.max(1) as u32 & m;
                }
                match s.weighted(&[8, 1]) {
                    0 => s.below(n.max(1) as u64) as u32 & m,
                    _ => *s.pick(&[0, m, m - 1, 255, 256, 32768, 65535, 65536 & m]),
                }
            })
            .collect::<Vec<u32>>()
    });
    if let Some(i) = &indices {
        mesh.insert_indices(if wide { Indices::U32(i.clone()) } else { Indices::U16(i.iter().map(|i| *i as u16).collect()) });
    }
    c.label(if wide { "32 bit indices" } else { "16 bit indices" });
    (Raw { topology, positions, wide, indices }, mesh)
}
/// What the mesh is, by its own description.
pub fn expected(r: &Raw) -> Option<TriMesh> {
    if r.topology != PrimitiveTopology::TriangleList {
        return None;
    }
    let (p, i) = (r.positions.as_ref()?, r.indices.as_ref()?);
    if i.len() % 3 != 0 {
        return None;
    }
    let tris: Vec<UVec3> = (0..i.len() / 3).map(|t| UVec3::new(i[3 * t], i[3 * t + 1], i[3 * t + 2])).collect();
    Some(TriMesh { vertices: p.iter().map(|v| (*v).into()).collect(), area_types: vec![AreaType::NOT_WALKABLE; tris.len()], indices: tris })
}
pub fn differ(a: &TriMesh, b: &TriMesh) -> Option<String> {
    if a.vertices.len() != b.vertices.len() {
        return Some(format!("{} vertices instead of {}", a.vertices.len(), b.vertices.len()));
    }
    for (i, (v, w)) in a.vertices.iter().zip(&b.vertices).enumerate() {
        if v.to_array().map(f32::to_bits) != w.to_array().map(f32::to_bits) {
            return Some(format!("vertex {i} is {v} instead of {w}"));
        }
    }
    if a.indices != b.indices {
        let i = a.indices.iter().zip(&b.indices).position(|(x, y)| x != y);
        return Some(format!("{} triangles instead of {}, first difference at {i:?}", a.indices.len(), b.indices.len()));
    }
    (a.area_types != b.area_types).then(|| format!("area types {:?} instead of {:?}", &a.area_types[..a.area_types.len().min(9)], &b.area_types[..b.area_types.len().min(9)]))
}
fn c28_convert(s: &mut Src, c: &mut Ctx) -> Res {
    let (r, mesh) = raw(s, c);
    c.describe(|| format!("{:?} {} positions {:?} wide {}", r.topology, r.positions.as_ref().map_or(-1, |p| p.len() as i64), r.indices.as_ref().map(|i| &i[..i.len().min(30)]), r.wide));
    let got = TriMesh::from_mesh(&mesh);
    match (expected(&r), got) {
        (None, None) => {
            c.label("declined");
            c.nontrivial = true;
            Ok(())
        }
        (Some(_), None) => Err(Fail::new("declined", "a complete triangle list was declined")),
        (None, Some(g)) => Err(Fail::new("accepted", format!("became a mesh of {} vertices and {} triangles", g.vertices.len(), g.indices.len()))),
        (Some(e), Some(g)) => {
            c.nontrivial_if(!e.indices.is_empty());
            match differ(&g, &e) {
                Some(d) => Err(Fail::new("geometry", d)),
                None => Ok(()),
            }
        }
    }
}
fn c28_backend(s: &mut Src, c: &mut Ctx) -> Res {
    let mut app = App::new();
    app.add_plugins(Mesh3dNavmeshPlugin::default());
    let mut assets = Assets::<Mesh>::default();
    let mut pool: Vec<(Handle<Mesh>, Option<TriMesh>)> = vec![];
    for _ in 0..s.usize(1, 5) {
        let (r, m) = raw(s, c);
        pool.push((assets.add(m), expected(&r)));
    }
    if s.chance(1, 3) && !pool.is_empty() {
        // an asset that is gone although its handle is still around
        let i = s.below(pool.len() as u64) as usize;
        assets.remove(&pool[i].0);
        pool[i].1 = None;
        c.label("missing asset");
    }
    app.world_mut().insert_resource(assets);
    let mut live = vec![];
    let mut serial = 0;
    for round in 0..s.usize(1, 3) {
        for _ in 0..s.usize(0, 6) {
            serial += 1;
            let t = placement(serial, s, c);
            if pool.is_empty() || s.chance(1, 8) {
                app.world_mut().spawn(t);
                continue;
            }
            let i = s.below(pool.len() as u64) as usize;
            let e = if s.bool() { app.world_mut().spawn((t, Mesh3d(pool[i].0.clone()))).id() } else { app.world_mut().spawn((Mesh3d(pool[i].0.clone()), t)).id() };
            live.push((e, t, i));
        }
        if !live.is_empty() && s.chance(1, 3) {
            let j = s.below(live.len() as u64) as usize;
            match s.weighted(&[1, 1, 1]) {
                0 => {
                    app.world_mut().despawn(live.remove(j).0);
                }
                1 => {
                    app.world_mut().entity_mut(live.remove(j).0).remove::<Mesh3d>();
                }
                _ => {
                    serial += 1;
                    live[j].1 = placement(serial, s, c);
                    let (e, t, _) = live[j];
                    app.world_mut().entity_mut(e).insert(t);
                }
            }
        }
        let id = app.world().resource::<NavmeshAffectorBackend>().clone();
        let got = app.world_mut().run_system(*id).map_err(|e| Fail::new("backend", e.to_string()))?;
        let mut want: Vec<(GlobalTransform, &TriMesh)> = live.iter().filter_map(|(_, t, i)| Some((*t, pool[*i].1.as_ref()?))).collect();
        c.nontrivial_if(!want.is_empty());
        c.describe(|| format!("round {round}: {} entities with meshes, {} expected", live.len(), want.len()));
        ensure!(got.len() == want.len(), "count", "round {round}: {} affectors for {} entities with a usable mesh", got.len(), want.len());
        for (t, m) in &got {
            let Some(k) = want.iter().position(|w| w.0 == *t) else {
                return Err(Fail::new("transform", format!("no entity with a usable mesh is at {:?}", t.translation())));
            };
            let (_, e) = want.swap_remove(k);
            if let Some(d) = differ(m, e) {
                return Err(Fail::new("geometry", format!("affector at {:?}: {d}", t.translation())));
            }
        }
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "the mesh has at least one triangle or must be declined (backend: at least one affector is expected)",
        assumptions: &["meshes of at most 70000 vertices"],
        subs: vec![Sub { name: "convert", quick: 400_000, thorough: 20_000_000, f: c28_convert }, Sub { name: "backend", quick: 40_000, thorough: 2_000_000, f: c28_backend }],
    }]
}
