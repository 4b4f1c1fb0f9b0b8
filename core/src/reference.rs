//! Dumps of the original C++ Recast that the repository ships (tests/reference_data), used as one more oracle.
use crate::ad::*;
use glam::{UVec3, Vec2, Vec3, Vec3A};
use pbt::*;
use rerecast::*;
use serde_json::Value;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

const DIR: &str = "/repo/crates/rerecast/tests/reference_data";
pub const PROJECTS: [&str; 2] = ["chainboom", "dungeon"];

fn load(project: &str, name: &str) -> Option<Value> {
    serde_json::from_str(&std::fs::read_to_string(format!("{DIR}/{project}/{name}.json")).ok()?).ok()
}
fn f(v: &Value) -> f32 {
    v.as_f64().unwrap() as f32
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
fn ints(v: &Value) -> Vec<i64> {
    arr(v).iter().map(|x| x.as_i64().unwrap()).collect()
}
fn vec3(v: &Value) -> Vec3 {
    let a = arr(v);
    Vec3::new(f(&a[0]), f(&a[1]), f(&a[2]))
}
fn area(v: i64) -> AreaType {
    if v == 63 { AreaType::DEFAULT_WALKABLE } else { AreaType::from(v as u8) }
}

pub struct CppCont {
    pub reg: u16,
    pub area: AreaType,
    pub verts: Vec<[i32; 4]>,
    pub raw: Vec<[i32; 4]>,
}
pub struct Detail {
    pub meshes: Vec<[u32; 4]>,
    pub tris: Vec<[u8; 4]>,
    pub verts: Vec<Vec3>,
}
pub struct Run {
    pub chf: CompactHeightfield,
    pub contours: ContourSet,
    pub cpp_contours: Vec<CppCont>,
    pub nvp: u16,
    pub sample_dist: f32,
    pub sample_err: f32,
    pub poly: Vec<i64>,
    pub poly_verts: Vec<[u16; 3]>,
    pub poly_areas: Vec<AreaType>,
    pub detail: Detail,
}

/// The build up to contours, with the dumps for the rest. None when the data is not there.
pub fn run(project: &'static str) -> Option<Arc<Run>> {
    static CACHE: OnceLock<Mutex<HashMap<&'static str, Option<Arc<Run>>>>> = OnceLock::new();
    let m = CACHE.get_or_init(|| Mutex::new(HashMap::new()));
    let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(r) = g.get(project) {
        return r.clone();
    }
    let r = make(project).map(Arc::new);
    g.insert(project, r.clone());
    r
}
fn make(project: &str) -> Option<Run> {
    let cfg = load(project, "config")?;
    let geo = load(project, "geometry")?;
    let u = |k: &str| cfg[k].as_u64().unwrap() as u16;
    let mut mesh = TriMesh {
        vertices: arr(&geo["verts"]).iter().map(|v| Vec3A::from(vec3(v))).collect(),
        indices: arr(&geo["tris"]).iter().map(|t| { let i = ints(t); UVec3::new(i[0] as u32, i[1] as u32, i[2] as u32) }).collect(),
        area_types: vec![],
    };
    mesh.area_types = vec![AreaType::NOT_WALKABLE; mesh.indices.len()];
    mesh.mark_walkable_triangles(f(&cfg["walkableSlopeAngle"]).to_radians());
    let mut hf = HeightfieldBuilder { aabb: mesh.compute_aabb()?, cell_size: f(&cfg["cs"]), cell_height: f(&cfg["ch"]) }.build().unwrap();
    hf.rasterize_triangles(&mesh, u("walkableClimb")).unwrap();
    hf.filter_low_hanging_walkable_obstacles(u("walkableClimb"));
    hf.filter_ledge_spans(u("walkableHeight"), u("walkableClimb"));
    hf.filter_walkable_low_height_spans(u("walkableHeight"));
    let mut chf = hf.into_compact(u("walkableHeight"), u("walkableClimb")).unwrap();
    chf.erode_walkable_area(u("walkableRadius"));
    for v in arr(&load(project, "convex_volumes")?["volumes"]) {
        chf.mark_convex_poly_area(ConvexVolume {
            vertices: arr(&v["verts"]).iter().map(|p| { let p = vec3(p); Vec2::new(p.x, p.z) }).collect(),
            min_y: f(&v["hmin"]),
            max_y: f(&v["hmax"]),
            area: AreaType::from(v["area"].as_u64().unwrap() as u8),
        });
    }
    chf.build_distance_field();
    chf.build_regions(u("borderSize"), u("minRegionArea"), u("mergeRegionArea")).unwrap();
    let contours = chf.build_contours(f(&cfg["maxSimplificationError"]), u("maxEdgeLen"), BuildContoursFlags::default());
    let pts = |v: &Value| -> Vec<[i32; 4]> { arr(v).iter().map(|p| { let i = ints(p); [i[0] as i32, i[1] as i32, i[2] as i32, i[3] as i32] }).collect() };
    let cset = load(project, "contour_set")?;
    let pm = load(project, "poly_mesh")?;
    let dm = load(project, "poly_mesh_detail")?;
    Some(Run {
        chf,
        contours,
        cpp_contours: arr(&cset["contours"]).iter().map(|c| CppCont { reg: c["reg"].as_u64().unwrap() as u16, area: area(c["area"].as_i64().unwrap()), verts: pts(&c["verts"]), raw: pts(&c["rverts"]) }).collect(),
        nvp: u("maxVertsPerPoly"),
        sample_dist: f(&cfg["detailSampleDist"]),
        sample_err: f(&cfg["detailSampleMaxError"]),
        poly: ints(&pm["polys"]),
        poly_verts: arr(&pm["verts"]).iter().map(|v| { let i = ints(v); [i[0] as u16, i[1] as u16, i[2] as u16] }).collect(),
        poly_areas: ints(&pm["areas"]).into_iter().map(area).collect(),
        detail: Detail {
            meshes: arr(&dm["meshes"]).iter().map(|m| { let i = ints(m); [i[0] as u32, i[1] as u32, i[2] as u32, i[3] as u32] }).collect(),
            tris: arr(&dm["tris"]).iter().map(|m| { let i = ints(m); [i[0] as u8, i[1] as u8, i[2] as u8, i[3] as u8] }).collect(),
            verts: arr(&dm["verts"]).iter().map(vec3).collect(),
        },
    })
}
pub fn pick(s: &mut Src, c: &mut Ctx) -> Option<Arc<Run>> {
    let p = *s.pick(&PROJECTS);
    c.describe(|| format!("C++ reference {p}"));
    c.label(p);
    let r = run(p);
    c.nontrivial = r.is_some();
    r
}

pub fn c16(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(r) = pick(s, c) else { return Ok(()) };
    ensure!(r.contours.contours.len() == r.cpp_contours.len(), "reference", "{} contours, C++ has {}", r.contours.contours.len(), r.cpp_contours.len());
    for (i, (a, b)) in r.contours.contours.iter().zip(&r.cpp_contours).enumerate() {
        ensure!(a.region.bits() == b.reg && a.area == b.area, "reference", "contour {i}: region {} area {:?}, C++ {} {:?}", a.region.bits(), a.area, b.reg, b.area);
        ensure!(raw_pts(&a.raw_vertices) == b.raw, "reference", "contour {i}: the raw outline differs from C++");
        ensure!(contour_pts(&a.vertices) == b.verts, "reference", "contour {i}: {:?}, C++ {:?}", contour_pts(&a.vertices), b.verts);
    }
    Ok(())
}
pub fn c21(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(r) = pick(s, c) else { return Ok(()) };
    let mut set = r.contours.clone();
    set.contours = r
        .cpp_contours
        .iter()
        .map(|k| Contour {
            vertices: k.verts.iter().map(|v| (glam::U16Vec3::new(v[0] as u16, v[1] as u16, v[2] as u16), v[3] as u32)).collect(),
            raw_vertices: vec![],
            region: RegionId::from(k.reg),
            area: k.area,
        })
        .collect();
    let p = set.into_polygon_mesh(r.nvp).map_err(|e| Fail::new("reference", e.to_string()))?;
    ensure!(p.vertices.iter().map(|v| v.to_array()).collect::<Vec<_>>() == r.poly_verts, "reference", "vertices differ from C++ ({} / {})", p.vertices.len(), r.poly_verts.len());
    let n = r.nvp as usize;
    ensure!(p.polygon_count() * 2 * n == r.poly.len(), "reference", "{} polygons, C++ has {}", p.polygon_count(), r.poly.len() / 2 / n);
    for (k, q) in r.poly.chunks(2 * n).enumerate() {
        let get = |v: &Vec<u16>| -> Vec<i64> { v[k * n..(k + 1) * n].iter().map(|x| *x as i64).collect() };
        ensure!(get(&p.polygons) == q[..n], "reference", "polygon {k}: {:?}, C++ {:?}", get(&p.polygons), &q[..n]);
        ensure!(get(&p.polygon_neighbors) == q[n..], "reference", "neighbours of polygon {k}: {:?}, C++ {:?}", get(&p.polygon_neighbors), &q[n..]);
    }
    ensure!(p.areas == r.poly_areas, "reference", "areas differ from C++");
    Ok(())
}
pub fn c23(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(r) = pick(s, c) else { return Ok(()) };
    let p = r.contours.clone().into_polygon_mesh(r.nvp).map_err(|e| Fail::new("reference", e.to_string()))?;
    let d = DetailNavmesh::new(&p, &r.chf, r.sample_dist, r.sample_err).map_err(|e| Fail::new("reference", format!("{e:?}")))?;
    ensure!(d.meshes.len() == r.detail.meshes.len(), "reference", "{} sub-meshes, C++ {}", d.meshes.len(), r.detail.meshes.len());
    let mut diff = 0;
    for (i, (a, b)) in d.meshes.iter().zip(&r.detail.meshes).enumerate() {
        let a = [a.base_vertex_index, a.vertex_count, a.base_triangle_index, a.triangle_count];
        if a[1] != b[1] || a[3] != b[3] {
            diff += 1;
            c.describe(|| format!("sub-mesh {i}: {a:?}, C++ {b:?}"));
        }
    }
    ensure!(diff == 0, "reference", "{diff} of {} sub-meshes have another size than in C++", d.meshes.len());
    for (i, (a, b)) in d.vertices.iter().zip(&r.detail.verts).enumerate() {
        ensure!(a.distance(*b) < 1e-4, "reference", "vertex {i} is {a}, C++ {b}");
    }
    for (i, ((a, fl), b)) in d.triangles.iter().zip(&d.triangle_flags).zip(&r.detail.tris).enumerate() {
        ensure!(a[..] == b[..3] && *fl == b[3], "reference", "triangle {i} is {a:?} {fl:#x}, C++ {b:?}");
    }
    Ok(())
}
