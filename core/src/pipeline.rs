//! C24-C27: the whole build.
use crate::ad::*;
use crate::poly::{self, rings};
use crate::scenes::{self, quad, tri};
use glam::{UVec3, Vec2, Vec3, Vec3A};
use pbt::*;
use refmodel::chf::{Chf, NONE};
use refmodel::field::{Field, Span as MSpan};
use rerecast::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub cs: f32,
    pub ch: f32,
    pub aabb: Aabb3d,
    pub slope: f32,
    pub wh: u16,
    pub climb: u16,
    pub radius: u16,
    pub border: u16,
    pub min: u16,
    pub merge: u16,
    pub max_err: f32,
    pub max_edge: u16,
    pub flags: BuildContoursFlags,
    pub nvp: u16,
    pub sd: f32,
    pub se: f32,
    pub volumes: Vec<(Vec<Vec2>, f32, f32, u8)>,
    /// Rasterize and filter with the one call that does both.
    pub at_once: bool,
}
#[derive(Debug)]
pub struct Built {
    pub solid: Field,
    pub filtered: Field,
    pub chf: CompactHeightfield,
    pub cset: ContourSet,
    pub poly: PolygonNavmesh,
    pub detail: DetailNavmesh,
}
#[derive(Debug)]
pub enum Stop {
    Columns(String),
    Raster(String),
    Layers(Field),
    Regions(String),
    Contour(ContourSet, String),
}
fn broken(e: String) -> Fail {
    Fail::new("structure", e)
}
/// The documented sequence of steps.
pub fn build(mesh: &TriMesh, k: &Cfg) -> Result<Result<Built, Stop>, Fail> {
    let mut hf = match (HeightfieldBuilder { aabb: k.aabb, cell_size: k.cs, cell_height: k.ch }).build() {
        Ok(h) => h,
        Err(e) => return Ok(Err(Stop::Columns(e.to_string()))),
    };
    if let Err(e) = hf.rasterize_triangles(mesh, k.climb) {
        return Ok(Err(Stop::Raster(e.to_string())));
    }
    let solid = field_from(&hf).map_err(broken)?;
    if k.at_once {
        hf = HeightfieldBuilder { aabb: k.aabb, cell_size: k.cs, cell_height: k.ch }.build().map_err(|e| broken(e.to_string()))?;
        hf.populate_from_trimesh(mesh.clone(), k.wh, k.climb).map_err(|e| Fail::new("raster-error", format!("populate_from_trimesh refuses what rasterize_triangles accepts: {e}")))?;
    } else {
        hf.filter_low_hanging_walkable_obstacles(k.climb);
        hf.filter_ledge_spans(k.wh, k.climb);
        hf.filter_walkable_low_height_spans(k.wh);
    }
    let filtered = field_from(&hf).map_err(broken)?;
    let mut chf = match hf.into_compact(k.wh, k.climb) {
        Ok(c) => c,
        Err(_) => return Ok(Err(Stop::Layers(filtered))),
    };
    chf.erode_walkable_area(k.radius);
    for (vertices, min_y, max_y, area) in &k.volumes {
        chf.mark_convex_poly_area(ConvexVolume { vertices: vertices.clone(), min_y: *min_y, max_y: *max_y, area: AreaType(*area) });
    }
    chf.build_distance_field();
    if let Err(e) = chf.build_regions(k.border, k.min, k.merge) {
        return Ok(Err(Stop::Regions(e.to_string())));
    }
    let cset = chf.build_contours(k.max_err, k.max_edge, k.flags);
    let poly = match cset.clone().into_polygon_mesh(k.nvp) {
        Ok(p) => p,
        Err(e) => return Ok(Err(Stop::Contour(cset, e.to_string()))),
    };
    let detail = DetailNavmesh::new(&poly, &chf, k.sd, k.se).map_err(|e| Fail::new("detail-error", e.to_string()))?;
    Ok(Ok(Built { solid, filtered, chf, cset, poly, detail }))
}

pub fn config(s: &mut Src, cs: f32, ch: f32, aabb: Aabb3d) -> Cfg {
    let radius = match s.weighted(&[6, 4, 1]) {
        0 => s.int(0, 2) as u16,
        1 => s.int(0, 4) as u16,
        _ => *s.pick(&[255u16, 256, 32767, 32768, 65535]),
    };
    let border = match s.weighted(&[5, 3, 2, 1]) {
        0 => 0,
        1 => radius.saturating_add(3),
        2 => s.int(1, 6) as u16,
        _ => *s.pick(&[40u16, 255, 32767, 32768, 65535]),
    };
    let mut volumes = vec![];
    if s.chance(1, 5) {
        for _ in 0..s.usize(1, 2) {
            let c = Vec2::new(s.f32(aabb.min.x, aabb.max.x), s.f32(aabb.min.z, aabb.max.z));
            let r = Vec2::new(s.f32(cs, 8.0 * cs), s.f32(cs, 8.0 * cs));
            let v = [[-1.0, -1.0], [1.0, -1.0], [1.0, 1.0], [-1.0, 1.0]].iter().map(|o| c + Vec2::new(o[0], o[1]) * r).collect();
            let y = s.f32(aabb.min.y, aabb.max.y);
            volumes.push((v, y, y + s.f32(0.0, 10.0), crate::gens::area(s)));
        }
    }
    Cfg {
        cs,
        ch,
        aabb,
        slope: *s.pick(&[0.8f32, 0.5, 1.2]),
        wh: match s.weighted(&[8, 1]) {
            0 => s.int(3, 10) as u16,
            _ => *s.pick(&[255u16, 256, 65535]),
        },
        climb: match s.weighted(&[8, 1]) {
            0 => s.int(0, 5) as u16,
            _ => *s.pick(&[255u16, 32768, 65535]),
        },
        radius,
        border,
        min: *s.pick(&[0u16, 1, 4, 16, 64, 65535]),
        merge: *s.pick(&[20u16, 0, 4, 100, 400, 65535]),
        max_err: *s.pick(&[1.3f32, 0.0, 1.0, 2.0, 5.0, 0.5]),
        max_edge: *s.pick(&[12u16, 0, 1, 3, 40, 65535]),
        flags: BuildContoursFlags::from_bits_retain(s.int(0, 3) as u8),
        nvp: match s.weighted(&[8, 1]) {
            0 => s.int(3, 8) as u16,
            _ => s.int(9, 40) as u16,
        },
        sd: if s.chance(1, 4) { 0.0 } else { cs * s.f32(0.9, 8.0) },
        se: ch * *s.pick(&[1.0f32, 0.0, 0.3, 5.0]),
        volumes,
        at_once: s.bool(),
    }
}

// ------------------------------------------------------------------ C24
fn well_formed(b: &Built, k: &Cfg, c: &mut Ctx) -> Res {
    let g = chf_from_code(&b.chf).map_err(broken)?;
    ensure!(b.solid.cols.iter().chain(&b.filtered.cols).all(|col| col.iter().all(|s| s.min < s.max) && col.windows(2).all(|p| p[0].max < p[1].min)), "columns", "a column is not sorted or overlaps");
    ensure!(g.dist.len() == g.spans.len(), "structure", "{} distances for {} entries", g.dist.len(), g.spans.len());
    for (i, s) in g.spans.iter().enumerate() {
        ensure!(s.reg & 0x8000 != 0 || s.reg <= g.max_reg, "region-range", "entry {i} has region {} of {}", s.reg, g.max_reg);
    }
    for (i, k) in b.cset.contours.iter().enumerate() {
        ensure!(k.region != RegionId::NONE && !k.region.intersects(RegionId::BORDER_REGION), "contour-region", "contour {i} has region {:?}", k.region);
        ensure!(k.vertices.len() >= 3 || k.vertices.is_empty(), "contour-size", "contour {i} has {} vertices", k.vertices.len());
        ensure!(k.vertices.iter().all(|v| v.0.x <= b.cset.width && v.0.z <= b.cset.height), "contour-outside", "contour {i} leaves the field of {}x{}", b.cset.width, b.cset.height);
    }
    poly::structure(&b.poly, &b.cset, k.nvp)?;
    let n = k.nvp as usize;
    let np = b.poly.polygon_count();
    let r = rings(&b.poly);
    for (p, v) in r.iter().enumerate() {
        for j in 0..v.len() {
            let nb = b.poly.polygon_neighbors[p * n + j];
            if nb == 0xffff || nb & 0x8000 != 0 {
                ensure!(nb == 0xffff || (nb & 0x7fff) < 4, "neighbour", "polygon {p} edge {j} has neighbour {nb:#x}");
                continue;
            }
            ensure!((nb as usize) < np, "neighbour", "polygon {p} edge {j} has neighbour {nb} of {np}");
            ensure!(b.poly.polygon_neighbors[nb as usize * n..(nb as usize + 1) * n].contains(&(p as u16)), "neighbour", "polygon {nb} does not link back to {p}");
        }
    }
    let d = &b.detail;
    ensure!(d.meshes.len() == np, "detail", "{} sub-meshes for {np} polygons", d.meshes.len());
    ensure!(d.triangles.len() == d.triangle_flags.len(), "detail", "{} triangles, {} flags", d.triangles.len(), d.triangle_flags.len());
    let (mut bv, mut bt) = (0, 0);
    for (p, m) in d.meshes.iter().enumerate() {
        ensure!(m.base_vertex_index == bv && m.base_triangle_index == bt, "detail", "sub-mesh {p} starts at {} / {} instead of {bv} / {bt}", m.base_vertex_index, m.base_triangle_index);
        bv += m.vertex_count;
        bt += m.triangle_count;
        ensure!(bv as usize <= d.vertices.len() && bt as usize <= d.triangles.len(), "detail", "sub-mesh {p} ends outside of the tables");
        ensure!(m.vertex_count as usize >= r[p].len(), "detail", "sub-mesh {p} has {} vertices for a polygon of {}", m.vertex_count, r[p].len());
        for t in &d.triangles[(bt - m.triangle_count) as usize..bt as usize] {
            ensure!(t.iter().all(|i| (*i as u32) < m.vertex_count), "detail", "sub-mesh {p} of {} vertices has triangle {t:?}", m.vertex_count);
        }
    }
    ensure!(bv as usize == d.vertices.len() && bt as usize == d.triangles.len(), "detail", "the sub-meshes use {bv} of {} vertices and {bt} of {} triangles", d.vertices.len(), d.triangles.len());
    ensure!(d.vertices.iter().all(|v| v.is_finite()), "detail", "a vertex is not finite");
    c.label("complete result");
    c.label_if(np == 0, "empty navmesh");
    c.count("polygons", np as u64);
    c.nontrivial_if(np > 0);
    Ok(())
}
fn judge(mesh: &TriMesh, k: &Cfg, c: &mut Ctx) -> Res {
    match build(mesh, k)? {
        Ok(b) => well_formed(&b, k, c),
        Err(Stop::Columns(e)) => {
            let cells = |a: f32, b: f32| ((b - a) as f64 / k.cs as f64 + 0.5).floor();
            let (w, h) = (cells(k.aabb.min.x, k.aabb.max.x), cells(k.aabb.min.z, k.aabb.max.z));
            ensure!(w > 65534.0 || h > 65534.0, "spurious-error", "{w}x{h} columns refused: {e}");
            c.label("too many columns");
            Ok(())
        }
        Err(Stop::Raster(e)) => {
            // clipping may only give up where rounding is coarser than the cells
            let big = mesh.vertices.iter().map(|v| v.abs().max_element() as f64).fold(0.0, f64::max);
            ensure!(big > 1e6 * k.cs as f64, "spurious-error", "coordinates are at most {big}: {e}");
            c.label("triangle too large to be clipped");
            Ok(())
        }
        Err(Stop::Layers(f)) => {
            ensure!(Chf::build(&f, k.wh as i32, k.climb as i32).is_err(), "spurious-error", "too many layers reported for columns of at most {} spans", f.cols.iter().map(|c| c.len()).max().unwrap_or(0));
            c.label("too many layers");
            Ok(())
        }
        Err(Stop::Regions(e)) => Err(Fail::new("spurious-error", format!("{e} on a small field"))),
        Err(Stop::Contour(set, e)) => {
            ensure!(e.contains("nvalid contour"), "spurious-error", "{e}");
            // a contour with a valid outline can be triangulated
            for k in set.contours.iter().filter(|k| k.vertices.len() >= 3) {
                let v = contour_pts(&k.vertices);
                let pts: Vec<[i32; 2]> = v.iter().map(|p| [p[0], p[2]]).collect();
                if refmodel::poly::triangulate(&pts).is_err() {
                    c.label("contour that cannot be triangulated");
                    return Ok(());
                }
            }
            // the removal of border vertices may leave such a contour as well
            if set.border_size > 0 {
                c.label("hole that cannot be triangulated");
                return Ok(());
            }
            Err(Fail::new("spurious-error", format!("{e}, but the original triangulates every contour")))
        }
    }
}
fn mesh_text(m: &TriMesh) -> String {
    let t: Vec<String> = m.indices.iter().zip(&m.area_types).take(40).map(|(i, a)| format!("{:?} {:?} {:?} @{}", m.vertices[i.x as usize].to_array(), m.vertices[i.y as usize].to_array(), m.vertices[i.z as usize].to_array(), a.0)).collect();
    t.join("; ")
}
fn c24_scenes(s: &mut Src, c: &mut Ctx) -> Res {
    let n = *s.pick(&[12usize, 24, 40, 3, 1]);
    let sc = scenes::scene(s, n);
    let k = config(s, sc.cs, sc.ch, sc.aabb);
    c.describe(|| format!("{} {k:?}; {}", sc.describe(), mesh_text(&sc.mesh)));
    judge(&sc.mesh, &k, c)
}
/// Arbitrary finite triangles: huge, tiny, flat, outside of the field, shared vertices.
fn soup(s: &mut Src, c: &mut Ctx) -> (TriMesh, Cfg) {
    let mut m = TriMesh::default();
    let size = *s.pick(&[8.0f32, 20.0, 1.0, 0.1]);
    let far = s.chance(1, 6);
    let nv = s.usize(3, 12);
    for _ in 0..nv {
        let mut v = Vec3A::ZERO;
        for a in 0..3 {
            v[a] = match s.weighted(&[8, 4, 1, 1]) {
                0 => s.f32(0.0, size),
                1 => s.int(-2, 10) as f32 / 8.0 * size,
                2 => s.f32(-3.0 * size, 4.0 * size),
                _ => if far { *s.pick(&[1e6f32, -1e6, 1e4, 1e8, 1e30, -1e30, 3e38, -3e38, 1e-38, 1e20]) } else { 0.0 },
            };
        }
        m.vertices.push(v);
    }
    let nt = s.usize(0, 30);
    for _ in 0..nt {
        let i = UVec3::new(s.below(nv as u64) as u32, s.below(nv as u64) as u32, s.below(nv as u64) as u32);
        m.indices.push(i);
        m.area_types.push(AreaType(*s.pick(&[0u8, 255, 1, 9])));
    }
    m.mark_walkable_triangles(*s.pick(&[0.8f32, 0.0, 1.5, 3.0]));
    let cells = s.int(1, 24) as f32;
    let cs = size / cells;
    let ch = *s.pick(&[0.5f32, 0.1, 1.0, 2.0, 0.05]) * cs;
    let aabb = match s.weighted(&[4, 2, 1]) {
        0 => Aabb3d { min: Vec3::ZERO, max: Vec3::splat(size) },
        1 => m.compute_aabb().filter(|a| (a.max - a.min).max_element() < size * 8.0).unwrap_or(Aabb3d { min: Vec3::ZERO, max: Vec3::splat(size) }),
        _ => {
            let (a, b) = (Vec3::splat(s.f32(0.0, size)), Vec3::splat(s.f32(0.0, size)));
            Aabb3d { min: a.min(b), max: a.max(b) }
        }
    };
    let k = config(s, cs, ch, aabb);
    c.label_if(m.indices.is_empty(), "no triangles");
    c.label_if(far, "far vertices");
    c.describe(|| format!("{k:?}; {}", mesh_text(&m)));
    (m, k)
}
fn c24_soup(s: &mut Src, c: &mut Ctx) -> Res {
    let (m, k) = soup(s, c);
    judge(&m, &k, c)
}
/// Noisy terrain: bumpy grids, many small regions, holes.
fn terrain(s: &mut Src, n: usize) -> (TriMesh, f32, f32, Aabb3d) {
    let (w, h) = (s.usize(2, n), s.usize(2, n));
    let cs = *s.pick(&[1.0f32, 0.5, 0.3]);
    let ch = *s.pick(&[0.5f32, 0.2, 1.0]) * cs;
    let cell = *s.pick(&[3.0f32, 1.0, 2.0, 5.0]) * cs;
    let rough = *s.pick(&[1.0f32, 0.3, 3.0, 0.0]) * cell;
    let drop = s.int(0, 4) as u64;
    let mut m = TriMesh::default();
    for z in 0..=h {
        for x in 0..=w {
            m.vertices.push(Vec3A::new(x as f32 * cell, s.f32(0.0, 1.0) * rough, z as f32 * cell));
        }
    }
    let id = |x: usize, z: usize| (x + z * (w + 1)) as u32;
    for z in 0..h {
        for x in 0..w {
            if drop > 0 && s.chance(drop, 12) {
                continue;
            }
            let a = AreaType(if s.chance(1, 8) { 5 } else { 0 });
            m.indices.push(UVec3::new(id(x, z), id(x, z + 1), id(x + 1, z + 1)));
            m.indices.push(UVec3::new(id(x, z), id(x + 1, z + 1), id(x + 1, z)));
            m.area_types.extend([a, a]);
        }
    }
    m.mark_walkable_triangles(0.9);
    let aabb = m.compute_aabb().unwrap();
    (m, cs, ch, aabb)
}
fn c24_terrain(s: &mut Src, c: &mut Ctx) -> Res {
    let (m, cs, ch, aabb) = terrain(s, 14);
    let k = config(s, cs, ch, aabb);
    c.describe(|| format!("terrain {k:?}; {}", mesh_text(&m)));
    judge(&m, &k, c)
}
/// Fields with extreme numbers of columns, and degenerate bounds.
fn c24_sizes(s: &mut Src, c: &mut Ctx) -> Res {
    let cs = *s.pick(&[1.0f32, 0.25, 2.0]);
    let w = match s.weighted(&[3, 2, 2]) {
        0 => 65535 + s.int(-3, 3),
        1 => s.int(0, 3),
        _ => *s.pick(&[65536i64, 70000, 131071, 200000, 1_000_000]),
    } as f32 + *s.pick(&[0.0f32, 0.25, 0.5, 0.75]);
    let h = s.int(0, 2) as f32 + *s.pick(&[0.0f32, 0.25, 0.5, 0.75]);
    let (w, h) = if s.bool() { (w, h) } else { (h, w) };
    let aabb = Aabb3d { min: Vec3::ZERO, max: Vec3::new(w * cs, 4.0 * cs, h * cs) };
    let mut k = config(s, cs, cs * 0.5, aabb);
    k.sd = 0.0;
    let mut m = TriMesh::default();
    let e = aabb.max;
    quad(&mut m, [Vec3A::new(0.0, cs, 0.0), Vec3A::new(0.0, cs, e.z), Vec3A::new(e.x, cs, e.z), Vec3A::new(e.x, cs, 0.0)], 255);
    c.describe(|| format!("{w} x {h} cells, {k:?}"));
    c.nontrivial = true;
    let exp = ((w + 0.5).floor(), (h + 0.5).floor());
    match (HeightfieldBuilder { aabb, cell_size: cs, cell_height: k.ch }).build() {
        Err(e) => {
            ensure!(exp.0 > 65534.0 || exp.1 > 65534.0, "spurious-error", "{exp:?} columns refused: {e}");
            c.label("too many columns");
            return Ok(());
        }
        Ok(hf) => {
            ensure!((hf.width as f32, hf.height as f32) == exp, "truncated", "{exp:?} columns are needed, the field has {}x{}", hf.width, hf.height);
            ensure!(hf.spans.len() == hf.width as usize * hf.height as usize, "columns", "{} columns for {}x{}", hf.spans.len(), hf.width, hf.height);
        }
    }
    judge(&m, &k, c)
}
/// Columns with about as many floors as can be stored.
fn c24_layers(s: &mut Src, c: &mut Ctx) -> Res {
    let floors = s.int(56, 70) + if s.chance(1, 4) { 190 } else { 0 };
    let gap = s.int(1, 6) as f32;
    let mut m = TriMesh::default();
    let n = s.int(1, 4) as f32;
    for i in 0..floors {
        let y = 0.5 + i as f32 * (gap + 1.0);
        let (a, b) = if s.chance(1, 5) { (1.0, n) } else { (0.0, n) };
        quad(&mut m, [Vec3A::new(a, y, 0.0), Vec3A::new(a, y, n), Vec3A::new(b, y, n), Vec3A::new(b, y, 0.0)], 255);
    }
    let aabb = Aabb3d { min: Vec3::ZERO, max: Vec3::new(n, floors as f32 * (gap + 1.0) + 20.0, n) };
    let mut k = config(s, 1.0, 1.0, aabb);
    k.wh = s.int(1, 6) as u16;
    c.describe(|| format!("{floors} floors {gap} apart, {n} cells wide, {k:?}"));
    judge(&m, &k, c)
}

// ------------------------------------------------------------------ C25
fn same_chf(a: &CompactHeightfield, b: &CompactHeightfield) -> Option<&'static str> {
    if (a.width, a.height, a.border_size, a.max_distance, a.max_region) != (b.width, b.height, b.border_size, b.max_distance, b.max_region) {
        return Some("sizes");
    }
    if a.cells != b.cells || a.spans.len() != b.spans.len() || !a.spans.iter().zip(&b.spans).all(|(s, t)| s.y == t.y && s.data == t.data) {
        return Some("entries");
    }
    if a.areas != b.areas {
        return Some("areas");
    }
    if a.dist != b.dist {
        return Some("distances");
    }
    if !a.spans.iter().zip(&b.spans).all(|(s, t)| s.region == t.region) {
        return Some("regions");
    }
    None
}
/// Equal up to world placement; `moved` maps the vertices of the first detail mesh.
fn same_builds(a: &Result<Built, Stop>, b: &Result<Built, Stop>, sig: &str, what: &str, detail: bool, moved: impl Fn(Vec3) -> (Vec3, f32)) -> Res {
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) => {
            ensure!(std::mem::discriminant(a) == std::mem::discriminant(b), sig, "{what}: another error");
            return Ok(());
        }
        _ => return Err(Fail::new(sig, format!("{what}: one build fails, the other does not"))),
    };
    ensure!(a.solid == b.solid, sig, "{what}: solid columns differ: {}", first_diff(&a.solid, &b.solid));
    ensure!(a.filtered == b.filtered, sig, "{what}: filtered columns differ: {}", first_diff(&a.filtered, &b.filtered));
    if let Some(d) = same_chf(&a.chf, &b.chf) {
        return Err(Fail::new(sig, format!("{what}: the open space differs in its {d}")));
    }
    ensure!(a.cset.contours == b.cset.contours && (a.cset.width, a.cset.height) == (b.cset.width, b.cset.height), sig, "{what}: the contours differ");
    let (p, q) = (&a.poly, &b.poly);
    ensure!(p.vertices == q.vertices && p.polygons == q.polygons && p.polygon_neighbors == q.polygon_neighbors && p.regions == q.regions && p.areas == q.areas && p.flags == q.flags, sig, "{what}: the polygons differ");
    if detail {
        let (p, q) = (&a.detail, &b.detail);
        ensure!(p.meshes == q.meshes && p.triangles == q.triangles && p.triangle_flags == q.triangle_flags && p.vertices.len() == q.vertices.len(), sig, "{what}: the detail triangles differ");
        for (i, (v, w)) in p.vertices.iter().zip(&q.vertices).enumerate() {
            let (e, tol) = moved(*v);
            ensure!(e.distance(*w) <= tol, sig, "{what}: detail vertex {i} is {w} instead of {e}");
        }
    }
    Ok(())
}
fn c25_repeat(s: &mut Src, c: &mut Ctx) -> Res {
    let (m, k) = match s.weighted(&[3, 1, 2]) {
        0 => {
            let sc = scenes::scene(s, 24);
            let k = config(s, sc.cs, sc.ch, sc.aabb);
            (sc.mesh, k)
        }
        1 => soup(s, c),
        _ => {
            let (m, cs, ch, aabb) = terrain(s, 8);
            let k = config(s, cs, ch, aabb);
            (m, k)
        }
    };
    c.describe(|| format!("{k:?}; {}", mesh_text(&m)));
    let a = build(&m, &k)?;
    // unrelated work in between must not matter
    let other = scenes::scene(s, 6);
    let ko = config(s, other.cs, other.ch, other.aabb);
    let _ = build(&other.mesh, &ko)?;
    let b = build(&m, &k)?;
    c.nontrivial_if(matches!(&a, Ok(b) if b.poly.polygon_count() > 0));
    same_builds(&a, &b, "not-reproducible", "second build", true, |v| (v, 0.0))?;
    if let (Ok(a), Ok(b)) = (&a, &b) {
        ensure!(a.poly == b.poly && a.detail == b.detail && a.cset == b.cset && a.chf.aabb == b.chf.aabb, "not-reproducible", "metadata differs");
    }
    Ok(())
}
/// Scenes whose voxelization involves no rounding at all: plates, boxes and slopes whose corners lie in
/// the middle of cells and whose heights stay away from voxel borders wherever a cell cuts them.
pub fn exact_scene(s: &mut Src, n: usize) -> (TriMesh, f32, f32, Aabb3d) {
    let cs = *s.pick(&[1.0f32, 0.5, 2.0, 0.25]);
    let ch = *s.pick(&[1.0f32, 0.5, 0.25]);
    let (w, h) = (s.usize(2, n) as i64, s.usize(2, n) as i64);
    let o = Vec3A::new(s.int(-4, 4) as f32, s.int(-3, 3) as f32, s.int(-4, 4) as f32);
    let at = |x: i64, y16: i64, z: i64| o + Vec3A::new((x as f32 + 0.5) * cs, y16 as f32 / 16.0 * ch, (z as f32 + 0.5) * cs);
    let mut m = TriMesh::default();
    let flat = |m: &mut TriMesh, x0: i64, x1: i64, z0: i64, z1: i64, y: i64, a: u8| quad(m, [at(x0, y, z0), at(x0, y, z1), at(x1, y, z1), at(x1, y, z0)], a);
    if !s.chance(1, 6) {
        flat(&mut m, -1, w, -1, h, 16 + 5, 0);
    }
    for _ in 0..s.usize(0, 7) {
        let (x0, z0) = (s.int(-2, w - 1), s.int(-2, h - 1));
        let (x1, z1) = (x0 + s.small(1, w + 2), z0 + s.small(1, h + 2));
        let y = 16 * s.int(0, 12) + *s.pick(&[5i64, 9, 13, 1]);
        match s.weighted(&[3, 3, 4]) {
            0 => flat(&mut m, x0, x1, z0, z1, y, 0),
            1 => scenes::boxx(&mut m, at(x0, y, z0), at(x1, y + 16 * s.int(1, 8), z1), 0),
            _ => {
                // 16ths per cell: multiples of 4; at cell borders and centres the height is odd/16. Both halves
                // of the quad touch the cells of the diagonal without rounding only in squares of such sides
                let n = 1 << s.int(0, 4);
                let (x1, z1) = (x0 + n, z0 + n);
                let (sx, sz) = (4 * s.int(-8, 8), if s.bool() { 4 * s.int(-8, 8) } else { 0 });
                let hy = |x: i64, z: i64| y + sx * (x - x0) + sz * (z - z0);
                quad(&mut m, [at(x0, hy(x0, z0), z0), at(x0, hy(x0, z1), z1), at(x1, hy(x1, z1), z1), at(x1, hy(x1, z0), z0)], 0);
            }
        }
    }
    m.mark_walkable_triangles(0.8);
    if s.chance(1, 3) {
        // both halves of a quad alike: a diagonal may touch the corner of a cell, where rounding decides
        for a in m.area_types.chunks_mut(2) {
            if a[0].is_walkable() && s.chance(1, 3) {
                a.fill(AreaType(*s.pick(&[1u8, 9, 100])));
            }
        }
    }
    let e = Vec3A::new(w as f32 * cs, 24.0 * ch, h as f32 * cs);
    (m, cs, ch, Aabb3d { min: o.into(), max: (o + e).into() })
}
fn c25_translate(s: &mut Src, c: &mut Ctx) -> Res {
    let (m, cs, ch, aabb) = exact_scene(s, 26);
    let mut k = config(s, cs, ch, aabb);
    let (far, tol) = if s.chance(1, 4) { (2000, 1e-3) } else { (40, 1e-4) };
    let t = Vec3::new(s.int(-far, far) as f32, s.int(-far / 2, far / 2) as f32, s.int(-far, far) as f32);
    c.describe(|| format!("moved by {t}: {k:?}; {}", mesh_text(&m)));
    for v in &mut k.volumes {
        // multiples of 1/4 and off the cell centres
        for p in &mut v.0 {
            *p = (*p * 4.0).round() / 4.0 + 0.0625 * cs;
        }
        v.1 = (v.1 * 4.0).round() / 4.0;
        v.2 = (v.2 * 4.0).round() / 4.0;
    }
    let a = build(&m, &k)?;
    let mut m2 = m.clone();
    for v in &mut m2.vertices {
        *v += Vec3A::from(t);
    }
    let mut k2 = k.clone();
    k2.aabb = Aabb3d { min: aabb.min + t, max: aabb.max + t };
    for v in &mut k2.volumes {
        for p in &mut v.0 {
            *p += Vec2::new(t.x, t.z);
        }
        v.1 += t.y;
        v.2 += t.y;
    }
    let b = build(&m2, &k2)?;
    c.nontrivial_if(t != Vec3::ZERO && matches!(&a, Ok(b) if b.poly.polygon_count() > 0));
    same_builds(&a, &b, "translation", "moved scene", true, |v| (v + t, tol))?;
    if let (Ok(a), Ok(b)) = (&a, &b) {
        for (p, q) in [(a.poly.aabb, b.poly.aabb), (a.cset.aabb, b.cset.aabb), (a.chf.aabb, b.chf.aabb)] {
            ensure!((p.min + t).distance(q.min) < 1e-3 && (p.max + t).distance(q.max) < 1e-3, "translation", "the bounds {p:?} became {q:?}");
        }
    }
    Ok(())
}
/// Doubling every length is exact in binary arithmetic, whatever the scene.
fn c25_scale(s: &mut Src, c: &mut Ctx) -> Res {
    let sc = scenes::scene(s, 24);
    let mut k = config(s, sc.cs, sc.ch, sc.aabb);
    k.sd = 0.0;
    let f = *s.pick(&[2.0f32, 0.5, 8.0, 0.125, 1024.0, 1.0 / 1024.0, 65536.0, 1.0 / 65536.0]);
    c.describe(|| format!("scaled by {f}: {} {k:?}; {}", sc.describe(), mesh_text(&sc.mesh)));
    let a = build(&sc.mesh, &k)?;
    let mut m = sc.mesh.clone();
    for v in &mut m.vertices {
        *v *= f;
    }
    let mut k2 = k.clone();
    k2.cs *= f;
    k2.ch *= f;
    k2.aabb = Aabb3d { min: k.aabb.min * f, max: k.aabb.max * f };
    for v in &mut k2.volumes {
        for p in &mut v.0 {
            *p *= f;
        }
        v.1 *= f;
        v.2 *= f;
    }
    let b = build(&m, &k2)?;
    c.nontrivial_if(matches!(&a, Ok(b) if b.poly.polygon_count() > 0));
    same_builds(&a, &b, "scaling", "scaled scene", false, |v| (v * f, 0.0))
}
fn solid_of(m: &TriMesh, k: &Cfg) -> Result<Field, Fail> {
    let mut hf = HeightfieldBuilder { aabb: k.aabb, cell_size: k.cs, cell_height: k.ch }.build().map_err(|e| broken(e.to_string()))?;
    hf.rasterize_triangles(m, k.climb).map_err(|e| Fail::new("raster-error", e.to_string()))?;
    let mut f = field_from(&hf).map_err(broken)?;
    f.cols.iter_mut().flatten().for_each(|s| s.area = 0);
    Ok(f)
}
fn c25_order(s: &mut Src, c: &mut Ctx) -> Res {
    let (m, cs, ch, aabb) = exact_scene(s, 26);
    let k = config(s, cs, ch, aabb);
    let a = solid_of(&m, &k)?;
    let mut order: Vec<usize> = (0..m.indices.len()).collect();
    s.shuffle(&mut order);
    let mut m2 = TriMesh { vertices: m.vertices.clone(), ..Default::default() };
    let mut turned = 0;
    for i in &order {
        let t = m.indices[*i];
        let p = *s.pick(&[[0usize, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [1, 0, 2], [2, 1, 0]]);
        turned += (p != [0, 1, 2]) as u64;
        m2.indices.push(UVec3::new(t[p[0]], t[p[1]], t[p[2]]));
        m2.area_types.push(m.area_types[*i]);
    }
    c.describe(|| format!("order {order:?} {k:?}; {}", mesh_text(&m)));
    c.count("turned triangles", turned);
    let b = solid_of(&m2, &k)?;
    c.nontrivial_if(a.span_count() > 0 && order.windows(2).any(|w| w[0] > w[1]));
    ensure!(a == b, "order", "reordered triangles: {}", first_diff(&b, &a));
    Ok(())
}
fn c25_split(s: &mut Src, c: &mut Ctx) -> Res {
    // any scene: splitting keeps the order, so nothing at all may change
    let (m, k) = if s.bool() {
        let sc = scenes::scene(s, 20);
        let k = config(s, sc.cs, sc.ch, sc.aabb);
        (sc.mesh, k)
    } else {
        let (m, cs, ch, aabb) = terrain(s, 6);
        let k = config(s, cs, ch, aabb);
        (m, k)
    };
    let mut joined = TriMesh::default();
    let mut i = 0;
    let mut parts = 0;
    while i < m.indices.len() {
        let n = s.small(1, 12) as usize;
        let mut part = TriMesh::default();
        let mut ids: HashMap<u32, u32> = HashMap::new();
        let weld = s.bool();
        for j in i..(i + n).min(m.indices.len()) {
            let mut t = UVec3::ZERO;
            for a in 0..3 {
                let v = m.indices[j][a];
                let known = if weld { ids.get(&v).copied() } else { None };
                t[a] = known.unwrap_or_else(|| {
                    part.vertices.push(m.vertices[v as usize]);
                    let id = part.vertices.len() as u32 - 1;
                    ids.insert(v, id);
                    id
                });
            }
            part.indices.push(t);
            part.area_types.push(AreaType::NOT_WALKABLE);
        }
        for (a, j) in part.area_types.iter_mut().zip(i..) {
            *a = m.area_types[j];
        }
        if s.chance(1, 8) {
            part.vertices.push(Vec3A::new(1e3, 1e3, 1e3)); // an unused vertex
        }
        i += n;
        parts += 1;
        joined.extend(part);
        if s.chance(1, 10) {
            joined.extend(TriMesh::default());
        }
    }
    c.describe(|| format!("{parts} parts {k:?}; {}", mesh_text(&m)));
    let a = build(&m, &k)?;
    let b = build(&joined, &k)?;
    c.nontrivial_if(parts > 1 && matches!(&a, Ok(b) if b.poly.polygon_count() > 0));
    same_builds(&a, &b, "splitting", "scene joined from parts", true, |v| (v, 0.0))
}

// ------------------------------------------------------------------ C26
/// Point strictly inside; coordinates doubled so that cell centres are odd.
fn in_ring(r: &[[i64; 2]], p: [i64; 2]) -> bool {
    let mut c = false;
    for i in 0..r.len() {
        let (a, b) = (r[i], r[(i + 1) % r.len()]);
        if (a[1] > p[1]) != (b[1] > p[1]) {
            let cr = (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1]);
            if cr == 0 {
                return false;
            }
            if (b[1] > a[1]) == (cr < 0) {
                c = !c;
            }
        }
    }
    c
}
fn on_ring(r: &[[i64; 2]], p: [i64; 2]) -> bool {
    (0..r.len()).any(|i| {
        let (a, b) = (r[i], r[(i + 1) % r.len()]);
        (b[0] - a[0]) * (p[1] - a[1]) == (p[0] - a[0]) * (b[1] - a[1]) && p[0] >= a[0].min(b[0]) && p[0] <= a[0].max(b[0]) && p[1] >= a[1].min(b[1]) && p[1] <= a[1].max(b[1])
    })
}
fn corners_of(v: &[[i32; 4]]) -> Vec<[i32; 2]> {
    let mut p: Vec<[i32; 2]> = v.iter().map(|p| [p[0], p[2]]).collect();
    loop {
        let n = p.len();
        if n < 3 {
            return p;
        }
        let k = (0..n).find(|i| {
            let (a, b, d) = (p[(i + n - 1) % n], p[*i], p[(i + 1) % n]);
            (b[0] - a[0]) as i64 * (d[1] - b[1]) as i64 == (b[1] - a[1]) as i64 * (d[0] - b[0]) as i64
        });
        match k {
            Some(i) => {
                p.remove(i);
            }
            None => break,
        }
    }
    let k = (0..p.len()).min_by_key(|i| p[*i]).unwrap_or(0);
    p.rotate_left(k);
    p
}
fn c26_oracle(m: &TriMesh, k: &Cfg, occupied: Option<&Field>, c: &mut Ctx) -> Res {
    let b = match build(m, k)? {
        Ok(b) => b,
        Err(Stop::Contour(..)) => {
            c.label("contour that cannot be triangulated");
            return Ok(());
        }
        Err(Stop::Layers(_)) => return Ok(()),
        Err(e) => return Err(Fail::new("spurious-error", format!("{e:?}"))),
    };
    if let Some(f) = occupied {
        let mut solid = b.solid.clone();
        solid.cols.iter_mut().flatten().for_each(|s| s.area = 0);
        ensure!(solid == *f, "solid", "the occupied voxels are not those of the scene: {}", first_diff(&solid, f));
    }
    // what the agent can stand on, from the solid voxels
    let (wh, climb, radius) = (k.wh as i32, k.climb as i32, k.radius as u32);
    let mut f = b.solid.clone();
    f.low_hanging(climb);
    f.ledges(wh, climb);
    f.low_height(wh);
    let Ok(pre) = Chf::build(&f, wh, climb) else { return Ok(()) };
    let mut walk = pre.clone();
    walk.erode(radius);
    let got = chf_from_code(&b.chf).map_err(broken)?;
    if let Some(d) = chf_diff(&got, &walk) {
        return Err(Fail::new("walkable", format!("the walkable space is not what the agent can stand on: {d}")));
    }
    // the same, by the words of the property
    let bigs: Vec<[Vec3A; 3]> = m.indices.iter().map(|t| [m.vertices[t.x as usize], m.vertices[t.y as usize], m.vertices[t.z as usize]]).collect();
    let sloped: Vec<bool> = bigs.iter().zip(&m.area_types).map(|(_, a)| a.is_walkable()).collect();
    for i in 0..walk.spans.len() {
        if walk.areas[i] == 0 {
            continue;
        }
        let e = &walk.spans[i];
        let at = format!("entry at ({},{}) floor {}", e.x, e.z, e.y);
        let col = b.solid.col(e.x, e.z).unwrap();
        let top = col.iter().filter(|s| s.min >= e.y).map(|s| s.min).min().unwrap_or(65535);
        ensure!(top - e.y >= wh, "headroom", "{at}: {} voxels of room for an agent of {wh}", top - e.y);
        // a walkable triangle passes through this cell at most one step below the floor's top
        let (x0, z0) = (k.aabb.min.x + e.x as f32 * k.cs, k.aabb.min.z + e.z as f32 * k.cs);
        let under = bigs.iter().zip(&sloped).any(|(t, ok)| {
            *ok && {
                let lo = t[0].min(t[1]).min(t[2]);
                let hi = t[0].max(t[1]).max(t[2]);
                let eps = 1e-3 * k.cs;
                lo.x <= x0 + k.cs + eps && hi.x >= x0 - eps && lo.z <= z0 + k.cs + eps && hi.z >= z0 - eps && (lo.y - k.aabb.min.y) / k.ch <= e.y as f32 + 0.01
            }
        });
        ensure!(under, "no-ground", "{at}: no triangle within the slope limit lies there");
        // every place within radius - 1 steps along an axis, and the next ones diagonally, has all four neighbours
        // (around corners the distance may go a longer way where floors lie above each other)
        let mut near: Vec<(usize, u32)> = vec![(i, 0)];
        for d in 0..4 {
            let mut j = i;
            for step in 1..radius {
                j = pre.spans[j].nb[d];
                ensure!(j != NONE, "too-close", "{at} is {} steps away from an edge in direction {d}, radius {radius}", step - 1);
                near.push((j, step));
            }
        }
        if radius >= 2 {
            for (d, e) in [(0, 3), (3, 2), (2, 1), (1, 0)] {
                let j = pre.spans[pre.spans[i].nb[d]].nb[e];
                ensure!(j != NONE, "too-close", "{at}: a neighbour has no neighbour in direction {e}, radius {radius}");
                near.push((j, 1));
            }
        }
        if radius > 0 {
            for (j, step) in near {
                for d in 0..4 {
                    let n = pre.spans[j].nb[d];
                    ensure!(n != NONE && pre.areas[n] != 0, "too-close", "{at} is {step} steps away from an edge at ({},{}) direction {d}, radius {radius}", pre.spans[j].x, pre.spans[j].z);
                    ensure!((pre.spans[n].y - pre.spans[j].y).abs() <= climb, "climb", "{at}: neighbours {} and {} high, climb {climb}", pre.spans[j].y, pre.spans[n].y);
                }
            }
        }
    }
    // polygons against cells
    let bo = k.border as i32;
    let mut by_reg: BTreeMap<u16, Vec<usize>> = BTreeMap::new();
    for (i, s) in got.spans.iter().enumerate() {
        if s.reg != 0 && s.reg & 0x8000 == 0 {
            ensure!(got.areas[i] != 0, "unwalkable-in-region", "entry {i} is not walkable but has region {}", s.reg);
            by_reg.entry(s.reg).or_default().push(i);
        }
    }
    let mut conts: BTreeMap<u16, Vec<&Contour>> = BTreeMap::new();
    for t in &b.cset.contours {
        conts.entry(t.region.bits()).or_default().push(t);
    }
    let r = rings(&b.poly);
    let mut polys: BTreeMap<u16, Vec<Vec<[i64; 2]>>> = BTreeMap::new();
    for (p, v) in r.iter().enumerate() {
        polys.entry(b.poly.regions[p].bits()).or_default().push(v.iter().map(|i| b.poly.vertices[*i as usize]).map(|v| [2 * v.x as i64, 2 * v.z as i64]).collect());
    }
    for (reg, _) in &polys {
        ensure!(by_reg.contains_key(reg), "region", "polygons of region {reg}, which has no space");
    }
    for (reg, entries) in &by_reg {
        let Some(ks) = conts.get(reg) else { continue };
        let real: Vec<&&Contour> = ks.iter().filter(|t| t.vertices.len() >= 3).collect();
        if ks.len() != 1 || real.len() != 1 {
            c.label("region with holes");
            continue;
        }
        let t = real[0];
        let raw = raw_pts(&t.raw_vertices);
        let (want, have) = (corners_of(&raw), corners_of(&contour_pts(&t.vertices)));
        let portal = t.raw_vertices.iter().any(|v| v.1.intersects(RegionVertexId::REGION_MASK));
        if want != have {
            ensure!(portal, "inexact", "region {reg}: the contour {have:?} is not the exact outline {want:?}");
            c.label("straightened border between regions");
            continue;
        }
        if entries.iter().any(|i| (0..4).any(|d| got.spans[*i].nb[d] != NONE && got.spans[got.spans[*i].nb[d]].nb[(d + 2) % 4] != *i)) {
            c.label("one-way links");
            continue;
        }
        let ring_pts: Vec<[i32; 4]> = have.iter().map(|p| [p[0], 0, p[1], 0]).collect();
        if !crate::contours::well_formed(&ring_pts, &[]) {
            c.label("outline touching itself");
            continue;
        }
        let cells: HashSet<(i32, i32)> = entries.iter().map(|i| (got.spans[*i].x - bo, got.spans[*i].z - bo)).collect();
        if cells.len() != entries.len() {
            c.label("region lying above itself");
            continue;
        }
        let none = vec![];
        let ps = polys.get(reg).unwrap_or(&none);
        for x in 0..b.cset.width as i32 {
            for z in 0..b.cset.height as i32 {
                let p = [2 * x as i64 + 1, 2 * z as i64 + 1];
                let n = ps.iter().filter(|r| in_ring(r, p) || on_ring(r, p)).count();
                if cells.contains(&(x, z)) {
                    ensure!(n >= 1, "uncovered", "cell ({x},{z}) of region {reg} is walkable but no polygon covers it; outline {have:?}, polygons {ps:?} in doubled coordinates");
                    c.count("cells covered", 1);
                } else {
                    ensure!(n == 0, "covers-unwalkable", "cell ({x},{z}) is covered by a polygon of region {reg} but the agent cannot stand there");
                }
            }
        }
        c.label("region judged");
        c.nontrivial = true;
    }
    Ok(())
}
fn exact_cfg(s: &mut Src, cs: f32, ch: f32, aabb: Aabb3d) -> Cfg {
    let mut k = config(s, cs, ch, aabb);
    k.max_err = 0.0;
    k.max_edge = 0;
    k.border = 0;
    k.volumes.clear();
    k.radius = s.int(0, 4) as u16;
    k.wh = s.int(3, 8) as u16;
    k.climb = s.int(0, 5) as u16;
    k.min = *s.pick(&[0u16, 4, 9]);
    k.merge = *s.pick(&[65535u16, 65535, 100, 0]);
    k.sd = 0.0;
    k
}
/// Plates and boxes filling whole cells, with the occupied voxels computed on the side.
fn c26_boxes(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = (s.usize(3, 28) as i64, s.usize(3, 28) as i64);
    let (cs, ch) = (*s.pick(&[1.0f32, 0.5, 2.0]), *s.pick(&[1.0f32, 0.5, 0.25]));
    let aabb = Aabb3d { min: Vec3::ZERO, max: Vec3::new(w as f32 * cs, 40.0 * ch, h as f32 * cs) };
    let k = exact_cfg(s, cs, ch, aabb);
    let mut m = TriMesh::default();
    let mut occ = Field::new(w as usize, h as usize);
    let mut put = |x: i64, z: i64, a: i64, b: i64| {
        if x >= 0 && z >= 0 && x < w && z < h && b > 0 && a < 40 {
            occ.insert((x + z * w) as usize, MSpan { min: a.max(0) as i32, max: b.min(40) as i32, area: 0 }, 0);
        }
    };
    let v = |x: f32, y: f32, z: f32| Vec3A::new(x * cs, y * ch, z * cs);
    let mut plate = |m: &mut TriMesh, put: &mut dyn FnMut(i64, i64, i64, i64), x0: i64, x1: i64, z0: i64, z1: i64, y: i64| {
        let (a, b, d, e, yy) = (x0 as f32 + 0.25, x1 as f32 - 0.25, z0 as f32 + 0.25, z1 as f32 - 0.25, y as f32 + 0.5);
        quad(m, [v(a, yy, d), v(a, yy, e), v(b, yy, e), v(b, yy, d)], 0);
        for z in z0..z1 {
            for x in x0..x1 {
                put(x, z, y, y + 1);
            }
        }
    };
    if !s.chance(1, 8) {
        plate(&mut m, &mut put, 0, w, 0, h, s.int(0, 2));
    }
    let mut pieces = vec![];
    for _ in 0..s.usize(0, 8) {
        let first = m.indices.len();
        let (x0, z0) = (s.int(-2, w - 1), s.int(-2, h - 1));
        let (x1, z1) = (x0 + s.small(1, w), z0 + s.small(1, h));
        let y0 = s.int(-2, 14);
        if s.chance(1, 3) {
            plate(&mut m, &mut put, x0, x1, z0, z1, y0.max(0));
        } else {
            let y1 = y0 + s.small(1, 14);
            let (lo, hi) = (v(x0 as f32 + 0.25, y0 as f32 + 0.25, z0 as f32 + 0.25), v(x1 as f32 - 0.25, y1 as f32 - 0.25, z1 as f32 - 0.25));
            scenes::boxx(&mut m, lo, hi, 0);
            for z in z0..z1 {
                for x in x0..x1 {
                    if x == x0 || x == x1 - 1 || z == z0 || z == z1 - 1 {
                        put(x, z, y0, y1);
                    } else {
                        put(x, z, y1 - 1, y1);
                        put(x, z, y0, y0 + 1);
                    }
                }
            }
        }
        pieces.push(first..m.indices.len());
    }
    m.mark_walkable_triangles(0.8);
    // some are no ground however level they are
    for r in pieces {
        if s.chance(1, 4) {
            m.area_types[r].fill(AreaType::NOT_WALKABLE);
        }
    }
    c.describe(|| format!("{k:?}; {}", mesh_text(&m)));
    c26_oracle(&m, &k, Some(&occ), c)
}
fn c26_scenes(s: &mut Src, c: &mut Ctx) -> Res {
    let (m, cs, ch, aabb) = if s.chance(2, 3) {
        let sc = scenes::scene(s, 30);
        (sc.mesh, sc.cs, sc.ch, sc.aabb)
    } else {
        exact_scene(s, 30)
    };
    let k = exact_cfg(s, cs, ch, aabb);
    c.describe(|| format!("{k:?}; {}", mesh_text(&m)));
    c26_oracle(&m, &k, None, c)
}
fn c26_terrain(s: &mut Src, c: &mut Ctx) -> Res {
    let (m, cs, ch, aabb) = terrain(s, 9);
    let k = exact_cfg(s, cs, ch, aabb);
    c.describe(|| format!("{k:?}; {}", mesh_text(&m)));
    c26_oracle(&m, &k, None, c)
}

// ------------------------------------------------------------------ C27
fn json<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T, what: &str) -> Result<T, Fail> {
    let t = serde_json::to_string(v).map_err(|e| Fail::new("json", format!("{what} cannot be written: {e}")))?;
    let r: T = serde_json::from_str(&t).map_err(|e| Fail::new("json", format!("{what} cannot be read back: {e}")))?;
    let t2 = serde_json::to_string(&r).map_err(|e| Fail::new("json", format!("{what} cannot be written again: {e}")))?;
    ensure!(t == t2, "json", "{what}: the text of the restored value differs");
    Ok(r)
}
fn binary<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T, what: &str) -> Result<T, Fail> {
    let cfg = bincode::config::standard();
    let t = bincode::serde::encode_to_vec(v, cfg).map_err(|e| Fail::new("bincode", format!("{what} cannot be written: {e}")))?;
    let (r, n): (T, usize) = bincode::serde::decode_from_slice(&t, cfg).map_err(|e| Fail::new("bincode", format!("{what} cannot be read back: {e}")))?;
    ensure!(n == t.len(), "bincode", "{what}: {n} of {} bytes were read", t.len());
    let t2 = bincode::serde::encode_to_vec(&r, cfg).map_err(|e| Fail::new("bincode", format!("{what} cannot be written again: {e}")))?;
    ensure!(t == t2, "bincode", "{what}: the bytes of the restored value differ");
    Ok(r)
}
fn through<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T, text: bool, what: &str) -> Result<T, Fail> {
    if text { json(v, what) } else { binary(v, what) }
}
fn mesh_equal(a: &TriMesh, b: &TriMesh) -> bool {
    let bits = |m: &TriMesh| -> Vec<[u32; 3]> { m.vertices.iter().map(|v| v.to_array().map(f32::to_bits)).collect() };
    bits(a) == bits(b) && a.indices == b.indices && a.area_types == b.area_types
}
/// A build in which every product takes the detour through text or bytes.
fn c27_builds(s: &mut Src, c: &mut Ctx) -> Res {
    let (m, k) = match s.weighted(&[3, 1, 2]) {
        0 => {
            let sc = scenes::scene(s, 16);
            let k = config(s, sc.cs, sc.ch, sc.aabb);
            (sc.mesh, k)
        }
        1 => soup(s, c),
        _ => {
            let (m, cs, ch, aabb) = terrain(s, 6);
            let k = config(s, cs, ch, aabb);
            (m, k)
        }
    };
    let k = Cfg { at_once: false, ..k };
    let text = s.bool();
    c.label(if text { "json" } else { "bincode" });
    c.describe(|| format!("{} {k:?}; {}", if text { "json" } else { "bincode" }, mesh_text(&m)));
    let plain = build(&m, &k)?;
    let m2 = through(&m, text, "triangle mesh")?;
    ensure!(mesh_equal(&m, &m2), "trimesh", "the restored triangle mesh differs");
    let Ok(mut hf) = (HeightfieldBuilder { aabb: k.aabb, cell_size: k.cs, cell_height: k.ch }).build() else { return Ok(()) };
    if hf.rasterize_triangles(&m2, k.climb).is_err() {
        ensure!(matches!(plain, Err(Stop::Raster(_))), "continued", "the build only fails after restoring");
        return Ok(());
    }
    let mut hf = {
        let r = through(&hf, text, "heightfield")?;
        ensure!((r.width, r.height, r.cell_size, r.cell_height) == (hf.width, hf.height, hf.cell_size, hf.cell_height) && r.aabb == hf.aabb, "heightfield", "metadata of the restored heightfield differs");
        let (a, b) = (field_from(&hf).map_err(broken)?, field_from(&r).map_err(|e| Fail::new("heightfield", e))?);
        ensure!(a == b, "heightfield", "restored columns: {}", first_diff(&b, &a));
        r
    };
    // continued from the restored value, including further insertions
    hf.filter_low_hanging_walkable_obstacles(k.climb);
    hf.filter_ledge_spans(k.wh, k.climb);
    hf.filter_walkable_low_height_spans(k.wh);
    let hf = through(&hf, text, "filtered heightfield")?;
    let filtered = field_from(&hf).map_err(|e| Fail::new("heightfield", e))?;
    let Ok(mut chf) = hf.into_compact(k.wh, k.climb) else {
        ensure!(matches!(plain, Err(Stop::Layers(_))), "continued", "the build only fails after restoring");
        return Ok(());
    };
    chf.erode_walkable_area(k.radius);
    for (vertices, min_y, max_y, area) in &k.volumes {
        chf.mark_convex_poly_area(ConvexVolume { vertices: vertices.clone(), min_y: *min_y, max_y: *max_y, area: AreaType(*area) });
    }
    let r = through(&chf, text, "open space")?;
    ensure!(same_geometry(&chf, &r) && chf.areas == r.areas && chf.dist == r.dist, "open-space", "the restored open space differs");
    let mut chf = r;
    chf.build_distance_field();
    if chf.build_regions(k.border, k.min, k.merge).is_err() {
        return Ok(());
    }
    let r = through(&chf, text, "partitioned open space")?;
    ensure!(same_geometry(&chf, &r) && chf.aabb == r.aabb, "open-space", "the restored open space differs");
    if let Some(d) = same_chf(&chf, &r) {
        return Err(Fail::new("open-space", format!("the restored open space differs in its {d}")));
    }
    let chf = r;
    let cset = chf.build_contours(k.max_err, k.max_edge, k.flags);
    let poly = match cset.clone().into_polygon_mesh(k.nvp) {
        Ok(p) => p,
        Err(_) => {
            ensure!(matches!(plain, Err(Stop::Contour(..))), "continued", "the build only fails after restoring");
            return Ok(());
        }
    };
    let r = through(&poly, text, "polygon mesh")?;
    ensure!(r == poly, "polygon-mesh", "the restored polygon mesh differs");
    let detail = DetailNavmesh::new(&r, &chf, k.sd, k.se).map_err(|e| Fail::new("detail-error", e.to_string()))?;
    let d2 = through(&detail, text, "detail mesh")?;
    ensure!(d2 == detail, "detail-mesh", "the restored detail mesh differs");
    c.nontrivial_if(r.polygon_count() > 0);
    let Ok(plain) = plain else { return Err(Fail::new("continued", "the build only succeeds after restoring")) };
    ensure!(plain.filtered == filtered, "continued", "filtered columns after restoring: {}", first_diff(&filtered, &plain.filtered));
    ensure!(same_chf(&plain.chf, &chf).is_none() && plain.cset == cset && plain.poly == r && plain.detail == d2, "continued", "the build continued from restored values differs");
    Ok(())
}
/// Values no build produces: every field anything.
fn c27_values(s: &mut Src, c: &mut Ctx) -> Res {
    let text = s.bool();
    let f = |s: &mut Src| -> f32 {
        match s.weighted(&[3, 3, 2]) {
            0 => s.int(-100, 100) as f32 / 8.0,
            1 => s.f32(-1000.0, 1000.0),
            _ => loop {
                let v = f32::from_bits(s.u32());
                if v.is_finite() {
                    break v;
                }
            },
        }
    };
    let v3 = |s: &mut Src| Vec3::new(f(s), f(s), f(s));
    let aabb = Aabb3d { min: v3(s), max: v3(s) };
    let n = s.small(0, 40) as usize;
    let w16 = |s: &mut Src| if s.chance(1, 4) { *s.pick(&[0u16, 65535, 0x8000, 0x7fff]) } else { s.below(65536) as u16 };
    c.nontrivial_if(n > 0);
    c.label(if text { "json" } else { "bincode" });
    match s.weighted(&[1, 1, 1, 1, 1]) {
        0 => {
            let m = TriMesh {
                vertices: (0..n).map(|_| v3(s).into()).collect(),
                indices: (0..s.usize(0, n)).map(|_| UVec3::new(s.u32(), s.u32(), s.u32())).collect(),
                area_types: (0..s.usize(0, n)).map(|_| AreaType(s.below(256) as u8)).collect(),
            };
            c.describe(|| format!("{m:?}"));
            let r = through(&m, text, "triangle mesh")?;
            ensure!(mesh_equal(&m, &r), "trimesh", "{m:?} became {r:?}");
        }
        1 => {
            let p = PolygonNavmesh {
                vertices: (0..n).map(|_| glam::U16Vec3::new(w16(s), w16(s), w16(s))).collect(),
                polygons: (0..n).map(|_| w16(s)).collect(),
                polygon_neighbors: (0..n).map(|_| w16(s)).collect(),
                flags: (0..n).map(|_| w16(s)).collect(),
                regions: (0..n).map(|_| RegionId::from_bits_retain(w16(s))).collect(),
                areas: (0..n).map(|_| AreaType(s.below(256) as u8)).collect(),
                max_vertices_per_polygon: w16(s),
                aabb,
                cell_size: f(s),
                cell_height: f(s),
                border_size: w16(s),
                max_edge_error: f(s),
            };
            c.describe(|| format!("{p:?}"));
            let r = through(&p, text, "polygon mesh")?;
            ensure!(p == r, "polygon-mesh", "{p:?} became {r:?}");
        }
        2 => {
            let mut d = DetailNavmesh::default();
            for _ in 0..n {
                d.meshes.push(SubMesh { base_vertex_index: s.u32(), vertex_count: s.u32(), base_triangle_index: s.u32(), triangle_count: s.u32() });
                d.vertices.push(v3(s));
                d.triangles.push([s.below(256) as u8, s.below(256) as u8, s.below(256) as u8]);
                d.triangle_flags.push(s.below(256) as u8);
            }
            c.describe(|| format!("{d:?}"));
            let r = through(&d, text, "detail mesh")?;
            ensure!(d == r, "detail-mesh", "{d:?} became {r:?}");
        }
        3 => {
            let fld = crate::gens::columns(s, 8);
            let mut hf = hf_from(&fld, f(s), f(s), aabb.min, aabb.max.y);
            hf.aabb = aabb;
            // leave gaps in the storage
            if s.bool() {
                let extra = hf.allocated_spans.insert(Span { min: 1, max: 2, area: AreaType(3), next: None });
                hf.allocated_spans.remove(extra);
            }
            c.describe(|| crate::gens::field_picture(&fld));
            let r = through(&hf, text, "heightfield")?;
            ensure!((r.width, r.height, r.cell_size, r.cell_height) == (hf.width, hf.height, hf.cell_size, hf.cell_height) && r.aabb == hf.aabb, "heightfield", "metadata of the restored heightfield differs");
            let b = field_from(&r).map_err(|e| Fail::new("heightfield", e))?;
            ensure!(fld == b, "heightfield", "restored columns: {}", first_diff(&b, &fld));
        }
        _ => {
            let mut h = CompactHeightfield { width: w16(s), height: w16(s), walkable_height: w16(s), walkable_climb: w16(s), border_size: w16(s), max_distance: w16(s), max_region: RegionId::from_bits_retain(w16(s)), aabb, cell_size: f(s), cell_height: f(s), ..Default::default() };
            for _ in 0..n {
                let mut cell = CompactCell::default();
                cell.set_index(s.below(1 << 24) as u32);
                cell.set_count(s.below(256) as u8);
                h.cells.push(cell);
                h.spans.push(CompactSpan { y: w16(s), region: RegionId::from_bits_retain(w16(s)), data: s.u32() });
                h.dist.push(w16(s));
                h.areas.push(AreaType(s.below(256) as u8));
            }
            c.describe(|| format!("{h:?}"));
            let r = through(&h, text, "open space")?;
            ensure!(same_geometry(&h, &r) && same_chf(&h, &r).is_none(), "open-space", "{h:?} became {r:?}");
        }
    }
    Ok(())
}

/// Values with more elements than fit in 16 bits, filled from a seed.
fn c27_large(s: &mut Src, c: &mut Ctx) -> Res {
    let text = s.bool();
    let n = if s.chance(2, 3) { s.usize(65_530, 70_000) } else { s.usize(256, 66_000) };
    let mut seed = s.u32();
    let kind = s.usize(0, 4);
    c.label(if n > 65_535 { "beyond-16-bits" } else { "below-16-bits" });
    c.nontrivial = true;
    c.describe(|| format!("{} {kind} {n} {seed}", if text { "json" } else { "bincode" }));
    let mut r = move || {
        seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
        seed.rotate_left(15)
    };
    let mut f = |r: &mut dyn FnMut() -> u32| (r() as i32 >> 12) as f32 / 32.0;
    let mut v3 = |r: &mut dyn FnMut() -> u32| Vec3::new(f(r), f(r), f(r));
    match kind {
        0 => {
            let mut m = TriMesh { vertices: (0..n).map(|_| v3(&mut r).into()).collect(), indices: vec![], area_types: vec![] };
            for _ in 0..n {
                m.indices.push(UVec3::new(r() % n as u32, r() % n as u32, r() % n as u32));
                m.area_types.push(AreaType(r() as u8));
            }
            let b = through(&m, text, "triangle mesh")?;
            ensure!(mesh_equal(&m, &b), "trimesh", "the restored triangle mesh of {n} vertices differs");
        }
        1 => {
            let p = PolygonNavmesh {
                vertices: (0..n).map(|_| glam::U16Vec3::new(r() as u16, r() as u16, r() as u16)).collect(),
                polygons: (0..n).map(|_| r() as u16).collect(),
                polygon_neighbors: (0..n).map(|_| r() as u16).collect(),
                flags: (0..n).map(|_| r() as u16).collect(),
                regions: (0..n).map(|_| RegionId::from_bits_retain(r() as u16)).collect(),
                areas: (0..n).map(|_| AreaType(r() as u8)).collect(),
                ..Default::default()
            };
            let b = through(&p, text, "polygon mesh")?;
            ensure!(p == b, "polygon-mesh", "the restored polygon mesh of {n} elements differs");
        }
        2 => {
            let mut d = DetailNavmesh::default();
            for _ in 0..n {
                d.meshes.push(SubMesh { base_vertex_index: r(), vertex_count: r(), base_triangle_index: r(), triangle_count: r() });
                d.vertices.push(v3(&mut r));
                d.triangles.push([r() as u8, r() as u8, r() as u8]);
                d.triangle_flags.push(r() as u8);
            }
            let b = through(&d, text, "detail mesh")?;
            ensure!(d == b, "detail-mesh", "the restored detail mesh of {n} elements differs");
        }
        3 => {
            let w = 1 + (r() % 300) as usize;
            let h = n.div_ceil(w);
            let mut fld = Field { w, h, cols: vec![vec![]; w * h] };
            for col in fld.cols.iter_mut() {
                let mut y = 0;
                for _ in 0..r() % 3 {
                    let min = y + 1 + (r() % 9) as i32;
                    y = min + 1 + (r() % 9) as i32;
                    col.push(refmodel::field::Span { min, max: y, area: r() as u8 });
                }
            }
            let hf = hf_from(&fld, 0.25, 0.5, Vec3::ZERO, 100.0);
            let b = through(&hf, text, "heightfield")?;
            ensure!((b.width, b.height) == (hf.width, hf.height) && b.aabb == hf.aabb, "heightfield", "metadata of the restored heightfield differs");
            let b = field_from(&b).map_err(|e| Fail::new("heightfield", e))?;
            ensure!(fld == b, "heightfield", "restored columns: {}", first_diff(&b, &fld));
        }
        _ => {
            let mut h = CompactHeightfield { width: 300, height: 300, ..Default::default() };
            for _ in 0..n {
                let mut cell = CompactCell::default();
                cell.set_index(r() & 0xff_ffff);
                cell.set_count(r() as u8);
                h.cells.push(cell);
                h.spans.push(CompactSpan { y: r() as u16, region: RegionId::from_bits_retain(r() as u16), data: r() });
                h.dist.push(r() as u16);
                h.areas.push(AreaType(r() as u8));
            }
            let b = through(&h, text, "open space")?;
            ensure!(same_geometry(&h, &b) && same_chf(&h, &b).is_none(), "open-space", "the restored open space of {n} entries differs");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            rule: "the navmesh has at least one polygon",
            assumptions: &["geometry is finite and limits are respected; fields of at most 40 cells a side except in 'sizes'"],
            subs: vec![
                Sub { name: "scenes", quick: 48000, thorough: 1200000, f: c24_scenes },
                Sub { name: "soup", quick: 48000, thorough: 1200000, f: c24_soup },
                Sub { name: "terrain", quick: 20000, thorough: 500000, f: c24_terrain },
                Sub { name: "sizes", quick: 300, thorough: 7500, f: c24_sizes },
                Sub { name: "layers", quick: 4800, thorough: 120000, f: c24_layers },
            ],
        },
        Prop {
            id: "C25",
            rule: "the navmesh has at least one polygon (order: there are solid voxels and the order changed)",
            assumptions: &["moved and reordered scenes are built from coordinates whose arithmetic is exact"],
            subs: vec![
                Sub { name: "repeat", quick: 12000, thorough: 300000, f: c25_repeat },
                Sub { name: "translate", quick: 24000, thorough: 600000, f: c25_translate },
                Sub { name: "scale", quick: 24000, thorough: 600000, f: c25_scale },
                Sub { name: "order", quick: 32000, thorough: 800000, f: c25_order },
                Sub { name: "split", quick: 16000, thorough: 400000, f: c25_split },
            ],
        },
        Prop {
            id: "C26",
            rule: "at least one region was compared with its polygons cell by cell",
            assumptions: &["contours are exact: zero simplification error, no edge length limit, no border"],
            subs: vec![
                Sub { name: "boxes", quick: 40000, thorough: 1000000, f: c26_boxes },
                Sub { name: "scenes", quick: 40000, thorough: 1000000, f: c26_scenes },
                Sub { name: "terrain", quick: 20000, thorough: 500000, f: c26_terrain },
            ],
        },
        Prop {
            id: "C27",
            rule: "the navmesh has at least one polygon, or the value at least one element",
            assumptions: &["floats are finite (JSON has no others)"],
            subs: vec![
                Sub { name: "builds", quick: 16000, thorough: 400000, f: c27_builds },
                Sub { name: "values", quick: 48000, thorough: 1200000, f: c27_values },
                Sub { name: "large", quick: 40, thorough: 1000, f: c27_large },
            ],
        },
    ]
}
#[allow(dead_code)]
fn _unused(m: &mut TriMesh) {
    tri(m, Vec3A::ZERO, Vec3A::ZERO, Vec3A::ZERO, 0)
}
