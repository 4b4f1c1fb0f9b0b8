//! C01..C04: configuration, triangle meshes, voxelization, column merging.
use crate::ad::*;
use crate::gens;
use glam::{UVec3, Vec3, Vec3A};
use pbt::*;
use refmodel::field::{Field, Span as MSpan};
use rerecast::*;

// ------------------------------------------------------------------ C01
fn c01(s: &mut Src, c: &mut Ctx) -> Res {
    let pos = |s: &mut Src, lo: f32, hi: f32| match s.weighted(&[3, 2, 1]) {
        0 => s.int(1, 40) as f32 * 0.1,
        1 => s.f32(lo, hi),
        _ => *s.pick(&[0.05f32, 0.3, 0.2, 1.0, 2.0, 100.0]),
    };
    let cs = pos(s, 0.01, 3.0).max(0.01);
    let ch = pos(s, 0.01, 3.0).max(0.01);
    let any = |s: &mut Src| match s.weighted(&[4, 3, 2, 1]) {
        0 => s.int(0, 60) as f32 * 0.1,
        1 => s.f32(0.0, 50.0),
        2 => s.int(0, 300) as f32 * cs,
        _ => *s.pick(&[0.0f32, 1e4, 65534.0 * cs, 65535.0 * cs, 65536.0 * cs, 1e9, 700.0]),
    };
    let height = any(s);
    let radius = any(s);
    let climb = match s.bool() {
        true => s.int(0, 300) as f32 * ch,
        false => any(s),
    };
    let slope = s.f32(0.0, 1.57);
    let (rmin, rmerge) = (any(s), any(s));
    let (elen, eerr) = (any(s), s.f32(0.0, 5.0));
    let nvp = s.int(3, 12) as f32;
    let (dd, de) = (*s.pick(&[0.0f32, 0.5, 0.89, 0.9, 0.91, 1.0, 6.0, 16.0]), s.f32(0.0, 4.0));
    let tile = *s.pick(&[32u16, 0, 1, 48, 1000, 65535, 60000, 65000]);
    let tiling = s.bool();
    let min = Vec3::new(s.int(-50, 50) as f32, s.int(-50, 50) as f32, s.int(-50, 50) as f32);
    let size = |s: &mut Src| match s.weighted(&[4, 3, 1]) {
        0 => s.int(0, 200) as f32,
        1 => s.int(0, 400) as f32 * cs * 0.5,
        _ => *s.pick(&[1e6f32, 65535.0 * cs, 65534.4 * cs]),
    };
    let max = min + Vec3::new(size(s), s.int(0, 50) as f32, size(s));
    let flags = *s.pick(&[BuildContoursFlags::TESSELLATE_SOLID_WALL_EDGES, BuildContoursFlags::empty(), BuildContoursFlags::TESSELLATE_AREA_EDGES, BuildContoursFlags::all()]);
    let aabb = Aabb3d { min, max };
    c.describe(|| format!("cs {cs} ch {ch} height {height} radius {radius} climb {climb} regions {rmin}/{rmerge} edge {elen}/{eerr} nvp {nvp} detail {dd}/{de} tile {tile} tiling {tiling} aabb {aabb:?}"));
    let g = NavmeshConfigBuilder::verif_new([cs, ch, height, radius, climb, slope, rmin, rmerge, elen, eerr, nvp, dd, de], tile, aabb, flags, tiling).build();
    // a quotient is known up to one rounding of the division
    let q = |a: f32, b: f32| {
        let v = a as f64 / b as f64;
        (v * (1.0 - 2e-7), v * (1.0 + 2e-7))
    };
    let clampf = |v: f64| v.clamp(0.0, 65535.0) as u32;
    let within = |name: &str, got: u16, lo: f64, hi: f64, f: fn(f64) -> f64| -> Res {
        let (lo, hi) = (clampf(f(lo)), clampf(f(hi)));
        ensure!((lo..=hi).contains(&(got as u32)), name, "{name} is {got}, expected {lo}..={hi}");
        Ok(())
    };
    let (a, b) = q(height, ch);
    within("walkable_height", g.walkable_height, a, b, f64::ceil)?;
    let (a, b) = q(radius, cs);
    within("walkable_radius", g.walkable_radius, a, b, f64::ceil)?;
    let (a, b) = q(climb, ch);
    within("walkable_climb", g.walkable_climb, a, b, f64::floor)?;
    let (a, b) = q(elen, cs);
    within("max_edge_len", g.max_edge_len, a, b, f64::trunc)?;
    let (a, b) = q(rmin * rmin, 1.0);
    within("min_region_area", g.min_region_area, a, b, f64::trunc)?;
    let (a, b) = q(rmerge * rmerge, 1.0);
    within("merge_region_area", g.merge_region_area, a, b, f64::trunc)?;
    ensure!(g.border_size as u32 == (g.walkable_radius as u32 + 3).min(65535), "border", "border size {} for a radius of {} voxels", g.border_size, g.walkable_radius);
    if tiling {
        let w = (tile as u32 + 2 * g.border_size as u32).min(65535);
        ensure!(g.width as u32 == w && g.height as u32 == w, "tiling", "grid {}x{}, expected {w} (tile {tile}, border {})", g.width, g.height, g.border_size);
    } else {
        for (name, got, lo, hi) in [("width", g.width, min.x, max.x), ("height", g.height, min.z, max.z)] {
            let (a, b) = q(hi - lo, cs);
            // a + 0.5 is rounded once more
            within(name, got, (a + 0.5) * (1.0 - 1e-7), (b + 0.5) * (1.0 + 1e-7), f64::floor)?;
        }
    }
    ensure!(g.tile_size == tile && g.cell_size == cs && g.cell_height == ch && g.aabb == aabb && g.walkable_slope_angle == slope && g.max_simplification_error == eerr && g.max_vertices_per_polygon == nvp as u16 && g.contour_flags == flags, "pass-through", "a setting was not passed through: {g:?}");
    let want = if dd < 0.9 { 0.0 } else { cs * dd };
    ensure!(g.detail_sample_dist == want, "detail", "sample distance {}, expected {want}", g.detail_sample_dist);
    ensure!(g.detail_sample_max_error == ch * de, "detail", "detail error {}, expected {}", g.detail_sample_max_error, ch * de);
    c.nontrivial_if(g.walkable_radius > 0 && g.walkable_height > 0);
    c.label_if(g.walkable_radius > 65532, "radius at the limit");
    c.label_if(tiling, "tiling");
    Ok(())
}

/// The grid a builder makes.
fn c03_grid(s: &mut Src, c: &mut Ctx) -> Res {
    let (cs, ch) = (gens_pos(s), gens_pos(s));
    let min = Vec3::new(s.f32(-500.0, 500.0), s.f32(-500.0, 500.0), s.f32(-500.0, 500.0));
    let mut size = |s: &mut Src, wide: bool| match s.weighted(&[4, 3, 2, if wide { 3 } else { 0 }]) {
        0 => s.int(0, 60) as f32 * cs,
        1 => s.int(0, 200) as f32 * cs * 0.25,
        2 => s.f32(0.0, 70.0) * cs,
        _ => *s.pick(&[65534.0f32, 65535.0, 65536.0, 65537.0, 70000.0, 131072.0, 1e7, 65535.25, 65535.75]) * cs,
    };
    let wide = s.chance(1, 12);
    let across = s.bool();
    let (a, b) = (size(s, wide), if wide { s.int(0, 3) as f32 * cs } else { size(s, false) });
    let max = min + if across { Vec3::new(a, s.f32(0.0, 50.0), b) } else { Vec3::new(b, s.f32(0.0, 50.0), a) };
    // around a center, or by its corners
    let aabb = if s.bool() {
        let (center, half) = ((min + max) * 0.5, (max - min) * 0.5);
        let bb = Aabb3d::new(center, half);
        ensure!(bb.min == center - half && bb.max == center + half, "box", "the box around {center} with half size {half} is {bb:?}");
        bb
    } else {
        Aabb3d { min, max }
    };
    c.describe(|| format!("{aabb:?} cell size {cs} {ch}"));
    // the extent is rounded once, the quotient once, and the sum with a half once
    let range = |lo: f32, hi: f32| {
        let q = (hi as f64 - lo as f64) / cs as f64;
        let e = 2e-7 * (q + 1.0);
        ((q + 0.5 - e).floor().max(0.0) as u64, (q + 0.5 + e).floor().max(0.0) as u64)
    };
    let (w, h) = (range(aabb.min.x, aabb.max.x), range(aabb.min.z, aabb.max.z));
    if w.1.saturating_mul(h.1) > 4_000_000 && w.0 <= 65535 && h.0 <= 65535 {
        return Ok(());
    }
    match (HeightfieldBuilder { aabb, cell_size: cs, cell_height: ch }).build() {
        Ok(f) => {
            ensure!((w.0..=w.1).contains(&(f.width as u64)) && (h.0..=h.1).contains(&(f.height as u64)), "grid", "a grid of {}x{}, expected {w:?}x{h:?}", f.width, f.height);
            ensure!(f.aabb == aabb && f.cell_size == cs && f.cell_height == ch, "grid", "bounds or cell sizes are not those given");
            ensure!(f.spans.len() == f.width as usize * f.height as usize && f.spans.iter().all(|s| s.is_none()) && f.allocated_spans.is_empty(), "grid", "{} columns in a grid of {}x{}, or some not empty", f.spans.len(), f.width, f.height);
            c.nontrivial_if(f.width > 0 && f.height > 0);
            c.label_if(f.width.max(f.height) > 65000, "at the limit");
        }
        Err(e) => {
            ensure!(w.1 > 65535 || h.1 > 65535, "grid-error", "{e} for {w:?}x{h:?} columns");
            c.label("too large, reported");
        }
    }
    Ok(())
}
fn gens_pos(s: &mut Src) -> f32 {
    if s.bool() { *s.pick(&[1.0f32, 0.5, 0.25, 2.0, 0.125]) } else { s.f32(0.05, 3.0) }
}
// ------------------------------------------------------------------ C02
fn mesh(s: &mut Src) -> TriMesh {
    let mut m = TriMesh::default();
    if s.chance(1, 2000) {
        // more vertices and triangles than 16 bits count
        let (n, t, seed) = (s.usize(60000, 70000), s.usize(1, 70000), s.u64() | 1);
        for i in 0..n {
            m.vertices.push(Vec3A::new(i as f32, (i % 7) as f32, (i / 300) as f32));
        }
        for i in 0..t as u64 {
            let at = |k: u64| ((i * 3 + k).wrapping_mul(seed) >> 20) as u32 % n as u32;
            m.indices.push(UVec3::new(at(0), at(1), at(2)));
            m.area_types.push(AreaType((i % 251) as u8));
        }
        return m;
    }
    let k = s.usize(0, 9);
    let scale = *s.pick(&[1.0f32, 0.125, 16.0, 0.1, 1.0, 0.125, 16.0, 0.1, 1e9, 1e-12, 1e36]);
    for _ in 0..k {
        m.vertices.push(Vec3A::new(s.int(-9, 9) as f32 * scale, s.int(-9, 9) as f32 * scale, s.int(-9, 9) as f32 * scale));
    }
    if k > 0 {
        for _ in 0..s.usize(0, 8) {
            m.indices.push(UVec3::new(s.int(0, k as i64 - 1) as u32, s.int(0, k as i64 - 1) as u32, s.int(0, k as i64 - 1) as u32));
            m.area_types.push(AreaType(*s.pick(&[0u8, 0, 0, 255, 3, 9])));
        }
    }
    m
}
fn c02_extend(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.usize(1, 5);
    let parts: Vec<TriMesh> = (0..n).map(|_| mesh(s)).collect();
    c.describe(|| format!("parts (vertices, triangles): {:?}", parts.iter().map(|p| (p.vertices.len(), p.indices.len())).collect::<Vec<_>>()));
    let mut all = TriMesh::default();
    let mut soup: Vec<([Vec3A; 3], AreaType)> = vec![];
    let mut verts = vec![];
    for p in &parts {
        verts.extend(p.vertices.iter().copied());
        for (t, a) in p.indices.iter().zip(&p.area_types) {
            soup.push(([0, 1, 2].map(|k| p.vertices[t[k] as usize]), *a));
        }
        let (vb, ib, ab) = (all.vertices.clone(), all.indices.clone(), all.area_types.clone());
        all.extend(p.clone());
        ensure!(all.vertices.starts_with(&vb) && all.indices.starts_with(&ib) && all.area_types.starts_with(&ab), "earlier", "appending changed earlier data");
        ensure!(all.vertices == verts, "vertices", "vertices are not the concatenation");
        ensure!(all.indices.len() == soup.len() && all.area_types.len() == soup.len(), "counts", "{} triangles, {} areas, expected {}", all.indices.len(), all.area_types.len(), soup.len());
        for (i, (t, a)) in soup.iter().enumerate() {
            let ix = all.indices[i];
            ensure!([0, 1, 2].iter().all(|k| (ix[*k] as usize) < all.vertices.len()), "index", "triangle {i} refers to a missing vertex");
            let got = [0, 1, 2].map(|k| all.vertices[ix[k] as usize]);
            ensure!(got == *t && all.area_types[i] == *a, "triangle", "triangle {i} became {got:?} area {:?}, was {t:?} area {a:?}", all.area_types[i]);
        }
    }
    let bb = all.compute_aabb();
    if verts.is_empty() {
        ensure!(bb.is_none(), "aabb", "bounds of an empty mesh");
    } else {
        let bb = bb.ok_or_else(|| Fail::new("aabb", "no bounds for a mesh with vertices"))?;
        for k in 0..3 {
            let lo = verts.iter().map(|v| v[k]).fold(f32::INFINITY, f32::min);
            let hi = verts.iter().map(|v| v[k]).fold(f32::NEG_INFINITY, f32::max);
            ensure!(bb.min[k] == lo && bb.max[k] == hi, "aabb", "axis {k}: bounds {}..{}, expected {lo}..{hi}", bb.min[k], bb.max[k]);
        }
    }
    c.nontrivial_if(parts.iter().filter(|p| !p.indices.is_empty()).count() >= 2);
    Ok(())
}
fn c02_slope(s: &mut Src, c: &mut Ctx) -> Res {
    slope(s, c, false)
}
/// Meshes with more triangles than sixteen bits count.
fn c02_slopes(s: &mut Src, c: &mut Ctx) -> Res {
    slope(s, c, true)
}
fn slope(s: &mut Src, c: &mut Ctx, many: bool) -> Res {
    let scale = *s.pick(&[1.0f32, 0.125, 64.0, 1.0 / 4096.0, 65536.0]);
    let mut m = TriMesh::default();
    let n = if many { s.usize(66_000, 90_000) } else { s.usize(1, 12) };
    let mut x = if many { s.u64() } else { 0 };
    let mut int = |s: &mut Src, lo: i64, hi: i64| {
        if !many {
            return s.int(lo, hi);
        }
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        lo + ((x >> 33) % (hi - lo + 1) as u64) as i64
    };
    let mut ints: Vec<[i64; 3]> = vec![];
    for _ in 0..n + 2 {
        let steep = int(s, 1, 30);
        let p = [int(s, -30, 30), int(s, -steep, steep), int(s, -30, 30)];
        ints.push(p);
        m.vertices.push(Vec3A::new(p[0] as f32, p[1] as f32, p[2] as f32) * scale);
    }
    for _ in 0..n {
        let t = [0; 3].map(|_| int(s, 0, n as i64 + 1) as u32);
        m.indices.push(UVec3::from_array(t));
        m.area_types.push(AreaType([0u8, 0, 0, 5, 255][int(s, 0, 4) as usize]));
    }
    let thr = match s.weighted(&[3, 1]) {
        0 => s.f32(0.0, 1.56),
        _ => *s.pick(&[0.0f32, 0.7853982, 1.0471976, 0.5235988]),
    };
    c.describe(|| if many { format!("limit {thr}, {n} triangles") } else { format!("limit {thr} triangles {:?} of {ints:?}", m.indices) });
    let before = m.clone();
    m.mark_walkable_triangles(thr);
    ensure!(m.vertices == before.vertices && m.indices == before.indices && m.area_types.len() == before.area_types.len(), "other-data", "marking changed geometry");
    let cos = (thr as f64).cos();
    let mut marked = 0;
    for (i, t) in before.indices.iter().enumerate() {
        let p = [0, 1, 2].map(|k| ints[t[k] as usize]);
        let d = |a: [i64; 3], b: [i64; 3]| [b[0] - a[0], b[1] - a[1], b[2] - a[2]];
        let (u, v) = (d(p[0], p[1]), d(p[0], p[2]));
        let nrm = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
        let len = ((nrm[0] * nrm[0] + nrm[1] * nrm[1] + nrm[2] * nrm[2]) as f64).sqrt();
        let up = if len == 0.0 { 0.0 } else { nrm[1] as f64 / len };
        let want = if len == 0.0 || nrm[1] <= 0 {
            before.area_types[i]
        } else if (up - cos).abs() < 1e-5 {
            continue;
        } else if up > cos {
            marked += 1;
            AreaType::DEFAULT_WALKABLE
        } else {
            before.area_types[i]
        };
        ensure!(m.area_types[i] == want, "slope", "triangle {i} {p:?} (cosine {up:.6}, limit cosine {cos:.6}): area {:?}, expected {want:?}", m.area_types[i]);
    }
    c.nontrivial_if(marked > 0 && marked < before.indices.len());
    Ok(())
}

// ------------------------------------------------------------------ C03
type P3 = [f64; 3];
/// Clips a convex polygon to axis >= v (keep = 1) or <= v (keep = -1); degenerate results survive.
fn clip(p: &[P3], axis: usize, v: f64, keep: f64) -> Vec<P3> {
    let mut out = vec![];
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        let (da, db) = ((a[axis] - v) * keep, (b[axis] - v) * keep);
        if da >= 0.0 {
            out.push(a);
        }
        if (da > 0.0 && db < 0.0) || (da < 0.0 && db > 0.0) {
            let t = da / (da - db);
            let mut q = [0, 1, 2].map(|k| a[k] + (b[k] - a[k]) * t);
            q[axis] = v;
            out.push(q);
        }
    }
    out
}
fn clip_cell(t: &[P3; 3], x: (f64, f64), z: (f64, f64)) -> Option<(f64, f64)> {
    let mut p = t.to_vec();
    for (axis, v, k) in [(0, x.0, 1.0), (0, x.1, -1.0), (2, z.0, 1.0), (2, z.1, -1.0)] {
        p = clip(&p, axis, v, k);
        if p.is_empty() {
            return None;
        }
    }
    Some((p.iter().map(|q| q[1]).fold(f64::INFINITY, f64::min), p.iter().map(|q| q[1]).fold(f64::NEG_INFINITY, f64::max)))
}
pub struct Grid {
    pub min: Vec3,
    pub max: Vec3,
    pub cs: f32,
    pub ch: f32,
}
/// Checks one fresh field after one triangle. Returns (required columns, spans).
pub fn judge_triangle(g: &Grid, w: usize, h: usize, t: [Vec3A; 3], area: u8, f: &Field) -> Result<(u64, u64), Fail> {
    let tri = t.map(|v| [v.x as f64, v.y as f64, v.z as f64]);
    let mag = tri.iter().flatten().map(|v| v.abs()).fold(0.0, f64::max).max(g.min.abs().max_element() as f64).max(g.max.abs().max_element() as f64);
    let ulp = mag * 2f64.powi(-23);
    let (cs, ch) = (g.cs as f64, g.ch as f64);
    // every cell crossed is cut from the remainder of the previous one: one rounding per cell
    let across = |k: usize, n: usize| {
        let d = tri.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max) - tri.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min);
        (d / cs).min(n as f64)
    };
    let cuts = 24.0 + across(0, w) + across(2, h);
    let eps = 1e-5 * cs + cuts * ulp;
    let yeps = 1e-6 * ch + cuts * ulp;
    let by = (g.max.y - g.min.y) as f64;
    let o = [g.min.x as f64, g.min.y as f64, g.min.z as f64];
    let flat = {
        // projected size of the triangle: degenerate (point-like) triangles are not required to appear
        let d = |k: usize| tri.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max) - tri.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min);
        d(0).max(d(2)) <= 2.0 * eps
    };
    let (mut req, mut got) = (0, 0);
    // only cells near the triangle or with spans need a look
    let lo = |k: usize| ((tri.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min) - o[k] - 2.0 * eps) / cs).floor() - 1.0;
    let hi = |k: usize| ((tri.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max) - o[k] + 2.0 * eps) / cs).ceil() + 1.0;
    for z in 0..h {
        for x in 0..w {
            let col = &f.cols[x + z * w];
            let near = x as f64 >= lo(0) && x as f64 <= hi(0) && z as f64 >= lo(2) && z as f64 <= hi(2);
            if !near && col.is_empty() {
                continue;
            }
            let (x0, x1, z0, z1) = (o[0] + x as f64 * cs, o[0] + (x + 1) as f64 * cs, o[2] + z as f64 * cs, o[2] + (z + 1) as f64 * cs);
            // what must be covered: the cell inside the bounds (a ragged grid may be larger than its bounds)
            let (mx, mz) = ((x1.min(g.max.x as f64) - eps), (z1.min(g.max.z as f64) - eps));
            let inner = if flat || x0 + eps >= mx || z0 + eps >= mz { None } else { clip_cell(&tri, (x0 + eps, mx), (z0 + eps, mz)) };
            let outer = clip_cell(&tri, (x0 - eps, x1 + eps), (z0 - eps, z1 + eps));
            ensure!(col.len() <= 1, "double", "one triangle put {} spans into column ({x},{z})", col.len());
            let Some((olo, ohi)) = outer else {
                ensure!(col.is_empty(), "misplaced", "column ({x},{z}) has span {} although the triangle does not touch it", short(col));
                continue;
            };
            let (olo, ohi) = (olo - o[1] - yeps, ohi - o[1] + yeps);
            if let Some((ilo, ihi)) = inner {
                let (ilo, ihi) = (ilo - o[1] + yeps, ihi - o[1] - yeps);
                // a level triangle is cut without rounding, so it counts even exactly on the bounds
                let level = t[0].y == t[1].y && t[1].y == t[2].y && t[0].y >= g.min.y && t[0].y <= g.max.y;
                if level || ihi > yeps && ilo < by - yeps {
                    req += 1;
                    ensure!(col.len() == 1, "missing", "column ({x},{z}) is crossed at heights {ilo:.4}..{ihi:.4} but stays empty");
                    let s = col[0];
                    let need_lo = (ilo.max(0.0) / ch).floor().clamp(0.0, 65534.0);
                    let need_hi = (ihi.min(by) / ch).ceil().clamp(1.0, 65535.0);
                    ensure!(s.min as f64 <= need_lo && s.max as f64 >= need_hi, "uncovered", "column ({x},{z}): span {} does not cover {need_lo}..{need_hi}", short(col));
                }
            }
            if let Some(s) = col.first() {
                got += 1;
                ensure!(s.area == area, "area", "column ({x},{z}): area {}, expected {area}", s.area);
                ensure!(s.min < s.max, "thickness", "column ({x},{z}): empty span {}", short(col));
                ensure!(ohi >= 0.0 && olo <= by, "outside", "column ({x},{z}): the triangle is outside the vertical bounds there, span {}", short(col));
                let lo = (olo.max(0.0) / ch).floor().clamp(0.0, 65534.0);
                // the lowest point over the column is at most this high; one voxel above it is always allowed
                let low = inner.map_or(ohi, |i| i.0 - o[1] + yeps).min(by + yeps).max(0.0);
                let hi = (ohi.min(by).max(0.0) / ch).ceil().max((low / ch).floor().min(65534.0) + 1.0).clamp(lo + 1.0, 65535.0);
                ensure!(s.min as f64 >= lo && (s.max as f64) <= hi, "extra", "column ({x},{z}): span {} exceeds {lo}..{hi}", short(col));
            }
        }
    }
    Ok((req, got))
}
fn grid(s: &mut Src, mode: usize) -> Grid {
    let cs = match s.weighted(&[4, 2]) {
        0 => *s.pick(&[1.0f32, 0.5, 0.25]),
        _ => *s.pick(&[0.3f32, 0.1, 0.7, 1.3]),
    };
    let ch = *s.pick(&[1.0f32, 0.5, 0.2, 0.1, 0.05]);
    let off = match s.weighted(&[3, 2, 1]) {
        0 => Vec3::ZERO,
        1 => Vec3::new(s.int(-40, 40) as f32 * 0.5, s.int(-40, 40) as f32 * 0.5, s.int(-40, 40) as f32 * 0.5),
        _ => Vec3::new(s.f32(-500.0, 500.0), s.f32(-500.0, 500.0), s.f32(-500.0, 500.0)),
    };
    let (w, h) = match mode {
        0 => (s.int(1, 10) as f32, s.int(1, 10) as f32),
        1 => (s.int(0, 80) as f32 / 8.0, s.int(0, 80) as f32 / 8.0), // not whole cells, possibly zero
        _ => {
            let l = *s.pick(&[300.0f32, 5000.0, 32766.0, 32767.0, 32768.0, 32769.0, 40000.0, 65534.0, 65535.0]);
            if s.bool() { (l, 1.0) } else { (1.0, l) }
        }
    };
    let y = match s.weighted(&[5, 2, 1]) {
        0 => s.int(1, 20) as f32,
        1 => s.f32(0.05, 30.0),
        _ => 66000.0 * ch,
    };
    Grid { min: off, max: off + Vec3::new(w * cs, y, h * cs), cs, ch }
}
fn c03_case(s: &mut Src, c: &mut Ctx, mode: usize) -> Res {
    let g = grid(s, mode);
    let aabb = Aabb3d { min: g.min, max: g.max };
    let mut hf = HeightfieldBuilder { aabb, cell_size: g.cs, cell_height: g.ch }.build().map_err(|e| Fail::new("build", format!("{e}")))?;
    let (w, h) = (hf.width as usize, hf.height as usize);
    // rounded to nearest
    for (name, n, len) in [("width", w, g.max.x - g.min.x), ("height", h, g.max.z - g.min.z)] {
        let q = len as f64 / g.cs as f64 + 0.5;
        ensure!((n as f64) <= q * (1.0 + 1e-6) && n as f64 + 1.0 >= q * (1.0 - 1e-6), "grid", "{name} {n} for {len} / {}", g.cs);
    }
    ensure!(hf.spans.len() == w * h && hf.aabb == aabb, "grid", "{} columns for {w}x{h}", hf.spans.len());
    let ext = g.max - g.min;
    let kind = s.weighted(&[4, 3, 2, 1, 1, 1]);
    let pt = |s: &mut Src| -> Vec3A {
        let f = |s: &mut Src, lo: f32, len: f32, cell: f32| match kind {
            0 => lo + s.int(-4, (len / cell * 2.0) as i64 + 4) as f32 * cell * 0.5, // half cells: many ties
            1 | 3 | 4 => lo + s.f32(-0.3, 1.3) * len.max(cell),
            2 => lo + (s.f32(0.0, 1.0) * len).clamp(0.0, len),
            _ => lo + s.f32(-1.0, 1.0) * 3000.0,
        };
        Vec3A::new(f(s, g.min.x, ext.x, g.cs), f(s, g.min.y, ext.y, g.ch), f(s, g.min.z, ext.z, g.cs))
    };
    let mut t = [pt(s), pt(s), pt(s)];
    match kind {
        3 => {
            // axis-aligned wall
            let k = if s.bool() { 0 } else { 2 };
            for i in 1..3 {
                t[i][k] = t[0][k];
            }
        }
        4 => {
            match s.int(0, 5) {
                0 => t[0].y = g.min.y,
                1 => t[0].y = g.max.y,
                _ => {}
            }
            for i in 1..3 {
                t[i].y = t[0].y;
            }
        }
        _ => {}
    }
    if s.chance(1, 25) {
        t[2] = if s.bool() { t[1] } else { t[0] };
    }
    if mode == 2 && s.bool() {
        // somewhere along the long axis
        let d = Vec3A::from(ext) * s.f32(0.0, 1.0) * Vec3A::new(1.0, 0.0, 1.0);
        for v in t.iter_mut() {
            let r = Vec3A::new(s.int(-8, 8) as f32, 0.0, s.int(-8, 8) as f32) * g.cs;
            *v = Vec3A::new(g.min.x, v.y, g.min.z) + d + r;
        }
    }
    let area = *s.pick(&[255u8, 0, 9]);
    c.describe(|| format!("bounds {:?}..{:?} cs {} ch {} ({w}x{h}) triangle {t:?} area {area}", g.min, g.max, g.cs, g.ch));
    let climb = s.int(0, 5) as u16;
    hf.rasterize_triangle(t, AreaType(area), climb).map_err(|e| Fail::new("error", format!("rasterizing failed: {e}")))?;
    let f = field_from(&hf).map_err(|e| Fail::new("structure", e))?;
    let (req, got) = judge_triangle(&g, w, h, t, area, &f)?;
    c.count("columns required", req);
    c.count("columns filled", got);
    c.nontrivial_if(req >= 2 || (mode != 0 && got >= 1));
    Ok(())
}
fn c03_whole(s: &mut Src, c: &mut Ctx) -> Res {
    c03_case(s, c, 0)
}
fn c03_ragged(s: &mut Src, c: &mut Ctx) -> Res {
    c03_case(s, c, 1)
}
fn c03_long(s: &mut Src, c: &mut Ctx) -> Res {
    c03_case(s, c, 2)
}
/// A mesh of triangles: the union of the single-triangle results, column by column.
fn c03_mesh(s: &mut Src, c: &mut Ctx) -> Res {
    let sc = crate::scenes::scene(s, 9);
    c.describe(|| sc.describe());
    let climb = s.int(0, 4) as u16;
    let mut hf = sc.heightfield();
    let empty = hf.clone();
    hf.rasterize_triangles(&sc.mesh, climb).map_err(|e| Fail::new("error", format!("{e}")))?;
    let got = field_from(&hf).map_err(|e| Fail::new("structure", e))?;
    let mut want = Field::new(got.w, got.h);
    let g = Grid { min: sc.aabb.min, max: sc.aabb.max, cs: sc.cs, ch: sc.ch };
    for (i, t) in sc.mesh.indices.iter().enumerate() {
        let v = [0, 1, 2].map(|k| sc.mesh.vertices[t[k] as usize]);
        let mut one = empty.clone();
        one.rasterize_triangle(v, sc.mesh.area_types[i], climb).map_err(|e| Fail::new("error", format!("{e}")))?;
        let f = field_from(&one).map_err(|e| Fail::new("structure", e))?;
        judge_triangle(&g, f.w, f.h, v, sc.mesh.area_types[i].0, &f)?;
        for (ci, col) in f.cols.iter().enumerate() {
            for sp in col {
                want.insert(ci, *sp, climb as i32);
            }
        }
    }
    ensure!(got == want, "mesh", "rasterizing the mesh differs from its triangles: {}", first_diff(&got, &want));
    c.nontrivial_if(sc.mesh.indices.len() >= 4 && got.span_count() > 0);
    Ok(())
}

// ------------------------------------------------------------------ C04
fn c04_case(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = (s.usize(1, 3), s.usize(1, 3));
    let aabb = Aabb3d { min: Vec3::ZERO, max: Vec3::new(w as f32, 65535.0, h as f32) };
    let mut hf = HeightfieldBuilder { aabb, cell_size: 1.0, cell_height: 1.0 }.build().map_err(|e| Fail::new("build", format!("{e}")))?;
    let mut m = Field::new(w, h);
    let n = s.usize(1, 14);
    let tall = s.chance(1, 8);
    let range = if tall { *s.pick(&[700i64, 3000, 65000]) } else { *s.pick(&[12i64, 24, 60]) };
    let base = if tall { 0 } else { *s.pick(&[0i64, 0, 0, 65535 - 60]) };
    let fixed = s.chance(3, 4).then(|| if tall { *s.pick(&[255i64, 256, 257, 300, 512, 32768, 40000, 100]) } else { s.int(0, 5) });
    let mut desc = vec![];
    let (mut merges, mut multi) = (0, 0);
    for _ in 0..n {
        let lo = if base == 0 { s.int(0, range - 1) } else { base + s.int(0, range - 1).min(58) };
        let hi = (lo + s.small(1, range)).min(65535);
        let area = crate::gens::area(s);
        let thr = fixed.unwrap_or_else(|| if s.chance(1, 5) { 65535 } else { s.int(0, if tall { range } else { 8 }) });
        // cells: one, or a rectangle
        let (x0, z0) = (s.usize(0, w - 1), s.usize(0, h - 1));
        let (x1, z1) = if s.chance(1, 4) { (s.usize(x0, w - 1), s.usize(z0, h - 1)) } else { (x0, z0) };
        desc.push(format!("{lo}..{hi}@{area}~{thr} in ({x0},{z0})-({x1},{z1})"));
        for z in z0..=z1 {
            for x in x0..=x1 {
                let (fx, fz) = (x as f32, z as f32);
                let t = [
                    Vec3A::new(fx + 0.25, lo as f32, fz + 0.25),
                    Vec3A::new(fx + 0.5, hi as f32, fz + 0.75),
                    Vec3A::new(fx + 0.75, if s.bool() { hi } else { lo } as f32, fz + 0.25),
                ];
                hf.rasterize_triangle(t, AreaType(area), thr as u16).map_err(|e| Fail::new("error", format!("{e}")))?;
                let before = m.cols[x + z * w].len();
                m.insert(x + z * w, MSpan { min: lo as i32, max: hi as i32, area }, thr as i32);
                let after = m.cols[x + z * w].len();
                merges += (after <= before) as u32;
                multi += (after < before) as u32;
            }
        }
        let got = field_from(&hf).map_err(|e| Fail::new("structure", e))?;
        ensure!(got == m, "mismatch", "after pieces {desc:?}: {}", first_diff(&got, &m));
    }
    // the model's own invariants (sorted, gaps)
    for col in &m.cols {
        ensure!(col.iter().all(|s| s.min < s.max) && col.windows(2).all(|p| p[0].max < p[1].min), "order", "column not sorted: {}", short(col));
    }
    c.describe(|| format!("{w}x{h}: {}", desc.join(", ")));
    c.label_if(multi > 0, "a piece joined several spans");
    c.nontrivial_if(merges > 0);
    Ok(())
}
/// Meshes of more triangles, and fields of more spans, than sixteen bits count; columns of hundreds of spans.
fn c04_crowd(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.usize(66_000, 120_000);
    let (w, h) = match s.weighted(&[2, 2, 1]) {
        0 => (s.usize(150, 300), s.usize(150, 300)),
        1 => (s.usize(2, 9), s.usize(2, 9)),
        _ => (s.usize(20, 60), s.usize(20, 60)),
    };
    let cols = w * h;
    let aabb = Aabb3d { min: Vec3::ZERO, max: Vec3::new(w as f32, 65535.0, h as f32) };
    let mut hf = HeightfieldBuilder { aabb, cell_size: 1.0, cell_height: 1.0 }.build().map_err(|e| Fail::new("build", format!("{e}")))?;
    let mut m = Field::new(w, h);
    let thr = s.int(0, 4);
    let range = *s.pick(&[40u64, 400, 60_000]);
    let thick = *s.pick(&[1u64, 3, 9]);
    let mut x = s.u64();
    let mut next = |n: u64| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) % n
    };
    let mut t = TriMesh::default();
    for _ in 0..n {
        let k = next(cols as u64) as usize;
        let lo = next(range) as i64;
        let hi = lo + 1 + next(thick) as i64;
        let area = [0u8, 255, 1, 7, 254][next(5) as usize];
        let (fx, fz) = ((k % w) as f32, (k / w) as f32);
        let first = t.vertices.len() as u32;
        t.vertices.extend([Vec3A::new(fx + 0.25, lo as f32, fz + 0.25), Vec3A::new(fx + 0.5, hi as f32, fz + 0.75), Vec3A::new(fx + 0.75, lo as f32, fz + 0.25)]);
        t.indices.push(UVec3::new(first, first + 1, first + 2));
        t.area_types.push(AreaType(area));
        m.insert(k, MSpan { min: lo as i32, max: hi as i32, area }, thr as i32);
    }
    let tallest = m.cols.iter().map(|c| c.len()).max().unwrap_or(0);
    c.describe(|| format!("{n} pieces on {w}x{h} columns, {} spans, at most {tallest} in a column", m.span_count()));
    c.label_if(m.span_count() > 65535, "more than 65535 spans");
    c.label_if(tallest > 255, "more than 255 spans in a column");
    hf.rasterize_triangles(&t, thr as u16).map_err(|e| Fail::new("error", format!("{e}")))?;
    let got = field_from(&hf).map_err(|e| Fail::new("structure", e))?;
    ensure!(got == m, "mismatch", "after {n} pieces: {}", first_diff(&got, &m));
    c.nontrivial_if(m.span_count() < n);
    Ok(())
}
/// Accessors agree with the columns, whatever the field.
/// Coordinates outside a grid, mostly just outside.
pub fn outside(s: &mut Src, w: usize, h: usize) -> (u16, u16) {
    let far = |s: &mut Src, n: usize| if s.chance(1, 4) { s.int(n as i64, 65535) as u16 } else { (n as u16).saturating_add(s.int(0, 3) as u16) };
    match s.weighted(&[2, 2, 1]) {
        0 => (far(s, w), s.usize(0, h.max(1) - 1) as u16),
        1 => (s.usize(0, w.max(1) - 1) as u16, far(s, h)),
        _ => (far(s, w), far(s, h)),
    }
}
fn c04_access(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gens::columns(s, 6);
    c.describe(|| gens::field_picture(&f));
    let mut hf = hf_simple(&f);
    for z in 0..f.h {
        for x in 0..f.w {
            let first = f.cols[x + z * f.w].first();
            let got = hf.span_at(x as u16, z as u16).map(|s| (s.min as i32, s.max as i32, s.area.0));
            ensure!(got == first.map(|s| (s.min, s.max, s.area)), "access", "span_at({x},{z}) is {got:?}");
            ensure!(hf.span_key_at(x as u16, z as u16) == hf.spans[x + z * f.w], "access", "span_key_at({x},{z})");
            let m = hf.span_at_mut(x as u16, z as u16).map(|s| (s.min as i32, s.max as i32, s.area.0));
            ensure!(m == got, "access", "span_at_mut({x},{z}) is {m:?}");
        }
    }
    for _ in 0..4 {
        let (x, z) = outside(s, f.w, f.h);
        ensure!(hf.span_key_at(x, z).is_none() && hf.span_at(x, z).is_none() && hf.span_at_mut(x, z).is_none(), "access", "looking up ({x},{z}) outside the {}x{} field gives a span", f.w, f.h);
    }
    ensure!(hf.span_at(0, f.h as u16).is_none() && hf.span_key_at(f.w as u16 - 1, f.h as u16 + 3).is_none(), "access", "a column beyond the field exists");
    c.nontrivial_if(f.span_count() > 0);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "non-trivial: the agent has a voxel radius and height above zero",
            assumptions: &["the builder's private fields are set through a cfg-guarded constructor", "one f32 rounding of each quotient is allowed"],
            subs: vec![Sub { name: "config", quick: 1_500_000, thorough: 20_000_000, f: c01 }],
        },
        Prop {
            id: "C02",
            rule: "non-trivial: at least two parts with triangles (extend); some but not all triangles get marked (slope)",
            assumptions: &["triangles within 1e-5 of the limit cosine are not judged", "slope limits in [0, 90) degrees"],
            subs: vec![
                Sub { name: "extend", quick: 750_000, thorough: 8_000_000, f: c02_extend },
                Sub { name: "slope", quick: 1_000_000, thorough: 10_000_000, f: c02_slope },
                Sub { name: "slopes", quick: 200, thorough: 5_000, f: c02_slopes },
            ],
        },
        Prop {
            id: "C03",
            rule: "non-trivial: the triangle definitely crosses at least two columns (whole), leaves a span (ragged, long), or the mesh has at least 4 triangles and leaves spans (mesh), or there are columns (grid)",
            assumptions: &["columns and voxels within float error of the triangle's border may go either way", "heights beyond voxel 65535 are clamped", "triangles that are a point seen from above need not appear"],
            subs: vec![
                Sub { name: "whole", quick: 750_000, thorough: 8_000_000, f: c03_whole },
                Sub { name: "ragged", quick: 400_000, thorough: 4_000_000, f: c03_ragged },
                Sub { name: "long", quick: 7_500, thorough: 60_000, f: c03_long },
                Sub { name: "mesh", quick: 30_000, thorough: 300_000, f: c03_mesh },
                Sub { name: "grid", quick: 60_000, thorough: 600_000, f: c03_grid },
            ],
        },
        Prop {
            id: "C04",
            rule: "non-trivial: at least one piece merges with existing spans",
            assumptions: &["pieces are fed through single-cell triangles"],
            subs: vec![
                Sub { name: "pieces", quick: 1_000_000, thorough: 10_000_000, f: c04_case },
                Sub { name: "crowd", quick: 60, thorough: 2_000, f: c04_crowd },
                Sub { name: "access", quick: 100_000, thorough: 300_000, f: c04_access },
            ],
        },
    ]
}
