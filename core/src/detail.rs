//! C22, C23, C34: the detail mesh.
use crate::ad::*;
use crate::{contours, gens};
use glam::{U16Vec3, Vec3};
use pbt::*;
use refmodel::chf::{Chf, NONE};
use refmodel::detail::{self as model, Patch};
use refmodel::field::{Field, Span};
use rerecast::*;
use std::collections::HashMap;

pub struct DIn {
    pub m: Chf,
    pub chf: CompactHeightfield,
    pub pm: PolygonNavmesh,
    pub sd: f32,
    pub err: f32,
    /// Of many polygons, the few that are judged: (every how many blocks of eight, first block).
    pub few: Option<(usize, usize)>,
}
impl DIn {
    fn judged(&self, k: usize) -> bool {
        self.few.is_none_or(|(every, first)| k / 8 % every == first || k + 8 >= self.pm.regions.len())
    }
    fn run(&self, sd: f32, err: f32) -> Result<DetailNavmesh, Fail> {
        DetailNavmesh::new(&self.pm, &self.chf, sd, err).map_err(|e| Fail::new("refused", format!("{e:?}")))
    }
    fn radius(&self) -> i32 {
        (self.pm.max_edge_error.ceil() as i32).max(1)
    }
    fn corners(&self, k: usize) -> Vec<[i32; 3]> {
        let n = self.pm.max_vertices_per_polygon as usize;
        self.pm.polygons[k * n..(k + 1) * n]
            .iter()
            .take_while(|i| **i != PolygonNavmesh::NO_INDEX)
            .map(|i| {
                let v = self.pm.vertices[*i as usize];
                [v.x as i32, v.y as i32, v.z as i32]
            })
            .collect()
    }
    fn local(&self, k: usize) -> Vec<[f32; 3]> {
        let (cs, ch) = (self.pm.cell_size, self.pm.cell_height);
        self.corners(k).iter().map(|v| [v[0] as f32 * cs, v[1] as f32 * ch, v[2] as f32 * cs]).collect()
    }
    fn patch(&self, k: usize) -> Patch {
        Patch::new(&self.m, &self.corners(k), self.pm.regions[k].bits(), self.pm.border_size as i32)
    }
    fn text(&self) -> String {
        format!(
            "cs {} ch {} sampling {} error {} edge error {} border {} polygons {} vertices {:?}",
            self.pm.cell_size,
            self.pm.cell_height,
            self.sd,
            self.err,
            self.pm.max_edge_error,
            self.pm.border_size,
            self.pm.polygon_count(),
            self.pm.vertices.iter().take(24).map(|v| (v.x, v.y, v.z)).collect::<Vec<_>>()
        )
    }
    fn tol(&self) -> f32 {
        let ext = (self.m.w.max(self.m.h)) as f32 * self.pm.cell_size;
        let o = self.pm.aabb.min.abs().max_element();
        1e-3 * self.pm.cell_size + 4e-6 * (ext + o)
    }
    /// Without borders, corners, self-contact, ... : a polygon the statements speak about.
    fn proper(&self, k: usize) -> bool {
        let v = self.corners(k);
        let n = v.len();
        let mut s = 0i64;
        for i in 0..n {
            let (a, b, c) = (v[i], v[(i + 1) % n], v[(i + 2) % n]);
            let cr = (b[0] - a[0]) as i64 * (c[2] - a[2]) as i64 - (c[0] - a[0]) as i64 * (b[2] - a[2]) as i64;
            if cr > 0 || (a[0], a[2]) == (b[0], b[2]) {
                return false;
            }
            if cr == 0 {
                // not folded back
                let dot = (b[0] - a[0]) as i64 * (c[0] - b[0]) as i64 + (b[2] - a[2]) as i64 * (c[2] - b[2]) as i64;
                if dot < 0 {
                    return false;
                }
            }
            s += cr;
        }
        s < 0
    }
}
fn cells(s: &mut Src) -> (f32, f32, Vec3) {
    let cs = *s.pick(&[1.0f32, 0.5, 0.3, 0.25, 0.1, 2.0]);
    let ch = *s.pick(&[0.25f32, 0.5, 0.2, 1.0, 0.1]);
    let o = match s.weighted(&[2, 2, 1]) {
        0 => Vec3::ZERO,
        1 => Vec3::new(-3.0, 1.0, 8.0),
        _ => Vec3::new(s.int(-80, 80) as f32 * 0.5, s.int(-20, 20) as f32 * 0.5, s.int(-80, 80) as f32 * 0.5),
    };
    (cs, ch, o)
}
fn sampling(s: &mut Src, cs: f32, ch: f32) -> (f32, f32) {
    let sd = match s.weighted(&[1, 3, 3, 1]) {
        0 => 0.0,
        1 => cs * *s.pick(&[6.0f32, 1.0, 2.0, 3.0, 0.9]),
        2 => cs * s.int(8, 80) as f32 / 8.0,
        _ => cs * *s.pick(&[0.9f32, 30.0, 200.0]),
    };
    let err = match s.weighted(&[3, 3, 1]) {
        0 => ch,
        1 => ch * s.int(1, 40) as f32 / 8.0,
        _ => *s.pick(&[0.0f32, 1e-3, 100.0]),
    };
    (sd, err)
}
/// Floors of a landscape: slopes, bumps, steps, noise.
fn landscape(s: &mut Src, w: usize, h: usize) -> Vec<i32> {
    let base = 40;
    let (sx, sz) = (s.int(-4, 4) as i32, s.int(-4, 4) as i32);
    let noise = *s.pick(&[0i64, 0, 1, 2]);
    let bumps: Vec<(i32, i32, i32, i32)> = (0..s.small(0, 4)).map(|_| (s.int(0, w as i64) as i32, s.int(0, h as i64) as i32, s.int(1, 9) as i32, s.int(-12, 24) as i32)).collect();
    let steps: Vec<(bool, i32, i32)> = (0..s.small(0, 2)).map(|_| (s.bool(), s.int(0, 20) as i32, s.int(-6, 8) as i32)).collect();
    let mut y = vec![0; w * h];
    for z in 0..h as i32 {
        for x in 0..w as i32 {
            let mut v = base + (sx * x + sz * z) / 4;
            for (bx, bz, r, t) in &bumps {
                let d = (x - bx).abs().max((z - bz).abs());
                if d < *r {
                    v += t * (r - d) / r;
                }
            }
            for (along, at, t) in &steps {
                if if *along { x } else { z } > *at {
                    v += t;
                }
            }
            if noise > 0 {
                v += s.int(0, noise) as i32;
            }
            y[(x + z * w as i32) as usize] = v.max(0);
        }
    }
    // anywhere in the range of heights (0xffff is no height)
    let (low, high) = (y.iter().min().copied().unwrap_or(0) as i64, y.iter().max().copied().unwrap_or(0) as i64);
    let by = contours::lift_by(low, high + 12, s) as i32;
    y.iter_mut().for_each(|v| *v += by);
    y
}
/// Regions drawn by hand on a landscape, through contours and polygons.
fn labelled(s: &mut Src, c: &mut Ctx) -> Option<DIn> {
    let exact = s.chance(1, 4);
    let mut i = contours::labelled(s, 30, c, exact);
    if s.chance(4, 5) {
        let y = landscape(s, i.m.w, i.m.h);
        for e in i.m.spans.iter_mut() {
            e.y = y[e.x as usize + e.z as usize * i.m.w];
        }
    }
    pipeline(s, i, c)
}
/// Regions as the watershed makes them, several layers.
fn built(s: &mut Src, c: &mut Ctx) -> Option<DIn> {
    let exact = s.chance(1, 4);
    let i = contours::built(s, 40, c, exact)?;
    pipeline(s, i, c)
}
fn pipeline(s: &mut Src, i: contours::In, c: &mut Ctx) -> Option<DIn> {
    let (cs, ch, o) = cells(s);
    let (sd, err) = sampling(s, cs, ch);
    let chf = chf_to_code(&i.m, cs, ch, o, 4, 2);
    let set = chf.build_contours(i.max_error.min(200.0), i.max_edge, i.flags());
    let nvp = *s.pick(&[6u16, 6, 3, 4, 12]);
    let Ok(pm) = set.into_polygon_mesh(nvp) else {
        c.label("contour cannot be triangulated");
        return None;
    };
    let d = DIn { m: i.m, chf, pm, sd, err, few: None };
    c.describe(|| d.text());
    Some(d)
}
/// Freely drawn convex polygons over a landscape of one region.
fn drawn(s: &mut Src, c: &mut Ctx) -> Option<DIn> {
    let (w, h) = (s.usize(3, 48), s.usize(3, 48));
    let y = landscape(s, w, h);
    let mut f = Field::new(w, h);
    let holes = if s.chance(1, 4) { s.int(1, 4) as u64 } else { 0 };
    // a pit without ground, so wide that heights are searched many rings out
    let pit = s.chance(1, 5).then(|| (s.int(0, w as i64 - 1), s.int(0, h as i64 - 1), s.int(3, 30), s.int(3, 30)));
    let in_pit = |k: usize| pit.is_some_and(|(x, z, a, b)| ((k % w) as i64 - x) * 2 < a && (x - (k % w) as i64) * 2 < a && ((k / w) as i64 - z) * 2 < b && (z - (k / w) as i64) * 2 < b);
    for k in 0..w * h {
        if in_pit(k) {
            continue;
        }
        if holes == 0 || !s.chance(holes, 10) {
            f.cols[k].push(Span { min: 0, max: y[k].max(1), area: 255 });
        }
    }
    let mut m = Chf::build(&f, 2, 100).ok()?;
    m.border = s.weighted(&[3, 1, 1]);
    let b = m.border as i32;
    let (iw, ih) = (w as i32 - 2 * b, h as i32 - 2 * b);
    if iw < 1 || ih < 1 {
        return None;
    }
    let two = s.chance(1, 4);
    for e in m.spans.iter_mut() {
        e.reg = if two && e.x * 2 > w as i32 { 2 } else { 1 };
    }
    let (cs, ch, o) = cells(s);
    let (sd, err) = sampling(s, cs, ch);
    let chf = chf_to_code(&m, cs, ch, o, 4, 2);
    let n = s.usize(1, 4);
    let nvp = 8u16;
    let mut pm = PolygonNavmesh {
        max_vertices_per_polygon: nvp,
        aabb: Aabb3d { min: o + Vec3::new(b as f32 * cs, 0.0, b as f32 * cs), max: o + Vec3::new((w as i32 - b) as f32 * cs, 1000.0, (h as i32 - b) as f32 * cs) },
        cell_size: cs,
        cell_height: ch,
        border_size: b as u16,
        max_edge_error: *s.pick(&[1.3f32, 0.0, 1.0, 2.5, 4.0, 7.2, 15.0]),
        ..Default::default()
    };
    for _ in 0..n {
        // convex hull of random points
        let mut p: Vec<[i32; 2]> = (0..s.usize(3, 10)).map(|_| [s.int(0, iw as i64) as i32, s.int(0, ih as i64) as i32]).collect();
        p.sort();
        p.dedup();
        let hull = hull(&p);
        if hull.len() < 3 {
            continue;
        }
        let mut hull: Vec<_> = hull.into_iter().take(nvp as usize).collect();
        let turn = s.usize(0, hull.len() - 1);
        hull.rotate_left(turn);
        let steep = if s.chance(1, 4) { s.int(0, 9) } else { 0 };
        for k in 0..nvp as usize {
            if k >= hull.len() {
                pm.polygons.push(PolygonNavmesh::NO_INDEX);
            } else {
                let v = hull[k];
                let g = y[(v[0] + b).min(w as i32 - 1) as usize + (v[1] + b).min(h as i32 - 1) as usize * w] + s.int(0, steep.max(0)) as i32;
                pm.polygons.push(pm.vertices.len() as u16);
                pm.vertices.push(U16Vec3::new(v[0] as u16, g as u16, v[1] as u16));
            }
            pm.polygon_neighbors.push(PolygonNavmesh::NO_CONNECTION);
        }
        pm.regions.push(RegionId::from(*s.pick(&[1u16, 1, 1, 0, 2])));
        pm.areas.push(AreaType(255));
        pm.flags.push(0);
    }
    let d = DIn { m, chf, pm, sd, err, few: None };
    c.label_if(pit.is_some(), "a pit without ground");
    c.describe(|| format!("{w}x{h} holes {holes} pit {pit:?} {}", d.text()));
    if (0..d.pm.polygon_count()).any(|k| d.patch(k).failed) {
        c.label("no entry near a polygon");
        return None;
    }
    Some(d)
}
/// Polygons at the far end of a field as wide (or as deep) as coordinates allow.
fn far(s: &mut Src, c: &mut Ctx) -> Option<DIn> {
    let long = *s.pick(&[65535usize, 65534, 40000, 8000, 7000, 7500]);
    let short = s.usize(4, 9);
    let along_x = s.bool();
    let (w, h) = if along_x { (long, short) } else { (short, long) };
    let window = 40;
    let l = landscape(s, window, short);
    let y = |x: i32, z: i32| {
        let (a, b) = if along_x { (x, z) } else { (z, x) };
        let a = a - (long as i32 - window as i32);
        l[a.max(0) as usize + b as usize * window].max(1)
    };
    let mut f = Field::new(w, h);
    for z in 0..h {
        for x in 0..w {
            let far = if along_x { x } else { z };
            if far + window + 4 >= long {
                f.cols[x + z * w].push(Span { min: 0, max: y(x as i32, z as i32), area: 255 });
            }
        }
    }
    let mut m = Chf::build(&f, 2, 100).ok()?;
    for e in m.spans.iter_mut() {
        e.reg = 1;
    }
    let cs = *s.pick(&[1.0f32, 0.5, 0.3]);
    let ch = 0.25;
    let sd = cs * if long < 10000 { *s.pick(&[0.1f32, 0.11, 0.3]) } else { *s.pick(&[0.9f32, 0.9, 1.0, 6.0]) };
    let err = ch * s.int(0, 16) as f32 / 8.0;
    let chf = chf_to_code(&m, cs, ch, Vec3::ZERO, 4, 2);
    let mut pm = PolygonNavmesh {
        max_vertices_per_polygon: 6,
        aabb: Aabb3d { min: Vec3::ZERO, max: Vec3::new(w as f32 * cs, 1000.0, h as f32 * cs) },
        cell_size: cs,
        cell_height: ch,
        border_size: 0,
        max_edge_error: 1.3,
        ..Default::default()
    };
    let mut p: Vec<[i32; 2]> = (0..s.usize(3, 8))
        .map(|_| {
            let a = long as i32 - s.small(0, if sd < 0.3 * cs { 5 } else { 20 }) as i32;
            let b = s.int(0, short as i64) as i32;
            if along_x { [a, b] } else { [b, a] }
        })
        .collect();
    p.sort();
    p.dedup();
    let hull: Vec<_> = hull(&p).into_iter().take(6).collect();
    if hull.len() < 3 {
        return None;
    }
    for k in 0..6 {
        if k >= hull.len() {
            pm.polygons.push(PolygonNavmesh::NO_INDEX);
        } else {
            let v = hull[k];
            pm.polygons.push(k as u16);
            pm.vertices.push(U16Vec3::new(v[0] as u16, y(v[0].min(w as i32 - 1), v[1].min(h as i32 - 1)) as u16, v[1] as u16));
        }
        pm.polygon_neighbors.push(PolygonNavmesh::NO_CONNECTION);
    }
    pm.regions.push(RegionId::from(*s.pick(&[1u16, 1, 0])));
    pm.areas.push(AreaType(255));
    pm.flags.push(0);
    let d = DIn { m, chf, pm, sd, err, few: None };
    c.describe(|| format!("{w}x{h} {}", d.text()));
    Some(d)
}
/// More polygons than fit eight bits, more detail vertices and triangles than fit sixteen.
fn crowd(s: &mut Src, c: &mut Ctx) -> Option<DIn> {
    let side = s.usize(6, 7);
    let (nx, nz) = (s.usize(40, 46), s.usize(40, 46));
    let (w, h) = (nx * side, nz * side);
    let (lw, lh) = (s.usize(8, 40), s.usize(8, 40));
    let l = landscape(s, lw, lh);
    let seed = s.u64() | 1;
    let mix = |k: usize| (k as u64 + 1).wrapping_mul(seed).rotate_left(23).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33;
    let rough = *s.pick(&[4u64, 8, 12, 1]);
    // the landscape is repeated, mirrored, with some noise on it
    let fold = |v: usize, n: usize| if v / n % 2 == 0 { v % n } else { n - 1 - v % n };
    let y: Vec<i32> = (0..w * h).map(|k| l[fold(k % w, lw) + fold(k / w, lh) * lw] + (mix(k) % (rough + 1)) as i32).collect();
    let mut f = Field::new(w, h);
    for k in 0..w * h {
        f.cols[k].push(Span { min: 0, max: y[k].max(1), area: 255 });
    }
    let mut m = Chf::build(&f, 2, 100).ok()?;
    for e in m.spans.iter_mut() {
        e.reg = 1 + ((e.x as usize / side + e.z as usize / side) % 2000) as u16;
    }
    let (cs, ch, o) = cells(s);
    let sd = cs * *s.pick(&[1.0f32, 1.0, 1.0, 0.9, 0.9, 2.0]);
    let err = ch * *s.pick(&[0.1f32, 0.1, 0.1, 0.3, 1.0]);
    let chf = chf_to_code(&m, cs, ch, o, 4, 2);
    let nvp = *s.pick(&[4u16, 6, 6, 7]);
    let mut pm = PolygonNavmesh {
        max_vertices_per_polygon: nvp,
        aabb: Aabb3d { min: o, max: o + Vec3::new(w as f32 * cs, 1000.0, h as f32 * cs) },
        cell_size: cs,
        cell_height: ch,
        max_edge_error: *s.pick(&[1.3f32, 1.0]),
        ..Default::default()
    };
    for z in 0..nz {
        for x in 0..nx {
            let (a, b) = ((x * side) as i32, (z * side) as i32);
            let (e, g) = (a + side as i32, b + side as i32);
            // a square, sometimes without a corner
            let mut p = vec![[a, b], [a, g], [e, g], [e, b]];
            match mix(x + z * nx + w * h) % 8 {
                k @ 0..4 => drop(p.remove(k as usize)),
                _ => {}
            }
            for k in 0..nvp as usize {
                if k >= p.len() {
                    pm.polygons.push(PolygonNavmesh::NO_INDEX);
                } else {
                    pm.polygons.push(pm.vertices.len() as u16);
                    let v = p[k];
                    pm.vertices.push(U16Vec3::new(v[0] as u16, y[v[0].min(w as i32 - 1) as usize + v[1].min(h as i32 - 1) as usize * w] as u16, v[1] as u16));
                }
                pm.polygon_neighbors.push(PolygonNavmesh::NO_CONNECTION);
            }
            pm.regions.push(RegionId::from(1 + ((x + z) % 2000) as u16));
            pm.areas.push(AreaType(255));
            pm.flags.push(0);
        }
    }
    let every = 12;
    let few = Some((every, s.usize(0, every - 1)));
    let d = DIn { m, chf, pm, sd, err, few };
    c.describe(|| format!("{w}x{h}, {} polygons, {}", nx * nz, d.text()));
    Some(d)
}
/// Convex hull in the winding of polygons (no collinear points).
fn hull(p: &[[i32; 2]]) -> Vec<[i32; 2]> {
    let cross = |a: [i32; 2], b: [i32; 2], c: [i32; 2]| (b[0] - a[0]) as i64 * (c[1] - a[1]) as i64 - (c[0] - a[0]) as i64 * (b[1] - a[1]) as i64;
    let half = |it: &mut dyn Iterator<Item = &[i32; 2]>| {
        let mut h: Vec<[i32; 2]> = vec![];
        for q in it {
            while h.len() >= 2 && cross(h[h.len() - 2], h[h.len() - 1], *q) <= 0 {
                h.pop();
            }
            h.push(*q);
        }
        h.pop();
        h
    };
    let mut a = half(&mut p.iter());
    a.extend(half(&mut p.iter().rev()));
    a.reverse();
    a
}

// ------------------------------------------------------------------ views of the result
struct Sub {
    v: Vec<[f32; 3]>,
    t: Vec<[usize; 3]>,
    f: Vec<u8>,
}
/// Ranges of the sub-meshes, and the sub-meshes in local coordinates.
fn subs(i: &DIn, d: &DetailNavmesh) -> Result<Vec<Sub>, Fail> {
    ensure!(d.meshes.len() == i.pm.polygon_count() || i.pm.vertices.is_empty(), "sub-meshes", "{} sub-meshes for {} polygons", d.meshes.len(), i.pm.polygon_count());
    ensure!(d.triangle_flags.len() == d.triangles.len(), "flag-count", "{} flags for {} triangles", d.triangle_flags.len(), d.triangles.len());
    let (mut nv, mut nt) = (0, 0);
    let mut out = vec![];
    let o = i.pm.aabb.min;
    for (k, s) in d.meshes.iter().enumerate() {
        ensure!(s.base_vertex_index as usize == nv && s.base_triangle_index as usize == nt, "ranges", "sub-mesh {k} starts at vertex {} and triangle {}, {nv} and {nt} are taken", s.base_vertex_index, s.base_triangle_index);
        let (v, t) = (nv + s.vertex_count as usize, nt + s.triangle_count as usize);
        ensure!(v <= d.vertices.len() && t <= d.triangles.len(), "ranges", "sub-mesh {k} reaches past the end of the lists");
        for q in &d.triangles[nt..t] {
            ensure!(q.iter().all(|x| (*x as usize) < v - nv), "index", "sub-mesh {k} with {} vertices has the triangle {q:?}", v - nv);
        }
        out.push(Sub {
            v: d.vertices[nv..v].iter().map(|p| [p.x - o.x, p.y - o.y - i.chf.cell_height, p.z - o.z]).collect(),
            t: d.triangles[nt..t].iter().map(|q| [q[0] as usize, q[1] as usize, q[2] as usize]).collect(),
            f: d.triangle_flags[nt..t].to_vec(),
        });
        (nv, nt) = (v, t);
    }
    ensure!(nv == d.vertices.len() && nt == d.triangles.len(), "ranges", "the sub-meshes use {nv} of {} vertices and {nt} of {} triangles", d.vertices.len(), d.triangles.len());
    Ok(out)
}
fn area(a: [f32; 3], b: [f32; 3], c: [f32; 3]) -> f64 {
    let (ax, az) = (a[0] as f64, a[2] as f64);
    ((b[0] as f64 - ax) * (c[2] as f64 - az) - (c[0] as f64 - ax) * (b[2] as f64 - az)) / 2.0
}
/// Vertices on the outline of the polygon: per edge (from corner j to j+1) the further vertices in walking order.
fn outline(i: &DIn, poly: &[[f32; 3]], s: &Sub) -> Result<(Vec<Vec<usize>>, Vec<usize>), Fail> {
    let n = poly.len();
    let tol = i.tol();
    let mut per: Vec<Vec<(f32, usize)>> = vec![vec![]; n];
    let mut inner = vec![];
    for k in n..s.v.len() {
        let p = [s.v[k][0], s.v[k][2]];
        let xz = |j: usize| [poly[j % n][0], poly[j % n][2]];
        let on = (0..n).min_by(|a, b| model::seg2(p, xz(*a), xz(a + 1)).total_cmp(&model::seg2(p, xz(*b), xz(b + 1)))).unwrap();
        if model::seg2(p, xz(on), xz(on + 1)).sqrt() <= tol {
            let (a, b) = (xz(on), xz(on + 1));
            let t = ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / ((b[0] - a[0]).powi(2) + (b[1] - a[1]).powi(2));
            per[on].push((t, k));
        } else {
            let inside = (0..n).all(|j| area(poly[j], poly[(j + 1) % n], s.v[k]) < 0.0);
            ensure!(inside, "outside", "vertex {k} at {:?} is outside of the polygon {poly:?}", s.v[k]);
            inner.push(k);
        }
    }
    for e in per.iter_mut() {
        e.sort_by(|a, b| a.0.total_cmp(&b.0));
    }
    Ok((per.into_iter().map(|e| e.into_iter().map(|x| x.1).collect()).collect(), inner))
}
/// The model's result for polygon k.
fn original(i: &DIn, k: usize, sd: f32, err: f32) -> model::Out {
    model::build(&i.local(k), sd, err, i.radius(), i.pm.cell_size, i.pm.cell_height, &i.patch(k))
}
fn canon(t: [usize; 3]) -> [usize; 3] {
    let k = (0..3).min_by_key(|k| t[*k]).unwrap();
    [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
}
/// Whether differently rounded numbers lead the original to another result: the inputs are changed by about 1e-6.
fn unsteady(i: &DIn, k: usize, sd: f32, err: f32, o: &model::Out, own: Option<&Sub>) -> bool {
    let mut seed = 0x9e3779b97f4a7c15u64 ^ k as u64;
    let mut r = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        (seed >> 40) as f32 / (1u64 << 23) as f32 - 1.0
    };
    let poly = i.local(k);
    let patch = i.patch(k);
    let ext = poly.iter().flatten().fold(0f32, |a, b| a.max(b.abs()));
    let e = 1e-6;
    let mut any = false;
    let (mut lo, mut hi) = (o.verts.len(), o.verts.len());
    for _ in 0..10 {
        let p: Vec<[f32; 3]> = poly.iter().map(|v| [v[0] + r() * e * ext, v[1] + r() * e * ext, v[2] + r() * e * ext]).collect();
        let sdp = sd * (1.0 + r() * e);
        let errp = err * (1.0 + r() * e) + r().abs() * e * ext * (err == 0.0) as u8 as f32;
        let q = model::build(&p, sdp, errp, i.radius(), i.pm.cell_size, i.pm.cell_height, &patch);
        (lo, hi) = (lo.min(q.verts.len()), hi.max(q.verts.len()));
        let sub = Sub { v: q.verts, t: q.tris, f: vec![] };
        any |= differs(i, &sub, o).is_some();
    }
    // even then, the number of vertices stays about the same
    any && own.is_none_or(|s| s.v.len() + 2 + hi / 4 >= lo && s.v.len() <= hi + 2 + hi / 4)
}
/// None when the sub-mesh equals the model's, otherwise what differs.
fn differs(i: &DIn, s: &Sub, o: &model::Out) -> Option<String> {
    if s.v.len() != o.verts.len() {
        return Some(format!("{} vertices, the original has {}", s.v.len(), o.verts.len()));
    }
    let tol = i.tol();
    let near = |a: [f32; 3], b: [f32; 3]| (0..3).all(|k| (a[k] - b[k]).abs() <= tol + 1e-5 * b[k].abs());
    // our index of each of the model's vertices
    let mut idx = vec![];
    for (k, v) in o.verts.iter().enumerate() {
        let Some(q) = (if near(s.v[k], *v) { Some(k) } else { (0..s.v.len()).find(|q| near(s.v[*q], *v)) }) else {
            return Some(format!("there is no vertex at {v:?} (the one in its place is at {:?})", s.v[k]));
        };
        idx.push(q);
    }
    let mut a: Vec<_> = s.t.iter().map(|t| canon(*t)).collect();
    let mut b: Vec<_> = o.tris.iter().map(|t| canon([idx[t[0]], idx[t[1]], idx[t[2]]])).collect();
    a.sort();
    b.sort();
    (a != b).then(|| format!("triangles {a:?}, the original has {b:?}"))
}

// ------------------------------------------------------------------ C22
fn tiling(i: &DIn, k: usize, s: &Sub, c: &mut Ctx) -> Res {
    let poly = i.local(k);
    let n = poly.len();
    let corners = i.corners(k);
    let (per, inner) = outline(i, &poly, s)?;
    let mut next: HashMap<usize, usize> = HashMap::new();
    for (j, e) in per.iter().enumerate() {
        let mut chain = vec![j];
        chain.extend(e);
        chain.push((j + 1) % n);
        for w in chain.windows(2) {
            ensure!(next.insert(w[0], w[1]).is_none(), "outline", "vertex {} is twice on the outline", w[0]);
        }
    }
    let mut seen: HashMap<(usize, usize), usize> = HashMap::new();
    let scale = poly.iter().fold(0f64, |m, v| m.max((v[0].abs() + v[2].abs()) as f64));
    let eps = 1e-5 * scale * scale + 1e-6;
    let mut sum = 0.0;
    for (t, q) in s.t.iter().enumerate() {
        let f = s.f[t];
        ensure!(f & !0b10101 == 0, "flag-bits", "triangle {t} has the flags {f:#b}");
        for e in 0..3 {
            let (a, b) = (q[e], q[(e + 1) % 3]);
            let edge = next.get(&a) == Some(&b);
            let flag = f >> (2 * e) & 1 != 0;
            ensure!(edge == flag, "edge-flag", "edge {a}-{b} of triangle {t} is {} on the outline of the polygon but flagged {flag}", if edge { "" } else { "not" });
            *seen.entry((a, b)).or_default() += 1;
        }
        let w = -area(s.v[q[0]], s.v[q[1]], s.v[q[2]]);
        ensure!(w > -eps, "winding", "triangle {t} {q:?} is wound the other way (area {w})");
        sum += w;
    }
    let want: f64 = (1..n - 1).map(|j| -area(poly[0], poly[j], poly[j + 1])).sum();
    ensure!((sum - want).abs() <= eps * (s.t.len() + 2) as f64, "area", "the triangles cover {sum} of {want} (polygon {corners:?})");
    for ((a, b), m) in &seen {
        ensure!(*m == 1, "overlap", "edge {a}-{b} belongs to {m} triangles in this direction");
        ensure!(next.get(a) == Some(b) || seen.contains_key(&(*b, *a)), "gap", "edge {a}-{b} lies inside the polygon but has a triangle on one side only");
    }
    for (a, b) in &next {
        ensure!(seen.contains_key(&(*a, *b)), "gap", "no triangle touches the outline between {a} and {b}");
    }
    let mut used = vec![false; s.v.len()];
    s.t.iter().flatten().for_each(|v| used[*v] = true);
    ensure!(used.iter().all(|u| *u), "unused", "a vertex belongs to no triangle");
    c.count("polygons", 1);
    c.count("inner vertices", inner.len() as u64);
    c.count("outline vertices", per.iter().map(|e| e.len() as u64).sum());
    Ok(())
}
fn c22_oracle(i: &DIn, c: &mut Ctx) -> Res {
    let d = i.run(i.sd, i.err)?;
    c.label_if(d.vertices.len() > 65536, "more vertices than sixteen bits count");
    let all = subs(i, &d)?;
    let mut extra = 0;
    for (k, s) in all.iter().enumerate() {
        if !i.judged(k) {
            continue;
        }
        let poly = i.local(k);
        ensure!(s.v.len() >= poly.len() && s.v.len() <= DetailNavmesh::MAX_VERTICES_PER_SUBMESH && s.t.len() <= DetailNavmesh::MAX_TRIANGLES_PER_SUBMESH, "size", "sub-mesh {k} has {} vertices and {} triangles", s.v.len(), s.t.len());
        let tol = i.tol();
        for (j, v) in poly.iter().enumerate() {
            ensure!((v[0] - s.v[j][0]).abs() <= tol && (v[2] - s.v[j][2]).abs() <= tol, "corner", "corner {j} of polygon {k} at {v:?} has become {:?}", s.v[j]);
        }
        if !i.proper(k) {
            c.count("improper polygons", 1);
            continue;
        }
        extra += s.v.len() - poly.len();
        if i.sd <= 0.0 {
            c.label("sampling off");
            ensure!(s.v.len() == poly.len(), "sampling-off", "sub-mesh {k} has {} vertices for {} corners", s.v.len(), poly.len());
        }
        if let Err(f) = tiling(i, k, s, c) {
            // the original's triangulation is not exact with rounded numbers
            let o = original(i, k, i.sd, i.err);
            if differs(i, s, &o).is_none() && f.sig != "edge-flag" && f.sig != "flag-bits" {
                c.label("the original fails as well");
                continue;
            }
            if f.sig != "edge-flag" && f.sig != "flag-bits" && unsteady(i, k, i.sd, i.err, &o, Some(s)) {
                c.label("decided by rounding");
                continue;
            }
            return Err(f);
        }
    }
    c.count("sub-meshes", all.len() as u64);
    c.nontrivial_if(extra > 0 || (i.sd <= 0.0 && !all.is_empty()));
    Ok(())
}

// ------------------------------------------------------------------ C23
fn c23_oracle(i: &DIn, c: &mut Ctx) -> Res {
    let d = i.run(i.sd, i.err)?;
    c.label_if(d.vertices.len() > 65536, "more vertices than sixteen bits count");
    let all = subs(i, &d)?;
    let (cs, ch) = (i.pm.cell_size, i.pm.cell_height);
    let ics = 1.0 / cs;
    let tol = i.tol();
    let ytol = |y: f32| 1e-3 * ch + 1e-5 * (y.abs() + i.pm.aabb.min.y.abs());
    let floor0 = i.m.spans.first().map(|s| s.y);
    let flat = i.m.spans.iter().all(|s| Some(s.y) == floor0) && i.pm.vertices.iter().all(|v| Some(v.y as i32) == floor0);
    let mut boundary: Vec<Option<Vec<Vec<[f32; 3]>>>> = vec![];
    let mut outs = vec![];
    let mut extra = 0;
    for (k, s) in all.iter().enumerate() {
        if !i.judged(k) {
            boundary.push(None);
            outs.push(None);
            continue;
        }
        let poly = i.local(k);
        let n = poly.len();
        for (j, v) in poly.iter().enumerate() {
            ensure!((v[1] - s.v[j][1]).abs() <= ytol(v[1]), "corner-height", "corner {j} of polygon {k} at {v:?} has become {:?}", s.v[j]);
        }
        if !i.proper(k) {
            boundary.push(None);
            outs.push(None);
            continue;
        }
        let hp = i.patch(k);
        let o = model::build(&poly, i.sd, i.err, i.radius(), cs, ch, &hp);
        extra += s.v.len() - n;
        if flat && i.err > tol {
            ensure!(s.v.len() == n || hp.data.contains(&model::UNSET), "flat", "polygon {k} on flat ground has {} detail vertices", s.v.len() - n);
        }
        let (per, inner) = outline(i, &poly, s)?;
        // every detail vertex has the height of the surface there
        for q in n..s.v.len() {
            let v = s.v[q];
            let mut ok = false;
            let mut cand = vec![];
            let e = 0.02 * cs;
            // a jittered sample has the height of its place on the sampling grid
            let mut at = vec![[v[0], v[2]]];
            if inner.contains(&q) {
                at = vec![[(v[0] / i.sd).round() * i.sd, (v[2] / i.sd).round() * i.sd]];
                let far = (v[0] - at[0][0]).abs().max((v[2] - at[0][1]).abs());
                ensure!(far <= 0.1 * cs + tol, "off-grid", "inner vertex {q} of polygon {k} at {v:?} is {far} away from the sampling grid");
            }
            for p in &at {
                for (ox, oz) in [(0.0, 0.0), (e, e), (-e, e), (e, -e), (-e, -e)] {
                    let cell = hp.cell(p[0] + ox, p[1] + oz, ics);
                    // the spiral prefers the height closest to the starting height, which is not known exactly: any of its ring
                    let own = hp.data[(cell.0 + cell.1 * hp.w) as usize];
                    if own != model::UNSET {
                        cand.push(own);
                    } else {
                        for r in 1..=i.radius() {
                            let l: Vec<u16> = model::ring(r)
                                .into_iter()
                                .map(|(x, z)| (cell.0 + x, cell.1 + z))
                                .filter(|(x, z)| *x >= 0 && *z >= 0 && *x < hp.w && *z < hp.h)
                                .map(|(x, z)| hp.data[(x + z * hp.w) as usize])
                                .filter(|h| *h != model::UNSET)
                                .collect();
                            if !l.is_empty() {
                                cand.extend(l);
                                break;
                            }
                        }
                        if cand.is_empty() {
                            cand.push(model::UNSET);
                        }
                    }
                }
            }
            for h in &cand {
                ok |= (v[1] - *h as f32 * ch).abs() <= ytol(v[1]);
            }
            cand.sort();
            cand.dedup();
            ensure!(ok, "height", "vertex {q} of polygon {k} at {v:?} is {} voxels high, the surface there {cand:?}", v[1] / ch);
        }
        // the surface stays within the error limit of every sample
        if i.sd > 0.0 && s.v.len() < model::MAX_VERTS && !o.capped {
            let lim = i.err * 1.0001 + ytol(poly[0][1]) + 0.01 * ch;
            for j in 0..n {
                // edge j of the model runs from corner j-1 to j
                let e = &o.edges[j];
                let a = (j + n - 1) % n;
                let mut keep: Vec<[f32; 3]> = per[a].iter().map(|q| s.v[*q]).collect();
                keep.push(e[0]);
                keep.push(*e.last().unwrap());
                let (f, l) = (e[0], *e.last().unwrap());
                let t = |p: &[f32; 3]| (p[0] - f[0]) * (l[0] - f[0]) + (p[2] - f[2]) * (l[2] - f[2]);
                keep.sort_by(|a, b| t(a).total_cmp(&t(b)));
                for p in e {
                    let near = keep.windows(2).map(|w| model::seg3(*p, w[0], w[1]).sqrt()).fold(f32::MAX, f32::min);
                    ensure!(near <= lim + tol, "edge-error", "sample {p:?} on edge {a} of polygon {k} is {near} away from the detail mesh (limit {})", i.err);
                    c.count("edge samples", 1);
                }
            }
            if !o.sliver && o.dangling == 0 {
                for (q, p) in o.samples.iter().enumerate() {
                    if let Some(e) = model::dist_mesh(p.pt, &s.v, &s.t) {
                        if e > lim + ytol(p.pt[1]) && unsteady(i, k, i.sd, i.err, &o, Some(s)) {
                            c.label("decided by rounding");
                            break;
                        }
                        if e > lim + ytol(p.pt[1]) && differs(i, s, &o).is_none() && tiling(i, k, s, &mut Ctx::default()).is_err() {
                            c.label("the original fails as well");
                            break;
                        }
                        ensure!(e <= lim + ytol(p.pt[1]), "sample-error", "sample {q} at {:?} is {e} above or below the detail mesh of polygon {k} (limit {}; {} vertices, {} triangles, {} samples; {:?})", p.pt, i.err, s.v.len(), s.t.len(), o.samples.len(), differs(i, s, &o));
                    }
                    c.count("inner samples", 1);
                }
            }
        }
        boundary.push(Some(per.iter().map(|e| e.iter().map(|q| s.v[*q]).collect()).collect()));
        outs.push(Some((hp, o)));
    }
    // the border between neighbours
    let nvp = i.pm.max_vertices_per_polygon as usize;
    for k in 0..all.len() {
        for j in 0..i.corners(k).len() {
            let nb = i.pm.polygon_neighbors[k * nvp + j] as usize;
            if nb >= all.len() || nb <= k {
                continue;
            }
            let (Some(a), Some(b)) = (&boundary[k], &boundary[nb]) else { continue };
            let (Some((ha, oa)), Some((hb, ob))) = (&outs[k], &outs[nb]) else { continue };
            let m = i.corners(nb).len();
            let Some(j2) = (0..m).find(|q| i.pm.polygon_neighbors[nb * nvp + q] as usize == k) else { continue };
            if (0..m).filter(|q| i.pm.polygon_neighbors[nb * nvp + q] as usize == k).count() != 1 || i.sd <= 0.0 || oa.capped || ob.capped {
                continue;
            }
            // both sides know the same surface along the edge
            let ea = &oa.edges[(j + 1) % i.corners(k).len()];
            let eb = &ob.edges[(j2 + 1) % m];
            let known = |h: &Patch, p: &[f32; 3]| {
                let cl = h.cell(p[0], p[2], ics);
                h.data[(cl.0 + cl.1 * h.w) as usize]
            };
            if ea.len() != eb.len() || ea.iter().zip(eb).any(|(p, q)| known(ha, p) == model::UNSET || known(ha, p) != known(hb, q)) {
                continue;
            }
            let mut back = b[j2].clone();
            back.reverse();
            let same = a[j].len() == back.len() && a[j].iter().zip(&back).all(|(p, q)| (0..3).all(|x| (p[x] - q[x]).abs() <= tol + ytol(p[1])));
            ensure!(same, "seam", "the edge between polygons {k} and {nb} has the points {:?} on one side and {back:?} on the other", a[j]);
            c.count("shared edges", 1);
            c.count("points on shared edges", back.len() as u64);
        }
    }
    // a looser limit keeps no other outline points; without sampling there are none
    if i.sd > 0.0 {
        let loose = i.err * 1.7 + 0.3 * ch;
        let l = subs(i, &i.run(i.sd, loose)?)?;
        for k in 0..all.len() {
            let (Some(b), Some((_, o))) = (&boundary[k], &outs[k]) else { continue };
            if o.capped || original(i, k, i.sd, loose).capped {
                continue;
            }
            let (per, _) = outline(i, &i.local(k), &l[k])?;
            for (j, e) in per.iter().enumerate() {
                for q in e {
                    let p = l[k].v[*q];
                    let there = b[j].iter().any(|v| (0..3).all(|x| (p[x] - v[x]).abs() <= tol + ytol(p[1])));
                    if !there && (unsteady(i, k, i.sd, i.err, o, Some(&all[k])) || unsteady(i, k, i.sd, loose, &original(i, k, i.sd, loose), Some(&l[k]))) {
                        c.label("decided by rounding");
                        continue;
                    }
                    ensure!(there, "looser", "with the looser limit {loose} edge {j} of polygon {k} gains the point {p:?}");
                }
            }
        }
        for (k, s) in subs(i, &i.run(0.0, i.err)?)?.iter().enumerate() {
            ensure!(s.v.len() == i.corners(k).len(), "sampling-off", "without sampling polygon {k} has {} vertices for {} corners", s.v.len(), i.corners(k).len());
        }
    }
    c.label_if(flat, "flat");
    c.nontrivial_if(extra > 0);
    Ok(())
}

// ------------------------------------------------------------------ C34
fn c34_oracle(i: &DIn, c: &mut Ctx) -> Res {
    let d = i.run(i.sd, i.err)?;
    c.label_if(d.vertices.len() > 65536, "more vertices than sixteen bits count");
    let all = subs(i, &d)?;
    let mut extra = 0;
    for (k, s) in all.iter().enumerate() {
        if !i.judged(k) {
            continue;
        }
        let hp = i.patch(k);
        ensure!(!hp.failed, "model", "no entry near polygon {k}");
        c.label_if(hp.seeded, "seeded from the centre");
        let o = original(i, k, i.sd, i.err);
        extra += o.verts.len() - i.corners(k).len();
        let diff = differs(i, s, &o);
        c.count("sub-meshes", 1);
        if o.verts.len() > i.corners(k).len() && i.local(k).iter().flatten().fold(7u32, |a, v| (a ^ v.to_bits()).wrapping_mul(0x9E37_79B1).rotate_left(13)) % 32 == 0 {
            c.count("probed for steadiness", 1);
            c.count("of these steady", !unsteady(i, k, i.sd, i.err, &o, None) as u64);
        }
        if let Some(m) = diff {
            if unsteady(i, k, i.sd, i.err, &o, Some(s)) {
                c.label("decided by rounding");
                c.count("different by rounding", 1);
                continue;
            }
            return Err(Fail::new("differs", format!("polygon {k}: {m}")));
        }
    }
    c.nontrivial_if(extra > 0);
    Ok(())
}

macro_rules! drive_opt {
    ($($name:ident = $oracle:ident($gen:ident);)*) => { $(fn $name(s: &mut Src, c: &mut Ctx) -> Res { let Some(i) = $gen(s, c) else { return Ok(()) }; $oracle(&i, c) })* };
}
drive_opt! {
    c22_labelled = c22_oracle(labelled); c22_built = c22_oracle(built); c22_drawn = c22_oracle(drawn); c22_far = c22_oracle(far); c22_crowd = c22_oracle(crowd);
    c23_labelled = c23_oracle(labelled); c23_built = c23_oracle(built); c23_drawn = c23_oracle(drawn); c23_crowd = c23_oracle(crowd);
    c34_labelled = c34_oracle(labelled); c34_built = c34_oracle(built); c34_drawn = c34_oracle(drawn); c34_far = c34_oracle(far); c34_crowd = c34_oracle(crowd);
}
pub fn props() -> Vec<Prop> {
    let _ = (NONE, gens::AREAS);
    vec![
        Prop {
            id: "C22",
            rule: "non-trivial: a sub-mesh got detail vertices, or sampling is switched off and there are polygons",
            assumptions: &["convex polygons without repeated or folded corners", "where rounding alone decides the triangulation, a failure shared with the original (or one where the original's result changes with inputs changed by 1e-6) is not reported"],
            subs: vec![
                pbt::Sub { name: "labelled", quick: 20_000, thorough: 800_000, f: c22_labelled },
                pbt::Sub { name: "built", quick: 8_000, thorough: 300_000, f: c22_built },
                pbt::Sub { name: "drawn", quick: 20_000, thorough: 800_000, f: c22_drawn },
                pbt::Sub { name: "far", quick: 60, thorough: 3_000, f: c22_far },
                pbt::Sub { name: "crowd", quick: 12, thorough: 400, f: c22_crowd },
            ],
        },
        Prop {
            id: "C23",
            rule: "non-trivial: a sub-mesh got detail vertices",
            assumptions: &["the walkable surface under a polygon is the height patch the original collects for it (own region, then flood fill)"],
            subs: vec![
                pbt::Sub { name: "labelled", quick: 20_000, thorough: 800_000, f: c23_labelled },
                pbt::Sub { name: "built", quick: 8_000, thorough: 300_000, f: c23_built },
                pbt::Sub { name: "drawn", quick: 20_000, thorough: 800_000, f: c23_drawn },
                pbt::Sub { name: "crowd", quick: 12, thorough: 400, f: c23_crowd },
            ],
        },
        Prop {
            id: "C34",
            rule: "non-trivial: a sub-mesh got detail vertices",
            assumptions: &["lib/refmodel re-implements rcBuildPolyMeshDetail in single precision; it is validated by the C++ dumps in the repository's reference data", "differences are not reported where the original's own result changes with inputs changed by 1e-6 (relative)"],
            subs: vec![
                pbt::Sub { name: "labelled", quick: 20_000, thorough: 800_000, f: c34_labelled },
                pbt::Sub { name: "built", quick: 8_000, thorough: 300_000, f: c34_built },
                pbt::Sub { name: "drawn", quick: 20_000, thorough: 800_000, f: c34_drawn },
                pbt::Sub { name: "far", quick: 60, thorough: 3_000, f: c34_far },
                pbt::Sub { name: "crowd", quick: 12, thorough: 400, f: c34_crowd },
                pbt::Sub { name: "reference", quick: 6, thorough: 8, f: crate::reference::c23 },
            ],
        },
    ]
}
