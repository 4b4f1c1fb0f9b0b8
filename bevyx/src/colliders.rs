//! C29: physics shapes as triangle meshes.
use crate::meshes::unique;
use avian3d::parry::{
    math::{Isometry, Point, Vector},
    na::{DMatrix, Quaternion, Translation3, UnitQuaternion},
    shape::SharedShape,
};
use avian3d::prelude::{Collider, ColliderOf, RigidBody};
use avian_rerecast::AvianRerecastPlugin;
use bevy_app::App;
use bevy_rerecast_core::NavmeshAffectorBackend;
use bevy_transform::components::GlobalTransform;
use glam::{Quat, UVec3, Vec3};
use crate::meshes::Lcg;
use pbt::*;
use rerecast::{AreaType, TriMesh};
use std::collections::HashMap;

type Tri = [Vec3; 3];

#[derive(Clone, Debug)]
enum Shape {
    Ball(f32),
    Cuboid(Vec3),
    Cylinder(f32, f32),
    Cone(f32, f32),
    Capsule(f32, Vec3, Vec3),
    Hull(Vec<Vec3>),
    Mesh(Vec<Vec3>, Vec<[u32; 3]>),
    Height(usize, usize, Vec<f32>, Vec3),
    Triangle(Vec3, Vec3, Vec3),
    Round(Box<Shape>, f32),
    Segment(Vec3, Vec3),
    Polyline(Vec<Vec3>),
    Half(Vec3),
    Compound(Vec<(Vec3, Quat, Shape)>),
}
use Shape::*;

fn pt(v: Vec3) -> Point<f32> {
    Point::new(v.x, v.y, v.z)
}
fn shared(k: &Shape) -> Option<SharedShape> {
    Some(match k {
        Ball(r) => SharedShape::ball(*r),
        Cuboid(e) => SharedShape::cuboid(e.x / 2.0, e.y / 2.0, e.z / 2.0),
        Cylinder(r, h) => SharedShape::cylinder(h / 2.0, *r),
        Cone(r, h) => SharedShape::cone(h / 2.0, *r),
        Capsule(r, a, b) => SharedShape::capsule(pt(*a), pt(*b), *r),
        Hull(p) => SharedShape::convex_hull(&p.iter().map(|v| pt(*v)).collect::<Vec<_>>())?,
        Mesh(v, i) => SharedShape::trimesh(v.iter().map(|v| pt(*v)).collect(), i.clone()),
        Height(w, h, d, sc) => SharedShape::heightfield(DMatrix::from_fn(*h, *w, |z, x| d[z * w + x]), Vector::new(sc.x, sc.y, sc.z)),
        Triangle(a, b, c) => SharedShape::triangle(pt(*a), pt(*b), pt(*c)),
        Segment(a, b) => SharedShape::segment(pt(*a), pt(*b)),
        Polyline(p) => SharedShape::polyline(p.iter().map(|v| pt(*v)).collect(), None),
        Half(n) => Collider::half_space(*n).shape().clone(),
        Round(k, r) => match &**k {
            Cuboid(e) => SharedShape::round_cuboid(e.x / 2.0, e.y / 2.0, e.z / 2.0, *r),
            Cylinder(q, h) => SharedShape::round_cylinder(h / 2.0, *q, *r),
            Cone(q, h) => SharedShape::round_cone(h / 2.0, *q, *r),
            Triangle(a, b, c) => SharedShape::round_triangle(pt(*a), pt(*b), pt(*c), *r),
            Hull(p) => SharedShape::round_convex_hull(&p.iter().map(|v| pt(*v)).collect::<Vec<_>>(), *r)?,
            _ => return None,
        },
        Compound(parts) => {
            let mut v = vec![];
            for (t, q, k) in parts {
                let rot = UnitQuaternion::new_normalize(Quaternion::new(q.w, q.x, q.y, q.z));
                v.push((Isometry::from_parts(Translation3::new(t.x, t.y, t.z), rot), shared(k)?));
            }
            SharedShape::compound(v)
        }
    })
}
fn point(s: &mut Src, r: i64) -> Vec3 {
    Vec3::new(s.int(-8 * r, 8 * r) as f32, s.int(-8 * r, 8 * r) as f32, s.int(-8 * r, 8 * r) as f32) / 8.0
}
fn quat(s: &mut Src) -> Quat {
    match s.weighted(&[2, 2, 3]) {
        0 => Quat::IDENTITY,
        1 => Quat::from_rotation_y(s.int(0, 3) as f32 * std::f32::consts::FRAC_PI_2),
        _ => Quat::from_xyzw(s.f32(-1.0, 1.0), s.f32(-1.0, 1.0), s.f32(-1.0, 1.0), s.f32(0.05, 1.0)).normalize(),
    }
}
fn size(s: &mut Src) -> f32 {
    *s.pick(&[1.0f32, 0.25, 0.5, 2.0, 3.0, 7.5, 40.0])
}
/// Corners of one or several triangles that are far from degenerate.
fn corner_triple(s: &mut Src) -> (Vec3, Vec3, Vec3) {
    loop {
        let (a, b, d) = (point(s, 3), point(s, 3), point(s, 3));
        if (b - a).cross(d - a).length() > 0.05 {
            return (a, b, d);
        }
        // (an exhausted tape draws zeros)
        if s.below(20) == 0 {
            return (Vec3::ZERO, Vec3::Z, Vec3::X);
        }
    }
}
fn simple(s: &mut Src) -> Shape {
    match s.weighted(&[2, 3, 2, 2, 2, 2, 1, 2, 1]) {
        0 => Ball(size(s)),
        1 => Cuboid(Vec3::new(size(s), size(s), size(s))),
        2 => Cylinder(size(s), size(s)),
        3 => Cone(size(s), size(s)),
        4 => {
            let (a, b) = (point(s, 3), point(s, 3));
            Capsule(size(s), a, if (a - b).length() < 0.1 { a + Vec3::Y } else { b })
        }
        5 => {
            // corners of a stretched octahedron and some more, so that there is volume
            // (the hull computation of the physics engine is not exact for extreme proportions)
            let f = size(s);
            let e = f * Vec3::new(*s.pick(&[1.0f32, 1.5, 3.0]), *s.pick(&[1.0f32, 1.5, 3.0]), *s.pick(&[1.0f32, 1.5, 3.0]));
            let mut p = vec![Vec3::X, -Vec3::X, Vec3::Y, -Vec3::Y, Vec3::Z, -Vec3::Z].into_iter().map(|v| v * e).collect::<Vec<_>>();
            for _ in 0..s.usize(0, 6) {
                p.push(point(s, 2) * e);
            }
            Hull(p)
        }
        6 => {
            let (a, b, d) = corner_triple(s);
            Triangle(a, b, d)
        }
        7 => {
            let k = match s.weighted(&[1, 1, 1, 1, 1]) {
                0 => Cuboid(Vec3::new(size(s), size(s), size(s))),
                1 => Cylinder(size(s), size(s)),
                2 => Cone(size(s), size(s)),
                3 => {
                    let (a, b, d) = corner_triple(s);
                    Triangle(a, b, d)
                }
                _ => {
                    let e = size(s);
                    Hull(vec![Vec3::X * e, -Vec3::X * e, Vec3::Y, -Vec3::Y, Vec3::Z, -Vec3::Z * 2.0])
                }
            };
            Round(Box::new(k), *s.pick(&[0.1f32, 0.5]))
        }
        _ => Segment(point(s, 3), point(s, 3) + Vec3::new(0.0, 9.0, 0.0)),
    }
}
fn shape(s: &mut Src) -> Shape {
    match s.weighted(&[8, 2, 2, 1, 6]) {
        0 => simple(s),
        1 => {
            let n = s.usize(3, 12);
            let mut v: Vec<Vec3> = (0..n).map(|_| point(s, 4)).collect();
            v[1] = v[0] + Vec3::new(1.0, 0.25, 0.0);
            v[2] = v[0] + Vec3::new(0.0, 0.25, 1.0);
            let mut t = vec![[0, 2, 1]];
            for _ in 0..s.usize(0, 10) {
                let i = [s.below(n as u64) as u32, s.below(n as u64) as u32, s.below(n as u64) as u32];
                if i[0] != i[1] && i[1] != i[2] && i[0] != i[2] {
                    t.push(i);
                }
            }
            Mesh(v, t)
        }
        2 => {
            let (w, h) = (s.usize(2, 6), s.usize(2, 6));
            let d = (0..w * h).map(|_| s.int(-16, 16) as f32 / 8.0).collect();
            Height(w, h, d, Vec3::new(size(s), size(s), size(s)))
        }
        3 => match s.weighted(&[1, 1]) {
            0 => Polyline(vec![Vec3::ZERO, Vec3::X, point(s, 2) + Vec3::Y * 5.0]),
            _ => Half(*s.pick(&[Vec3::Y, Vec3::X, Vec3::new(0.6, 0.8, 0.0)])),
        },
        _ => {
            let n = s.usize(1, 4);
            let mut parts: Vec<(Vec3, Quat, Shape)> = vec![];
            for _ in 0..n {
                // repeated parts are placed anew
                let k = if !parts.is_empty() && s.chance(1, 3) { parts[0].2.clone() } else { simple(s) };
                let t = if s.chance(1, 4) { Vec3::ZERO } else { point(s, 6) };
                parts.push((t, quat(s), k));
            }
            Compound(parts)
        }
    }
}
fn tris(m: &TriMesh) -> Result<Vec<Tri>, Fail> {
    ensure!(m.area_types.len() == m.indices.len(), "area-types", "{} area types for {} triangles", m.area_types.len(), m.indices.len());
    ensure!(m.area_types.iter().all(|a| *a == AreaType::NOT_WALKABLE), "area-types", "marked triangles");
    m.indices
        .iter()
        .map(|t| {
            ensure!(t.max_element() < m.vertices.len() as u32, "index", "triangle {t} of {} vertices", m.vertices.len());
            Ok([Vec3::from(m.vertices[t.x as usize]), Vec3::from(m.vertices[t.y as usize]), Vec3::from(m.vertices[t.z as usize])])
        })
        .collect()
}
fn volume(t: &[Tri]) -> f64 {
    t.iter().map(|[a, b, c]| a.as_dvec3().dot(b.as_dvec3().cross(c.as_dvec3())) / 6.0).sum()
}
/// Every edge is used once in each direction (vertices compared by position).
fn closed(t: &[Tri], eps: f32) -> bool {
    let mut ids: Vec<Vec3> = vec![];
    let mut id = |v: Vec3| -> usize {
        if let Some(i) = ids.iter().position(|w| w.distance(v) <= eps) {
            return i;
        }
        ids.push(v);
        ids.len() - 1
    };
    let mut e: HashMap<(usize, usize), i32> = HashMap::new();
    for [a, b, c] in t {
        let (a, b, c) = (id(*a), id(*b), id(*c));
        if a == b || b == c || a == c {
            continue; // collapsed by rounding
        }
        for (p, q) in [(a, b), (b, c), (c, a)] {
            *e.entry((p.min(q), p.max(q))).or_default() += if p < q { 1 } else { -1 };
        }
    }
    e.values().all(|v| *v == 0)
}
fn all_on(t: &[Tri], what: &str, eps: f32, off: impl Fn(Vec3) -> f32) -> Res {
    for v in t.iter().flatten() {
        ensure!(off(*v).abs() <= eps, "surface", "{what}: vertex {v} is {} off the surface", off(*v));
    }
    Ok(())
}
/// A closed surface, turned outwards, with about the right content.
fn solid(t: &[Tri], what: &str, exact: f64, least: f64, eps: f32) -> Res {
    ensure!(closed(t, eps), "holes", "{what}: the surface is not closed");
    let v = volume(t);
    ensure!(v > 0.0, "inside-out", "{what}: the triangles face inwards, volume {v}");
    ensure!(v >= exact * least - 1e-4 && v <= exact * 1.001 + 1e-4, "volume", "{what}: encloses {v} of {exact}");
    Ok(())
}
fn extent(t: &[Tri], lo: Vec3, hi: Vec3, what: &str, slack: f32) -> Res {
    let (mut a, mut b) = (Vec3::INFINITY, Vec3::NEG_INFINITY);
    for v in t.iter().flatten() {
        a = a.min(*v);
        b = b.max(*v);
    }
    let tol = slack * (hi - lo).max_element() + 1e-4;
    ensure!((a - lo).abs().max_element() <= tol && (b - hi).abs().max_element() <= tol, "extent", "{what}: reaches from {a} to {b} instead of {lo} to {hi}");
    Ok(())
}
fn same_triangles(got: &[Tri], want: &[Tri], eps: f32, what: &str) -> Res {
    ensure!(got.len() == want.len(), "triangles", "{what}: {} triangles instead of {}", got.len(), want.len());
    if want.len() > 5000 {
        // too many to search: the same numbers are expected to the last bit
        let turned = |t: &Tri| {
            let b = t.map(|v| v.to_array().map(f32::to_bits));
            [[b[0], b[1], b[2]], [b[1], b[2], b[0]], [b[2], b[0], b[1]]].into_iter().min().unwrap()
        };
        let (mut g, mut w): (Vec<_>, Vec<_>) = (got.iter().map(turned).collect(), want.iter().map(turned).collect());
        g.sort();
        w.sort();
        let k = g.iter().zip(&w).position(|(a, b)| a != b);
        ensure!(k.is_none(), "triangles", "{what}: another triangle than expected, {:?} instead of {:?}", g[k.unwrap()].map(|v| v.map(f32::from_bits)), w[k.unwrap()].map(|v| v.map(f32::from_bits)));
        return Ok(());
    }
    let mut used = vec![false; got.len()];
    'next: for w in want {
        for (i, g) in got.iter().enumerate() {
            if !used[i] && (0..3).any(|r| (0..3).all(|j| g[(j + r) % 3].distance(w[j]) <= eps)) {
                used[i] = true;
                continue 'next;
            }
        }
        return Err(Fail::new("triangles", format!("{what}: the triangle {w:?} is missing")));
    }
    Ok(())
}
/// Judges the triangles of a simple shape by its geometry alone.
fn judge(k: &Shape, t: &[Tri]) -> Res {
    let pi = std::f64::consts::PI;
    match k {
        Ball(r) => {
            let eps = 1e-4 * r;
            all_on(t, "ball", eps, |v| v.length() - r)?;
            extent(t, Vec3::splat(-r), Vec3::splat(*r), "ball", 0.06)?;
            solid(t, "ball", 4.0 / 3.0 * pi * (*r as f64).powi(3), 0.75, eps)
        }
        Cuboid(e) => {
            let h = *e / 2.0;
            all_on(t, "cuboid", 1e-5 * e.max_element(), |v| (v.abs() - h).abs().max_element())?;
            solid(t, "cuboid", (e.x * e.y * e.z) as f64, 0.999, 1e-5 * e.min_element())
        }
        Cylinder(r, h) => {
            let eps = 1e-4 * r.max(*h);
            all_on(t, "cylinder", eps, |v| ((v.x * v.x + v.z * v.z).sqrt() - r).abs().max((v.y.abs() - h / 2.0).abs()))?;
            extent(t, Vec3::new(-r, -h / 2.0, -r), Vec3::new(*r, h / 2.0, *r), "cylinder", 0.06)?;
            solid(t, "cylinder", pi * (*r as f64).powi(2) * *h as f64, 0.9, 1e-4 * r.min(*h))
        }
        Cone(r, h) => {
            let eps = 1e-4 * r.max(*h);
            all_on(t, "cone", eps, |v| {
                let base = ((v.x * v.x + v.z * v.z).sqrt() - r).abs().max((v.y + h / 2.0).abs());
                base.min(v.distance(Vec3::Y * *h / 2.0))
            })?;
            extent(t, Vec3::new(-r, -h / 2.0, -r), Vec3::new(*r, h / 2.0, *r), "cone", 0.06)?;
            solid(t, "cone", pi * (*r as f64).powi(2) * *h as f64 / 3.0, 0.9, 1e-4 * r.min(*h))
        }
        Capsule(r, a, b) => {
            let l = (*b - *a).length();
            let eps = 1e-4 * (r + l + a.length());
            all_on(t, "capsule", eps, |v| {
                let u = ((v - *a).dot(*b - *a) / (l * l)).clamp(0.0, 1.0);
                v.distance(*a + (*b - *a) * u) - r
            })?;
            extent(t, a.min(*b) - *r, a.max(*b) + *r, "capsule", 0.12)?;
            let exact = pi * (*r as f64).powi(2) * l as f64 + 4.0 / 3.0 * pi * (*r as f64).powi(3);
            solid(t, "capsule", exact, 0.75, 1e-3 * r)
        }
        Hull(_) => {
            // the faces the physics engine works with
            let sh = shared(k).unwrap();
            let h = sh.as_convex_polyhedron().unwrap();
            let points: Vec<Vec3> = h.points().iter().map(|p| Vec3::new(p.x, p.y, p.z)).collect();
            let faces: Vec<Vec<Vec3>> = h
                .faces()
                .iter()
                .map(|f| h.vertices_adj_to_face()[f.first_vertex_or_edge as usize..][..f.num_vertices_or_edges as usize].iter().map(|i| points[*i as usize]).collect())
                .collect();
            let fans: Vec<Tri> = faces.iter().flat_map(|f| (1..f.len() - 1).map(|i| [f[0], f[i], f[i + 1]])).collect();
            ensure!(fans.len() == t.len(), "hull", "hull: {} triangles instead of {}", t.len(), fans.len());
            for k in t {
                ensure!(faces.iter().any(|f| k.iter().all(|v| f.contains(v))), "hull", "hull: the triangle {k:?} is part of no face");
            }
            let area = |t: &[Tri]| t.iter().map(|k| (k[1] - k[0]).cross(k[2] - k[0]).length()).sum::<f32>();
            ensure!((area(t) - area(&fans)).abs() <= 0.02 * area(&fans), "hull", "hull: surface of {} instead of {}", area(t), area(&fans));
            ensure!((volume(t) - volume(&fans)).abs() <= 0.02 * volume(&fans).abs(), "hull", "hull: volume of {} instead of {}", volume(t), volume(&fans));
            Ok(())
        }
        Mesh(v, i) => {
            let want: Vec<Tri> = i.iter().map(|i| i.map(|j| v[j as usize])).collect();
            same_triangles(t, &want, 1e-6, "triangle mesh")
        }
        Height(w, h, d, sc) => {
            let at = |x: usize, z: usize| Vec3::new(x as f32 / (*w - 1) as f32 - 0.5, d[z * w + x], z as f32 / (*h - 1) as f32 - 0.5) * *sc;
            let eps = 1e-4 * sc.max_element();
            ensure!(t.len() == 2 * (w - 1) * (h - 1), "triangles", "height field: {} triangles for {}x{} points", t.len(), w, h);
            let mut cells: HashMap<(usize, usize), Vec<&Tri>> = HashMap::new();
            for k in t {
                for v in k {
                    let x = ((v.x / sc.x + 0.5) * (*w - 1) as f32).round() as usize;
                    let z = ((v.z / sc.z + 0.5) * (*h - 1) as f32).round() as usize;
                    ensure!(x < *w && z < *h && at(x, z).distance(*v) <= eps, "surface", "height field: vertex {v} is not on the grid");
                }
                let m = (k[0] + k[1] + k[2]) / 3.0;
                let x = ((m.x / sc.x + 0.5) * (*w - 1) as f32).floor() as usize;
                let z = ((m.z / sc.z + 0.5) * (*h - 1) as f32).floor() as usize;
                cells.entry((x, z)).or_default().push(k);
                let n = (k[1] - k[0]).cross(k[2] - k[0]);
                ensure!(n.y > 0.0, "inside-out", "height field: triangle {k:?} faces down");
            }
            let area = t.iter().map(|k| (k[1] - k[0]).as_dvec3().cross((k[2] - k[0]).as_dvec3()).y / 2.0).sum::<f64>() as f32;
            ensure!((area - sc.x * sc.z).abs() <= 1e-3 * sc.x * sc.z, "holes", "height field: covers {area} of {}", sc.x * sc.z);
            ensure!(cells.len() == (w - 1) * (h - 1) && cells.values().all(|v| v.len() == 2), "holes", "height field: cells without two triangles");
            Ok(())
        }
        Triangle(a, b, c) => same_triangles(t, &[[*a, *b, *c]], 1e-6, "triangle"),
        Round(k, _) => judge(k, t),
        Segment(..) | Polyline(_) | Half(_) => {
            ensure!(t.is_empty(), "no-surface", "{} triangles for a shape without surface", t.len());
            Ok(())
        }
        Compound(_) => unreachable!(),
    }
}
fn has_surface(k: &Shape) -> bool {
    !matches!(k, Segment(..) | Polyline(_) | Half(_))
}
fn run(app: &mut App) -> Result<Vec<(GlobalTransform, TriMesh)>, Fail> {
    let id = app.world().resource::<NavmeshAffectorBackend>().clone();
    app.world_mut().run_system(*id).map_err(|e| Fail::new("backend", e.to_string()))
}
/// The triangles the backend reports for one shape.
fn alone(k: &Shape) -> Result<Option<Vec<Tri>>, Fail> {
    let mut app = App::new();
    app.add_plugins(AvianRerecastPlugin::default());
    let Some(sh) = shared(k) else { return Ok(None) };
    let b = app.world_mut().spawn(RigidBody::Static).id();
    app.world_mut().spawn((GlobalTransform::IDENTITY, Collider::from(sh), ColliderOf { body: b }));
    match run(&mut app)?.pop() {
        None => Ok(None),
        Some((_, m)) => Ok(Some(tris(&m)?)),
    }
}
fn check(k: &Shape, m: &TriMesh, c: &mut Ctx) -> Res {
    let t = tris(m)?;
    let Compound(parts) = k else { return judge(k, &t) };
    let mut want = vec![];
    let mut scale = 1.0f32;
    for (d, q, k) in parts {
        if !has_surface(k) {
            continue;
        }
        let Some(p) = alone(k)? else { return Err(Fail::new("missing", format!("{k:?} is not reported alone"))) };
        judge(k, &p)?;
        for k in p {
            let w = k.map(|v| *q * v + *d);
            scale = scale.max(w.iter().map(|v| v.length()).fold(0.0, f32::max));
            want.push(w);
        }
    }
    c.label_if(parts.len() > 1, "compound of several parts");
    same_triangles(&t, &want, 1e-5 * scale, "compound")
}
/// Meshes and height fields with more corners than sixteen bits count, and compounds of many parts.
fn c29_large(s: &mut Src, c: &mut Ctx) -> Res {
    let mut l = Lcg(s.u32());
    let what = s.below(3);
    let k = match what {
        0 => {
            let n = s.usize(60_000, 120_000) as u32;
            let v: Vec<Vec3> = (0..n).map(|i| Vec3::new(i as f32 * 0.5, (l.next() % 64) as f32 / 8.0, (l.next() % 4096) as f32 / 8.0)).collect();
            let m = s.usize(20_000, 120_000) as u32;
            Mesh(v, (0..m).map(|i| if i < n / 3 { [n - 1 - 3 * i, n - 2 - 3 * i, n - 3 - 3 * i] } else { let a = l.next() % (n - 2); [a, a + 2, a + 1] }).collect())
        }
        1 => {
            let (w, h) = (s.usize(2, 700), s.usize(2, 500));
            let d = (0..w * h).map(|_| (l.next() % 32) as f32 / 8.0).collect();
            Height(w, h, d, Vec3::new(256.0, size(s), 128.0))
        }
        _ => {
            let n = s.usize(200, 700);
            let parts = (0..n).map(|i| {
                let t = Vec3::new(4.0 * i as f32, (l.next() % 64) as f32 / 8.0, (l.next() % 64) as f32 / 8.0);
                let q = Quat::from_rotation_y(l.next() as f32 / 1e9);
                (t, q, match l.next() % 8 {
                    0 => Segment(Vec3::ZERO, Vec3::Y),
                    1 => Cuboid(Vec3::new(1.0, 2.0, 3.0)),
                    2 => Hull(vec![Vec3::X, -Vec3::X, Vec3::Y, -Vec3::Y, Vec3::Z, -Vec3::Z * 2.0]),
                    _ => Triangle(Vec3::ZERO, Vec3::Z * (1 + i % 5) as f32, Vec3::X),
                })
            });
            Compound(parts.collect())
        }
    };
    c.describe(|| match &k {
        Mesh(v, t) => format!("mesh of {} vertices and {} triangles", v.len(), t.len()),
        Height(w, h, ..) => format!("height field of {w}x{h} points"),
        k => format!("{k:?}").chars().take(500).collect(),
    });
    judge_one(k, s, c)
}
fn c29_shapes(s: &mut Src, c: &mut Ctx) -> Res {
    let k = shape(s);
    c.describe(|| format!("{k:?}"));
    judge_one(k, s, c)
}
fn judge_one(k: Shape, s: &mut Src, c: &mut Ctx) -> Res {
    let Some(sh) = shared(&k) else {
        c.label("refused by the physics engine");
        return Ok(());
    };
    let mut app = App::new();
    app.add_plugins(AvianRerecastPlugin::default());
    let b = app.world_mut().spawn(RigidBody::Static).id();
    let t = unique(1, s);
    let mut col = Collider::from(sh);
    if s.chance(1, 4) && matches!(k, Ball(_) | Cuboid(_) | Cylinder(..) | Cone(..) | Triangle(..) | Capsule(..)) {
        // what the physics engine does to a collider below a scaled transform
        col.set_scale(Vec3::new(2.0, 3.0, 0.5), 10);
        c.label("scaled transform");
    }
    app.world_mut().spawn((t, col, ColliderOf { body: b }));
    let got = run(&mut app)?;
    c.label(match &k {
        Ball(_) => "ball",
        Cuboid(_) => "cuboid",
        Cylinder(..) => "cylinder",
        Cone(..) => "cone",
        Capsule(..) => "capsule",
        Hull(_) => "hull",
        Mesh(..) => "mesh",
        Height(..) => "height field",
        Triangle(..) => "triangle",
        Round(..) => "rounded shape",
        Compound(_) => "compound",
        _ => "no surface",
    });
    if !has_surface(&k) {
        ensure!(got.is_empty(), "no-surface", "{k:?} is reported with {} triangles", got[0].1.indices.len());
        return Ok(());
    }
    c.nontrivial = true;
    ensure!(got.len() == 1, "count", "{} meshes for one collider", got.len());
    ensure!(got[0].0 == t, "transform", "reported at {:?} instead of {t:?}", got[0].0);
    check(&k, &got[0].1, c)
}
/// Many bodies of all kinds, with several colliders each, changing over time.
fn c29_worlds(s: &mut Src, c: &mut Ctx) -> Res {
    worlds(s, c, 1)
}
fn c29_crowd(s: &mut Src, c: &mut Ctx) -> Res {
    worlds(s, c, 80)
}
fn worlds(s: &mut Src, c: &mut Ctx, crowd: usize) -> Res {
    let mut app = App::new();
    app.add_plugins(AvianRerecastPlugin::default());
    let kinds = [RigidBody::Static, RigidBody::Dynamic, RigidBody::Kinematic];
    let mut bodies = vec![];
    for _ in 0..s.usize(1, 4 * crowd) {
        let k = *s.pick(&kinds);
        bodies.push((app.world_mut().spawn(k).id(), Some(k)));
    }
    if s.chance(1, 3) {
        bodies.push((app.world_mut().spawn_empty().id(), None)); // not a body at all
    }
    let mut cols = vec![];
    let mut serial = 0;
    for round in 0..s.usize(1, 3) {
        for _ in 0..s.usize(0, 5 * crowd) {
            serial += 1;
            let k = simple(s);
            let Some(sh) = shared(&k) else { continue };
            let t = unique(serial, s);
            let b = s.below(bodies.len() as u64) as usize;
            if s.chance(1, 8) {
                app.world_mut().spawn((t, Collider::from(sh))); // belongs to nothing
                continue;
            }
            let e = if s.bool() {
                app.world_mut().spawn((t, Collider::from(sh), ColliderOf { body: bodies[b].0 })).id()
            } else {
                // the collider of the body itself, where the body has none yet
                let e = bodies[b].0;
                if cols.iter().any(|c: &(_, _, _, _)| c.0 == e) {
                    continue;
                }
                app.world_mut().entity_mut(e).insert((t, Collider::from(sh), ColliderOf { body: e }));
                e
            };
            cols.push((e, t, b, k));
        }
        if s.chance(1, 2) {
            let b = s.below(bodies.len() as u64) as usize;
            let k = *s.pick(&kinds);
            app.world_mut().entity_mut(bodies[b].0).insert(k);
            bodies[b].1 = Some(k);
        }
        if !cols.is_empty() && s.chance(1, 3) {
            let j = s.below(cols.len() as u64) as usize;
            let (e, ..) = cols.remove(j);
            app.world_mut().entity_mut(e).remove::<Collider>();
            app.world_mut().entity_mut(e).remove::<ColliderOf>();
        }
        let got = run(&mut app)?;
        let mut want: Vec<_> = cols.iter().filter(|(_, _, b, k)| bodies[*b].1 == Some(RigidBody::Static) && has_surface(k)).collect();
        c.describe(|| format!("round {round}: bodies {bodies:?}, {} colliders, {} expected", cols.len(), want.len()));
        c.nontrivial_if(!want.is_empty() && want.len() < cols.len());
        ensure!(got.len() == want.len(), "count", "round {round}: {} meshes, but {} static colliders with surface", got.len(), want.len());
        for (t, m) in &got {
            let Some(i) = want.iter().position(|w| w.1 == *t) else {
                return Err(Fail::new("transform", format!("no static collider is at {:?}", t.translation())));
            };
            let w = want.swap_remove(i);
            check(&w.3, m, c)?;
        }
    }
    Ok(())
}
#[allow(dead_code)]
fn _unused(_: UVec3) {}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "the shape has a surface (worlds: some colliders are expected and some are not)",
        assumptions: &["rounded shapes are documented to be reported without their rounding", "shapes are at least 1/4 and at most 40 units large and not degenerate"],
        subs: vec![Sub { name: "shapes", quick: 60_000, thorough: 3_000_000, f: c29_shapes }, Sub { name: "worlds", quick: 20_000, thorough: 1_000_000, f: c29_worlds }, Sub { name: "large", quick: 40, thorough: 2_000, f: c29_large }, Sub { name: "crowd", quick: 60, thorough: 3_000, f: c29_crowd }],
    }]
}
