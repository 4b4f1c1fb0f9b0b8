//! C18 - C21: the polygon mesh.
use crate::ad::*;
use crate::contours::{self, well_formed};
use glam::{U16Vec3, Vec3};
use pbt::*;
use refmodel::contour::{area2, BORDER_VERTEX};
use refmodel::poly::{InCont, Mesh};
use rerecast::*;
use std::collections::{BTreeMap, HashMap, HashSet};

pub struct PIn {
    pub set: ContourSet,
    /// regions whose contours are known to be simple (possibly with connected holes)
    pub valid: HashSet<u16>,
    /// every contour is valid and the contours do not overlap each other
    pub all_valid: bool,
    /// regions whose contour has a hole connected by a bridge
    pub holed: HashSet<u16>,
    pub nvp: u16,
}
impl PIn {
    /// ... and without bridges to holes.
    fn simple(&self, reg: u16) -> bool {
        self.valid.contains(&reg) && !self.holed.contains(&reg)
    }
    fn all_simple(&self) -> bool {
        self.all_valid && self.holed.is_empty()
    }
}
const NO: u16 = PolygonNavmesh::NO_INDEX;
const BREG: u16 = 0x8000;

pub fn nvp(s: &mut Src) -> u16 {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => 6,
        1 => 3,
        2 => s.int(3, 12) as u16,
        _ => *s.pick(&[4u16, 16, 64, 255]),
    }
}
/// Cell sizes and bounds of all kinds, fixed by the contours: the bounds of a real field are the world's,
/// of which the number of cells is only the rounded size.
fn world(set: &mut ContourSet) {
    let n = set.contours.iter().flat_map(|k| &k.vertices).fold(set.contours.len(), |n, v| n.wrapping_mul(31).wrapping_add(v.0.x as usize + v.0.z as usize * 7));
    set.cell_size = [0.5, 0.3, 1.0, 0.05, 7.0][n % 5];
    set.cell_height = [0.25, 0.2, 1.0][n % 3];
    set.max_error = [1.25, 0.0, 1.3][n / 5 % 3];
    let part = [0.0, -0.375, 0.375, 0.125][n / 7 % 4];
    set.aabb.max.x = set.aabb.min.x + (set.width as f32 + part) * set.cell_size;
    set.aabb.max.z = set.aabb.min.z + (set.height as f32 - part) * set.cell_size;
}
pub fn set_of(conts: &[(Vec<[i32; 4]>, u16, u8)], w: u16, h: u16, border: u16) -> ContourSet {
    let mut set = ContourSet {
        contours: conts
            .iter()
            .map(|(v, r, a)| Contour {
                vertices: v.iter().map(|p| (U16Vec3::new(p[0] as u16, p[1] as u16, p[2] as u16), p[3] as u32)).collect(),
                raw_vertices: vec![],
                region: RegionId::from(*r),
                area: AreaType(*a),
            })
            .collect(),
        aabb: Aabb3d { min: Vec3::new(-1.0, 2.0, 3.0), max: Vec3::new(-1.0 + w as f32 * 0.5, 100.0, 3.0 + h as f32 * 0.5) },
        cell_size: 0.5,
        cell_height: 0.25,
        width: w,
        height: h,
        border_size: border,
        max_error: 1.25,
    };
    world(&mut set);
    set
}
fn text(set: &ContourSet, nvp: u16) -> String {
    let n: usize = set.contours.iter().map(|c| c.vertices.len()).sum();
    let mut t = format!("nvp {nvp} field {}x{} border {} contours {} points {n}", set.width, set.height, set.border_size, set.contours.len());
    if n <= 60 {
        for c in &set.contours {
            t.push_str(&format!(" r{}a{}:", c.region.bits(), c.area.0));
            for (p, d) in &c.vertices {
                t.push_str(&format!("({},{},{}{})", p.x, p.y, p.z, if d & BORDER_VERTEX as u32 != 0 { "!" } else { "" }));
            }
        }
    }
    t
}
/// Contours of the field, code side, with the regions known to be in order.
fn from_field(i: &contours::In, nvp: u16) -> PIn {
    let (_, mut set) = i.run();
    world(&mut set);
    let pre = i.model();
    let mut valid = HashSet::new();
    let mut all = i.planar;
    let mut holed = HashSet::new();
    let mut regs: Vec<u16> = pre.iter().map(|k| k.reg).collect();
    regs.sort();
    regs.dedup();
    for r in regs {
        let outer: Vec<_> = pre.iter().filter(|k| k.reg == r && area2(&k.verts) > 0).collect();
        let holes: Vec<_> = pre.iter().filter(|k| k.reg == r && area2(&k.verts) <= 0).map(|k| &k.verts).collect();
        let points: usize = pre.iter().filter(|k| k.reg == r).map(|k| k.verts.len()).sum();
        let merged = set.contours.iter().filter(|k| k.region.bits() == r && !k.vertices.is_empty()).count() == 1;
        if outer.len() == 1 && merged && points <= 400 && well_formed(&outer[0].verts, &holes) {
            valid.insert(r);
            if !holes.is_empty() {
                holed.insert(r);
            }
        } else {
            all = false;
        }
    }
    // a removed border vertex leaves the outline unchanged only if both its regions have one
    // (and no missing links cut through the surroundings)
    all &= i.m.spans.iter().all(|e| {
        (0..4).all(|d| {
            let (x, z) = (e.x + refmodel::DX[d], e.z + refmodel::DZ[d]);
            let there = x >= 0 && z >= 0 && (x as usize) < i.m.w && (z as usize) < i.m.h && i.m.cells[x as usize + z as usize * i.m.w].1 > 0;
            !there || e.nb[d] != refmodel::chf::NONE
        })
    });
    all &= i.m.spans.iter().all(|e| e.reg == 0 || e.reg & BREG != 0 || valid.contains(&e.reg));
    // ... and if all of them meet it at one height
    let mut at: HashMap<(u16, u16), (u16, u16, bool)> = HashMap::new();
    for (v, d) in set.contours.iter().flat_map(|k| &k.vertices) {
        let e = at.entry((v.x, v.z)).or_insert((v.y, v.y, false));
        *e = (e.0.min(v.y), e.1.max(v.y), e.2 || d & BORDER_VERTEX as u32 != 0);
    }
    all &= at.values().all(|e| !e.2 || e.1 - e.0 <= 2);
    PIn { set, valid, all_valid: all, holed, nvp }
}
fn labelled(s: &mut Src, c: &mut Ctx) -> PIn {
    let exact = s.bool();
    let i = contours::labelled(s, 20, c, exact);
    let nvp = nvp(s);
    let p = from_field(&i, nvp);
    c.describe(|| format!("nvp {nvp}"));
    p
}
fn built(s: &mut Src, c: &mut Ctx) -> Option<PIn> {
    let exact = s.chance(1, 3);
    let i = contours::built(s, 40, c, exact)?;
    let nvp = nvp(s);
    let p = from_field(&i, nvp);
    c.describe(|| format!("nvp {nvp}"));
    Some(p)
}
/// Contours stretched to the whole range of coordinates.
fn stretched(s: &mut Src, c: &mut Ctx) -> PIn {
    let exact = s.bool();
    let mut p = {
        let i = contours::labelled(s, 16, c, exact);
        from_field(&i, 6)
    };
    p.nvp = nvp(s);
    let lim = |n: u16| (65535 / n.max(1)) as i64;
    let (fx, fz) = (s.small(1, lim(p.set.width)) as u16, s.small(1, lim(p.set.height)) as u16);
    let (fx, fz) = if s.bool() { (fx, fz) } else { (lim(p.set.width) as u16, lim(p.set.height) as u16) };
    for k in p.set.contours.iter_mut() {
        for (v, _) in k.vertices.iter_mut() {
            v.x *= fx;
            v.z *= fz;
        }
    }
    p.set.width *= fx;
    p.set.height *= fz;
    c.describe(|| format!("stretched by {fx},{fz} nvp {}", p.nvp));
    p
}
/// Free-standing polygons: star-shaped, spirals, combs; collinear points; steep floors.
fn shapes(s: &mut Src, c: &mut Ctx) -> PIn {
    let n = s.usize(1, 4);
    let mut conts = vec![];
    let mut valid = HashSet::new();
    let big = s.chance(1, 3);
    let scale = if big { s.int(1, 1500) as i32 } else { 1 };
    for k in 0..n {
        let (ox, oz) = ((k % 2) as i32 * 21, (k / 2) as i32 * 21);
        let steep = s.int(0, 3) as i32;
        let mut v: Vec<[i32; 4]> = vec![];
        match s.weighted(&[3, 2, 1]) {
            0 => {
                // star-shaped around the middle
                let m = s.usize(3, 14);
                let mut dirs: Vec<(i32, i32)> = (0..m).map(|_| (s.int(-9, 9) as i32, s.int(-9, 9) as i32)).filter(|d| *d != (0, 0)).collect();
                dirs.sort_by(|a, b| (a.1 as f64).atan2(a.0 as f64).total_cmp(&(b.1 as f64).atan2(b.0 as f64)));
                for d in dirs {
                    v.push([(ox + 10 + d.0) * scale, 20, (oz + 10 + d.1) * scale, 0]);
                }
                v.reverse();
            }
            1 => {
                // random ring
                for _ in 0..s.usize(3, 7) {
                    v.push([(ox + s.int(0, 20) as i32) * scale, 20, (oz + s.int(0, 20) as i32) * scale, 0]);
                }
            }
            _ => {
                // comb with collinear points on its spine
                let t = s.usize(1, 6) as i32;
                for j in 0..t {
                    for (x, z) in [(3 * j, 0), (3 * j, 10), (3 * j + 1, 10), (3 * j + 1, s.int(1, 9) as i32)] {
                        v.push([(ox + x) * scale, 20, (oz + z) * scale, 0]);
                    }
                }
                v.push([(ox + 3 * t) * scale, 20, oz * scale, 0]);
                if s.bool() {
                    v.push([(ox + t) * scale, 20, oz * scale, 0]);
                }
            }
        }
        v.dedup_by_key(|p| (p[0], p[2]));
        if area2(&v) < 0 {
            v.reverse();
        }
        for p in v.iter_mut() {
            p[1] += steep * s.int(0, 3) as i32;
            if s.chance(1, 10) {
                p[3] |= BORDER_VERTEX;
            }
        }
        if v.len() >= 3 && area2(&v) > 0 && well_formed(&v, &[]) {
            valid.insert(k as u16 + 1);
        }
        conts.push((v, k as u16 + 1, crate::gens::walkable(s)));
    }
    let all = valid.len() == n;
    let w = (45 * scale).min(65535) as u16;
    let border = s.int(0, 1) as u16;
    let set = set_of(&conts, w, w, border);
    let nvp = nvp(s);
    c.describe(|| text(&set, nvp));
    // border vertices of free shapes are not on a straight border: removing them changes the shape
    let flagged = conts.iter().any(|k| k.0.iter().any(|p| p[3] & BORDER_VERTEX != 0));
    PIn { set, valid: if flagged { HashSet::new() } else { valid }, all_valid: all && !flagged, holed: HashSet::new(), nvp }
}
/// Rooms side by side along a border, with removable points between them.
fn strips(s: &mut Src, c: &mut Ctx) -> PIn {
    let rows = s.usize(1, 2);
    let cols = s.usize(2, 5);
    let mut xs = vec![0i32];
    for _ in 0..cols {
        let l = *xs.last().unwrap();
        xs.push(l + s.int(1, 6) as i32);
    }
    let d = s.int(2, 9) as i32;
    let steep = if s.chance(1, 4) { 3 } else { 0 };
    // heights and removability per corner
    let mut y: HashMap<(i32, i32), (i32, bool)> = HashMap::new();
    for r in 0..=rows as i32 {
        for x in &xs {
            let outer = r == 0 || r == rows as i32;
            y.insert((*x, r), (10 + steep * s.int(0, 2) as i32, outer && *x != 0 && *x != xs[cols] && !s.chance(1, 8)));
        }
    }
    let there: Vec<Vec<bool>> = (0..rows).map(|_| (0..cols).map(|_| !s.chance(1, 12)).collect()).collect();
    // corners next to a gap are not border vertices in real fields
    let wild = s.chance(1, 6);
    let mut bent = false;
    for (k, x) in xs.iter().enumerate() {
        for r in [0, rows] {
            let row = &there[r.min(rows - 1)];
            let e = y.get_mut(&(*x, r as i32)).unwrap();
            if e.1 && !(row[k - 1] && row[k]) {
                e.1 = wild;
                bent |= wild;
            }
        }
    }
    let mut conts = vec![];
    for r in 0..rows as i32 {
        for k in 0..cols {
            if !there[r as usize][k] {
                continue;
            }
            let (x0, x1) = (xs[k], xs[k + 1]);
            let mut v = vec![];
            for (x, zr) in [(x0, r), (x0, r + 1), (x1, r + 1), (x1, r)] {
                let (h, f) = y[&(x, zr)];
                v.push([x, h, zr * d, if f { BORDER_VERTEX } else { 0 }]);
            }
            // extra points on the inner sides
            if d > 2 && s.chance(1, 3) {
                v.insert(1, [x0, 10, r * d + 1, 0]);
            }
            if s.chance(1, 6) && d > 2 {
                let e = if v.len() == 5 { 4 } else { 3 };
                v.insert(e, [x1, 10, r * d + s.int(1, d as i64 - 1) as i32, 0]);
            }
            let turn = s.usize(0, v.len() - 1);
            v.rotate_left(turn);
            conts.push((v, if s.chance(1, 5) { 1 } else { (r as usize * cols + k + 2) as u16 }, if s.chance(1, 4) { 7 } else { 255 }));
        }
    }
    let set = set_of(&conts, xs[cols] as u16, (d * rows as i32) as u16, 1);
    let nvp = nvp(s);
    c.describe(|| text(&set, nvp));
    let steps = conts.iter().any(|k| k.0.len() != 4) || steep > 0;
    PIn { set, valid: conts.iter().map(|k| k.1).collect(), all_valid: !bent && (!steps || steep == 0), holed: HashSet::new(), nvp }
}
/// The same at another height: around a multiple of 256, in the middle or at the end of the range.
fn lift(i: &mut PIn, s: &mut Src, c: &mut Ctx) {
    let heights = || i.set.contours.iter().flat_map(|k| &k.vertices).map(|v| v.0.y as i64);
    let (Some(low), Some(high)) = (heights().min(), heights().max()) else { return };
    let by = contours::lift_by(low, high, s);
    if by == 0 {
        return;
    }
    c.label("lifted");
    c.describe(|| format!("lifted by {by}"));
    for k in i.set.contours.iter_mut() {
        for v in k.vertices.iter_mut() {
            v.0.y = (v.0.y as i64 + by) as u16;
        }
    }
}
/// Anything at all.
fn garbage(s: &mut Src, c: &mut Ctx) -> PIn {
    let n = s.usize(0, 4);
    let span = *s.pick(&[3i64, 8, 40, 65535]);
    let mut conts = vec![];
    for k in 0..n {
        let m = s.small(0, 24);
        let flags = s.bool();
        let v: Vec<[i32; 4]> = (0..m)
            .map(|_| [s.int(0, span) as i32, s.int(0, 6) as i32, s.int(0, span) as i32, if flags && s.chance(1, 3) { BORDER_VERTEX } else { 0 }])
            .collect();
        conts.push((v, s.int(0, 3) as u16, (k + 1) as u8));
    }
    let set = set_of(&conts, span as u16, span as u16, s.int(0, 2) as u16);
    let nvp = nvp(s);
    c.describe(|| text(&set, nvp));
    PIn { set, valid: HashSet::new(), all_valid: false, holed: HashSet::new(), nvp }
}
/// Rooms with hundreds of corners side by side, on a border with points to remove or off it.
fn large(s: &mut Src, c: &mut Ctx) -> PIn {
    let nvp = nvp(s);
    let rooms = s.usize(1, 4);
    let n = s.usize(60, if nvp == 3 { 900 } else { 170 });
    let flat = s.bool();
    let tall = s.int(1, 60);
    let mut conts = vec![];
    let mut x = s.int(0, 4) as i32;
    let wall = |s: &mut Src| 6 + s.int(0, tall) as i32;
    let mut left = wall(s);
    let mut deepest = 0;
    for k in 0..rooms {
        let right = wall(s);
        let mut top = vec![[x, 9, left, 0]];
        let mut bottom = vec![[x, 9, 0, if flat && k > 0 { BORDER_VERTEX } else { 0 }]];
        for _ in 0..n / rooms {
            x += s.int(1, 3) as i32;
            top.push([x, 9, wall(s), 0]);
            match s.weighted(&[3, 1]) {
                0 if flat => bottom.push([x, 9, 0, if s.chance(1, 4) { BORDER_VERTEX } else { 0 }]),
                0 => bottom.push([x, 9, s.int(0, 5) as i32, 0]),
                _ => {}
            }
        }
        x += 1;
        top.push([x, 9, right, 0]);
        bottom.push([x, 9, 0, if flat && k + 1 < rooms { BORDER_VERTEX } else { 0 }]);
        deepest = top.iter().fold(deepest, |m, p| m.max(p[2]));
        bottom.reverse();
        let mut v = top;
        v.extend(bottom);
        if area2(&v) < 0 {
            v.reverse();
        }
        let turn = s.usize(0, v.len() - 1);
        v.rotate_left(turn);
        conts.push((v, if s.chance(1, 6) { 1 } else { k as u16 + 2 }, if s.chance(1, 4) { 7 } else { 255 }));
        left = right;
    }
    let set = set_of(&conts, x as u16 + 2, deepest as u16 + 2, flat as u16);
    c.describe(|| text(&set, nvp));
    PIn { set, valid: conts.iter().map(|k| k.1).collect(), all_valid: true, holed: HashSet::new(), nvp }
}
/// Long outlines with many holes cut in.
fn pierced(s: &mut Src, c: &mut Ctx) -> Option<PIn> {
    let i = contours::labelled(s, 64, c, true);
    let nvp = nvp(s);
    let p = from_field(&i, nvp);
    let longest = p.set.contours.iter().map(|k| k.vertices.len()).max().unwrap_or(0);
    if longest > 300 {
        // cutting ears takes the third power of the length
        c.label("outline too long");
        return None;
    }
    c.label_if(longest > 200, "more than 200 corners");
    Some(p)
}
/// Thousands of polygons: more edges than fit into 16 bits.
fn many(s: &mut Src, c: &mut Ctx) -> PIn {
    let teeth = 14;
    let (nx, nz) = (30, s.int(20, 36) as i32);
    let mut conts = vec![];
    for gz in 0..nz {
        for gx in 0..nx {
            let (ox, oz) = (gx * 60, gz * 30);
            let mut v = vec![];
            for j in 0..teeth {
                for (x, z) in [(4 * j, 0), (4 * j, 20 + (j * 7 + gx) % 9), (4 * j + 2, 20 + (j * 5 + gz) % 9), (4 * j + 2, 3 + (j + gx) % 4)] {
                    v.push([ox + x, 5, oz + z, 0]);
                }
            }
            v.push([ox + 4 * teeth, 5, oz, 0]);
            if area2(&v) < 0 {
                v.reverse();
            }
            conts.push((v, (1 + gx + gz * nx) as u16, 255));
        }
    }
    // a row of rooms with removable points between them
    let rooms = if s.bool() { s.int(2, 40) as i32 } else { 0 };
    let (z0, z1) = (30 * nz + 2, 30 * nz + 9);
    for k in 0..rooms {
        let flag = |x: i32| if x == 0 || x == rooms { 0 } else { BORDER_VERTEX };
        let v = [(k, z0), (k, z1), (k + 1, z1), (k + 1, z0)].iter().map(|(x, z)| [x * 3, 5, *z, flag(*x)]).collect();
        conts.push((v, (1 + nx * nz + k) as u16, 255));
    }
    c.label_if(rooms > 0, "removable points in a large mesh");
    let set = set_of(&conts, (60 * nx) as u16, (30 * nz + 20) as u16, 0);
    let nvp = *s.pick(&[3u16, 3, 6]);
    c.describe(|| text(&set, nvp));
    PIn { set, valid: conts.iter().map(|k| k.1).collect(), all_valid: true, holed: HashSet::new(), nvp }
}

// ------------------------------------------------------------------ views of the result
pub type Ring = Vec<[i64; 2]>;
pub fn rings(p: &PolygonNavmesh) -> Vec<Vec<u16>> {
    p.polygons().map(|k| k.collect()).collect()
}
/// Twice the area, positive for the winding of outlines.
pub fn poly_area2(p: &PolygonNavmesh, k: &[u16]) -> i64 {
    let v = |i: u16| p.vertices[i as usize];
    (0..k.len())
        .map(|i| {
            let (a, b) = (v(k[i]), v(k[(i + k.len() - 1) % k.len()]));
            a.x as i64 * b.z as i64 - b.x as i64 * a.z as i64
        })
        .sum()
}
pub fn structure(p: &PolygonNavmesh, set: &ContourSet, nvp: u16) -> Res {
    let n = nvp as usize;
    let np = p.polygons.len() / n;
    ensure!(p.polygons.len() % n == 0 && p.polygon_neighbors.len() == p.polygons.len() && p.polygon_count() == np, "tables", "{} vertex slots and {} neighbour slots for {nvp} per polygon", p.polygons.len(), p.polygon_neighbors.len());
    ensure!(p.regions.len() == np && p.areas.len() == np && p.flags.len() == np, "tables", "{np} polygons but {} regions, {} areas, {} flags", p.regions.len(), p.areas.len(), p.flags.len());
    ensure!(
        p.max_vertices_per_polygon == nvp && p.aabb == set.aabb && p.cell_size == set.cell_size && p.cell_height == set.cell_height && p.border_size == set.border_size && p.max_edge_error == set.max_error,
        "metadata",
        "metadata of the contours is not carried over"
    );
    ensure!(p.flags.iter().all(|f| *f == 0), "flags", "polygon flags are not empty");
    for k in 0..np {
        let (v, nb) = (&p.polygons[k * n..(k + 1) * n], &p.polygon_neighbors[k * n..(k + 1) * n]);
        let used = v.iter().position(|x| *x == NO).unwrap_or(n);
        ensure!(used >= 3, "too-few-vertices", "polygon {k} has {used} vertices");
        ensure!(v[used..].iter().all(|x| *x == NO) && nb[used..].iter().all(|x| *x == NO), "padding", "polygon {k}: unused slots are not empty: {v:?} {nb:?}");
        ensure!(v[..used].iter().all(|x| (*x as usize) < p.vertices.len()), "index", "polygon {k}: {v:?} with {} vertices", p.vertices.len());
    }
    let mut cols: HashMap<(u16, u16), Vec<u16>> = HashMap::new();
    let inside: (u16, u16) = set.contours.iter().flat_map(|c| &c.vertices).fold((0, 0), |m, (v, _)| (m.0.max(v.x), m.1.max(v.z)));
    for v in &p.vertices {
        ensure!(v.x <= inside.0 && v.z <= inside.1, "outside", "vertex {v} is outside of the field");
        let e = cols.entry((v.x, v.z)).or_default();
        ensure!(e.iter().all(|y| y.abs_diff(v.y) > 2), "twin-vertex", "vertices at ({},{}) have heights {e:?} and {}", v.x, v.z, v.y);
        e.push(v.y);
    }
    Ok(())
}
/// Shared start of the checks: Ok(None) when the input is legitimately refused.
fn build(i: &PIn, c: &mut Ctx) -> Result<Option<PolygonNavmesh>, Fail> {
    let points: usize = i.set.contours.iter().filter(|k| k.vertices.len() >= 3).map(|k| k.vertices.len()).sum();
    let r = i.set.clone().into_polygon_mesh(i.nvp);
    match r {
        Ok(p) => {
            ensure!(points < 65536, "limit", "{points} vertices were accepted");
            Ok(Some(p))
        }
        Err(e) => {
            let e = e.to_string();
            if points >= 65534 {
                c.label("too many vertices");
                return Ok(None);
            }
            ensure!(e.contains("nvalid contour"), "refused", "{e}");
            ensure!(!i.all_simple(), "refused", "valid contours were refused: {e}");
            c.label("contour cannot be triangulated");
            Ok(None)
        }
    }
}

// ------------------------------------------------------------------ C18
/// Whether a vertex was to be removed: then polygons may span regions.
fn removable(set: &ContourSet) -> bool {
    set.contours.iter().any(|c| c.vertices.len() >= 3 && c.vertices.iter().any(|v| v.1 & BORDER_VERTEX as u32 != 0))
}
fn c18_oracle(i: &PIn, c: &mut Ctx) -> Res {
    let Some(p) = build(i, c)? else { return Ok(()) };
    structure(&p, &i.set, i.nvp)?;
    let r = rings(&p);
    let judged = |k: usize| if removable(&i.set) { i.all_simple() } else { i.simple(p.regions[k].bits()) };
    for (k, v) in r.iter().enumerate() {
        if !judged(k) {
            continue;
        }
        let d: HashSet<&u16> = v.iter().collect();
        ensure!(d.len() == v.len(), "repeated-vertex", "polygon {k} repeats a vertex: {v:?}");
        let at = |j: usize| p.vertices[v[j % v.len()] as usize];
        for j in 0..v.len() {
            let (a, b, d) = (at(j), at(j + 1), at(j + 2));
            let t = (b.x as i64 - a.x as i64) * (d.z as i64 - a.z as i64) - (d.x as i64 - a.x as i64) * (b.z as i64 - a.z as i64);
            ensure!(t <= 0, "reflex", "polygon {k} (region {}) is not convex at {b}: {a} {b} {d}", p.regions[k].bits());
        }
        ensure!(poly_area2(&p, v) >= 0, "winding", "polygon {k} is wound the wrong way");
        c.count("polygons judged for convexity", 1);
    }
    c.nontrivial_if(r.len() >= 2);
    Ok(())
}

// ------------------------------------------------------------------ C19
fn covers(ring: &[[i64; 2]], p: [i64; 2]) -> Option<bool> {
    // None on the outline; coordinates are scaled by the caller
    let mut c = false;
    for i in 0..ring.len() {
        let (a, b) = (ring[i], ring[(i + 1) % ring.len()]);
        let cr = (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1]);
        if cr == 0 && p[0] >= a[0].min(b[0]) && p[0] <= a[0].max(b[0]) && p[1] >= a[1].min(b[1]) && p[1] <= a[1].max(b[1]) {
            return None;
        }
        if (a[1] > p[1]) != (b[1] > p[1]) && ((b[1] > a[1]) == (cr < 0)) {
            c = !c;
        }
    }
    Some(c)
}
/// How much each region and area type covers where removing a border vertex joins several: those
/// polygons that do so have no region. Which they are follows from the original's construction.
fn shares(i: &PIn, p: &PolygonNavmesh, r: &[Vec<u16>]) -> Res {
    let pts: Vec<(Vec<[i32; 4]>, u16, u8)> = i.set.contours.iter().map(|k| (contour_pts(&k.vertices), k.region.bits(), k.area.0)).collect();
    let ins: Vec<InCont> = pts.iter().map(|k| InCont { verts: &k.0, reg: k.1, area: k.2 }).collect();
    let Ok(m) = Mesh::build(&ins, i.nvp as usize) else { return Ok(()) };
    let (mut have, mut want): (BTreeMap<(u16, u8), i64>, BTreeMap<(u16, u8), i64>) = Default::default();
    for (k, v) in r.iter().enumerate() {
        *have.entry((p.regions[k].bits(), p.areas[k].0)).or_default() += poly_area2(p, v);
    }
    for q in &m.polys {
        let v: Vec<[i32; 4]> = q.v.iter().map(|j| [m.verts[*j][0], m.verts[*j][1], m.verts[*j][2], 0]).collect();
        *want.entry((q.reg, q.area)).or_default() += area2(&v);
    }
    ensure!(have == want, "shares", "twice the area by (region, area type) is {have:?} instead of {want:?}");
    Ok(())
}
fn c19_oracle(i: &PIn, c: &mut Ctx) -> Res {
    let Some(p) = build(i, c)? else { return Ok(()) };
    structure(&p, &i.set, i.nvp)?;
    let r = rings(&p);
    let removable = removable(&i.set);
    // area types by region
    let mut kinds: BTreeMap<u16, HashSet<u8>> = BTreeMap::new();
    let mut want: BTreeMap<u16, i64> = BTreeMap::new();
    for k in &i.set.contours {
        if k.vertices.len() >= 3 {
            kinds.entry(k.region.bits()).or_default().insert(k.area.0);
            *want.entry(k.region.bits()).or_default() += area2(&contour_pts(&k.vertices));
        }
    }
    let mut have: BTreeMap<u16, i64> = BTreeMap::new();
    for (k, v) in r.iter().enumerate() {
        let reg = p.regions[k].bits();
        if reg == 0 && removable {
            c.label("polygon spanning regions");
            ensure!(kinds.values().any(|s| s.contains(&p.areas[k].0)), "area-type", "polygon {k} has area {} that no contour has", p.areas[k].0);
        } else {
            let Some(ks) = kinds.get(&reg) else { return Err(Fail::new("region", format!("polygon {k} has the region {reg} that no contour has"))) };
            ensure!(ks.contains(&p.areas[k].0), "area-type", "polygon {k} of region {reg} has area {} instead of {ks:?}", p.areas[k].0);
        }
        *have.entry(reg).or_default() += poly_area2(&p, v);
    }
    if removable {
        if i.all_simple() {
            let (w, h): (i64, i64) = (want.values().sum(), have.values().sum());
            ensure!(w == h, "area", "the contours enclose {} but the polygons cover {}", w as f64 / 2.0, h as f64 / 2.0);
            c.label("border vertices removed");
            shares(i, &p, &r)?;
        }
    } else {
        for reg in &i.valid {
            // merging may fold the flat triangles along a bridge
            if i.holed.contains(reg) && i.nvp > 3 {
                continue;
            }
            let (w, h) = (want.get(reg).copied().unwrap_or(0), have.get(reg).copied().unwrap_or(0));
            ensure!(w == h, "area", "the contour of region {reg} encloses {} but its polygons cover {}", w as f64 / 2.0, h as f64 / 2.0);
        }
    }
    // no point twice, no point missing
    let size = (i.set.width as i64).max(i.set.height as i64).max(1);
    let step = (size / 24).max(1);
    let scale = 16;
    let ring_of = |v: &[u16]| -> Ring { v.iter().map(|k| [p.vertices[*k as usize].x as i64 * scale, p.vertices[*k as usize].z as i64 * scale]).collect() };
    if !(removable && !i.all_simple()) && i.set.contours.len() < 200 {
        let polys: Vec<(u16, Ring)> = r.iter().enumerate().map(|(k, v)| (p.regions[k].bits(), ring_of(v))).collect();
        let conts: Vec<(u16, Ring)> = i
            .set
            .contours
            .iter()
            .filter(|k| k.vertices.len() >= 3)
            .map(|k| (k.region.bits(), k.vertices.iter().map(|v| [v.0.x as i64 * scale, v.0.z as i64 * scale]).collect()))
            .collect();
        let mut z = 0;
        while z < i.set.height as i64 {
            let mut x = 0;
            while x < i.set.width as i64 {
                let q = [x * scale + 7, z * scale + 5];
                x += step;
                let mut inn: BTreeMap<u16, i64> = BTreeMap::new();
                let mut skip = false;
                for (reg, k) in &conts {
                    match covers(k, q) {
                        None => skip = true,
                        Some(true) => *inn.entry(if removable { 0 } else { *reg }).or_default() += 1,
                        _ => {}
                    }
                }
                let mut cov: BTreeMap<u16, i64> = BTreeMap::new();
                for (reg, k) in &polys {
                    match covers(k, q) {
                        None => skip = true,
                        Some(true) => *cov.entry(if removable { 0 } else { *reg }).or_default() += 1,
                        _ => {}
                    }
                }
                if skip {
                    continue;
                }
                let regs: HashSet<u16> = inn.keys().chain(cov.keys()).copied().collect();
                for reg in regs {
                    if removable || i.simple(reg) {
                        let (a, b) = (inn.get(&reg).copied().unwrap_or(0), cov.get(&reg).copied().unwrap_or(0));
                        ensure!(a == b, if b > a { "overlap" } else { "uncovered" }, "the point ({},{}) is in {a} contours but in {b} polygons of region {reg}", q[0] as f64 / scale as f64, q[1] as f64 / scale as f64);
                        c.count("points", 1);
                    }
                }
            }
            z += step;
        }
    }
    c.nontrivial_if(r.len() >= 2 && (i.all_valid || !removable && !i.valid.is_empty()));
    Ok(())
}

// ------------------------------------------------------------------ C20
fn c20_oracle(i: &PIn, c: &mut Ctx) -> Res {
    let Some(p) = build(i, c)? else { return Ok(()) };
    structure(&p, &i.set, i.nvp)?;
    let r = rings(&p);
    let n = i.nvp as usize;
    let mut by_edge: HashMap<(u16, u16), Vec<(usize, usize)>> = HashMap::new();
    for (k, v) in r.iter().enumerate() {
        for j in 0..v.len() {
            by_edge.entry((v[j], v[(j + 1) % v.len()])).or_default().push((k, j));
        }
    }
    let none = vec![];
    let mut links = 0;
    let mut portals = 0;
    for (k, v) in r.iter().enumerate() {
        for j in 0..v.len() {
            let (a, b) = (v[j], v[(j + 1) % v.len()]);
            let nb = p.polygon_neighbors[k * n + j];
            let same = &by_edge[&(a, b)];
            let back = by_edge.get(&(b, a)).unwrap_or(&none);
            let edge = format!("edge {j} of polygon {k} ({} - {})", p.vertices[a as usize], p.vertices[b as usize]);
            if same.len() > 1 || back.len() > 1 {
                c.label("edge of more than two polygons");
                if nb != NO && nb & BREG == 0 {
                    ensure!((nb as usize) < r.len() && back.iter().any(|e| e.0 == nb as usize), "wrong-neighbour", "{edge} is linked to polygon {nb}, which does not have it");
                }
                continue;
            }
            if let Some((o, _)) = back.first() {
                if *o == k {
                    continue;
                }
                ensure!(nb as usize == *o, "missing-link", "{edge} belongs to polygon {o} as well but is linked to {nb:#x}");
                links += 1;
                continue;
            }
            let (va, vb) = (p.vertices[a as usize], p.vertices[b as usize]);
            let (w, h) = (i.set.width, i.set.height);
            let exp = if i.set.border_size == 0 {
                NO
            } else if va.x == 0 && vb.x == 0 {
                BREG
            } else if va.z == h && vb.z == h {
                BREG | 1
            } else if va.x == w && vb.x == w {
                BREG | 2
            } else if va.z == 0 && vb.z == 0 {
                BREG | 3
            } else {
                NO
            };
            portals += (exp != NO) as u64;
            ensure!(nb == exp, if nb == NO { "portal-missing" } else { "not-solid" }, "{edge} has no other polygon and is marked {nb:#x} instead of {exp:#x} (inner area {w}x{h}, border {})", i.set.border_size);
        }
    }
    c.count("links", links);
    c.count("portals", portals);
    c.nontrivial_if(links >= 2);
    Ok(())
}

// ------------------------------------------------------------------ C21
fn canon(v: Vec<[i32; 3]>) -> Vec<[i32; 3]> {
    let n = v.len();
    (0..n).map(|k| (0..n).map(|j| v[(k + j) % n]).collect::<Vec<_>>()).min().unwrap_or_default()
}
pub fn c21_oracle(i: &PIn, c: &mut Ctx) -> Res {
    let pts: Vec<(Vec<[i32; 4]>, u16, u8)> = i.set.contours.iter().map(|k| (contour_pts(&k.vertices), k.region.bits(), k.area.0)).collect();
    let ins: Vec<InCont> = pts.iter().map(|k| InCont { verts: &k.0, reg: k.1, area: k.2 }).collect();
    let model = Mesh::build(&ins, i.nvp as usize);
    let code = i.set.clone().into_polygon_mesh(i.nvp);
    let points: usize = pts.iter().filter(|k| k.0.len() >= 3).map(|k| k.0.len()).sum();
    let m = match model {
        Ok(m) => m,
        Err(e) => {
            // the code's limit is one or two vertices later
            ensure!(points >= 65534, "model", "{e}");
            ensure!(points < 65536 || code.is_err(), "limit", "{points} vertices were accepted");
            c.label("too many vertices");
            return Ok(());
        }
    };
    if m.bad_triangulations > 0 {
        c.label("contour cannot be triangulated");
        ensure!(code.is_err(), "accepted", "a contour that the original cannot triangulate was accepted");
        return Ok(());
    }
    let p = code.map_err(|e| Fail::new("refused", format!("{e}")))?;
    let mut a: Vec<[i32; 3]> = p.vertices.iter().map(|v| [v.x as i32, v.y as i32, v.z as i32]).collect();
    let mut b = m.verts.clone();
    a.sort();
    b.sort();
    ensure!(a == b, "vertices", "{} vertices, the original has {}", a.len(), b.len());
    let mut x: Vec<(Vec<[i32; 3]>, u16, u8)> = rings(&p)
        .iter()
        .enumerate()
        .map(|(k, v)| {
            (canon(v.iter().map(|j| { let v = p.vertices.get(*j as usize).copied().unwrap_or_default(); [v.x as i32, v.y as i32, v.z as i32] }).collect()), p.regions.get(k).map_or(0, |r| r.bits()), p.areas.get(k).map_or(0, |r| r.0))
        })
        .collect();
    let mut y: Vec<_> = m.polys.iter().map(|q| (canon(q.v.iter().map(|j| m.verts[*j]).collect()), q.reg, q.area)).collect();
    x.sort();
    y.sort();
    if x != y {
        let d = x.iter().find(|e| !y.contains(e));
        let d2 = y.iter().find(|e| !x.contains(e));
        return Err(Fail::new("polygons", format!("{} polygons, the original has {}; only here: {d:?}; only there: {d2:?}", x.len(), y.len())));
    }
    c.count("merges", m.merges as u64);
    c.count("removed vertices", m.removed as u64);
    c.nontrivial_if(m.merges > 0 || m.removed > 0);
    Ok(())
}
/// Around the limit of vertices.
fn limit(s: &mut Src, c: &mut Ctx) -> PIn {
    let n = (65535 + s.int(-3, 3)) as usize;
    let mut left = n;
    let mut conts = vec![];
    let mut k = 0i32;
    while left > 0 {
        // squares and one last ring with the rest
        let m = if left >= 8 { 4 } else { left.min(7) };
        let (x, z) = ((k % 250) * 4, (k / 250) * 4);
        let mut v = vec![[x, 1, z, 0], [x, 1, z + 3, 0], [x + 3, 1, z + 3, 0], [x + 3, 1, z, 0], [x + 2, 1, z, 0], [x + 1, 1, z + 1, 0], [x + 1, 1, z, 0]];
        v.truncate(m);
        conts.push((v, (k % 30000 + 1) as u16, 255));
        left -= m;
        k += 1;
    }
    let set = set_of(&conts, 1000, 1000, 0);
    c.describe(|| format!("{n} vertices"));
    c.nontrivial = true;
    PIn { set, valid: HashSet::new(), all_valid: false, holed: HashSet::new(), nvp: 6 }
}

macro_rules! drive {
    ($($name:ident = $oracle:ident($gen:ident);)*) => { $(fn $name(s: &mut Src, c: &mut Ctx) -> Res { let mut i = $gen(s, c); lift(&mut i, s, c); $oracle(&i, c) })* };
}
macro_rules! drive_opt {
    ($($name:ident = $oracle:ident($gen:ident);)*) => { $(fn $name(s: &mut Src, c: &mut Ctx) -> Res { let Some(mut i) = $gen(s, c) else { return Ok(()) }; lift(&mut i, s, c); $oracle(&i, c) })* };
}
drive! {
    c18_labelled = c18_oracle(labelled); c18_shapes = c18_oracle(shapes); c18_strips = c18_oracle(strips); c18_large = c18_oracle(large); c18_stretched = c18_oracle(stretched); c18_garbage = c18_oracle(garbage); c18_many = c18_oracle(many);
    c19_labelled = c19_oracle(labelled); c19_shapes = c19_oracle(shapes); c19_strips = c19_oracle(strips); c19_large = c19_oracle(large); c19_stretched = c19_oracle(stretched); c19_many = c19_oracle(many);
    c20_labelled = c20_oracle(labelled); c20_shapes = c20_oracle(shapes); c20_strips = c20_oracle(strips); c20_large = c20_oracle(large); c20_many = c20_oracle(many); c20_garbage = c20_oracle(garbage);
    c21_labelled = c21_oracle(labelled); c21_shapes = c21_oracle(shapes); c21_strips = c21_oracle(strips); c21_large = c21_oracle(large); c21_stretched = c21_oracle(stretched); c21_garbage = c21_oracle(garbage); c21_many = c21_oracle(many); c21_limit = c21_oracle(limit);
}
drive_opt! { c18_pierced = c18_oracle(pierced); c19_pierced = c19_oracle(pierced); c20_pierced = c20_oracle(pierced); c21_pierced = c21_oracle(pierced); c18_built = c18_oracle(built); c19_built = c19_oracle(built); c20_built = c20_oracle(built); c21_built = c21_oracle(built); }

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            rule: "non-trivial: at least two polygons",
            assumptions: &["convexity is required for contours that neither touch themselves nor have holes cut in"],
            subs: vec![
                Sub { name: "labelled", quick: 60_000, thorough: 2_000_000, f: c18_labelled },
                Sub { name: "built", quick: 20_000, thorough: 500_000, f: c18_built },
                Sub { name: "shapes", quick: 60_000, thorough: 2_000_000, f: c18_shapes },
                Sub { name: "strips", quick: 60_000, thorough: 2_000_000, f: c18_strips },
                Sub { name: "large", quick: 60, thorough: 3000, f: c18_large },
                Sub { name: "pierced", quick: 1000, thorough: 50000, f: c18_pierced },
                Sub { name: "stretched", quick: 20_000, thorough: 1_000_000, f: c18_stretched },
                Sub { name: "garbage", quick: 60_000, thorough: 2_000_000, f: c18_garbage },
                Sub { name: "many", quick: 8, thorough: 40, f: c18_many },
            ],
        },
        Prop {
            id: "C19",
            rule: "non-trivial: at least two polygons and a contour without self-contact",
            assumptions: &["exact coverage is required for contours that neither touch themselves nor have holes cut in; with cut-in holes the areas of the triangles have to add up"],
            subs: vec![
                Sub { name: "labelled", quick: 30_000, thorough: 1_000_000, f: c19_labelled },
                Sub { name: "built", quick: 10_000, thorough: 300_000, f: c19_built },
                Sub { name: "shapes", quick: 40_000, thorough: 1_000_000, f: c19_shapes },
                Sub { name: "strips", quick: 40_000, thorough: 1_000_000, f: c19_strips },
                Sub { name: "large", quick: 60, thorough: 3000, f: c19_large },
                Sub { name: "pierced", quick: 1000, thorough: 50000, f: c19_pierced },
                Sub { name: "stretched", quick: 20_000, thorough: 600_000, f: c19_stretched },
                Sub { name: "many", quick: 8, thorough: 40, f: c19_many },
            ],
        },
        Prop {
            id: "C20",
            rule: "non-trivial: at least two links between polygons",
            assumptions: &["an edge shared by more than two polygons only needs a link to one that has it"],
            subs: vec![
                Sub { name: "labelled", quick: 60_000, thorough: 2_000_000, f: c20_labelled },
                Sub { name: "built", quick: 20_000, thorough: 500_000, f: c20_built },
                Sub { name: "shapes", quick: 40_000, thorough: 1_000_000, f: c20_shapes },
                Sub { name: "strips", quick: 60_000, thorough: 2_000_000, f: c20_strips },
                Sub { name: "large", quick: 60, thorough: 3000, f: c20_large },
                Sub { name: "pierced", quick: 1000, thorough: 50000, f: c20_pierced },
                Sub { name: "garbage", quick: 40_000, thorough: 1_000_000, f: c20_garbage },
                Sub { name: "many", quick: 8, thorough: 60, f: c20_many },
            ],
        },
        Prop {
            id: "C21",
            rule: "non-trivial: polygons were merged or border vertices removed",
            assumptions: &["lib/refmodel re-implements rcBuildPolyMesh; it is validated by the C++ dumps in the repository's reference data", "where the original only warns about a contour it cannot triangulate, the code returns an error"],
            subs: vec![
                Sub { name: "labelled", quick: 50_000, thorough: 2_000_000, f: c21_labelled },
                Sub { name: "built", quick: 20_000, thorough: 500_000, f: c21_built },
                Sub { name: "shapes", quick: 50_000, thorough: 2_000_000, f: c21_shapes },
                Sub { name: "strips", quick: 50_000, thorough: 2_000_000, f: c21_strips },
                Sub { name: "large", quick: 60, thorough: 3000, f: c21_large },
                Sub { name: "pierced", quick: 1500, thorough: 100000, f: c21_pierced },
                Sub { name: "stretched", quick: 20_000, thorough: 1_000_000, f: c21_stretched },
                Sub { name: "garbage", quick: 60_000, thorough: 2_000_000, f: c21_garbage },
                Sub { name: "many", quick: 4, thorough: 20, f: c21_many },
                Sub { name: "limit", quick: 16, thorough: 56, f: c21_limit },
                Sub { name: "reference", quick: 6, thorough: 8, f: crate::reference::c21 },
            ],
        },
    ]
}
