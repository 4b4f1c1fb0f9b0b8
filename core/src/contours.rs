//! C15, C16, C17: contours.
use crate::ad::*;
use crate::gens;
use crate::regions;
use glam::Vec3;
use pbt::*;
use refmodel::chf::{Chf, NONE};
use refmodel::contour::{self, area2, Cont, AREA_BORDER, BORDER_VERTEX, REG_MASK};
use refmodel::field::{Field, Span};
use refmodel::{BORDER, DX, DZ};
use rerecast::*;
use std::collections::{HashMap, HashSet};

pub struct In {
    pub m: Chf,
    /// one entry per column, links in both directions
    pub planar: bool,
    pub max_error: f32,
    pub max_edge: u16,
    pub wall: bool,
    pub area: bool,
}
impl In {
    pub fn flags(&self) -> BuildContoursFlags {
        let mut f = BuildContoursFlags::empty();
        f.set(BuildContoursFlags::TESSELLATE_SOLID_WALL_EDGES, self.wall);
        f.set(BuildContoursFlags::TESSELLATE_AREA_EDGES, self.area);
        f
    }
    pub fn run(&self) -> (CompactHeightfield, ContourSet) {
        let chf = chf_to_code(&self.m, 0.5, 0.25, Vec3::new(-3.0, 1.0, 8.0), 4, 2);
        let set = chf.build_contours(self.max_error, self.max_edge, self.flags());
        (chf, set)
    }
    pub fn model(&self) -> Vec<Cont> {
        self.m.contours(self.max_error, self.max_edge as i32, self.wall, self.area)
    }
    fn text(&self) -> String {
        format!("error {} edge {} wall {} area {} border {} {}", self.max_error, self.max_edge, self.wall, self.area, self.m.border, labels(&self.m))
    }
}
pub fn labels(m: &Chf) -> String {
    let mut t = format!("{}x{} entries={}", m.w, m.h, m.spans.len());
    if m.w * m.h <= 500 {
        t.push(' ');
        for z in 0..m.h {
            for x in 0..m.w {
                let (f, n) = m.cells[x + z * m.w];
                t.push(match n {
                    0 => ' ',
                    1 => match m.spans[f].reg {
                        0 => '.',
                        r if r & BORDER != 0 => '%',
                        r => (if r < 27 { b'A' + (r - 1) as u8 } else { b'a' + (r % 26) as u8 }) as char,
                    },
                    _ => '*',
                });
            }
            t.push('/');
        }
    }
    t
}
pub fn settings(s: &mut Src, exact: bool) -> (f32, u16, bool, bool) {
    let err = if exact {
        0.0
    } else {
        match s.weighted(&[2, 3, 3, 1]) {
            0 => 0.0,
            1 => 1.3,
            2 => s.int(0, 40) as f32 / 8.0,
            _ => *s.pick(&[0.001, 100.0, 65535.0, 1e20]),
        }
    };
    let edge = match s.weighted(&[3, 3, 1]) {
        0 => 0,
        1 => s.int(1, 14) as u16,
        _ => *s.pick(&[12u16, 200, 255, 256, 257, 512, 32768, 65535]),
    };
    let (w, a) = match s.weighted(&[3, 1, 1, 1]) {
        0 => (true, false),
        1 => (true, true),
        2 => (false, true),
        _ => (false, false),
    };
    (err, edge, w, a)
}

/// Hand-labelled plane: arbitrary region shapes; every region is connected and has one area type.
pub fn labelled(s: &mut Src, max: usize, c: &mut Ctx, exact: bool) -> In {
    let (w, h) = (s.usize(1, max), s.usize(1, max));
    let border = if s.chance(1, 4) { s.usize(1, 4) } else { 0 };
    let mut lab = vec![if s.chance(1, 6) { 0u8 } else { 1 }; w * h];
    let n = s.small(0, 12);
    for _ in 0..n {
        let kind = s.weighted(&[5, 3, 2, 2, 2]);
        let (x0, z0) = (s.usize(0, w - 1), s.usize(0, h - 1));
        let (x1, z1) = ((x0 + s.small(1, w as i64) as usize).min(w), (z0 + s.small(1, h as i64) as usize).min(h));
        let l = s.int(0, 4) as u8;
        match kind {
            0 => (z0..z1).for_each(|z| (x0..x1).for_each(|x| lab[x + z * w] = l)),
            1 => {
                for z in z0..z1 {
                    for x in x0..x1 {
                        if s.chance(1, 5) {
                            lab[x + z * w] = l
                        }
                    }
                }
            }
            2 => {
                for z in z0..z1 {
                    for x in x0..x1 {
                        if x == x0 || z == z0 || x + 1 == x1 || z + 1 == z1 {
                            lab[x + z * w] = l
                        }
                    }
                }
            }
            3 => {
                // isolated single cells on a lattice
                for z in (z0..z1).step_by(2) {
                    for x in (x0..x1).step_by(2) {
                        lab[x + z * w] = l
                    }
                }
            }
            _ => {
                // diagonal staircase
                for k in 0..(x1 - x0).min(z1 - z0) {
                    lab[x0 + k + (z0 + k) * w] = l
                }
            }
        }
    }
    // 0 = no ground or unwalkable ground
    let hollow = s.bool();
    let bumpy = s.int(0, 2);
    let mut f = Field::new(w, h);
    let areas: Vec<u8> = (0..5).map(|_| gens::walkable(s)).collect();
    for i in 0..w * h {
        if lab[i] == 0 && hollow {
            continue;
        }
        let y = 10 + if bumpy > 0 { s.int(0, bumpy) as i32 } else { 0 };
        f.cols[i].push(Span { min: 0, max: y, area: if lab[i] == 0 { 9 } else { areas[lab[i] as usize] } });
    }
    let mut m = Chf::build(&f, 2, 4).unwrap();
    m.border = border;
    let b = border as i32;
    let inb = |x: i32, z: i32| x < b || z < b || x >= w as i32 - b || z >= h as i32 - b;
    // connected pieces get ids
    let mut next = 0u16;
    for i in 0..m.spans.len() {
        if m.spans[i].reg != 0 {
            continue;
        }
        let sp = &m.spans[i];
        let l = lab[sp.x as usize + sp.z as usize * w];
        if inb(sp.x, sp.z) {
            let side = if sp.x < b { 1 } else if sp.x >= w as i32 - b { 2 } else if sp.z < b { 3 } else { 4 };
            m.spans[i].reg = if l == 0 { 0 } else { BORDER | side };
            continue;
        }
        if l == 0 {
            m.areas[i] = 0;
            continue;
        }
        next += 1;
        m.spans[i].reg = next;
        let mut st = vec![i];
        while let Some(k) = st.pop() {
            for d in 0..4 {
                let a = m.spans[k].nb[d];
                if a != NONE && m.spans[a].reg == 0 && !inb(m.spans[a].x, m.spans[a].z) && lab[m.spans[a].x as usize + m.spans[a].z as usize * w] == l {
                    m.spans[a].reg = next;
                    st.push(a);
                }
            }
        }
    }
    m.max_reg = next;
    let (max_error, max_edge, wall, area) = settings(s, exact);
    c.label_if(border > 0, "with border");
    lift(&mut m, s, c);
    let i = In { m, planar: true, max_error, max_edge, wall, area };
    c.describe(|| i.text());
    i
}
/// How far something between two heights is raised: to a multiple of 256, the middle or the end of the range.
pub fn lift_by(low: i64, high: i64, s: &mut Src) -> i64 {
    if !s.chance(1, 5) {
        return 0;
    }
    let mid = (low + high) / 2;
    let by = match s.usize(0, 2) {
        0 => 256 * s.int(1, 200) - mid,
        1 => 32768 - mid,
        _ => 65535 - high,
    };
    if low + by < 0 || high + by > 65535 { 0 } else { by }
}
pub fn lift(m: &mut Chf, s: &mut Src, c: &mut Ctx) {
    let (Some(low), Some(high)) = (m.spans.iter().map(|e| e.y).min(), m.spans.iter().map(|e| e.y).max()) else { return };
    let by = lift_by(low as i64, high as i64 + 1, s);
    c.label_if(by != 0, "lifted");
    for e in m.spans.iter_mut() {
        e.y = (e.y as i64 + by) as _;
    }
}
/// Regions as the watershed makes them.
pub fn built(s: &mut Src, max: usize, c: &mut Ctx, exact: bool) -> Option<In> {
    let r = regions::field_in(s, max, c, false)?;
    let planar = r.chf.cells.iter().all(|c| c.1 <= 1);
    let mut m = r.chf;
    m.build_regions(r.border.min(300) as usize, r.min as i64, r.merge as i64).ok()?;
    m.border = r.border as usize;
    let (max_error, max_edge, wall, area) = settings(s, exact);
    lift(&mut m, s, c);
    let i = In { m, planar, max_error, max_edge, wall, area };
    c.describe(|| i.text());
    Some(i)
}
/// More entries than 16 bits count, or longer than 15 bits count.
fn vast(s: &mut Src, c: &mut Ctx) -> Option<In> {
    let r = regions::vast_in(s, c)?;
    let planar = r.chf.cells.iter().all(|c| c.1 <= 1);
    let mut m = r.chf;
    m.build_regions(r.border.min(300) as usize, r.min as i64, r.merge as i64).ok()?;
    m.border = r.border as usize;
    let (mut max_error, max_edge, wall, area) = settings(s, false);
    // joining holes takes time with the square of their number
    let outlines = m.outlines();
    if outlines > 4000 {
        c.label("too many outlines to join");
        return None;
    }
    if max_error < 2.0 && outlines > 500 {
        max_error += 2.0;
    }
    let i = In { m, planar, max_error, max_edge, wall, area };
    c.describe(|| i.text());
    Some(i)
}
fn c15_vast(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = vast(s, c) else { return Ok(()) };
    if !symmetric(&i.m) {
        c.label("one-way links");
        return agree(&i, c);
    }
    c15_oracle(&i, c)
}
fn c16_vast(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = vast(s, c) else { return Ok(()) };
    c.nontrivial_if(i.m.spans.len() > 32767 && i.m.max_reg >= 2);
    agree(&i, c)
}
/// Unstructured columns: many layers, one-way links, arbitrary labels.
fn wild(s: &mut Src, c: &mut Ctx) -> Option<In> {
    let f = gens::columns(s, 10);
    let (wh, cl) = (s.int(1, 8) as i32, s.int(0, 6) as i32);
    let mut m = Chf::build(&f, wh, cl).ok()?;
    let k = s.int(1, 3);
    for i in 0..m.spans.len() {
        m.spans[i].reg = match s.weighted(&[8, 1, 1]) {
            0 => s.int(1, k) as u16,
            1 => 0,
            _ => BORDER | 1,
        };
        m.max_reg = k as u16;
    }
    let (max_error, max_edge, wall, area) = settings(s, false);
    let i = In { m, planar: false, max_error, max_edge, wall, area };
    c.describe(|| i.text());
    Some(i)
}
fn symmetric(m: &Chf) -> bool {
    (0..m.spans.len()).all(|i| (0..4).all(|d| m.spans[i].nb[d] == NONE || m.spans[m.spans[i].nb[d]].nb[(d + 2) & 3] == i))
}
fn at(p: &[i32; 4]) -> String {
    format!("({},{},{})", p[0], p[1], p[2])
}

// ------------------------------------------------------------------ C15
/// start, end, floor, region, area, data
type Edge = ([i32; 2], [i32; 2], i32, u16, u8, i32);
/// Every boundary edge of every region with the point that belongs to its end.
fn expected_edges(m: &Chf) -> Vec<(Edge, usize)> {
    let mut out = vec![];
    let b = m.border as i32;
    for i in 0..m.spans.len() {
        let s = &m.spans[i];
        if s.reg == 0 || s.reg & BORDER != 0 {
            continue;
        }
        let other = |d: usize| if s.nb[d] == NONE { 0 } else { m.spans[s.nb[d]].reg };
        if (0..4).all(|d| other(d) != s.reg) {
            continue; // a region of one cell
        }
        let corners = [[s.x, s.z], [s.x, s.z + 1], [s.x + 1, s.z + 1], [s.x + 1, s.z]];
        for d in 0..4 {
            if other(d) == s.reg {
                continue;
            }
            let mut data = other(d) as i32;
            if s.nb[d] != NONE && m.areas[s.nb[d]] != m.areas[i] {
                data |= AREA_BORDER;
            }
            let (y, special) = m.corner(i, d);
            if special {
                data |= BORDER_VERTEX;
            }
            let (p, q) = (corners[d], corners[(d + 1) & 3]);
            out.push((([p[0] - b, p[1] - b], [q[0] - b, q[1] - b], y, s.reg, m.areas[i], data), i));
        }
    }
    out
}
fn c15_oracle(i: &In, c: &mut Ctx) -> Res {
    let m = &i.m;
    let (before, set) = i.run();
    let b = m.border as u16;
    // metadata
    ensure!(
        set.width == before.width.saturating_sub(b.saturating_mul(2)) && set.height == before.height.saturating_sub(b.saturating_mul(2)) && set.border_size == b && set.max_error == i.max_error && set.cell_size == before.cell_size && set.cell_height == before.cell_height,
        "metadata",
        "the set says {}x{} border {} error {} for a {}x{} field with border {b}",
        set.width,
        set.height,
        set.border_size,
        set.max_error,
        m.w,
        m.h
    );
    let pad = b as f32 * before.cell_size;
    let (lo, hi) = (before.aabb.min, before.aabb.max);
    ensure!(set.aabb.min == Vec3::new(lo.x + pad, lo.y, lo.z + pad) && set.aabb.max == Vec3::new(hi.x - pad, hi.y, hi.z - pad), "metadata", "bounds {:?} for {:?} with {pad} of border", set.aabb, before.aabb);
    // outlines
    let mut got: HashMap<Edge, i64> = HashMap::new();
    let mut signed: HashMap<u16, (i64, i64, i64)> = HashMap::new();
    for k in &set.contours {
        let r = raw_pts(&k.raw_vertices);
        let reg = k.region.bits();
        ensure!(reg != 0 && reg & BORDER == 0, "outline-of-nothing", "an outline carries the region {reg:#x}");
        let n = r.len();
        ensure!(n >= 4, "short-outline", "region {reg} has an outline of {n} points");
        let mut a2 = 0i64;
        for j in 0..n {
            let (p, q) = (r[(j + n - 1) % n], r[j]);
            ensure!((p[0] - q[0]).abs() + (p[2] - q[2]).abs() == 1, "not-a-step", "region {reg}: the outline goes from {} to {}", at(&p), at(&q));
            *got.entry(([p[0], p[2]], [q[0], q[2]], q[1], reg, k.area.0, q[3])).or_default() += 1;
            a2 += q[0] as i64 * p[2] as i64 - p[0] as i64 * q[2] as i64;
        }
        let e = signed.entry(reg).or_default();
        e.0 += a2;
        if a2 > 0 { e.1 += 1 } else { e.2 += 1 }
    }
    let exp = expected_edges(m);
    c.count("boundary edges", exp.len() as u64);
    // outlines whose simplification has fewer than three points are dropped (judged in C16)
    let mut dropped_regs: HashSet<u16> = HashSet::new();
    let dropped = m.contours(i.max_error, i.max_edge as i32, i.wall, i.area).len() < m.outlines();
    if dropped {
        c.label("outlines dropped by simplification");
    }
    for (e, s) in &exp {
        let n = got.entry(*e).or_default();
        *n -= 1;
        if *n < 0 {
            if dropped {
                dropped_regs.insert(e.3);
                continue;
            }
            return Err(Fail::new("edge-missing", format!("region {} cell ({},{}): its boundary from {:?} to {:?} (floor {}, data {:#x}) is not part of any outline", e.3, m.spans[*s].x, m.spans[*s].z, e.0, e.1, e.2, e.5)));
        }
    }
    for (e, n) in &got {
        ensure!(*n <= 0, "edge-extra", "region {}: an outline walks from {:?} to {:?} at height {} with data {:#x} although that is no boundary of it (or it does so twice)", e.3, e.0, e.1, e.2, e.5);
    }
    // orientation: what an outline encloses
    if i.planar {
        let mut cells: HashMap<u16, i64> = HashMap::new();
        for s in &m.spans {
            *cells.entry(s.reg).or_default() += 1;
        }
        for (reg, (a2, outer, holes)) in &signed {
            if dropped_regs.contains(reg) {
                continue;
            }
            ensure!(*outer == 1, "winding", "region {reg} has {outer} clockwise outlines");
            ensure!(*a2 == 2 * cells[reg], "enclosed", "region {reg} has {} cells but its outlines enclose {}", cells[reg], *a2 as f64 / 2.0);
            c.count("holes", *holes as u64);
        }
    }
    c.nontrivial_if(signed.len() >= 2 || signed.values().any(|v| v.2 > 0));
    Ok(())
}
fn exact(mut i: In) -> In {
    i.max_error = 0.0;
    i
}
fn c15_labelled(s: &mut Src, c: &mut Ctx) -> Res {
    let e = s.chance(3, 4);
    let i = labelled(s, 18, c, e);
    c15_oracle(&i, c)
}
fn c15_built(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = built(s, 32, c, false) else { return Ok(()) };
    if !symmetric(&i.m) {
        c.label("one-way links");
        return agree(&i, c);
    }
    c15_oracle(&i, c)
}
/// Outlines longer than any fixed limit.
fn c15_long(s: &mut Src, c: &mut Ctx) -> Res {
    // a comb: about 2 * w * h / 2 steps
    let (w, h) = (s.usize(150, 330), s.usize(150, 330));
    let mut f = Field::new(w, h);
    for z in 0..h {
        for x in 0..w {
            if z == 0 || x % 2 == 0 {
                f.cols[x + z * w].push(Span { min: 0, max: 3, area: 255 });
            }
        }
    }
    let mut m = Chf::build(&f, 2, 1).unwrap();
    m.spans.iter_mut().for_each(|s| s.reg = 1);
    m.max_reg = 1;
    c.describe(|| format!("comb {w}x{h}"));
    c.nontrivial = true;
    let i = In { m, planar: true, max_error: s.int(30, 90) as f32, max_edge: 0, wall: true, area: false };
    // the simplified outline is irrelevant: kept small but with at least three points
    let (_, set) = i.run();
    ensure!(set.contours.len() <= 1, "edge-extra", "{} outlines", set.contours.len());
    if let Some(k) = set.contours.first() {
        let n = expected_edges(&i.m).len();
        ensure!(k.raw_vertices.len() == n, "edge-missing", "the outline has {} of {n} boundary edges", k.raw_vertices.len());
    } else {
        c.label("outlines dropped by simplification");
    }
    agree(&i, c)
}

// ------------------------------------------------------------------ agreement with the model
fn agree(i: &In, c: &mut Ctx) -> Res {
    let (_, set) = i.run();
    agree_set(i, &set, c)
}
pub fn agree_set(i: &In, set: &ContourSet, c: &mut Ctx) -> Res {
    let mut exp = i.model();
    let left = contour::merge_holes(&mut exp);
    c.label_if(left > 0, "holes that cannot be connected");
    ensure!(set.contours.len() == exp.len(), "differs", "{} contours, the original has {}", set.contours.len(), exp.len());
    // order does not matter, but both go through the field in the same order
    let mut used = vec![false; exp.len()];
    for k in &set.contours {
        let (raw, v) = (raw_pts(&k.raw_vertices), contour_pts(&k.vertices));
        let same_raw = |e: &Cont| e.reg == k.region.bits() && e.area == k.area.0 && rotation(&e.raw, &raw);
        let Some(j) = (0..exp.len()).find(|j| !used[*j] && same_raw(&exp[*j])) else {
            return Err(Fail::new("differs", format!("region {}: no such raw outline in the original: {} points from {}", k.region.bits(), raw.len(), raw.first().map(at).unwrap_or_default())));
        };
        used[j] = true;
        if exp[j].verts.is_empty() {
            ensure!(v.is_empty(), "differs", "region {}: a merged hole keeps {} points", exp[j].reg, v.len());
            continue;
        }
        ensure!(rotation(&exp[j].verts, &v), "differs", "region {}: simplified to {:?}, the original gives {:?}", exp[j].reg, v, exp[j].verts);
    }
    Ok(())
}
fn rotation(a: &[[i32; 4]], b: &[[i32; 4]]) -> bool {
    let n = a.len();
    n == b.len() && (n == 0 || a == b || (0..n).any(|k| a[k] == b[0] && (0..n).all(|j| a[(k + j) % n] == b[j])))
}

// ------------------------------------------------------------------ C16
/// Raw indices of the simplified points, or None when a place is visited twice.
fn locate(raw: &[[i32; 4]], v: &[[i32; 4]]) -> Option<Result<Vec<usize>, String>> {
    let mut pos: HashMap<[i32; 2], usize> = HashMap::new();
    for (k, p) in raw.iter().enumerate() {
        if pos.insert([p[0], p[2]], k).is_some() {
            return None;
        }
    }
    let mut out = vec![];
    for p in v {
        match pos.get(&[p[0], p[2]]) {
            Some(k) if raw[*k][1] == p[1] => out.push(*k),
            _ => return Some(Err(format!("{} is not a point of the raw outline", at(p)))),
        }
    }
    let n = raw.len();
    let total: usize = (0..out.len()).map(|k| (out[(k + 1) % out.len()] + n - out[k]) % n).sum();
    if total != n {
        return Some(Err("the points are not in the order of the raw outline".into()));
    }
    Some(Ok(out))
}
fn dist2(p: &[i32; 4], a: &[i32; 4], b: &[i32; 4]) -> f64 {
    let f = |v: i32| v as f64;
    let (px, pz) = (f(p[0]) - f(a[0]), f(p[2]) - f(a[2]));
    let (dx, dz) = (f(b[0]) - f(a[0]), f(b[2]) - f(a[2]));
    let l = dx * dx + dz * dz;
    let t = if l > 0.0 { ((px * dx + pz * dz) / l).clamp(0.0, 1.0) } else { 0.0 };
    (px - t * dx).powi(2) + (pz - t * dz).powi(2)
}
/// Splitting only adds points to the contour without splitting, and that one is within the tolerance.
fn c16_tolerance(plain: &In, split: &ContourSet, holes: &HashSet<u16>, c: &mut Ctx) -> Res {
    let (_, set) = plain.run();
    for k in &set.contours {
        let reg = k.region.bits();
        if holes.contains(&reg) || k.vertices.is_empty() {
            continue;
        }
        let raw = raw_pts(&k.raw_vertices);
        let Some(Ok(idx)) = locate(&raw, &contour_pts(&k.vertices)) else { continue };
        let n = raw.len();
        for (e, s) in idx.iter().enumerate() {
            let t = idx[(e + 1) % idx.len()];
            if raw[(s + 1) % n][3] & REG_MASK != 0 && raw[(s + 1) % n][3] & AREA_BORDER == 0 {
                continue;
            }
            for o in 1..(t + n - s) % n {
                let p = raw[(s + o) % n];
                let d = dist2(&p, &raw[*s], &raw[t]).sqrt();
                let lim = plain.max_error as f64;
                ensure!(d <= lim + 1e-3 + 1e-5 * lim, "tolerance", "region {reg}: {} is {d} away from the edge {} - {} (limit {lim})", at(&p), at(&raw[*s]), at(&raw[t]));
            }
        }
        let Some(other) = split.contours.iter().find(|o| o.region == k.region && o.raw_vertices == k.raw_vertices) else {
            return Err(Fail::new("split-drops", format!("region {reg}: splitting long edges loses the contour")));
        };
        let places: HashSet<[i32; 2]> = contour_pts(&other.vertices).iter().map(|p| [p[0], p[2]]).collect();
        for s in idx {
            ensure!(places.contains(&[raw[s][0], raw[s][2]]), "split-drops", "region {reg}: splitting long edges loses the point {}", at(&raw[s]));
        }
        c.count("contours compared with and without splitting", 1);
    }
    Ok(())
}
fn c16_oracle(i: &In, c: &mut Ctx) -> Res {
    let (chf, set) = i.run();
    let b = i.m.border as i32;
    let err = i.max_error as f64;
    let mut holes: HashSet<u16> = HashSet::new();
    for k in &set.contours {
        if k.vertices.is_empty() || area2(&raw_pts(&k.raw_vertices)) < 0 {
            holes.insert(k.region.bits());
        }
    }
    let mut split = 0;
    for k in &set.contours {
        let reg = k.region.bits();
        let (raw, v) = (raw_pts(&k.raw_vertices), contour_pts(&k.vertices));
        if holes.contains(&reg) {
            continue; // connected holes: judged through agreement with the model and C17
        }
        ensure!(v.len() >= 3, "too-few-points", "region {reg}: {} points", v.len());
        for j in 0..v.len() {
            let q = v[(j + 1) % v.len()];
            ensure!((v[j][0], v[j][2]) != (q[0], q[2]), "doubled-point", "region {reg}: two consecutive points at {}", at(&q));
        }
        let Some(idx) = locate(&raw, &v) else {
            c.label("outline touches itself");
            continue;
        };
        let idx = idx.map_err(|e| Fail::new("not-from-raw", format!("region {reg}: {e}")))?;
        let n = raw.len();
        let connected = raw.iter().any(|p| p[3] & REG_MASK != 0);
        let kept: HashSet<usize> = idx.iter().copied().collect();
        for j in 0..n {
            let (p, q) = (raw[j][3], raw[(j + 1) % n][3]);
            if p & REG_MASK != q & REG_MASK || (connected && p & AREA_BORDER != q & AREA_BORDER) {
                ensure!(kept.contains(&j), "change-lost", "region {reg}: the neighbour changes at {} but the point is gone", at(&raw[j]));
            }
        }
        for (e, s) in idx.iter().enumerate() {
            let t = idx[(e + 1) % idx.len()];
            let steps = (t + n - s) % n;
            let (pa, pb) = (raw[*s], raw[t]);
            let next = raw[(s + 1) % n][3];
            let exp = (next & (REG_MASK | AREA_BORDER)) | (pa[3] & BORDER_VERTEX);
            ensure!(v[e][3] == exp, "edge-data", "region {reg}: the edge from {} carries {:#x} instead of {exp:#x}", at(&pa), v[e][3]);
            let is_wall = next & REG_MASK == 0;
            let is_area = next & AREA_BORDER != 0;
            if is_wall || is_area {
                // splitting long edges happens afterwards (below: it only adds points)
                let splits = i.max_edge > 0 && (i.wall || i.area);
                let lim = if splits { f64::INFINITY } else { err };
                for o in 1..steps {
                    let p = raw[(s + o) % n];
                    let d = dist2(&p, &pa, &pb).sqrt();
                    ensure!(d <= lim + 1e-3 + 1e-5 * lim, "tolerance", "region {reg}: {} is {d} away from the edge {} - {} (limit {err})", at(&p), at(&pa), at(&pb));
                }
            }
            if i.max_edge > 0 && ((i.wall && is_wall) || (i.area && is_area)) {
                let (dx, dz) = ((pa[0] - pb[0]) as i64, (pa[2] - pb[2]) as i64);
                ensure!(dx * dx + dz * dz <= (i.max_edge as i64).pow(2) || steps <= 1, "too-long", "region {reg}: the edge {} - {} is longer than {} although it spans {steps} steps", at(&pa), at(&pb), i.max_edge);
                split += 1;
            }
        }
    }
    c.count("edges subject to the length limit", split);
    // zero switches splitting off
    if i.max_edge == 0 {
        let huge = chf.build_contours(i.max_error, 65535, i.flags());
        ensure!(set.contours == huge.contours, "zero-edge", "a maximum edge length of zero splits edges");
    }
    if i.max_edge > 0 && (i.wall || i.area) {
        let plain = In { m: i.m.clone(), max_edge: 0, ..*i };
        c16_tolerance(&plain, &set, &holes, c)?;
    }
    // shared borders
    let m = &i.m;
    if i.planar && (b as usize) * 2 < m.w.min(m.h) {
        let reg_at = |x: i32, z: i32| -> u16 {
            if x < 0 || z < 0 || x >= m.w as i32 || z >= m.h as i32 {
                return 0;
            }
            let (f, n) = m.cells[x as usize + z as usize * m.w];
            if n == 0 { 0 } else { m.spans[f].reg }
        };
        // an outline that simplified to fewer than three points takes its borders with it
        let mut missing: HashMap<u16, i64> = HashMap::new();
        for (e, _) in expected_edges(m) {
            *missing.entry(e.3).or_default() += 1;
        }
        for k in &set.contours {
            *missing.entry(k.region.bits()).or_default() -= k.raw_vertices.len() as i64;
        }
        // regions meeting diagonally pair their borders differently
        let mut skip: HashSet<u16> = missing.iter().filter(|e| *e.1 != 0).map(|e| *e.0).collect();
        for z in 0..m.h as i32 - 1 {
            for x in 0..m.w as i32 - 1 {
                let q = [reg_at(x, z), reg_at(x + 1, z), reg_at(x, z + 1), reg_at(x + 1, z + 1)];
                if (q[0] == q[3] && q[0] != q[1] && q[0] != q[2]) || (q[1] == q[2] && q[1] != q[0] && q[1] != q[3]) {
                    skip.extend(q);
                }
            }
        }
        // missing links between adjacent cells break a border up in its own way
        for s in &m.spans {
            for d in 0..4 {
                if s.nb[d] == NONE {
                    let r = reg_at(s.x + DX[d], s.z + DZ[d]);
                    if r != 0 {
                        skip.insert(r);
                        skip.insert(s.reg);
                    }
                }
            }
        }
        let mut sides: HashMap<(u16, u16), Vec<([i32; 2], [i32; 2])>> = HashMap::new();
        let mut present: HashSet<u16> = HashSet::new();
        for k in &set.contours {
            let reg = k.region.bits();
            present.insert(reg);
            let v = contour_pts(&k.vertices);
            for j in 0..v.len() {
                let o = (v[j][3] & REG_MASK) as u16;
                if o == 0 || o & BORDER != 0 || skip.contains(&o) || skip.contains(&reg) || holes.contains(&o) || holes.contains(&reg) {
                    continue;
                }
                let q = v[(j + 1) % v.len()];
                let (p, q) = ([v[j][0], v[j][2]], [q[0], q[2]]);
                sides.entry((reg, o)).or_default().push((p.min(q), p.max(q)));
            }
        }
        let keys: Vec<(u16, u16)> = sides.keys().copied().collect();
        for (a, o) in keys {
            if !present.contains(&o) {
                continue; // the neighbour has no contour of its own
            }
            let mut x = sides[&(a, o)].clone();
            let mut y = sides.get(&(o, a)).cloned().unwrap_or_default();
            x.sort();
            y.sort();
            ensure!(x == y, "shared-border", "the border of regions {a} and {o} is {x:?} seen from {a} but {y:?} seen from {o}");
            c.count("shared borders", 1);
        }
    }
    c.nontrivial_if(set.contours.iter().any(|k| k.vertices.len() >= 3 && k.vertices.len() < k.raw_vertices.len()));
    Ok(())
}
fn c16_labelled(s: &mut Src, c: &mut Ctx) -> Res {
    let i = labelled(s, 20, c, false);
    c16_oracle(&i, c)?;
    agree(&i, c)
}
fn c16_built(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = built(s, 40, c, false) else { return Ok(()) };
    if symmetric(&i.m) {
        c16_oracle(&i, c)?;
    }
    agree(&i, c)
}
fn c16_wild(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = wild(s, c) else { return Ok(()) };
    c.nontrivial_if(!i.m.spans.is_empty());
    agree(&i, c)
}
/// Long straight and jagged walls with every kind of length limit.
fn c16_long(s: &mut Src, c: &mut Ctx) -> Res {
    let w = s.usize(200, 1200);
    let h = s.usize(2, 6);
    let mut f = Field::new(w, h);
    let period = s.usize(2, 300);
    for z in 0..h {
        for x in 0..w {
            if z + 1 < h || (x / period) % 2 == 0 {
                f.cols[x + z * w].push(Span { min: 0, max: 3, area: 255 });
            }
        }
    }
    let mut m = Chf::build(&f, 2, 1).unwrap();
    let cut = s.usize(0, w) as i32;
    m.spans.iter_mut().for_each(|s| s.reg = if s.x < cut { 1 } else { 2 });
    m.max_reg = 2;
    let (max_error, _, wall, area) = settings(s, false);
    let max_edge = *s.pick(&[0u16, 1, 60, 254, 255, 256, 257, 300, 512, 1000, 4096, 65535]);
    let i = In { m, planar: true, max_error, max_edge, wall, area };
    c.describe(|| format!("strip cut at {cut} period {period} {}", i.text()));
    c16_oracle(&i, c)?;
    agree(&i, c)
}

// ------------------------------------------------------------------ C17
fn ring(v: &[[i32; 4]]) -> Vec<[i64; 2]> {
    v.iter().map(|p| [p[0] as i64, p[2] as i64]).collect()
}
fn side(a: [i64; 2], b: [i64; 2], p: [i64; 2]) -> i64 {
    ((b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])).signum()
}
/// Proper crossing of two segments.
fn cross(a: [i64; 2], b: [i64; 2], p: [i64; 2], q: [i64; 2]) -> bool {
    side(a, b, p) * side(a, b, q) < 0 && side(p, q, a) * side(p, q, b) < 0
}
/// A shared point of two segments that is not a common end.
fn touches(a: [i64; 2], b: [i64; 2], p: [i64; 2], q: [i64; 2]) -> bool {
    let on = |a: [i64; 2], b: [i64; 2], p: [i64; 2]| side(a, b, p) == 0 && p[0] >= a[0].min(b[0]) && p[0] <= a[0].max(b[0]) && p[1] >= a[1].min(b[1]) && p[1] <= a[1].max(b[1]);
    cross(a, b, p, q) || on(a, b, p) || on(a, b, q) || on(p, q, a) || on(p, q, b)
}
fn inside(v: &[[i64; 2]], p: [i64; 2]) -> bool {
    let mut c = false;
    for i in 0..v.len() {
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        if (a[1] > p[1]) != (b[1] > p[1]) {
            let s = side(a, b, p);
            if (b[1] > a[1]) == (s < 0) {
                c = !c;
            }
        }
    }
    c
}
/// Outline and holes are simple, apart from each other, and every hole is inside the outline and no other hole.
pub fn well_formed(o: &[[i32; 4]], holes: &[&Vec<[i32; 4]>]) -> bool {
    let mut rings = vec![ring(o)];
    rings.extend(holes.iter().map(|h| ring(h)));
    for (k, r) in rings.iter().enumerate() {
        for i in 0..r.len() {
            for j in i + 1..r.len() {
                let adjacent = j == i + 1 || (i == 0 && j + 1 == r.len());
                let (a, b, p, q) = (r[i], r[(i + 1) % r.len()], r[j], r[(j + 1) % r.len()]);
                if adjacent {
                    // spikes
                    let (m, x, y) = if b == p { (b, a, q) } else { (a, b, p) };
                    let dot = (x[0] - m[0]) * (y[0] - m[0]) + (x[1] - m[1]) * (y[1] - m[1]);
                    if r.len() == 2 || (side(m, x, y) == 0 && dot > 0) {
                        return false;
                    }
                } else if touches(a, b, p, q) {
                    return false;
                }
            }
        }
        for r2 in &rings[k + 1..] {
            for i in 0..r.len() {
                for j in 0..r2.len() {
                    if touches(r[i], r[(i + 1) % r.len()], r2[j], r2[(j + 1) % r2.len()]) {
                        return false;
                    }
                }
            }
        }
        if k > 0 && (!inside(&rings[0], r[0]) || rings[1..].iter().enumerate().any(|(j, r2)| j + 1 != k && inside(r2, r[0]))) {
            return false;
        }
    }
    true
}
fn c17_oracle(i: &In, walls_only: bool, c: &mut Ctx) -> Res {
    let (_, set) = i.run();
    let pre = i.model();
    let mut regs: Vec<u16> = pre.iter().map(|k| k.reg).collect();
    regs.sort();
    regs.dedup();
    for reg in regs {
        let mine: Vec<&Cont> = pre.iter().filter(|k| k.reg == reg).collect();
        let after: Vec<Vec<[i32; 4]>> = set.contours.iter().filter(|k| k.region.bits() == reg).map(|k| contour_pts(&k.vertices)).collect();
        ensure!(after.len() == mine.len(), "contour-count", "region {reg} has {} outlines, {} are reported", mine.len(), after.len());
        let total: i64 = mine.iter().map(|k| area2(&k.verts)).sum();
        let got: i64 = after.iter().map(|k| area2(k)).sum();
        ensure!(total == got, "area", "region {reg}: its outlines enclose {} but the contours enclose {}", total as f64 / 2.0, got as f64 / 2.0);
        let outer: Vec<&&Cont> = mine.iter().filter(|k| area2(&k.verts) > 0).collect();
        let holes: Vec<&Vec<[i32; 4]>> = mine.iter().filter(|k| area2(&k.verts) < 0).map(|k| &k.verts).collect();
        if outer.len() != 1 || holes.is_empty() || mine.iter().any(|k| area2(&k.verts) == 0) {
            continue;
        }
        if !walls_only && !well_formed(&outer[0].verts, &holes) {
            c.label("outlines in conflict after simplification");
            continue;
        }
        c.count("holes connected", holes.len() as u64);
        c.label_if(holes.len() > 1, "several holes in one region");
        let left: Vec<&Vec<[i32; 4]>> = after.iter().filter(|k| !k.is_empty()).collect();
        ensure!(left.len() == 1, "hole-left", "region {reg} with {} holes keeps {} separate contours", holes.len(), left.len());
        let v = left[0];
        let n: usize = mine.iter().map(|k| k.verts.len() + 2).sum::<usize>() - 2;
        ensure!(v.len() == n, "points-lost", "region {reg}: {} points where outline, holes and connections have {n}", v.len());
        // nothing crosses
        let r = ring(v);
        if r.len() <= 400 {
            for a in 0..r.len() {
                for b in a + 1..r.len() {
                    ensure!(!cross(r[a], r[(a + 1) % r.len()], r[b], r[(b + 1) % r.len()]), "crossing", "region {reg}: the contour crosses itself between {:?}-{:?} and {:?}-{:?}", r[a], r[(a + 1) % r.len()], r[b], r[(b + 1) % r.len()]);
                }
            }
        }
        c.nontrivial = true;
    }
    if walls_only {
        let cells = i.m.spans.iter().filter(|s| s.reg == 1).count() as i64;
        let got: i64 = set.contours.iter().map(|k| area2(&contour_pts(&k.vertices))).sum();
        ensure!(cells <= 1 || got == 2 * cells, "area", "the region has {cells} cells but its contour encloses {}", got as f64 / 2.0);
    }
    Ok(())
}
fn c17_labelled(s: &mut Src, c: &mut Ctx) -> Res {
    let e = s.bool();
    let i = labelled(s, 20, c, e);
    c17_oracle(&i, false, c)?;
    agree(&i, c)
}
fn c17_built(s: &mut Src, c: &mut Ctx) -> Res {
    let e = s.bool();
    let Some(i) = built(s, 40, c, e) else { return Ok(()) };
    if !symmetric(&i.m) {
        return agree(&i, c);
    }
    c17_oracle(&i, false, c)?;
    agree(&i, c)
}
/// One region, exact outline, any number of pillars of any shape.
fn c17_pillars(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = (s.usize(3, 24), s.usize(3, 24));
    let mut open = vec![true; w * h];
    for _ in 0..s.usize(1, 14) {
        let (x0, z0) = (s.usize(0, w - 1), s.usize(0, h - 1));
        let (dx, dz) = (s.small(1, 6) as usize, s.small(1, 6) as usize);
        let solid = !s.chance(1, 4);
        for z in z0..(z0 + dz).min(h) {
            for x in x0..(x0 + dx).min(w) {
                let edge = x == x0 || z == z0 || x + 1 == x0 + dx || z + 1 == z0 + dz;
                open[x + z * w] = if solid { false } else { !edge || open[x + z * w] && s.bool() };
            }
        }
    }
    let mut f = Field::new(w, h);
    for k in 0..w * h {
        if open[k] {
            f.cols[k].push(Span { min: 0, max: 5, area: 255 });
        }
    }
    let mut m = Chf::build(&f, 2, 1).unwrap();
    // the largest connected piece is the region
    let mut best: Vec<usize> = vec![];
    let mut seen = vec![false; m.spans.len()];
    for k in 0..m.spans.len() {
        if seen[k] {
            continue;
        }
        seen[k] = true;
        let mut comp = vec![k];
        let mut p = 0;
        while p < comp.len() {
            for d in 0..4 {
                let a = m.spans[comp[p]].nb[d];
                if a != NONE && !seen[a] {
                    seen[a] = true;
                    comp.push(a);
                }
            }
            p += 1;
        }
        if comp.len() > best.len() {
            best = comp;
        }
    }
    for k in best {
        m.spans[k].reg = 1;
    }
    m.max_reg = 1;
    let max_edge = if s.chance(1, 4) { s.int(1, 6) as u16 } else { 0 };
    let i = In { m, planar: true, max_error: 0.0, max_edge, wall: true, area: false };
    c.describe(|| i.text());
    c17_oracle(&i, true, c)?;
    agree(&i, c)
}
/// Many more outlines than regions.
fn c17_many(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = (s.usize(9, 60), s.usize(9, 60));
    let step = s.usize(2, 5);
    let mut f = Field::new(w, h);
    for z in 0..h {
        for x in 0..w {
            let pillar = x > 0 && z > 0 && x + 1 < w && z + 1 < h && x % step == 1 && z % step == 1;
            if !pillar {
                f.cols[x + z * w].push(Span { min: 0, max: 5, area: 255 });
            }
        }
    }
    let mut m = Chf::build(&f, 2, 1).unwrap();
    m.spans.iter_mut().for_each(|s| s.reg = 1);
    m.max_reg = 1;
    let i = In { m, planar: true, max_error: 0.0, max_edge: 0, wall: true, area: false };
    c.describe(|| format!("lattice of pillars {w}x{h} every {step}"));
    c17_oracle(&i, true, c)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "non-trivial: at least two regions have outlines, or one has a hole",
            assumptions: &["each region has one area type (C13); links are mutual (otherwise only agreement with the model is required)"],
            subs: vec![
                Sub { name: "labelled", quick: 400_000, thorough: 2_000_000, f: c15_labelled },
                Sub { name: "built", quick: 150_000, thorough: 1_000_000, f: c15_built },
                Sub { name: "long", quick: 20, thorough: 300, f: c15_long },
                Sub { name: "vast", quick: 30, thorough: 600, f: c15_vast },
            ],
        },
        Prop {
            id: "C16",
            rule: "non-trivial: a contour is actually simplified",
            assumptions: &["where two regions touch only diagonally, or cells of the two regions are not linked, their border is not required to be shared point by point", "the tolerance applies before long edges are split; splitting only adds points"],
            subs: vec![
                Sub { name: "labelled", quick: 300_000, thorough: 1_500_000, f: c16_labelled },
                Sub { name: "built", quick: 150_000, thorough: 1_500_000, f: c16_built },
                Sub { name: "wild", quick: 100_000, thorough: 600_000, f: c16_wild },
                Sub { name: "long", quick: 3_000, thorough: 50_000, f: c16_long },
                Sub { name: "vast", quick: 30, thorough: 600, f: c16_vast },
                Sub { name: "reference", quick: 6, thorough: 8, f: crate::reference::c16 },
            ],
        },
        Prop {
            id: "C17",
            rule: "non-trivial: a region with at least one hole",
            assumptions: &["where simplification makes outline and holes cross, only the total area and agreement with the model are required"],
            subs: vec![
                Sub { name: "pillars", quick: 150_000, thorough: 1_000_000, f: c17_pillars },
                Sub { name: "labelled", quick: 200_000, thorough: 1_000_000, f: c17_labelled },
                Sub { name: "built", quick: 100_000, thorough: 1_000_000, f: c17_built },
                Sub { name: "many", quick: 400, thorough: 1_000, f: c17_many },
            ],
        },
    ]
}
