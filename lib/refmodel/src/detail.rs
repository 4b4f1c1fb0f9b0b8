//! Detail mesh of the original Recast (rcBuildPolyMeshDetail), one polygon at a time.
//! The narrowest decision taken on rounded numbers is kept in `Out::margin`: a result that
//! differs from this one is only wrong if that decision was not a matter of rounding.
use crate::chf::{Chf, NONE};
use crate::{DX, DZ};

pub const UNSET: u16 = 0xffff;
pub const MAX_VERTS: usize = 127;
pub const MAX_TRIS: usize = 255;
const EDGE_SAMPLES: usize = 32;
type V3 = [f32; 3];

/// Floors of the walkable surface around one polygon, in grid cells without the border.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Patch {
    pub xmin: i32,
    pub zmin: i32,
    pub w: i32,
    pub h: i32,
    pub data: Vec<u16>,
    /// the polygon has no entry of its own region: seeded from its centre
    pub seeded: bool,
    pub failed: bool,
}
impl Patch {
    pub fn new(c: &Chf, poly: &[[i32; 3]], reg: u16, bs: i32) -> Patch {
        let lim = |k: usize, max: i32| {
            let lo = poly.iter().map(|v| v[k]).min().unwrap();
            let hi = poly.iter().map(|v| v[k]).max().unwrap();
            ((lo - 1).max(0), (hi + 1).min(max))
        };
        let (x0, x1) = lim(0, c.w as i32);
        let (z0, z1) = lim(2, c.h as i32);
        let mut p = Patch { xmin: x0, zmin: z0, w: x1 - x0, h: z1 - z0, data: vec![UNSET; ((x1 - x0) * (z1 - z0)) as usize], seeded: false, failed: false };
        let mut queue: Vec<(i32, i32, usize)> = vec![];
        let mut empty = true;
        if reg != 0 {
            for hz in 0..p.h {
                for hx in 0..p.w {
                    let (x, z) = (p.xmin + hx + bs, p.zmin + hz + bs);
                    let (f, n) = c.cells[x as usize + z as usize * c.w];
                    if let Some(i) = (f..f + n).find(|i| c.spans[*i].reg == reg) {
                        p.data[(hx + hz * p.w) as usize] = c.spans[i].y as u16;
                        empty = false;
                        if c.spans[i].nb.iter().any(|a| *a != NONE && c.spans[*a].reg != reg) {
                            queue.push((x, z, i));
                        }
                    }
                }
            }
        }
        if empty {
            p.seeded = true;
            match p.seed(c, poly, bs) {
                Some(s) => queue = vec![s],
                None => {
                    p.failed = true;
                    return p;
                }
            }
        }
        let mut head = 0;
        while head < queue.len() {
            let (cx, cz, ci) = queue[head];
            head += 1;
            for d in 0..4 {
                let a = c.spans[ci].nb[d];
                if a == NONE {
                    continue;
                }
                let (ax, az) = (cx + DX[d], cz + DZ[d]);
                let (hx, hz) = (ax - p.xmin - bs, az - p.zmin - bs);
                if hx < 0 || hz < 0 || hx >= p.w || hz >= p.h {
                    continue;
                }
                let e = &mut p.data[(hx + hz * p.w) as usize];
                if *e == UNSET {
                    *e = c.spans[a].y as u16;
                    queue.push((ax, az, a));
                }
            }
        }
        p
    }
    /// The entry near the middle of the polygon that can be walked to from one of its corners.
    fn seed(&mut self, c: &Chf, poly: &[[i32; 3]], bs: i32) -> Option<(i32, i32, usize)> {
        const OFF: [(i32, i32); 9] = [(0, 0), (-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0)];
        let mut start = None;
        let mut dmin = UNSET as i32;
        for v in poly {
            for (ox, oz) in OFF {
                let (ax, az) = (v[0] + ox, v[2] + oz);
                if ax < self.xmin || az < self.zmin || ax >= self.xmin + self.w || az >= self.zmin + self.h {
                    continue;
                }
                let (f, n) = c.cells[(ax + bs) as usize + (az + bs) as usize * c.w];
                for i in f..f + n {
                    let d = (v[1] - c.spans[i].y).abs();
                    if d < dmin {
                        dmin = d;
                        start = Some((ax, az, i));
                    }
                }
            }
        }
        let n = poly.len() as i32;
        let pcx = poly.iter().map(|v| v[0]).sum::<i32>() / n;
        let pcz = poly.iter().map(|v| v[2]).sum::<i32>() / n;
        let mut stack = vec![start?];
        let mut seen = vec![false; self.data.len()];
        let mut cur = stack[0];
        while let Some(t) = stack.pop() {
            cur = t;
            let (cx, cz, ci) = t;
            if cx == pcx && cz == pcz {
                break;
            }
            let direct = if cx == pcx { if pcz > cz { 1 } else { 3 } } else if pcx > cx { 2 } else { 0 };
            let mut dirs = [0usize, 1, 2, 3];
            dirs.swap(direct, 3);
            for d in dirs {
                let a = c.spans[ci].nb[d];
                if a == NONE {
                    continue;
                }
                let (nx, nz) = (cx + DX[d], cz + DZ[d]);
                let (hx, hz) = (nx - self.xmin, nz - self.zmin);
                if hx < 0 || hz < 0 || hx >= self.w || hz >= self.h {
                    continue;
                }
                let k = (hx + hz * self.w) as usize;
                if !seen[k] {
                    seen[k] = true;
                    stack.push((nx, nz, a));
                }
            }
        }
        let (cx, cz, ci) = cur;
        self.data[(cx - self.xmin + (cz - self.zmin) * self.w) as usize] = c.spans[ci].y as u16;
        Some((cx + bs, cz + bs, ci))
    }
    /// Cell a position falls into (clamped to the patch).
    pub fn cell(&self, x: f32, z: f32, ics: f32) -> (i32, i32) {
        let ix = (x * ics + 0.01).floor() as i32;
        let iz = (z * ics + 0.01).floor() as i32;
        ((ix - self.xmin).clamp(0, self.w - 1), (iz - self.zmin).clamp(0, self.h - 1))
    }
    /// Height at a cell: its own, or the best one in the nearest ring that has any.
    pub fn height(&self, (ix, iz): (i32, i32), y: f32, ch: f32, radius: i32) -> u16 {
        let at = |x: i32, z: i32| if x >= 0 && z >= 0 && x < self.w && z < self.h { self.data[(x + z * self.w) as usize] } else { UNSET };
        let own = at(ix, iz);
        if own != UNSET {
            return own;
        }
        for r in 1..=radius {
            let mut best: Option<(f32, u16)> = None;
            for (x, z) in ring(r) {
                let h = at(ix + x, iz + z);
                if h != UNSET {
                    let d = (h as f32 * ch - y).abs();
                    if best.is_none_or(|b| d < b.0) {
                        best = Some((d, h));
                    }
                }
            }
            if let Some(b) = best {
                return b.1;
            }
        }
        UNSET
    }
}
/// Cells of a square ring in the order of the original's spiral.
pub fn ring(r: i32) -> Vec<(i32, i32)> {
    let mut v = vec![];
    let (mut x, mut z) = (r, 1 - r);
    // up the right side, along the top to the left, down, and back along the bottom
    while z <= r {
        v.push((x, z));
        z += 1;
    }
    z = r;
    x = r - 1;
    while x >= -r {
        v.push((x, z));
        x -= 1;
    }
    x = -r;
    z = r - 1;
    while z >= -r {
        v.push((x, z));
        z -= 1;
    }
    z = -r;
    x = 1 - r;
    while x <= r {
        v.push((x, z));
        x += 1;
    }
    v
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub cell: (i32, i32),
    pub h: u16,
    /// jittered place
    pub pt: V3,
}
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub verts: Vec<V3>,
    pub tris: Vec<[usize; 3]>,
    pub hull: Vec<usize>,
    /// Per polygon edge (from vertex i-1 to vertex i): every sampled point, in the order of the sampling direction.
    pub edges: Vec<Vec<V3>>,
    pub samples: Vec<Sample>,
    pub sliver: bool,
    /// not all samples could be taken because of the vertex limit
    pub capped: bool,
    pub margin: f32,
    pub dangling: usize,
}

struct M(f32);
impl M {
    /// a < b, remembering how narrow it was in relation to `scale`
    fn lt(&mut self, a: f32, b: f32, scale: f32) -> bool {
        let m = (a - b).abs() / scale.abs().max(1e-30);
        if m < self.0 {
            self.0 = m;
        }
        a < b
    }
    fn rel(&mut self, a: f32, b: f32) -> bool {
        self.lt(a, b, a.abs().max(b.abs()))
    }
}
fn xz(a: V3) -> [f32; 2] {
    [a[0], a[2]]
}
fn dot2(a: [f32; 2], b: [f32; 2]) -> f32 {
    a[0] * b[0] + a[1] * b[1]
}
fn sub2(a: [f32; 2], b: [f32; 2]) -> [f32; 2] {
    [a[0] - b[0], a[1] - b[1]]
}
fn len2(a: [f32; 2]) -> f32 {
    dot2(a, a).sqrt()
}
pub fn seg2(pt: [f32; 2], p: [f32; 2], q: [f32; 2]) -> f32 {
    let (pq, dt) = (sub2(q, p), sub2(pt, p));
    let d = dot2(pq, pq);
    let mut t = dot2(pq, dt);
    if d > 0.0 {
        t /= d;
    }
    t = t.clamp(0.0, 1.0);
    let dt = [p[0] + t * pq[0] - pt[0], p[1] + t * pq[1] - pt[1]];
    dot2(dt, dt)
}
pub fn seg3(pt: V3, p: V3, q: V3) -> f32 {
    let dot = |a: V3, b: V3| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    let sub = |a: V3, b: V3| [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
    let (pq, dt) = (sub(q, p), sub(pt, p));
    let d = dot(pq, pq);
    let mut t = dot(pq, dt);
    if d > 0.0 {
        t /= d;
    }
    t = t.clamp(0.0, 1.0);
    let dt = [p[0] + t * pq[0] - pt[0], p[1] + t * pq[1] - pt[1], p[2] + t * pq[2] - pt[2]];
    dot(dt, dt)
}
pub fn cross2(p: [f32; 2], q: [f32; 2], r: [f32; 2]) -> f32 {
    let (a, b) = (sub2(q, p), sub2(r, p));
    a[0] * b[1] - a[1] * b[0]
}
fn cross_scale(p: [f32; 2], q: [f32; 2], r: [f32; 2]) -> f32 {
    let (a, b) = (sub2(q, p), sub2(r, p));
    // rounding of the coordinates themselves counts as well
    let c = p.iter().chain(&q).chain(&r).fold(0f32, |m, v| m.max(v.abs()));
    (a[0] * b[1]).abs() + (a[1] * b[0]).abs() + c * (a[0].abs() + a[1].abs() + b[0].abs() + b[1].abs())
}
pub fn dist_tri(p: V3, a: V3, b: V3, c: V3) -> Option<f32> {
    let (v0, v1, v2) = (sub2(xz(c), xz(a)), sub2(xz(b), xz(a)), sub2(xz(p), xz(a)));
    let (d00, d01, d02, d11, d12) = (dot2(v0, v0), dot2(v0, v1), dot2(v0, v2), dot2(v1, v1), dot2(v1, v2));
    let inv = 1.0 / (d00 * d11 - d01 * d01);
    let u = (d11 * d02 - d01 * d12) * inv;
    let v = (d00 * d12 - d01 * d02) * inv;
    const EPS: f32 = 1e-4;
    if u >= -EPS && v >= -EPS && u + v <= 1.0 + EPS {
        Some((a[1] + (c[1] - a[1]) * u + (b[1] - a[1]) * v - p[1]).abs())
    } else {
        None
    }
}
pub fn dist_mesh(p: V3, verts: &[V3], tris: &[[usize; 3]]) -> Option<f32> {
    let mut best: Option<f32> = None;
    for t in tris {
        if let Some(d) = dist_tri(p, verts[t[0]], verts[t[1]], verts[t[2]]) {
            if best.is_none_or(|b| d < b) {
                best = Some(d);
            }
        }
    }
    best.filter(|b| *b < f32::MAX)
}
fn jitter(i: usize, k: u64) -> f32 {
    (((i as u64).wrapping_mul(k)) & 0xffff) as f32 / 65535.0 * 2.0 - 1.0
}
/// Negative inside (squared distances, as in the original).
fn dist_poly(poly: &[V3], p: V3, m: &mut M) -> f32 {
    let (mut dmin, mut c) = (f32::MAX, false);
    let n = poly.len();
    for i in 0..n {
        let (vi, vj) = (poly[i], poly[(i + n - 1) % n]);
        m.rel(vi[2], p[2]);
        m.rel(vj[2], p[2]);
        if (vi[2] > p[2]) != (vj[2] > p[2]) {
            let x = (vj[0] - vi[0]) * (p[2] - vi[2]) / (vj[2] - vi[2]) + vi[0];
            if m.rel(p[0], x) {
                c = !c;
            }
        }
        dmin = dmin.min(seg2(xz(p), xz(vj), xz(vi)));
    }
    if c { -dmin } else { dmin }
}
fn triangulate_hull(v: &[V3], hull: &[usize], nin: usize, m: &mut M) -> Vec<[usize; 3]> {
    let n = hull.len();
    let d = |a: usize, b: usize| len2(sub2(xz(v[hull[b]]), xz(v[hull[a]])));
    let (mut start, mut left, mut right) = (0, 1, n - 1);
    let mut dmin = f32::MAX;
    for i in 0..n {
        if hull[i] >= nin {
            continue;
        }
        let (p, q) = ((i + n - 1) % n, (i + 1) % n);
        let l = d(p, i) + d(i, q) + d(q, p);
        if m.rel(l, dmin) {
            (start, left, right, dmin) = (i, q, p, l);
        }
    }
    let mut t = vec![[hull[start], hull[left], hull[right]]];
    while (left + 1) % n != right {
        let (nl, nr) = ((left + 1) % n, (right + n - 1) % n);
        let dl = d(left, nl) + d(nl, right);
        let dr = d(right, nr) + d(left, nr);
        if m.rel(dl, dr) {
            t.push([hull[left], hull[nl], hull[right]]);
            left = nl;
        } else {
            t.push([hull[left], hull[nr], hull[right]]);
            right = nr;
        }
    }
    t
}
fn circum(p1: V3, p2: V3, p3: V3) -> ([f32; 2], f32) {
    let (v2, v3) = (sub2(xz(p2), xz(p1)), sub2(xz(p3), xz(p1)));
    let cp = v2[0] * v3[1] - v2[1] * v3[0];
    if cp.abs() > 1e-6 {
        let (a, b) = (dot2(v2, v2), dot2(v3, v3));
        let c = [(a * v3[1] + b * -v2[1]) / (2.0 * cp), (a * -v3[0] + b * v2[0]) / (2.0 * cp)];
        ([c[0] + p1[0], c[1] + p1[2]], dot2(c, c))
    } else {
        (xz(p1), 0.0)
    }
}
const UNDEF: i32 = -1;
const HULL: i32 = -2;
fn delaunay(pts: &[V3], hull: &[usize], m: &mut M, dangling: &mut usize) -> Vec<[usize; 3]> {
    let max = pts.len() * 10;
    let mut e: Vec<[i32; 4]> = vec![];
    fn find(e: &[[i32; 4]], s: i32, t: i32) -> Option<usize> {
        e.iter().position(|k| (k[0] == s && k[1] == t) || (k[0] == t && k[1] == s))
    }
    fn add(e: &mut Vec<[i32; 4]>, max: usize, s: i32, t: i32, l: i32) {
        if e.len() < max && find(e, s, t).is_none() {
            e.push([s, t, l, UNDEF]);
        }
    }
    fn face(k: &mut [i32; 4], s: i32, t: i32, f: i32) {
        if k[0] == s && k[1] == t && k[2] == UNDEF {
            k[2] = f;
        } else if k[1] == s && k[0] == t && k[3] == UNDEF {
            k[3] = f;
        }
    }
    let mut j = hull.len() - 1;
    for i in 0..hull.len() {
        add(&mut e, max, hull[j] as i32, hull[i] as i32, HULL);
        j = i;
    }
    let mut nf = 0;
    let mut k = 0;
    while k < e.len() {
        for _ in 0..2 {
            let (s, t) = if e[k][2] == UNDEF {
                (e[k][0], e[k][1])
            } else if e[k][3] == UNDEF {
                (e[k][1], e[k][0])
            } else {
                continue;
            };
            let (ps, pt) = (pts[s as usize], pts[t as usize]);
            let overlaps = |e: &[[i32; 4]], s1: i32, t1: i32, m: &mut M| {
                e.iter().any(|k| {
                    if k[0] == s1 || k[0] == t1 || k[1] == s1 || k[1] == t1 {
                        return false;
                    }
                    let (a, b, c, d) = (xz(pts[k[0] as usize]), xz(pts[k[1] as usize]), xz(pts[s1 as usize]), xz(pts[t1 as usize]));
                    let (a1, a2) = (cross2(a, b, d), cross2(a, b, c));
                    m.lt(a1, 0.0, cross_scale(a, b, d));
                    m.lt(a2, 0.0, cross_scale(a, b, c));
                    if a1 * a2 < 0.0 {
                        let a3 = cross2(c, d, a);
                        let a4 = a3 + a2 - a1;
                        m.lt(a3, 0.0, cross_scale(c, d, a));
                        m.lt(a4, 0.0, cross_scale(c, d, b));
                        a3 * a4 < 0.0
                    } else {
                        false
                    }
                })
            };
            let mut best: Option<(usize, [f32; 2], f32)> = None;
            for u in 0..pts.len() {
                if u as i32 == s || u as i32 == t {
                    continue;
                }
                let (a, b, q) = (xz(ps), xz(pt), xz(pts[u]));
                let cr = cross2(a, b, q);
                if m.lt(1e-5, cr, cross_scale(a, b, q)) {
                    let cand = || {
                        let (c, r) = circum(ps, pt, pts[u]);
                        Some((u, c, r))
                    };
                    let Some((_, c, r)) = best else {
                        best = cand();
                        continue;
                    };
                    let d = sub2(q, c);
                    let d = dot2(d, d);
                    let (hi, lo) = (r * 1.001f32 * 1.001, r * 0.999f32 * 0.999);
                    // the centre of a flat triangle is far away and rounded coarsely
                    let sc = r + (c[0] * c[0] + c[1] * c[1]);
                    if m.lt(hi, d, sc) {
                        continue;
                    } else if m.lt(d, lo, sc) {
                        best = cand();
                    } else {
                        if overlaps(&e, s, u as i32, m) || overlaps(&e, t, u as i32, m) {
                            continue;
                        }
                        best = cand();
                    }
                }
            }
            if let Some((u, _, _)) = best {
                let u = u as i32;
                face(&mut e[k], s, t, nf);
                for (p, q) in [(u, s), (t, u)] {
                    match find(&e, p, q) {
                        None => add(&mut e, max, p, q, nf),
                        Some(x) => face(&mut e[x], p, q, nf),
                    }
                }
                nf += 1;
            } else {
                face(&mut e[k], s, t, HULL);
            }
        }
        k += 1;
    }
    let mut t = vec![[UNDEF; 3]; nf as usize];
    for k in &e {
        if k[3] >= 0 {
            let t = &mut t[k[3] as usize];
            if t[0] == UNDEF {
                t[0] = k[0];
                t[1] = k[1];
            } else if t[0] == k[1] {
                t[2] = k[0];
            } else if t[1] == k[0] {
                t[2] = k[1];
            }
        }
        if k[2] >= 0 {
            let t = &mut t[k[2] as usize];
            if t[0] == UNDEF {
                t[0] = k[1];
                t[1] = k[0];
            } else if t[0] == k[0] {
                t[2] = k[1];
            } else if t[1] == k[1] {
                t[2] = k[0];
            }
        }
    }
    let n = t.len();
    let mut i = 0;
    while i < t.len() {
        if t[i].iter().any(|x| *x < 0) {
            t.swap_remove(i);
        } else {
            i += 1;
        }
    }
    *dangling += n - t.len();
    t.into_iter().map(|t| [t[0] as usize, t[1] as usize, t[2] as usize]).collect()
}

/// `poly`: corners in units, relative to the corner of the inner field.
pub fn build(poly: &[V3], sd: f32, err: f32, radius: i32, cs: f32, ch: f32, hp: &Patch) -> Out {
    let mut o = Out { verts: poly.to_vec(), ..Default::default() };
    let mut m = M(f32::MAX);
    let ics = 1.0 / cs;
    let n = poly.len();
    let mut height = |p: V3, m: &mut M| -> f32 {
        for v in [p[0], p[2]] {
            let q = v * ics + 0.01;
            let r = q.round();
            m.lt(q, r, q.abs().max(1.0) * 4.0);
        }
        hp.height(hp.cell(p[0], p[2], ics), p[1], ch, radius) as f32
    };
    if sd > 0.0 {
        let mut j = n - 1;
        for i in 0..n {
            let (mut vj, mut vi, mut swapped) = (poly[j], poly[i], false);
            if (vj[0] - vi[0]).abs() < 1e-6 {
                if vj[2] > vi[2] {
                    swapped = true;
                }
            } else if vj[0] > vi[0] {
                swapped = true;
            }
            if swapped {
                (vj, vi) = (vi, vj);
            }
            let dv = [vi[0] - vj[0], vi[1] - vj[1], vi[2] - vj[2]];
            let d = len2(xz(dv));
            let q = d / sd;
            m.lt(q, q.round(), q.max(1.0));
            let mut nn = 1 + q.floor() as usize;
            if nn >= EDGE_SAMPLES {
                nn = EDGE_SAMPLES - 1;
            }
            if o.verts.len() + nn >= MAX_VERTS {
                nn = MAX_VERTS - 1 - o.verts.len();
                o.capped = true;
            }
            let edge: Vec<V3> = (0..=nn)
                .map(|k| {
                    let u = k as f32 / nn as f32;
                    let mut p = [vj[0] + dv[0] * u, vj[1] + dv[1] * u, vj[2] + dv[2] * u];
                    p[1] = height(p, &mut m) * ch;
                    p
                })
                .collect();
            let mut idx = vec![0, nn];
            let mut k = 0;
            while k + 1 < idx.len() {
                let (a, b) = (idx[k], idx[k + 1]);
                let (mut maxd, mut maxi) = (0.0, None);
                for q in a + 1..b {
                    let d = seg3(edge[q], edge[a], edge[b]);
                    // where nothing deviates, nothing is decided
                    if d > 1e-9 * (1.0 + edge[q][1].abs()) || maxd > 0.0 {
                        m.rel(maxd, d);
                    }
                    if d > maxd {
                        (maxd, maxi) = (d, Some(q));
                    }
                }
                m.lt(err * err, maxd, (err * err).max(maxd).max(1e-6));
                if let (Some(q), true) = (maxi, maxd > err * err) {
                    idx.insert(k + 1, q);
                } else {
                    k += 1;
                }
            }
            o.hull.push(j);
            let inner = &idx[1..idx.len() - 1];
            let mut put = |q: usize| {
                o.hull.push(o.verts.len());
                o.verts.push(edge[q]);
            };
            if swapped {
                inner.iter().rev().for_each(|q| put(*q));
            } else {
                inner.iter().for_each(|q| put(*q));
            }
            o.edges.push(edge);
            j = i;
        }
    } else {
        o.hull = (0..n).map(|i| (i + n - 1) % n).collect();
    }
    let mut ext = f32::MAX;
    for i in 0..n {
        let q = (i + 1) % n;
        let far = (0..n).filter(|j| *j != i && *j != q).map(|j| seg2(xz(poly[j]), xz(poly[i]), xz(poly[q]))).fold(0f32, f32::max);
        ext = ext.min(far);
    }
    o.sliver = m.rel(ext, (sd * 2.0) * (sd * 2.0));
    o.tris = triangulate_hull(&o.verts, &o.hull, n, &mut m);
    if o.sliver || sd <= 0.0 {
        o.margin = m.0;
        return o;
    }
    let lo = (0..3).map(|k| poly.iter().map(|v| v[k]).fold(f32::MAX, f32::min)).collect::<Vec<_>>();
    let hi = (0..3).map(|k| poly.iter().map(|v| v[k]).fold(f32::MIN, f32::max)).collect::<Vec<_>>();
    let r = |v: f32, up: bool, m: &mut M| {
        let q = v / sd;
        m.lt(q, q.round(), q.abs().max(1.0));
        if up { q.ceil() as i32 } else { q.floor() as i32 }
    };
    let (x0, x1, z0, z1) = (r(lo[0], false, &mut m), r(hi[0], true, &mut m), r(lo[2], false, &mut m), r(hi[2], true, &mut m));
    let mut far = M(f32::MAX);
    for z in z0..z1 {
        for x in x0..x1 {
            let p = [x as f32 * sd, (hi[1] + lo[1]) * 0.5, z as f32 * sd];
            // far outside, the tests of the outline decide nothing
            let mut inner = M(f32::MAX);
            let d = dist_poly(poly, p, &mut inner);
            far.rel(d.abs(), sd / 2.0);
            if d.abs() > 1e-6 {
                // (positions exactly on the outline are rejected by distance)
                m.0 = m.0.min(inner.0.max(if d.abs() < sd / 2.0 { f32::MAX } else { 0.0 }));
            }
            if d > -sd / 2.0 {
                continue;
            }
            let i = o.samples.len();
            let h = height(p, &mut m) as u16;
            o.samples.push(Sample { cell: (x, z), h, pt: [x as f32 * sd + jitter(i, 0x8da6b343) * cs * 0.1, h as f32 * ch, z as f32 * sd + jitter(i, 0xd8163841) * cs * 0.1] });
        }
    }
    m.0 = m.0.min(far.0);
    let mut added = vec![false; o.samples.len()];
    for _ in 0..o.samples.len() {
        if o.verts.len() >= MAX_VERTS {
            o.capped = true;
            break;
        }
        let (mut bd, mut bi) = (0.0, None);
        let mut second = 0.0f32;
        for (i, s) in o.samples.iter().enumerate() {
            if added[i] {
                continue;
            }
            if let Some(d) = dist_mesh(s.pt, &o.verts, &o.tris) {
                if d > bd {
                    second = bd;
                    (bd, bi) = (d, Some(i));
                } else if d > second {
                    second = d;
                }
            }
        }
        m.lt(err, bd, err.max(bd).max(1e-6) + hi[1].abs());
        let Some(bi) = bi else { break };
        if bd <= err {
            break;
        }
        m.lt(second, bd, bd + hi[1].abs());
        added[bi] = true;
        o.verts.push(o.samples[bi].pt);
        let (pts, hull) = (o.verts.clone(), o.hull.clone());
        o.tris = delaunay(&pts, &hull, &mut m, &mut o.dangling);
    }
    if o.tris.len() > MAX_TRIS {
        o.tris.truncate(MAX_TRIS);
        o.capped = true;
    }
    o.margin = m.0;
    o
}
