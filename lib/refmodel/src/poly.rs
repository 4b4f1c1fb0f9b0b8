//! Polygon mesh construction of the original Recast (rcBuildPolyMesh).

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Poly {
    pub v: Vec<usize>,
    pub reg: u16,
    pub area: u8,
}

#[derive(Clone, Debug, Default)]
pub struct Mesh {
    pub verts: Vec<[i32; 3]>,
    pub polys: Vec<Poly>,
    pub removed: usize,
    pub bad_triangulations: usize,
    pub merges: usize,
}

pub struct InCont<'a> {
    pub verts: &'a [[i32; 4]],
    pub reg: u16,
    pub area: u8,
}

fn area2(a: [i32; 2], b: [i32; 2], c: [i32; 2]) -> i64 {
    (b[0] - a[0]) as i64 * (c[1] - a[1]) as i64 - (c[0] - a[0]) as i64 * (b[1] - a[1]) as i64
}
fn left(a: [i32; 2], b: [i32; 2], c: [i32; 2]) -> bool {
    area2(a, b, c) < 0
}
fn left_on(a: [i32; 2], b: [i32; 2], c: [i32; 2]) -> bool {
    area2(a, b, c) <= 0
}
fn collinear(a: [i32; 2], b: [i32; 2], c: [i32; 2]) -> bool {
    area2(a, b, c) == 0
}
fn intersect_prop(a: [i32; 2], b: [i32; 2], c: [i32; 2], d: [i32; 2]) -> bool {
    if collinear(a, b, c) || collinear(a, b, d) || collinear(c, d, a) || collinear(c, d, b) {
        return false;
    }
    (left(a, b, c) ^ left(a, b, d)) && (left(c, d, a) ^ left(c, d, b))
}
fn between(a: [i32; 2], b: [i32; 2], c: [i32; 2]) -> bool {
    if !collinear(a, b, c) {
        return false;
    }
    let k = if a[0] != b[0] { 0 } else { 1 };
    (a[k] <= c[k] && c[k] <= b[k]) || (a[k] >= c[k] && c[k] >= b[k])
}
pub fn intersect(a: [i32; 2], b: [i32; 2], c: [i32; 2], d: [i32; 2]) -> bool {
    intersect_prop(a, b, c, d) || between(a, b, c) || between(a, b, d) || between(c, d, a) || between(c, d, b)
}

/// Triangulates a ring. Ok = complete, Err = partial (bad contour).
pub fn triangulate(p: &[[i32; 2]]) -> Result<Vec<[usize; 3]>, Vec<[usize; 3]>> {
    // ring entries: (vertex, removable)
    let mut r: Vec<(usize, bool)> = (0..p.len()).map(|i| (i, false)).collect();
    let at = |r: &[(usize, bool)], i: usize| p[r[i % r.len()].0];
    fn in_cone(p0: [i32; 2], prev: [i32; 2], next: [i32; 2], j: [i32; 2], loose: bool) -> bool {
        if left_on(prev, p0, next) {
            if loose {
                left_on(p0, j, prev) && left_on(j, p0, next)
            } else {
                left(p0, j, prev) && left(j, p0, next)
            }
        } else {
            !(left_on(p0, j, next) && left_on(j, p0, prev))
        }
    }
    let diagonal = |r: &[(usize, bool)], i: usize, j: usize, loose: bool| {
        let n = r.len();
        let (d0, d1) = (at(r, i), at(r, j));
        if !in_cone(d0, at(r, i + n - 1), at(r, i + 1), d1, loose) {
            return false;
        }
        for k in 0..n {
            let k1 = (k + 1) % n;
            if k == i || k1 == i || k == j || k1 == j {
                continue;
            }
            let (p0, p1) = (at(r, k), at(r, k1));
            if d0 == p0 || d1 == p0 || d0 == p1 || d1 == p1 {
                continue;
            }
            if if loose { intersect_prop(d0, d1, p0, p1) } else { intersect(d0, d1, p0, p1) } {
                return false;
            }
        }
        true
    };
    let mut out = vec![];
    let n0 = r.len();
    for i in 0..n0 {
        if diagonal(&r, i, (i + 2) % n0, false) {
            r[(i + 1) % n0].1 = true;
        }
    }
    let len = |a: [i32; 2], b: [i32; 2]| {
        let (x, y) = ((b[0] - a[0]) as i64, (b[1] - a[1]) as i64);
        x * x + y * y
    };
    while r.len() > 3 {
        let n = r.len();
        let mut best: Option<(i64, usize)> = None;
        for i in 0..n {
            if r[(i + 1) % n].1 {
                let l = len(at(&r, i), at(&r, i + 2));
                if best.is_none_or(|b| l < b.0) {
                    best = Some((l, i));
                }
            }
        }
        if best.is_none() {
            for i in 0..n {
                if diagonal(&r, i, (i + 2) % n, true) {
                    let l = len(at(&r, i), at(&r, i + 3));
                    if best.is_none_or(|b| l < b.0) {
                        best = Some((l, i));
                    }
                }
            }
        }
        let Some((_, i)) = best else { return Err(out) };
        let i1 = (i + 1) % n;
        out.push([r[i].0, r[i1].0, r[(i + 2) % n].0]);
        r.remove(i1);
        let n = r.len();
        let i1 = if i1 >= n { 0 } else { i1 };
        let i = (i1 + n - 1) % n;
        r[i].1 = diagonal(&r, (i + n - 1) % n, i1, false);
        r[i1].1 = diagonal(&r, i, (i1 + 1) % n, false);
    }
    out.push([r[0].0, r[1].0, r[2].0]);
    Ok(out)
}

impl Mesh {
    fn xz(&self, i: usize) -> [i32; 2] {
        [self.verts[i][0], self.verts[i][2]]
    }

    fn merge_value(&self, a: &[usize], b: &[usize], nvp: usize) -> Option<(i64, usize, usize)> {
        let (na, nb) = (a.len(), b.len());
        if na + nb - 2 > nvp {
            return None;
        }
        let mut e = None;
        for i in 0..na {
            let ka = (a[i].min(a[(i + 1) % na]), a[i].max(a[(i + 1) % na]));
            for j in 0..nb {
                let kb = (b[j].min(b[(j + 1) % nb]), b[j].max(b[(j + 1) % nb]));
                if ka == kb {
                    e = Some((i, j));
                    break;
                }
            }
        }
        let (ea, eb) = e?;
        if !left(self.xz(a[(ea + na - 1) % na]), self.xz(a[ea]), self.xz(b[(eb + 2) % nb])) {
            return None;
        }
        if !left(self.xz(b[(eb + nb - 1) % nb]), self.xz(b[eb]), self.xz(a[(ea + 2) % na])) {
            return None;
        }
        let (p, q) = (self.xz(a[ea]), self.xz(a[(ea + 1) % na]));
        let (dx, dz) = ((p[0] - q[0]) as i64, (p[1] - q[1]) as i64);
        Some((dx * dx + dz * dz, ea, eb))
    }

    /// Greedy merging along the longest shared edges.
    fn merge_all(&mut self, polys: &mut Vec<Poly>, nvp: usize) {
        if nvp <= 3 {
            return;
        }
        loop {
            let mut best = (0i64, 0, 0, 0, 0);
            for j in 0..polys.len().saturating_sub(1) {
                for k in j + 1..polys.len() {
                    if let Some((v, ea, eb)) = self.merge_value(&polys[j].v, &polys[k].v, nvp) {
                        if v > best.0 {
                            best = (v, j, k, ea, eb);
                        }
                    }
                }
            }
            if best.0 <= 0 {
                break;
            }
            self.merges += 1;
            let (_, a, b, ea, eb) = best;
            let (pa, pb) = (polys[a].v.clone(), polys[b].v.clone());
            let mut t: Vec<usize> = (0..pa.len() - 1).map(|i| pa[(ea + 1 + i) % pa.len()]).collect();
            t.extend((0..pb.len() - 1).map(|i| pb[(eb + 1 + i) % pb.len()]));
            polys[a].v = t;
            if polys[a].reg != polys[b].reg {
                polys[a].reg = 0;
            }
            polys.swap_remove(b);
        }
    }

    /// `Err` = the original reports a failure.
    pub fn build(conts: &[InCont], nvp: usize) -> Result<Mesh, &'static str> {
        let mut m = Mesh::default();
        let maxv: usize = conts.iter().filter(|c| c.verts.len() >= 3).map(|c| c.verts.len()).sum();
        let max_tris: usize = conts.iter().filter(|c| c.verts.len() >= 3).map(|c| c.verts.len() - 2).sum();
        if maxv >= 0xfffe {
            return Err("too many vertices");
        }
        let mut flags: Vec<bool> = vec![];
        let mut bucket: std::collections::HashMap<(i32, i32), Vec<usize>> = Default::default();
        for c in conts {
            if c.verts.len() < 3 {
                continue;
            }
            let p: Vec<[i32; 2]> = c.verts.iter().map(|v| [v[0], v[2]]).collect();
            let tris = match triangulate(&p) {
                Ok(t) => t,
                Err(t) => {
                    m.bad_triangulations += 1;
                    t
                }
            };
            let mut idx = vec![];
            for v in c.verts {
                let e = bucket.entry((v[0], v[2])).or_default();
                let found = e.iter().rev().copied().find(|k| (m.verts[*k][1] - v[1]).abs() <= 2);
                let k = found.unwrap_or_else(|| {
                    m.verts.push([v[0], v[1], v[2]]);
                    flags.push(false);
                    e.push(m.verts.len() - 1);
                    m.verts.len() - 1
                });
                idx.push(k);
                if v[3] & crate::contour::BORDER_VERTEX != 0 {
                    flags[k] = true;
                }
            }
            let mut polys: Vec<Poly> = tris
                .iter()
                .filter(|t| t[0] != t[1] && t[0] != t[2] && t[1] != t[2])
                .map(|t| Poly { v: t.iter().map(|k| idx[*k]).collect(), reg: c.reg, area: c.area })
                .collect();
            m.merge_all(&mut polys, nvp);
            m.polys.extend(polys);
        }
        let mut i = 0;
        while i < m.verts.len() {
            if flags[i] && m.can_remove(i) {
                m.remove(i, nvp, max_tris)?;
                flags.remove(i);
                m.removed += 1;
                continue;
            }
            i += 1;
        }
        if m.polys.len() > 0xffff || m.verts.len() > 0xffff {
            return Err("too many");
        }
        Ok(m)
    }

    fn can_remove(&self, rem: usize) -> bool {
        let mut remaining = 0i64;
        for p in &self.polys {
            let k = p.v.iter().filter(|v| **v == rem).count();
            if k > 0 {
                remaining += p.v.len() as i64 - (k as i64 + 1);
            }
        }
        if remaining <= 2 {
            return false;
        }
        let mut edges: Vec<(usize, usize)> = vec![];
        for p in &self.polys {
            let n = p.v.len();
            for j in 0..n {
                let k = (j + n - 1) % n;
                if p.v[j] == rem || p.v[k] == rem {
                    let b = if p.v[k] == rem { p.v[j] } else { p.v[k] };
                    // (both ends equal to rem cannot happen in a polygon)
                    let mut ex = false;
                    for e in edges.iter_mut() {
                        if e.0 == b {
                            e.1 += 1;
                            ex = true;
                        }
                    }
                    if !ex {
                        edges.push((b, 1));
                    }
                }
            }
        }
        edges.iter().filter(|e| e.1 < 2).count() <= 2
    }

    fn remove(&mut self, rem: usize, nvp: usize, max_tris: usize) -> Result<(), &'static str> {
        let mut edges: Vec<(usize, usize, u16, u8)> = vec![];
        let mut i = 0;
        while i < self.polys.len() {
            if self.polys[i].v.contains(&rem) {
                let p = self.polys.swap_remove(i);
                let n = p.v.len();
                for j in 0..n {
                    let k = (j + n - 1) % n;
                    if p.v[j] != rem && p.v[k] != rem {
                        edges.push((p.v[k], p.v[j], p.reg, p.area));
                    }
                }
            } else {
                i += 1;
            }
        }
        self.verts.remove(rem);
        let fix = |v: &mut usize| {
            if *v > rem {
                *v -= 1
            }
        };
        for p in self.polys.iter_mut() {
            p.v.iter_mut().for_each(fix);
        }
        for e in edges.iter_mut() {
            fix(&mut e.0);
            fix(&mut e.1);
        }
        if edges.is_empty() {
            return Ok(());
        }
        let mut hole = std::collections::VecDeque::from([(edges[0].0, edges[0].2, edges[0].3)]);
        while !edges.is_empty() {
            let mut matched = false;
            let mut i = 0;
            while i < edges.len() {
                let (ea, eb, r, a) = edges[i];
                if hole[0].0 == eb {
                    hole.push_front((ea, r, a));
                } else if hole[hole.len() - 1].0 == ea {
                    hole.push_back((eb, r, a));
                } else {
                    i += 1;
                    continue;
                }
                edges.swap_remove(i);
                matched = true;
            }
            if !matched {
                break;
            }
        }
        // hreg / harea are pushed with the vertex in the original, on the same side
        let hole: Vec<_> = hole.into();
        let p: Vec<[i32; 2]> = hole.iter().map(|h| self.xz(h.0)).collect();
        if p.len() < 3 {
            return Ok(());
        }
        let tris = match triangulate(&p) {
            Ok(t) => t,
            Err(t) => {
                self.bad_triangulations += 1;
                t
            }
        };
        let mut polys: Vec<Poly> = tris
            .iter()
            .filter(|t| t[0] != t[1] && t[0] != t[2] && t[1] != t[2])
            .map(|t| {
                let r: Vec<u16> = t.iter().map(|k| hole[*k].1).collect();
                Poly { v: t.iter().map(|k| hole[*k].0).collect(), reg: if r[0] != r[1] || r[1] != r[2] { 0 } else { r[0] }, area: hole[t[0]].2 }
            })
            .collect();
        self.merge_all(&mut polys, nvp);
        for p in polys {
            if self.polys.len() >= max_tris {
                break;
            }
            self.polys.push(p);
        }
        Ok(())
    }
}
