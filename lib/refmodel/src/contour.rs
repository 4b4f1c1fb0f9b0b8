//! Contour tracing and simplification of the original Recast (rcBuildContours).
use crate::chf::{Chf, NONE};
use crate::{BORDER, DX, DZ};

pub const REG_MASK: i32 = 0xffff;
pub const BORDER_VERTEX: i32 = 0x10000;
pub const AREA_BORDER: i32 = 0x20000;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cont {
    /// x, y, z, data
    pub raw: Vec<[i32; 4]>,
    pub verts: Vec<[i32; 4]>,
    pub reg: u16,
    pub area: u8,
}

impl Chf {
    pub fn boundary_flags(&self) -> Vec<u8> {
        (0..self.spans.len())
            .map(|i| {
                let r = self.spans[i].reg;
                if r == 0 || r & BORDER != 0 {
                    return 0;
                }
                let mut f = 0;
                for d in 0..4 {
                    let a = self.spans[i].nb[d];
                    let o = if a == NONE { 0 } else { self.spans[a].reg };
                    if o != r {
                        f |= 1 << d;
                    }
                }
                f
            })
            .collect()
    }

    /// All contours before hole merging, in field order. `simplify = None` keeps only raw outlines.
    pub fn contours(&self, max_error: f32, max_edge: i32, wall: bool, area: bool) -> Vec<Cont> {
        let mut flags = self.boundary_flags();
        let mut out = vec![];
        for i in 0..self.spans.len() {
            if flags[i] == 0 || flags[i] == 0xf {
                flags[i] = 0;
                continue;
            }
            let raw = self.walk(i, &mut flags);
            let mut verts = simplify(&raw, max_error, max_edge, wall, area);
            remove_degenerate(&mut verts);
            if verts.len() < 3 {
                continue;
            }
            let mut c = Cont { raw, verts, reg: self.spans[i].reg, area: self.areas[i] };
            let b = self.border as i32;
            for v in c.raw.iter_mut().chain(c.verts.iter_mut()) {
                v[0] -= b;
                v[2] -= b;
            }
            out.push(c);
        }
        out
    }

    /// Number of outlines before simplification.
    pub fn outlines(&self) -> usize {
        let mut flags = self.boundary_flags();
        let mut n = 0;
        for i in 0..self.spans.len() {
            if flags[i] == 0 || flags[i] == 0xf {
                flags[i] = 0;
                continue;
            }
            self.walk(i, &mut flags);
            n += 1;
        }
        n
    }

    fn walk(&self, i0: usize, flags: &mut [u8]) -> Vec<[i32; 4]> {
        let mut i = i0;
        let mut d = (0..4).find(|d| flags[i] & (1 << d) != 0).unwrap();
        let d0 = d;
        let area = self.areas[i];
        let (mut x, mut z) = (self.spans[i].x, self.spans[i].z);
        let mut pts = vec![];
        let mut iter = 0;
        loop {
            iter += 1;
            if iter > 40000.max(4 * self.spans.len()) {
                break;
            }
            if flags[i] & (1 << d) != 0 {
                let (py, border_vertex) = self.corner(i, d);
                let (mut px, mut pz) = (x, z);
                match d {
                    0 => pz += 1,
                    1 => {
                        px += 1;
                        pz += 1
                    }
                    2 => px += 1,
                    _ => {}
                }
                let mut r = 0;
                let a = self.spans[i].nb[d];
                if a != NONE {
                    r = self.spans[a].reg as i32;
                    if self.areas[a] != area {
                        r |= AREA_BORDER;
                    }
                }
                if border_vertex {
                    r |= BORDER_VERTEX;
                }
                pts.push([px, py, pz, r]);
                flags[i] &= !(1 << d);
                d = (d + 1) & 3;
            } else {
                let a = self.spans[i].nb[d];
                if a == NONE {
                    return pts;
                }
                x += DX[d];
                z += DZ[d];
                i = a;
                d = (d + 3) & 3;
            }
            if i == i0 && d == d0 {
                break;
            }
        }
        pts
    }

    /// Highest floor around the corner and whether it is a removable border vertex.
    pub fn corner(&self, i: usize, d: usize) -> (i32, bool) {
        let code = |k: usize| self.spans[k].reg as u32 | (self.areas[k] as u32) << 16;
        let dp = (d + 1) & 3;
        let s = &self.spans[i];
        let mut h = s.y;
        let mut regs = [code(i), 0, 0, 0];
        for (first, second, slot) in [(d, dp, 1), (dp, d, 3)] {
            let a = s.nb[first];
            if a != NONE {
                h = h.max(self.spans[a].y);
                regs[slot] = code(a);
                let b = self.spans[a].nb[second];
                if b != NONE {
                    h = h.max(self.spans[b].y);
                    regs[2] = code(b);
                }
            }
        }
        let bb = BORDER as u32;
        let special = (0..4).any(|j| {
            let (a, b, c, e) = (regs[j], regs[(j + 1) & 3], regs[(j + 2) & 3], regs[(j + 3) & 3]);
            let two_ext = (a & b & bb) != 0 && a == b;
            let two_int = (c | e) & bb == 0;
            two_ext && two_int && (c >> 16) == (e >> 16) && a != 0 && b != 0 && c != 0 && e != 0
        });
        (h, special)
    }
}

pub fn dist_pt_seg(x: i32, z: i32, px: i32, pz: i32, qx: i32, qz: i32) -> f32 {
    let pqx = (qx - px) as f32;
    let pqz = (qz - pz) as f32;
    let mut dx = (x - px) as f32;
    let mut dz = (z - pz) as f32;
    let d = pqx * pqx + pqz * pqz;
    let mut t = pqx * dx + pqz * dz;
    if d > 0.0 {
        t /= d;
    }
    t = t.clamp(0.0, 1.0);
    dx = px as f32 + t * pqx - x as f32;
    dz = pz as f32 + t * pqz - z as f32;
    dx * dx + dz * dz
}

pub fn simplify(pts: &[[i32; 4]], max_error: f32, max_edge: i32, wall: bool, area: bool) -> Vec<[i32; 4]> {
    let pn = pts.len();
    // entries: (index of raw point)
    let mut s: Vec<usize> = vec![];
    if pts.iter().any(|p| p[3] & REG_MASK != 0) {
        for i in 0..pn {
            let j = (i + 1) % pn;
            if pts[i][3] & REG_MASK != pts[j][3] & REG_MASK || pts[i][3] & AREA_BORDER != pts[j][3] & AREA_BORDER {
                s.push(i);
            }
        }
    }
    if s.is_empty() {
        let (mut ll, mut ur) = (0, 0);
        for i in 0..pn {
            let key = |k: usize| (pts[k][0], pts[k][2]);
            if key(i) < key(ll) {
                ll = i;
            }
            if key(i) > key(ur) {
                ur = i;
            }
        }
        s.push(ll);
        s.push(ur);
    }
    let mut i = 0;
    while i < s.len() {
        let (ai, bi) = (s[i], s[(i + 1) % s.len()]);
        let (mut a, mut b) = ((pts[ai][0], pts[ai][2]), (pts[bi][0], pts[bi][2]));
        let (inc, mut c, end);
        if b > a {
            inc = 1;
            c = (ai + inc) % pn;
            end = bi;
        } else {
            inc = pn - 1;
            c = (bi + inc) % pn;
            end = ai;
            std::mem::swap(&mut a, &mut b);
        }
        let mut maxd = 0.0f32;
        let mut maxi = None;
        if pts[c][3] & REG_MASK == 0 || pts[c][3] & AREA_BORDER != 0 {
            while c != end {
                let d = dist_pt_seg(pts[c][0], pts[c][2], a.0, a.1, b.0, b.1);
                if d > maxd {
                    maxd = d;
                    maxi = Some(c);
                }
                c = (c + inc) % pn;
            }
        }
        match maxi {
            Some(m) if maxd > max_error * max_error => s.insert(i + 1, m),
            _ => i += 1,
        }
    }
    if max_edge > 0 && (wall || area) {
        let mut i = 0;
        while i < s.len() {
            let (ai, bi) = (s[i], s[(i + 1) % s.len()]);
            let (a, b) = ((pts[ai][0], pts[ai][2]), (pts[bi][0], pts[bi][2]));
            let c = (ai + 1) % pn;
            let tess = (wall && pts[c][3] & REG_MASK == 0) || (area && pts[c][3] & AREA_BORDER != 0);
            let mut maxi = None;
            if tess {
                let (dx, dz) = ((b.0 - a.0) as i64, (b.1 - a.1) as i64);
                if dx * dx + dz * dz > max_edge as i64 * max_edge as i64 {
                    let n = if bi < ai { bi + pn - ai } else { bi - ai };
                    if n > 1 {
                        maxi = Some(if b > a { (ai + n / 2) % pn } else { (ai + (n + 1) / 2) % pn });
                    }
                }
            }
            match maxi {
                Some(m) => s.insert(i + 1, m),
                None => i += 1,
            }
        }
    }
    s.iter()
        .map(|&bi| {
            let ai = (bi + 1) % pn;
            let p = pts[bi];
            [p[0], p[1], p[2], (pts[ai][3] & (REG_MASK | AREA_BORDER)) | (p[3] & BORDER_VERTEX)]
        })
        .collect()
}

pub fn remove_degenerate(v: &mut Vec<[i32; 4]>) {
    let mut n = v.len();
    let mut i = 0;
    while i < n {
        let ni = if i + 1 < n { i + 1 } else { 0 };
        if v[i][0] == v[ni][0] && v[i][2] == v[ni][2] {
            v.remove(i);
            n -= 1;
        }
        i += 1;
    }
}

/// Twice the signed area in the original's orientation (positive = outer outline).
pub fn area2(v: &[[i32; 4]]) -> i64 {
    let n = v.len();
    (0..n)
        .map(|i| {
            let (a, b) = (v[i], v[(i + n - 1) % n]);
            a[0] as i64 * b[2] as i64 - b[0] as i64 * a[2] as i64
        })
        .sum()
}

type P = [i32; 2];
fn xz(v: &[i32; 4]) -> P {
    [v[0], v[2]]
}
fn turn(a: P, b: P, c: P) -> i64 {
    (b[0] - a[0]) as i64 * (c[1] - a[1]) as i64 - (c[0] - a[0]) as i64 * (b[1] - a[1]) as i64
}
/// Whether the direction from vertex `i` to `q` points strictly into the polygon at `i`.
fn cone(v: &[[i32; 4]], i: usize, q: P) -> bool {
    let n = v.len();
    let (p, next, prev) = (xz(&v[i]), xz(&v[(i + 1) % n]), xz(&v[(i + n - 1) % n]));
    if turn(prev, p, next) <= 0 {
        turn(p, q, prev) < 0 && turn(q, p, next) < 0
    } else {
        turn(p, q, next) > 0 || turn(q, p, prev) > 0
    }
}
fn blocked(a: P, b: P, skip: Option<usize>, v: &[[i32; 4]]) -> bool {
    let n = v.len();
    (0..n).any(|k| {
        let k1 = (k + 1) % n;
        let (p, q) = (xz(&v[k]), xz(&v[k1]));
        skip != Some(k) && skip != Some(k1) && a != p && a != q && b != p && b != q && crate::poly::intersect(a, b, p, q)
    })
}

/// Merges the holes (negative area) of each region into its largest outline. Returns the number of holes left over.
pub fn merge_holes(conts: &mut [Cont]) -> usize {
    let areas: Vec<i64> = conts.iter().map(|c| area2(&c.verts)).collect();
    let mut regs: Vec<u16> = (0..conts.len()).filter(|i| areas[*i] < 0).map(|i| conts[i].reg).collect();
    regs.sort();
    regs.dedup();
    let mut left_over = 0;
    for r in regs {
        let mut holes: Vec<usize> = (0..conts.len()).filter(|i| conts[*i].reg == r && areas[*i] < 0).collect();
        let mut outline: Option<usize> = None;
        for i in 0..conts.len() {
            if conts[i].reg == r && areas[i] > 0 && outline.is_none_or(|o| areas[i] > areas[o]) {
                outline = Some(i);
            }
        }
        let Some(o) = outline else {
            left_over += holes.len();
            continue;
        };
        let start = |h: usize| {
            let v = &conts[h].verts;
            let m = v.iter().map(xz).min().unwrap();
            (m, v.iter().position(|p| xz(p) == m).unwrap())
        };
        let mut order: Vec<(P, usize, usize)> = holes.drain(..).map(|h| (start(h).0, h, start(h).1)).collect();
        order.sort_by_key(|e| e.0);
        for k in 0..order.len() {
            let (_, h, first) = order[k];
            let hole = conts[h].verts.clone();
            let out = conts[o].verts.clone();
            let mut found = None;
            'search: for t in 0..hole.len() {
                let ci = (first + t) % hole.len();
                let c = xz(&hole[ci]);
                let mut cand: Vec<usize> = (0..out.len()).filter(|j| cone(&out, *j, c)).collect();
                let d = |j: usize| (out[j][0] as i64 - c[0] as i64).pow(2) + (out[j][2] as i64 - c[1] as i64).pow(2);
                cand.sort_by_key(|j| d(*j));
                for j in cand {
                    let p = xz(&out[j]);
                    if !blocked(p, c, Some(j), &out) && !order[k..].iter().any(|e| blocked(p, c, None, &conts[e.1].verts)) {
                        found = Some((j, ci));
                        break 'search;
                    }
                }
            }
            let Some((j, ci)) = found else {
                left_over += 1;
                continue;
            };
            let ring = |v: &[[i32; 4]], at: usize| -> Vec<[i32; 4]> { (0..=v.len()).map(|i| v[(at + i) % v.len()]).collect() };
            let mut m = ring(&out, j);
            m.extend(ring(&hole, ci));
            conts[o].verts = m;
            conts[h].verts.clear();
        }
    }
    left_over
}
