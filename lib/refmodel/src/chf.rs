//! Open-space (compact) field: construction, links, erosion, distance field, convex marking.
use crate::field::{Field, MAXH};
use crate::{DX, DZ};

pub const NONE: usize = usize::MAX;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CSpan {
    pub x: i32,
    pub z: i32,
    pub y: i32,
    pub h: i32,
    /// Index of the linked entry per direction, or NONE.
    pub nb: [usize; 4],
    pub reg: u16,
}

#[derive(Clone, Debug)]
pub struct Chf {
    pub w: usize,
    pub h: usize,
    /// (first, count) per column
    pub cells: Vec<(usize, usize)>,
    pub spans: Vec<CSpan>,
    pub areas: Vec<u8>,
    pub dist: Vec<u16>,
    pub max_dist: u16,
    pub border: usize,
    /// What the original calls maxRegions.
    pub max_reg: u16,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TooMany;

impl Chf {
    /// Entries and links from solid columns. `Err` when a column or a needed link cannot be represented.
    pub fn build(f: &Field, wh: i32, climb: i32) -> Result<Chf, TooMany> {
        let mut c = Chf { w: f.w, h: f.h, cells: vec![(0, 0); f.w * f.h], spans: vec![], areas: vec![], dist: vec![], max_dist: 0, border: 0, max_reg: 0 };
        let mut over = false;
        for z in 0..f.h {
            for x in 0..f.w {
                let col = &f.cols[x + z * f.w];
                let first = c.spans.len();
                for (i, s) in col.iter().enumerate() {
                    if s.area == 0 {
                        continue;
                    }
                    let top = if i + 1 < col.len() { col[i + 1].min } else { MAXH };
                    c.spans.push(CSpan { x: x as i32, z: z as i32, y: s.max, h: (top - s.max).clamp(0, 255), nb: [NONE; 4], reg: 0 });
                    c.areas.push(s.area);
                }
                let n = c.spans.len() - first;
                over |= n > 255;
                c.cells[x + z * f.w] = (first, n);
            }
        }
        for i in 0..c.spans.len() {
            let s = c.spans[i].clone();
            for d in 0..4 {
                let (nx, nz) = (s.x + DX[d], s.z + DZ[d]);
                if nx < 0 || nz < 0 || nx >= c.w as i32 || nz >= c.h as i32 {
                    continue;
                }
                let (first, n) = c.cells[nx as usize + nz as usize * c.w];
                let q = (0..n).find(|k| {
                    let o = &c.spans[first + k];
                    let room = (s.y + s.h).min(o.y + o.h) - s.y.max(o.y);
                    room >= wh && (o.y - s.y).abs() <= climb
                });
                if let Some(k) = q {
                    if k > 62 {
                        over = true; // layer indices 0..=62 are representable
                    } else {
                        c.spans[i].nb[d] = first + k;
                    }
                }
            }
        }
        if over { Err(TooMany) } else { Ok(c) }
    }

    /// Two-pass chamfer distance from the seeds (2 straight, 3 diagonal), as in the original.
    /// Where every column has one layer at most that is the shortest path, which is then computed
    /// as such, independently of any order of sweeps.
    fn chamfer(&self, d: &mut [u32]) {
        if self.cells.iter().all(|c| c.1 < 2) {
            return self.shortest(d);
        }
        let n = self.spans.len();
        let relax = |d: &mut [u32], i: usize, a: usize, b: usize| {
            let s = self.spans[i].nb[a];
            if s != NONE {
                d[i] = d[i].min(d[s].saturating_add(2));
                let t = self.spans[s].nb[b];
                if t != NONE {
                    d[i] = d[i].min(d[t].saturating_add(3));
                }
            }
        };
        for i in 0..n {
            relax(d, i, 0, 3);
            relax(d, i, 3, 2);
        }
        // second pass: columns in reverse order, entries inside a column still bottom to top
        for (first, cnt) in self.cells.iter().rev() {
            for i in *first..first + cnt {
                relax(d, i, 2, 1);
                relax(d, i, 1, 0);
            }
        }
    }

    /// Shortest way to a seed in straight (2) and diagonal (3) steps.
    fn shortest(&self, d: &mut [u32]) {
        // who can step onto an entry, and at what cost
        let mut from: Vec<Vec<(usize, u32)>> = vec![Vec::new(); self.spans.len()];
        for (i, s) in self.spans.iter().enumerate() {
            for a in 0..4 {
                let n = s.nb[a];
                if n == NONE {
                    continue;
                }
                from[n].push((i, 2));
                let t = self.spans[n].nb[(a + 3) % 4];
                if t != NONE {
                    from[t].push((i, 3));
                }
            }
        }
        let mut rings: Vec<Vec<usize>> = vec![(0..d.len()).filter(|i| d[*i] == 0).collect()];
        let mut at = 0;
        while at < rings.len() {
            for i in std::mem::take(&mut rings[at]) {
                if d[i] as usize != at {
                    continue;
                }
                for &(j, cost) in &from[i] {
                    let to = at as u32 + cost;
                    if to < d[j] {
                        d[j] = to;
                        if rings.len() <= to as usize {
                            rings.resize(to as usize + 1, Vec::new());
                        }
                        rings[to as usize].push(j);
                    }
                }
            }
            at += 1;
        }
    }

    pub fn boundary_distance_for_erosion(&self) -> Vec<u32> {
        let mut d: Vec<u32> = (0..self.spans.len())
            .map(|i| {
                let edge = self.areas[i] == 0 || self.spans[i].nb.iter().any(|n| *n == NONE || self.areas[*n] == 0);
                if edge { 0 } else { u32::MAX }
            })
            .collect();
        self.chamfer(&mut d);
        d
    }

    pub fn erode(&mut self, radius: u32) {
        let d = self.boundary_distance_for_erosion();
        for i in 0..d.len() {
            if d[i] < radius * 2 {
                self.areas[i] = 0;
            }
        }
    }

    /// Unsmoothed distances.
    pub fn raw_distance(&self) -> Vec<u32> {
        let mut d: Vec<u32> = (0..self.spans.len())
            .map(|i| {
                let all = self.spans[i].nb.iter().all(|n| *n != NONE && self.areas[*n] == self.areas[i]);
                if all { u32::MAX } else { 0 }
            })
            .collect();
        self.chamfer(&mut d);
        d
    }

    pub fn distance_field(&mut self) {
        let raw = self.raw_distance();
        self.max_dist = raw.iter().copied().max().unwrap_or(0) as u16;
        self.dist = (0..raw.len())
            .map(|i| {
                let cd = raw[i];
                if cd <= 2 {
                    return cd as u16;
                }
                let mut sum = cd;
                for d in 0..4 {
                    let a = self.spans[i].nb[d];
                    if a == NONE {
                        sum += 2 * cd;
                        continue;
                    }
                    sum += raw[a];
                    let b = self.spans[a].nb[(d + 1) & 3];
                    sum += if b == NONE { cd } else { raw[b] };
                }
                ((sum + 5) / 9) as u16
            })
            .collect();
    }
}
