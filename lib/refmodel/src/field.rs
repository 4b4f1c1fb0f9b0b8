//! Solid heightfield columns: merging, filters.
use crate::{DX, DZ};

pub const MAXH: i32 = 65535;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Span {
    pub min: i32,
    pub max: i32,
    pub area: u8,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Field {
    pub w: usize,
    pub h: usize,
    pub cols: Vec<Vec<Span>>,
}

impl Field {
    pub fn new(w: usize, h: usize) -> Self {
        Field { w, h, cols: vec![vec![]; w * h] }
    }
    pub fn col(&self, x: i32, z: i32) -> Option<&Vec<Span>> {
        if x < 0 || z < 0 || x >= self.w as i32 || z >= self.h as i32 {
            None
        } else {
            Some(&self.cols[x as usize + z as usize * self.w])
        }
    }
    pub fn span_count(&self) -> usize {
        self.cols.iter().map(|c| c.len()).sum()
    }

    /// Inserts a piece: everything it overlaps or touches becomes one span.
    /// Existing spans are absorbed bottom to top; each one contributes its area when, with the union
    /// formed so far, the tops differ by at most `thr`.
    pub fn insert(&mut self, ci: usize, s: Span, thr: i32) {
        let col = &mut self.cols[ci];
        let below: Vec<Span> = col.iter().copied().filter(|o| o.max < s.min).collect();
        let mut cur = s;
        let mut above = vec![];
        for o in col.iter().copied().filter(|o| o.max >= s.min) {
            if o.min > cur.max {
                above.push(o);
                continue;
            }
            cur.min = cur.min.min(o.min);
            cur.max = cur.max.max(o.max);
            if (cur.max - o.max).abs() <= thr {
                cur.area = cur.area.max(o.area);
            }
        }
        *col = below;
        col.push(cur);
        col.extend(above);
    }

    pub fn low_hanging(&mut self, climb: i32) {
        for c in &mut self.cols {
            let before = c.clone();
            for i in 1..c.len() {
                if before[i].area == 0 && before[i - 1].area != 0 && c[i].max - c[i - 1].max <= climb {
                    c[i].area = before[i - 1].area;
                }
            }
        }
    }

    pub fn low_height(&mut self, walkable_height: i32) {
        for c in &mut self.cols {
            for i in 0..c.len() {
                let ceil = if i + 1 < c.len() { c[i + 1].min } else { MAXH };
                if ceil - c[i].max < walkable_height {
                    c[i].area = 0;
                }
            }
        }
    }

    /// Free intervals of a column, bottom to top: (floor, ceiling, index of the span below or None).
    fn gaps(c: &[Span]) -> Vec<(i32, i32, Option<usize>)> {
        let mut v = vec![];
        let first = c.first().map(|s| s.min).unwrap_or(MAXH);
        v.push((i32::MIN, first, None));
        for i in 0..c.len() {
            let ceil = if i + 1 < c.len() { c[i + 1].min } else { MAXH };
            v.push((c[i].max, ceil, Some(i)));
        }
        v
    }

    /// Whether the span (x, z, i) is a ledge or on a steep slope.
    pub fn is_ledge(&self, x: i32, z: i32, i: usize, wh: i32, climb: i32) -> bool {
        let c = self.col(x, z).unwrap();
        let floor = c[i].max;
        let ceiling = if i + 1 < c.len() { c[i + 1].min } else { MAXH };
        let (mut lo, mut hi) = (floor, floor);
        for d in 0..4 {
            let Some(n) = self.col(x + DX[d], z + DZ[d]) else {
                return true; // next to the outside of the grid
            };
            for (nf, nc, idx) in Self::gaps(n) {
                // room shared by the two open spaces
                let room = ceiling.min(nc) - floor.max(nf);
                if room < wh {
                    continue;
                }
                if idx.is_none() {
                    return true; // open down to the bottom of the field
                }
                let diff = nf - floor;
                if diff < -climb {
                    return true;
                }
                if diff <= climb {
                    lo = lo.min(nf);
                    hi = hi.max(nf);
                }
            }
        }
        hi - lo > climb
    }

    pub fn ledges(&mut self, wh: i32, climb: i32) {
        let old = self.clone();
        for z in 0..self.h as i32 {
            for x in 0..self.w as i32 {
                let ci = x as usize + z as usize * self.w;
                for i in 0..self.cols[ci].len() {
                    if self.cols[ci][i].area != 0 && old.is_ledge(x, z, i, wh, climb) {
                        self.cols[ci][i].area = 0;
                    }
                }
            }
        }
    }
}
