//! Watershed partitioning of the original Recast (rcBuildRegions).
use crate::BORDER;
use crate::chf::{Chf, NONE};

#[derive(Clone, Default)]
struct Region {
    span_count: i64,
    id: u16,
    area: u8,
    remap: bool,
    visited: bool,
    overlap: bool,
    conns: Vec<u16>,
    floors: Vec<u16>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RegionOverflow;

/// Coverage counters of one run (what the watershed actually did).
#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub flooded: u64,
    pub merged: u64,
    pub dropped: u64,
    pub overlap: u64,
    pub levels: u64,
}

impl Chf {
    pub fn build_regions(&mut self, border: usize, min_area: i64, merge_size: i64) -> Result<Stats, RegionOverflow> {
        let n = self.spans.len();
        let mut st = Stats::default();
        let mut reg = vec![0u16; n];
        let mut dist = vec![0u16; n];
        let mut id: u32 = 1;
        let mut level: i32 = ((self.max_dist as i32) + 1) & !1;
        if border > 0 {
            let bw = self.w.min(border) as i32;
            let bh = self.h.min(border) as i32;
            let (w, h) = (self.w as i32, self.h as i32);
            for r in [(0, bw, 0, h), (w - bw, w, 0, h), (0, w, 0, bh), (0, w, h - bh, h)] {
                for i in 0..n {
                    let s = &self.spans[i];
                    if s.x >= r.0 && s.x < r.1 && s.z >= r.2 && s.z < r.3 && self.areas[i] != 0 {
                        reg[i] = id as u16 | BORDER;
                    }
                }
                id += 1;
            }
        }
        self.border = border;
        const NB: usize = 8;
        let mut stacks: Vec<Vec<usize>> = vec![vec![]; NB];
        let mut sid: i32 = -1;
        while level > 0 {
            st.levels += 1;
            level = (level - 2).max(0);
            sid = (sid + 1) & (NB as i32 - 1);
            let s = sid as usize;
            if s == 0 {
                let start = level >> 1;
                stacks.iter_mut().for_each(|s| s.clear());
                for i in 0..n {
                    if self.areas[i] == 0 || reg[i] != 0 {
                        continue;
                    }
                    let k = start - (self.dist[i] as i32 >> 1);
                    if k >= NB as i32 {
                        continue;
                    }
                    stacks[k.max(0) as usize].push(i);
                }
            } else {
                let prev: Vec<usize> = stacks[s - 1].iter().copied().filter(|i| *i != NONE && reg[*i] == 0).collect();
                stacks[s].extend(prev);
            }
            let mut stack = std::mem::take(&mut stacks[s]);
            self.expand(8, level, &mut reg, &mut dist, &mut stack, false);
            for j in 0..stack.len() {
                let i = stack[j];
                if i != NONE && reg[i] == 0 && self.flood(i, level, id as u16, &mut reg, &mut dist) {
                    st.flooded += 1;
                    // ids from 0x8000 on would read as border regions
                    if id + 1 >= BORDER as u32 {
                        return Err(RegionOverflow);
                    }
                    id += 1;
                }
            }
            stacks[s] = stack;
        }
        let mut stack = vec![];
        self.expand(64, 0, &mut reg, &mut dist, &mut stack, true);
        self.max_reg = self.merge_and_filter(min_area, merge_size, id as usize, &mut reg, &mut st);
        for i in 0..n {
            self.spans[i].reg = reg[i];
        }
        Ok(st)
    }

    fn expand(&self, max_iter: usize, level: i32, reg: &mut [u16], dist: &mut [u16], stack: &mut Vec<usize>, fill: bool) {
        if fill {
            stack.clear();
            for i in 0..self.spans.len() {
                if self.dist[i] as i32 >= level && reg[i] == 0 && self.areas[i] != 0 {
                    stack.push(i);
                }
            }
        } else {
            for e in stack.iter_mut() {
                if *e != NONE && reg[*e] != 0 {
                    *e = NONE;
                }
            }
        }
        let mut iter = 0;
        while !stack.is_empty() {
            let mut failed = 0;
            let mut dirty = vec![];
            for e in stack.iter_mut() {
                if *e == NONE {
                    failed += 1;
                    continue;
                }
                let i = *e;
                let mut r = reg[i];
                let mut d2 = 0xffff;
                for d in 0..4 {
                    let a = self.spans[i].nb[d];
                    if a == NONE || self.areas[a] != self.areas[i] {
                        continue;
                    }
                    if reg[a] > 0 && reg[a] & BORDER == 0 && (dist[a] as i32) + 2 < d2 {
                        r = reg[a];
                        d2 = dist[a] as i32 + 2;
                    }
                }
                if r != 0 {
                    *e = NONE;
                    dirty.push((i, r, d2 as u16));
                } else {
                    failed += 1;
                }
            }
            for (i, r, d) in dirty {
                reg[i] = r;
                dist[i] = d;
            }
            if failed == stack.len() {
                break;
            }
            if level > 0 {
                iter += 1;
                if iter >= max_iter {
                    break;
                }
            }
        }
    }

    fn flood(&self, start: usize, level: i32, r: u16, reg: &mut [u16], dist: &mut [u16]) -> bool {
        let area = self.areas[start];
        let mut stack = vec![start];
        reg[start] = r;
        dist[start] = 0;
        let lev = (level - 2).max(0);
        let mut count = 0;
        while let Some(c) = stack.pop() {
            let mut ar = 0;
            for d in 0..4 {
                let a = self.spans[c].nb[d];
                if a == NONE || self.areas[a] != area {
                    continue;
                }
                let nr = reg[a];
                if nr & BORDER != 0 {
                    continue;
                }
                if nr != 0 && nr != r {
                    ar = nr;
                    break;
                }
                let b = self.spans[a].nb[(d + 1) & 3];
                if b != NONE {
                    if self.areas[b] != area {
                        continue;
                    }
                    let nr2 = reg[b];
                    if nr2 != 0 && nr2 != r {
                        ar = nr2;
                        break;
                    }
                }
            }
            if ar != 0 {
                reg[c] = 0;
                continue;
            }
            count += 1;
            for d in 0..4 {
                let a = self.spans[c].nb[d];
                if a == NONE || self.areas[a] != area {
                    continue;
                }
                if self.dist[a] as i32 >= lev && reg[a] == 0 {
                    reg[a] = r;
                    dist[a] = 0;
                    stack.push(a);
                }
            }
        }
        count > 0
    }

    fn solid_edge(&self, reg: &[u16], i: usize, d: usize) -> bool {
        let a = self.spans[i].nb[d];
        let r = if a == NONE { 0 } else { reg[a] };
        r != reg[i]
    }

    fn region_walk(&self, i0: usize, d0: usize, reg: &[u16]) -> Vec<u16> {
        let (mut i, mut d) = (i0, d0);
        let at = |i: usize, d: usize| {
            let a = self.spans[i].nb[d];
            if a == NONE { 0 } else { reg[a] }
        };
        let mut cur = at(i, d);
        let mut cont = vec![cur];
        let mut iter = 0;
        loop {
            iter += 1;
            if iter >= 40000 {
                break;
            }
            if self.solid_edge(reg, i, d) {
                let r = at(i, d);
                if r != cur {
                    cur = r;
                    cont.push(r);
                }
                d = (d + 1) & 3;
            } else {
                let a = self.spans[i].nb[d];
                if a == NONE {
                    return cont;
                }
                i = a;
                d = (d + 3) & 3;
            }
            if i == i0 && d == d0 {
                break;
            }
        }
        dedup_ring(&mut cont);
        cont
    }

    fn merge_and_filter(&self, min_area: i64, merge_size: i64, max_id: usize, reg: &mut [u16], st: &mut Stats) -> u16 {
        let nreg = max_id + 1;
        let mut rs: Vec<Region> = (0..nreg).map(|i| Region { id: i as u16, ..Default::default() }).collect();
        for (first, cnt) in self.cells.iter() {
            for i in *first..first + cnt {
                let r = reg[i] as usize;
                if r == 0 || r >= nreg {
                    continue;
                }
                rs[r].span_count += 1;
                for j in *first..first + cnt {
                    if i == j {
                        continue;
                    }
                    let f = reg[j];
                    if f == 0 || f as usize >= nreg {
                        continue;
                    }
                    if f as usize == r {
                        rs[r].overlap = true;
                        st.overlap += 1;
                    }
                    if !rs[r].floors.contains(&f) {
                        rs[r].floors.push(f);
                    }
                }
                if !rs[r].conns.is_empty() {
                    continue;
                }
                rs[r].area = self.areas[i];
                if let Some(d) = (0..4).find(|d| self.solid_edge(reg, i, *d)) {
                    rs[r].conns = self.region_walk(i, d, reg);
                }
            }
        }
        // drop small islands
        for i in 0..nreg {
            if rs[i].id == 0 || rs[i].span_count == 0 || rs[i].visited || rs[i].id & BORDER != 0 {
                continue;
            }
            let mut border = false;
            let mut total = 0;
            let mut trace = vec![];
            rs[i].visited = true;
            let mut stack = vec![i];
            while let Some(ri) = stack.pop() {
                total += rs[ri].span_count;
                trace.push(ri);
                for c in rs[ri].conns.clone() {
                    if c & BORDER != 0 {
                        border = true;
                        continue;
                    }
                    let ne = &mut rs[c as usize];
                    if ne.visited || ne.id == 0 || ne.id & BORDER != 0 {
                        continue;
                    }
                    stack.push(ne.id as usize);
                    ne.visited = true;
                }
            }
            if total < min_area && !border {
                st.dropped += 1;
                for t in trace {
                    rs[t].span_count = 0;
                    rs[t].id = 0;
                }
            }
        }
        // merge small regions into neighbours
        loop {
            let mut merges = 0;
            for i in 0..nreg {
                if rs[i].id == 0 || rs[i].id & BORDER != 0 || rs[i].overlap || rs[i].span_count == 0 {
                    continue;
                }
                if rs[i].span_count > merge_size && rs[i].conns.contains(&0) {
                    continue;
                }
                let mut smallest = 0xfffffff;
                let mut merge_id = rs[i].id;
                for c in &rs[i].conns {
                    if c & BORDER != 0 {
                        continue;
                    }
                    let m = &rs[*c as usize];
                    if m.id == 0 || m.id & BORDER != 0 || m.overlap {
                        continue;
                    }
                    if m.span_count < smallest && can_merge(&rs[i], m) && can_merge(m, &rs[i]) {
                        smallest = m.span_count;
                        merge_id = m.id;
                    }
                }
                if merge_id == rs[i].id {
                    continue;
                }
                let old = rs[i].id;
                if merge(&mut rs, merge_id as usize, i) {
                    for r in rs.iter_mut() {
                        if r.id == 0 || r.id & BORDER != 0 {
                            continue;
                        }
                        if r.id == old {
                            r.id = merge_id;
                        }
                        let mut ch = false;
                        for c in r.conns.iter_mut() {
                            if *c == old {
                                *c = merge_id;
                                ch = true;
                            }
                        }
                        for f in r.floors.iter_mut() {
                            if *f == old {
                                *f = merge_id;
                            }
                        }
                        if ch {
                            dedup_ring(&mut r.conns);
                        }
                    }
                    merges += 1;
                    st.merged += 1;
                }
            }
            if merges == 0 {
                break;
            }
        }
        // compress ids
        for r in rs.iter_mut() {
            r.remap = r.id != 0 && r.id & BORDER == 0;
        }
        let mut next = 0u16;
        for i in 0..nreg {
            if !rs[i].remap {
                continue;
            }
            let old = rs[i].id;
            next += 1;
            for r in rs[i..].iter_mut() {
                if r.id == old && r.remap {
                    r.id = next;
                    r.remap = false;
                }
            }
        }
        for r in reg.iter_mut() {
            if *r & BORDER == 0 {
                *r = rs[*r as usize].id;
            }
        }
        next
    }
}

fn dedup_ring(v: &mut Vec<u16>) {
    let mut i = 0;
    while i < v.len() && v.len() > 1 {
        let ni = (i + 1) % v.len();
        if v[i] == v[ni] {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}

fn can_merge(a: &Region, b: &Region) -> bool {
    a.area == b.area && a.conns.iter().filter(|c| **c == b.id).count() <= 1 && !a.floors.contains(&b.id)
}

fn merge(rs: &mut [Region], a: usize, b: usize) -> bool {
    let (aid, bid) = (rs[a].id, rs[b].id);
    let (ac, bc) = (rs[a].conns.clone(), rs[b].conns.clone());
    let Some(ia) = ac.iter().position(|c| *c == bid) else { return false };
    let Some(ib) = bc.iter().position(|c| *c == aid) else { return false };
    let mut n: Vec<u16> = (0..ac.len() - 1).map(|i| ac[(ia + 1 + i) % ac.len()]).collect();
    n.extend((0..bc.len() - 1).map(|i| bc[(ib + 1 + i) % bc.len()]));
    dedup_ring(&mut n);
    rs[a].conns = n;
    for f in rs[b].floors.clone() {
        if !rs[a].floors.contains(&f) {
            rs[a].floors.push(f);
        }
    }
    rs[a].span_count += rs[b].span_count;
    rs[b].span_count = 0;
    rs[b].conns.clear();
    true
}
