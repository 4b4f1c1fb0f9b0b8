//! Conversions between the code's data structures and the reference model's.
use refmodel::chf::{CSpan, Chf, NONE};
use refmodel::field::{Field, Span as MSpan};
use refmodel::{DX, DZ};
use rerecast::*;
use glam::Vec3;

pub fn v3(x: f32, y: f32, z: f32) -> Vec3 {
    Vec3::new(x, y, z)
}

/// A code heightfield with exactly the given columns.
pub fn hf_from(f: &Field, cs: f32, ch: f32, min: Vec3, top: f32) -> Heightfield {
    let mut hf = Heightfield {
        width: f.w as u16,
        height: f.h as u16,
        aabb: Aabb3d { min, max: v3(min.x + f.w as f32 * cs, top, min.z + f.h as f32 * cs) },
        cell_size: cs,
        cell_height: ch,
        spans: vec![None; f.w * f.h],
        allocated_spans: Spans::default(),
    };
    for (ci, c) in f.cols.iter().enumerate() {
        let mut next = None;
        for s in c.iter().rev() {
            let k = hf.allocated_spans.insert(Span { min: s.min as u16, max: s.max as u16, area: AreaType(s.area), next });
            next = Some(k);
        }
        hf.spans[ci] = next;
    }
    hf
}
pub fn hf_simple(f: &Field) -> Heightfield {
    hf_from(f, 1.0, 1.0, Vec3::ZERO, 65535.0)
}

/// Reads the columns; `Err` when the structure is broken (cycle, dangling key, unreachable span).
pub fn field_from(hf: &Heightfield) -> Result<Field, String> {
    let (w, h) = (hf.width as usize, hf.height as usize);
    if hf.spans.len() != w * h {
        return Err(format!("{} column heads for a {w}x{h} field", hf.spans.len()));
    }
    let mut f = Field::new(w, h);
    let mut seen = 0usize;
    for (ci, head) in hf.spans.iter().enumerate() {
        let mut k = *head;
        while let Some(key) = k {
            let Some(s) = hf.allocated_spans.get(key) else { return Err(format!("column {ci} refers to a span that does not exist")) };
            f.cols[ci].push(MSpan { min: s.min as i32, max: s.max as i32, area: s.area.0 });
            seen += 1;
            if seen > hf.allocated_spans.len() {
                return Err(format!("column {ci} is cyclic or shares spans with another column"));
            }
            k = s.next;
        }
    }
    if seen != hf.allocated_spans.len() {
        return Err(format!("{seen} spans are reachable but {} are stored", hf.allocated_spans.len()));
    }
    Ok(f)
}

/// Same, but addressable through the public accessors (checks that they agree with the columns).
pub fn first_diff(a: &Field, b: &Field) -> String {
    if (a.w, a.h) != (b.w, b.h) {
        return format!("sizes {}x{} / {}x{}", a.w, a.h, b.w, b.h);
    }
    for i in 0..a.cols.len() {
        if a.cols[i] != b.cols[i] {
            return format!("column x={} z={}: got {:?}, expected {:?}", i % a.w, i / a.w, short(&a.cols[i]), short(&b.cols[i]));
        }
    }
    "equal".into()
}
pub fn short(c: &[MSpan]) -> String {
    let v: Vec<String> = c.iter().map(|s| format!("{}..{}@{}", s.min, s.max, s.area)).collect();
    format!("[{}]", v.join(" "))
}

/// Code compact field with exactly the model's content.
pub fn chf_to_code(c: &Chf, cs: f32, ch: f32, min: Vec3, wh: u16, climb: u16) -> CompactHeightfield {
    let mut out = CompactHeightfield {
        width: c.w as u16,
        height: c.h as u16,
        walkable_height: wh,
        walkable_climb: climb,
        border_size: c.border as u16,
        max_distance: c.max_dist,
        max_region: RegionId::from(c.max_reg),
        aabb: Aabb3d { min, max: v3(min.x + c.w as f32 * cs, min.y + 65535.0 * ch, min.z + c.h as f32 * cs) },
        cell_size: cs,
        cell_height: ch,
        cells: vec![CompactCell::default(); c.w * c.h],
        spans: vec![],
        dist: c.dist.clone(),
        areas: c.areas.iter().map(|a| AreaType(*a)).collect(),
    };
    for (ci, (first, n)) in c.cells.iter().enumerate() {
        if *n > 0 {
            out.cells[ci].set_index(*first as u32);
            out.cells[ci].set_count(*n as u8);
        }
    }
    for s in &c.spans {
        let mut data = (s.h as u32) << 24;
        for d in 0..4 {
            let v = if s.nb[d] == NONE {
                63
            } else {
                let (nx, nz) = ((s.x + DX[d]) as usize, (s.z + DZ[d]) as usize);
                (s.nb[d] - c.cells[nx + nz * c.w].0) as u32
            };
            data |= v << (6 * d);
        }
        out.spans.push(CompactSpan { y: s.y as u16, region: RegionId::from(s.reg), data });
    }
    out
}

pub fn chf_from_code(c: &CompactHeightfield) -> Result<Chf, String> {
    let (w, h) = (c.width as usize, c.height as usize);
    if c.cells.len() != w * h {
        return Err(format!("{} cells for a {w}x{h} field", c.cells.len()));
    }
    if c.areas.len() != c.spans.len() {
        return Err(format!("{} areas for {} entries", c.areas.len(), c.spans.len()));
    }
    let mut out = Chf {
        w,
        h,
        cells: vec![(0, 0); w * h],
        spans: vec![],
        areas: c.areas.iter().map(|a| a.0).collect(),
        dist: c.dist.clone(),
        max_dist: c.max_distance,
        border: c.border_size as usize,
        max_reg: c.max_region.bits(),
    };
    for z in 0..h {
        for x in 0..w {
            let cell = &c.cells[x + z * w];
            let n = cell.count() as usize;
            let first = out.spans.len();
            if n > 0 && cell.index() as usize != first {
                return Err(format!("entries of cell ({x},{z}) start at {} instead of {first}", cell.index()));
            }
            if first + n > c.spans.len() {
                return Err(format!("cell ({x},{z}) counts more entries than there are"));
            }
            out.cells[x + z * w] = (first, n);
            for s in &c.spans[first..first + n] {
                out.spans.push(CSpan { x: x as i32, z: z as i32, y: s.y as i32, h: (s.data >> 24) as i32, nb: [NONE; 4], reg: s.region.bits() });
            }
        }
    }
    if out.spans.len() != c.spans.len() {
        return Err(format!("the cells cover {} of {} entries", out.spans.len(), c.spans.len()));
    }
    for i in 0..out.spans.len() {
        for d in 0..4 {
            let v = (c.spans[i].data >> (6 * d)) & 63;
            if v == 63 {
                continue;
            }
            let (nx, nz) = (out.spans[i].x + DX[d], out.spans[i].z + DZ[d]);
            if nx < 0 || nz < 0 || nx >= w as i32 || nz >= h as i32 {
                return Err(format!("entry {i} is linked across the grid border in direction {d}"));
            }
            let (first, n) = out.cells[nx as usize + nz as usize * w];
            if v as usize >= n {
                return Err(format!("entry {i} is linked to layer {v} of a cell with {n} entries"));
            }
            out.spans[i].nb[d] = first + v as usize;
        }
    }
    Ok(out)
}

pub fn chf_diff(a: &Chf, b: &Chf) -> Option<String> {
    if (a.w, a.h) != (b.w, b.h) {
        return Some("different grid sizes".into());
    }
    for i in 0..a.cells.len() {
        if a.cells[i].1 != b.cells[i].1 {
            return Some(format!("cell ({},{}) has {} entries, expected {}", i % a.w, i / a.w, a.cells[i].1, b.cells[i].1));
        }
    }
    for i in 0..a.spans.len() {
        let (p, q) = (&a.spans[i], &b.spans[i]);
        if (p.x, p.z, p.y, p.h) != (q.x, q.z, q.y, q.h) || a.areas[i] != b.areas[i] {
            return Some(format!("entry {i} at ({},{}): floor {} height {} area {}, expected floor {} height {} area {}", q.x, q.z, p.y, p.h, a.areas[i], q.y, q.h, b.areas[i]));
        }
    }
    None
}
/// Everything except the areas (and region/distance data) equal, code level.
pub fn same_geometry(a: &CompactHeightfield, b: &CompactHeightfield) -> bool {
    a.width == b.width
        && a.height == b.height
        && a.cells == b.cells
        && a.aabb == b.aabb
        && a.cell_size == b.cell_size
        && a.cell_height == b.cell_height
        && a.walkable_height == b.walkable_height
        && a.walkable_climb == b.walkable_climb
        && a.spans.len() == b.spans.len()
        && a.spans.iter().zip(&b.spans).all(|(s, t)| s.y == t.y && s.data == t.data)
}

pub fn contour_pts(v: &[(glam::U16Vec3, u32)]) -> Vec<[i32; 4]> {
    v.iter().map(|(p, r)| [p.x as i32, p.y as i32, p.z as i32, *r as i32]).collect()
}
pub fn raw_pts(v: &[(glam::U16Vec3, RegionVertexId)]) -> Vec<[i32; 4]> {
    v.iter().map(|(p, r)| [p.x as i32, p.y as i32, p.z as i32, r.bits() as i32]).collect()
}
