//! C08..C12: the compact (open-space) field.
use crate::ad::*;
use crate::gens;
use glam::{Vec2, Vec3};
use pbt::*;
use refmodel::chf::{Chf, NONE};
use refmodel::field::Field;
use rerecast::*;

fn meta(s: &mut Src) -> (f32, f32, Vec3, f32) {
    (*s.pick(&[1.0f32, 0.3, 0.25, 2.0]), *s.pick(&[1.0f32, 0.2, 0.5]), Vec3::new(s.int(-9, 9) as f32, s.int(-9, 9) as f32, s.int(-9, 9) as f32), s.int(10, 99) as f32)
}
fn entries_check(f: &Field, wh: u16, cl: u16, c: &mut Ctx, s: &mut Src) -> Result<Option<(Chf, Chf)>, Fail> {
    let (cs, ch, min, top) = meta(s);
    let hf = hf_from(f, cs, ch, min, top);
    let want = Chf::build(f, wh as i32, cl as i32);
    let got = hf.clone().into_compact(wh, cl);
    match (got, want) {
        (Err(_), Err(_)) => {
            c.label("too many layers, reported");
            Ok(None)
        }
        (Err(e), Ok(_)) => Err(Fail::new("spurious-error", format!("conversion failed although everything is representable: {e}"))),
        (Ok(_), Err(_)) => Err(Fail::new("missing-error", format!("height {wh} climb {cl}: a column or link that cannot be represented was not reported"))),
        (Ok(g), Ok(w)) => {
            let gc = chf_from_code(&g).map_err(|e| Fail::new("structure", e))?;
            ensure!(g.width == hf.width && g.height == hf.height && g.cell_size == cs && g.cell_height == ch && g.walkable_height == wh && g.walkable_climb == cl, "metadata", "grid size, cell sizes or agent settings not carried over");
            let mut bb = hf.aabb;
            bb.max.y += wh as f32 * ch;
            ensure!(g.aabb == bb, "bounds", "bounds {:?}, expected {:?}", g.aabb, bb);
            let mut m = g.clone();
            for i in 0..g.cells.len() {
                let (x, z) = ((i % f.w) as u16, (i / f.w) as u16);
                let at = |c: &CompactCell| std::ptr::eq(c, &g.cells[i]);
                ensure!(at(g.cell_at(x, z)) && g.get_cell_at(x, z).is_some_and(at), "lookup", "cell_at({x},{z}) is another cell");
                let base = m.cells.as_ptr() as usize;
                let here = base + i * size_of::<CompactCell>();
                let a = m.cell_at_mut(x, z) as *mut CompactCell as usize;
                let b = m.get_cell_at_mut(x, z).map(|c| c as *mut CompactCell as usize);
                ensure!(a == here && b == Some(here), "lookup", "cell_at_mut({x},{z}) is another cell");
            }
            let (x, z) = crate::raster::outside(s, f.w, f.h);
            ensure!(g.get_cell_at(x, z).is_none() && m.get_cell_at_mut(x, z).is_none(), "lookup", "looking up ({x},{z}) outside the {}x{} grid gives a cell", f.w, f.h);
            if s.chance(1, 8) {
                let quiet = std::panic::AssertUnwindSafe(|| drop(g.cell_at(x, z).index()));
                let quiet_mut = std::panic::AssertUnwindSafe(|| drop(m.cell_at_mut(x, z).index()));
                ensure!(std::panic::catch_unwind(quiet).is_err() && std::panic::catch_unwind(quiet_mut).is_err(), "lookup", "cell_at or cell_at_mut gives a cell for ({x},{z}) outside the {}x{} grid instead of panicking as documented", f.w, f.h);
            }
            ensure!(g.border_size == 0 && g.max_region.bits() == 0 && g.max_distance == 0 && g.spans.iter().all(|s| s.region.bits() == 0), "fresh", "a fresh field has region or distance data");
            Ok(Some((gc, w)))
        }
    }
}
fn c08_columns(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gens::columns(s, 8);
    let (wh, cl) = gens::agent(s);
    c.describe(|| format!("height {wh} climb {cl} field {}", gens::field_picture(&f)));
    if let Some((g, w)) = entries_check(&f, wh, cl, c, s)? {
        if let Some(d) = chf_diff(&g, &w) {
            return Err(Fail::new("entries", d));
        }
        c.count("entries", w.spans.len() as u64);
        let walk = w.spans.len();
        c.nontrivial_if(walk > 0 && f.span_count() > walk);
    }
    Ok(())
}
/// Tall columns: entry counts around 255, floors and ceilings at the limits.
fn tall_field(s: &mut Src) -> Field {
    let w = s.usize(1, 3);
    let mut f = Field::new(w, 1);
    for x in 0..w {
        let n = match s.weighted(&[2, 2, 2]) {
            0 => s.usize(0, 6),
            1 => s.usize(58, 70),
            _ => s.usize(250, 270),
        };
        let step = s.int(2, 5) as i32;
        let mut y = if s.chance(1, 5) { 65535 - n as i32 * step - s.int(0, 9) as i32 } else { s.int(0, 9) as i32 }.max(0);
        let un = s.int(0, 12) as u64;
        for _ in 0..n {
            let a = if un > 8 && s.chance(un - 8, 8) { 0 } else { 255 };
            gens::put(&mut f, x, 0, y, y + 1, a);
            y += step;
        }
    }
    f
}
fn c08_tall(s: &mut Src, c: &mut Ctx) -> Res {
    let f = tall_field(s);
    let (wh, cl) = (s.int(1, 4) as u16, s.int(0, 3) as u16);
    c.describe(|| format!("height {wh} climb {cl} column heights {:?}", f.cols.iter().map(|c| c.len()).collect::<Vec<_>>()));
    if let Some((g, w)) = entries_check(&f, wh, cl, c, s)? {
        if let Some(d) = chf_diff(&g, &w) {
            return Err(Fail::new("entries", d));
        }
    }
    c.nontrivial_if(f.cols.iter().any(|c| c.len() >= 58));
    Ok(())
}
pub fn links_diff(g: &Chf, w: &Chf) -> Option<String> {
    for i in 0..w.spans.len() {
        for d in 0..4 {
            let (a, b) = (g.spans[i].nb[d], w.spans[i].nb[d]);
            if a != b {
                let show = |k: usize| if k == NONE { "none".into() } else { format!("entry with floor {}", w.spans[k].y) };
                return Some(format!("entry {i} at ({},{}) floor {} height {} direction {d}: linked to {}, expected {}", w.spans[i].x, w.spans[i].z, w.spans[i].y, w.spans[i].h, show(a), show(b)));
            }
        }
    }
    None
}
fn link_case(f: Field, wh: u16, cl: u16, c: &mut Ctx, s: &mut Src) -> Res {
    if let Some((g, w)) = entries_check(&f, wh, cl, c, s)? {
        if g.spans.len() != w.spans.len() {
            return Err(Fail::new("entries", "different number of entries"));
        }
        if let Some(d) = links_diff(&g, &w) {
            return Err(Fail::new("links", format!("height {wh} climb {cl}: {d}")));
        }
        let all: usize = w.spans.iter().map(|s| s.nb.iter().filter(|n| **n != NONE).count()).sum();
        c.count("links", all as u64);
        c.nontrivial_if(all > 0 && all < w.spans.len() * 4);
    }
    Ok(())
}
fn c09_columns(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gens::columns(s, 8);
    let (wh, cl) = gens::agent(s);
    c.describe(|| format!("height {wh} climb {cl} field {}", gens::field_picture(&f)));
    link_case(f, wh, cl, c, s)
}
fn c09_pairs(s: &mut Src, c: &mut Ctx) -> Res {
    // two or three columns, dense layers, gaps and steps around the limits
    let (w, h) = *s.pick(&[(2, 1), (1, 2), (3, 1), (2, 2), (3, 3)]);
    let mut f = Field::new(w, h);
    let (wh, cl) = (s.int(0, 6) as u16, s.int(0, 5) as u16);
    let base = *s.pick(&[0i32, 0, 50, 65480, 250]);
    for i in 0..w * h {
        let mut y = base + s.int(0, 6) as i32;
        for _ in 0..s.usize(0, 6) {
            let t = s.int(1, 3) as i32;
            let a = *s.pick(&[255u8, 255, 255, 4, 0]);
            gens::put(&mut f, i % w, i / w, y, y + t, a);
            y += t + s.int(1, 8) as i32;
        }
    }
    c.describe(|| format!("height {wh} climb {cl} field {}", gens::field_picture(&f)));
    link_case(f, wh, cl, c, s)
}
fn c09_layers(s: &mut Src, c: &mut Ctx) -> Res {
    // a tall stack next to a short one that lies at a chosen layer of the stack
    let n = s.usize(1, 80);
    let step = s.int(3, 5) as i32;
    let (wh, cl) = (s.int(1, step as i64 - 1) as u16, s.int(0, 3) as u16);
    let (w, h) = if s.bool() { (2, 1) } else { (1, 2) };
    let mut f = Field::new(w, h);
    let swap = s.bool();
    for i in 0..n {
        let y = i as i32 * step;
        gens::put(&mut f, 0, 0, y, y + 1, 255);
    }
    for _ in 0..s.usize(1, 3) {
        let y = (s.int(n as i64 - 25, n as i64 + 2).max(0) as i32) * step + s.int(-2, 2) as i32;
        gens::put(&mut f, w - 1, h - 1, y.max(0), y.max(0) + 1, 255);
    }
    if swap {
        f.cols.swap(0, 1);
    }
    c.describe(|| format!("height {wh} climb {cl} stack {n} step {step} other {:?}", short(&f.cols[if swap { 0 } else { 1 }])));
    c.label_if(n > 62, "stack beyond the representable layers");
    link_case(f, wh, cl, c, s)
}
fn c09_packing(s: &mut Src, c: &mut Ctx) -> Res {
    let mut sp = CompactSpan { y: 7, region: RegionId::from(3), data: if s.bool() { s.u32() } else { 0 } };
    let mut h = sp.height();
    let mut con: Vec<Option<u8>> = (0..4).map(|d| sp.con(d)).collect();
    ensure!(h as u32 == sp.data >> 24, "packing", "height is not the top byte");
    let n = s.usize(1, 12);
    for _ in 0..n {
        if s.chance(1, 3) {
            h = s.int(0, 255) as u8;
            sp.set_height(h);
        } else {
            let d = s.int(0, 3) as u8;
            let v = if s.chance(1, 4) { None } else { Some(s.int(0, 62) as u8) };
            con[d as usize] = v;
            sp.set_con(d, v);
        }
        for d in 0..4u8 {
            ensure!(sp.con(d) == con[d as usize], "packing", "direction {d} reads {:?}, set to {:?}", sp.con(d), con[d as usize]);
        }
        ensure!(sp.height() == h, "packing", "height reads {}, set to {h}", sp.height());
        ensure!(sp.y == 7 && sp.region.bits() == 3, "packing", "other fields changed");
    }
    let mut cell = CompactCell::default();
    let (i, k) = (s.u32() >> s.int(0, 31), s.int(0, 255) as u8);
    cell.set_index(i);
    cell.set_count(k);
    ensure!(cell.index() == i && cell.count() == k && cell.index_range() == (i as usize..i as usize + k as usize), "cell", "cell does not read back index {i} count {k}");
    c.describe(|| format!("{n} writes, final data {:08x}", sp.data));
    c.nontrivial_if(n >= 3);
    Ok(())
}

// ------------------------------------------------------------------ C10
fn random_areas(s: &mut Src, c: &mut Chf) {
    let k = s.weighted(&[4, 2, 2]);
    for a in c.areas.iter_mut() {
        match k {
            0 => {}
            1 => {
                if s.chance(1, 16) {
                    *a = 0
                }
            }
            _ => {
                if s.chance(1, 5) {
                    *a = gens::area(s)
                }
            }
        }
    }
}
fn erode_case(m: Chf, r: u16, wh: u16, cl: u16, c: &mut Ctx) -> Res {
    let mut code = chf_to_code(&m, 1.0, 1.0, Vec3::ZERO, wh, cl);
    let before = code.clone();
    code.erode_walkable_area(r);
    let mut want = m.clone();
    want.erode(r as u32);
    for i in 0..m.areas.len() {
        ensure!(code.areas[i].0 == want.areas[i], "mismatch", "radius {r}: entry {i} at ({},{}) has area {}, expected {} (boundary distance {})", m.spans[i].x, m.spans[i].z, code.areas[i].0, want.areas[i], m.boundary_distance_for_erosion()[i]);
    }
    ensure!(same_geometry(&before, &code) && before.dist == code.dist && before.spans == code.spans, "other-data", "erosion changed something other than areas");
    let walk = |a: &[u8]| a.iter().filter(|a| **a != 0).count();
    let (b, a) = (walk(&m.areas), walk(&want.areas));
    c.label_if(b > 0 && a == 0, "everything eroded");
    c.nontrivial_if(a > 0 && a < b);
    Ok(())
}
fn c10_plans(s: &mut Src, c: &mut Ctx) -> Res {
    let p = gens::plan(s, 24);
    let Some(mut m) = gens::plan_chf(&p) else { return Ok(()) };
    random_areas(s, &mut m);
    let r = match s.weighted(&[8, 1]) {
        0 => s.int(0, 5) as u16,
        _ => *s.pick(&[63u16, 64, 127, 128, 129, 255, 256, 32767, 32768, 32769, 65535]),
    };
    c.describe(|| format!("radius {r} {}", gens::picture(&m)));
    erode_case(m, r, p.wh as u16, p.climb as u16, c)
}
fn c10_columns(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gens::columns(s, 9);
    let (wh, cl) = (s.int(1, 6) as u16, s.int(0, 8) as u16);
    let Ok(mut m) = Chf::build(&f, wh as i32, cl as i32) else { return Ok(()) };
    random_areas(s, &mut m);
    let r = s.int(0, 3) as u16;
    c.describe(|| format!("radius {r} {}", gens::picture(&m)));
    erode_case(m, r, wh, cl, c)
}
/// Open floors so large that the distance exceeds one byte.
fn c10_wide(s: &mut Src, c: &mut Ctx) -> Res {
    let r = *s.pick(&[126i64, 127, 128, 129, 130, 140, 200]);
    let n = (2 * r + s.int(-2, 8)) as usize;
    let w = n + s.usize(0, 20);
    let mut p = gens::Plan { f: Field::new(w, n), wh: 2, climb: 1, layers: 1, ops: String::new() };
    for i in 0..w * n {
        p.f.cols[i].push(refmodel::field::Span { min: 0, max: 1, area: 255 });
    }
    if s.chance(1, 3) {
        let i = s.usize(0, w * n - 1);
        p.f.cols[i].clear();
    }
    let m = gens::plan_chf(&p).unwrap();
    c.describe(|| format!("radius {r} on an open floor {w}x{n}"));
    let r = (r + s.int(-1, 1)) as u16;
    erode_case(m, r, 2, 1, c)
}

// ------------------------------------------------------------------ C11
/// Model: footprint by exact arithmetic on a grid of 1/8 cells.
fn c11(s: &mut Src, c: &mut Ctx) -> Res {
    let two = s.chance(1, 4);
    let p = if two { gens::plan(s, 10) } else { gens::plan(s, 14) };
    let Some(mut m) = gens::plan_chf(&p) else { return Ok(()) };
    random_areas(s, &mut m);
    if s.chance(1, 4) {
        // the same floors, far up
        let top = m.spans.iter().map(|q| q.y).max().unwrap_or(0) as i64;
        let up = (*s.pick(&[200i64, 32_700, 32_760, 40_000, 65_400]) + s.int(0, 100)).min(65_535 - top);
        m.spans.iter_mut().for_each(|q| q.y += up as i32);
        c.label("high floors");
    }
    volumes(m, p.wh as u16, p.climb as u16, s, c)
}
fn volumes(m: Chf, wh: u16, climb: u16, s: &mut Src, c: &mut Ctx) -> Res {
    let (cs, ch) = (*s.pick(&[1.0f32, 0.25, 2.0, 4.0]), *s.pick(&[1.0f32, 0.5, 0.25]));
    let min = Vec3::new(s.int(-20, 20) as f32, s.int(-20, 20) as f32, s.int(-20, 20) as f32);
    let mut code = chf_to_code(&m, cs, ch, min, wh, climb);
    let before = code.clone();
    let mut want = m.areas.clone();
    let mut skip = vec![false; want.len()];
    let k = s.usize(1, 3);
    let (w, h) = (m.w as i64, m.h as i64);
    let mut hits = 0;
    let mut desc = String::new();
    for _ in 0..k {
        // convex polygon, vertices in 1/8 cells relative to the grid
        let poly = convex(s, w * 8, h * 8);
        // 1/8 voxels: anywhere low, or around the floor of some entry, or everything from below it or above it
        let (lo, hi) = (s.int(-24, 40), s.int(0, 60));
        let at = if m.spans.is_empty() { 0 } else { m.spans[s.usize(0, m.spans.len() - 1)].y as i64 * 8 };
        let (lo, hi) = match s.weighted(&[6, 4, 1, 1]) {
            0 => (lo, lo + hi),
            1 => (at + lo - 24, at + lo - 24 + hi),
            2 => (-24, at + lo),
            _ => (at - lo, 8 * 70_000),
        };
        let area = gens::area(s);
        desc.push_str(&format!("{poly:?}/8 y {lo}..{hi}/8 -> {area}; "));
        let vol = ConvexVolume {
            vertices: poly.iter().map(|q| Vec2::new(min.x + q.0 as f32 / 8.0 * cs, min.z + q.1 as f32 / 8.0 * cs)).collect(),
            min_y: min.y + lo as f32 / 8.0 * ch,
            max_y: min.y + hi as f32 / 8.0 * ch,
            area: AreaType(area),
        };
        code.mark_convex_poly_area(vol);
        // what single precision cannot tell apart, in 1/8 cells
        let slack = (poly.iter().map(|q| q.0.abs()).max().unwrap_or(0) as f64 + (min.x.abs() / cs * 8.0) as f64) / 1048576.0;
        // truncation toward zero, inclusive
        let (vlo, vhi) = (lo / 8, hi / 8);
        for i in 0..m.spans.len() {
            let sp = &m.spans[i];
            if skip[i] || want[i] == 0 || (sp.y as i64) < vlo || (sp.y as i64) > vhi {
                continue;
            }
            match inside(&poly, (sp.x as i64 * 8 + 4, sp.z as i64 * 8 + 4), slack) {
                Some(true) => {
                    want[i] = area;
                    hits += 1;
                }
                Some(false) => {}
                None => skip[i] = true, // cell centre exactly on the outline
            }
        }
    }
    c.describe(|| format!("{desc} {}", gens::picture(&m)));
    for i in 0..want.len() {
        if !skip[i] {
            ensure!(code.areas[i].0 == want[i], "mismatch", "entry {i} at ({},{}) floor {}: area {}, expected {} (was {}); volumes {desc}", m.spans[i].x, m.spans[i].z, m.spans[i].y, code.areas[i].0, want[i], m.areas[i]);
        }
    }
    ensure!(same_geometry(&before, &code), "other-data", "marking changed something other than areas");
    c.count("entries retagged", hits);
    c.nontrivial_if(hits > 0 && (hits as usize) < want.len());
    Ok(())
}
/// Some convex polygon (possibly empty, outside, degenerate to a point or a segment).
fn convex(s: &mut Src, w: i64, h: i64) -> Vec<(i64, i64)> {
    let big = s.chance(1, 6);
    let (mw, mh) = if big { (w * 3, h * 3) } else { (w / 4 + 8, h / 4 + 8) };
    let mut pts: Vec<(i64, i64)> = vec![];
    if s.chance(1, 12) {
        // many corners: points of an ellipse
        let (cx, cz) = (s.int(0, w), s.int(0, h));
        let (rx, rz) = (s.int(1, w + 8) as f64 * 4.0, s.int(1, h + 8) as f64 * 4.0);
        let n = s.usize(8, 600);
        for i in 0..n {
            let a = i as f64 / n as f64 * std::f64::consts::TAU;
            pts.push((cx + (rx * a.cos()).round() as i64, cz + (rz * a.sin()).round() as i64));
        }
        return hull(pts, s);
    }
    for _ in 0..s.weighted(&[0, 1, 1, 6, 8, 4, 3, 2]) {
        pts.push((s.int(-mw, w + mw), s.int(-mh, h + mh)));
    }
    if s.chance(1, 30) {
        return vec![];
    }
    if s.chance(1, 4) {
        let (x, z) = (s.int(-mw, w), s.int(-mh, h));
        let (dx, dz) = (s.int(1, w), s.int(1, h));
        pts = vec![(x, z), (x + dx, z), (x + dx, z + dz), (x, z + dz)];
        if s.bool() {
            pts.reverse();
        }
        return pts;
    }
    hull(pts, s)
}
fn hull(mut p: Vec<(i64, i64)>, s: &mut Src) -> Vec<(i64, i64)> {
    p.sort();
    p.dedup();
    if p.len() < 3 {
        return p;
    }
    let cross = |o: (i64, i64), a: (i64, i64), b: (i64, i64)| (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0);
    let mut out: Vec<(i64, i64)> = vec![];
    for _ in 0..2 {
        let start = out.len();
        for q in p.iter() {
            while out.len() >= start + 2 && cross(out[out.len() - 2], out[out.len() - 1], *q) <= 0 {
                out.pop();
            }
            out.push(*q);
        }
        out.pop();
        p.reverse();
    }
    if s.bool() {
        out.reverse();
    }
    let k = s.usize(0, out.len() - 1);
    out.rotate_left(k);
    out
}
/// None = on the outline, or too close to it to tell.
fn inside(p: &[(i64, i64)], q: (i64, i64), slack: f64) -> Option<bool> {
    if p.len() < 3 {
        // degenerate: nothing is inside; points on it are ties
        if p.len() == 2 {
            let c = (p[1].0 - p[0].0) * (q.1 - p[0].1) - (p[1].1 - p[0].1) * (q.0 - p[0].0);
            return if c == 0 { None } else { Some(false) };
        }
        return if p.contains(&q) { None } else { Some(false) };
    }
    let (mut pos, mut neg) = (false, false);
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        let c = (b.0 - a.0) * (q.1 - a.1) - (b.1 - a.1) * (q.0 - a.0);
        if a.1 != b.1 && q.1 >= a.1.min(b.1) && q.1 <= a.1.max(b.1) && c.abs() as f64 <= slack * (b.1 - a.1).abs() as f64 {
            return None;
        }
        if c == 0 {
            // on the supporting line: a tie only when between the end points
            if q.0 >= a.0.min(b.0) && q.0 <= a.0.max(b.0) && q.1 >= a.1.min(b.1) && q.1 <= a.1.max(b.1) {
                return None;
            }
            return Some(false);
        }
        pos |= c > 0;
        neg |= c < 0;
    }
    Some(!(pos && neg))
}

// ------------------------------------------------------------------ C12
fn df_case(m: Chf, wh: u16, cl: u16, c: &mut Ctx) -> Res {
    let mut code = chf_to_code(&m, 1.0, 1.0, Vec3::ZERO, wh, cl);
    let before = code.clone();
    code.build_distance_field();
    let mut want = m.clone();
    want.distance_field();
    ensure!(code.dist.len() == want.dist.len(), "mismatch", "{} distances for {} entries", code.dist.len(), want.dist.len());
    for i in 0..want.dist.len() {
        ensure!(code.dist[i] == want.dist[i], "mismatch", "entry {i} at ({},{}): distance {}, expected {} (unsmoothed {})", m.spans[i].x, m.spans[i].z, code.dist[i], want.dist[i], m.raw_distance()[i]);
    }
    ensure!(code.max_distance == want.max_dist, "max", "maximum {}, expected {}", code.max_distance, want.max_dist);
    ensure!(same_geometry(&before, &code) && before.areas == code.areas && before.spans == code.spans && code.max_region == before.max_region && code.border_size == before.border_size, "other-data", "building the distance field changed something else");
    c.count("max distance", want.max_dist as u64);
    c.nontrivial_if(want.max_dist > 2);
    Ok(())
}
fn c12_plans(s: &mut Src, c: &mut Ctx) -> Res {
    let p = gens::plan(s, 24);
    let Some(mut m) = gens::plan_chf(&p) else { return Ok(()) };
    random_areas(s, &mut m);
    c.describe(|| gens::picture(&m));
    df_case(m, p.wh as u16, p.climb as u16, c)
}
fn c12_columns(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gens::columns(s, 9);
    let (wh, cl) = (s.int(1, 6) as u16, s.int(0, 8) as u16);
    let Ok(mut m) = Chf::build(&f, wh as i32, cl as i32) else { return Ok(()) };
    random_areas(s, &mut m);
    c.describe(|| gens::picture(&m));
    df_case(m, wh, cl, c)
}
fn c12_wide(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = (s.usize(100, 320), s.usize(100, 320));
    let p = gens::plan_sized(s, w, h);
    let Some(m) = gens::plan_chf(&p) else { return Ok(()) };
    c.describe(|| format!("{w}x{h} {}", p.ops));
    df_case(m, p.wh as u16, p.climb as u16, c)
}

/// Distances beyond 1023: only squares of more than a thousand cells a side have them.
fn c12_broad(s: &mut Src, c: &mut Ctx) -> Res {
    let (w, h) = (s.usize(1060, 1130), s.usize(1060, 1130));
    let mut f = refmodel::field::Field::new(w, h);
    let (hx, hz) = (s.usize(0, w / 4), s.usize(0, h - 1));
    for z in 0..h {
        for x in 0..w {
            f.cols[x + z * w].push(refmodel::field::Span { min: 0, max: 1, area: if (x, z) == (hx, hz) { 7 } else { 255 } });
        }
    }
    let Ok(m) = Chf::build(&f, 2, 1) else { return Ok(()) };
    c.describe(|| format!("{w}x{h}, another area at ({hx},{hz})"));
    df_case(m, 2, 1, c)
}

// ------------------------------------------------------------------ vast fields
fn vast_chf(s: &mut Src, c: &mut Ctx) -> Option<(Chf, u16, u16)> {
    let f = gens::vast(s);
    let (wh, cl) = gens::vast_agent(s);
    c.describe(|| format!("height {wh} climb {cl} vast field {}x{} with {} spans", f.w, f.h, f.span_count()));
    Chf::build(&f, wh as i32, cl as i32).ok().map(|m| (m, wh, cl))
}
fn c08_vast(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gens::vast(s);
    let (wh, cl) = gens::vast_agent(s);
    c.describe(|| format!("height {wh} climb {cl} vast field {}x{} with {} spans", f.w, f.h, f.span_count()));
    if let Some((g, w)) = entries_check(&f, wh, cl, c, s)? {
        if let Some(d) = chf_diff(&g, &w) {
            return Err(Fail::new("entries", d));
        }
        c.nontrivial_if(w.spans.len() > 65535 || f.cols.len() > 65535);
    }
    Ok(())
}
fn c09_vast(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gens::vast(s);
    let (wh, cl) = gens::vast_agent(s);
    c.describe(|| format!("height {wh} climb {cl} vast field {}x{} with {} spans", f.w, f.h, f.span_count()));
    link_case(f, wh, cl, c, s)
}
fn c10_vast(s: &mut Src, c: &mut Ctx) -> Res {
    let Some((m, wh, cl)) = vast_chf(s, c) else { return Ok(()) };
    erode_case(m, s.int(0, 4) as u16, wh, cl, c)
}
fn c12_vast(s: &mut Src, c: &mut Ctx) -> Res {
    let Some((m, wh, cl)) = vast_chf(s, c) else { return Ok(()) };
    df_case(m, wh, cl, c)
}
fn c11_vast(s: &mut Src, c: &mut Ctx) -> Res {
    let Some((m, wh, cl)) = vast_chf(s, c) else { return Ok(()) };
    volumes(m, wh, cl, s, c)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "non-trivial: at least one entry and at least one span that is not an entry (columns), or a column with at least 58 spans (tall)",
            assumptions: &["columns are sorted and disjoint (C04)"],
            subs: vec![
                Sub { name: "columns", quick: 240_000, thorough: 1_500_000, f: c08_columns },
                Sub { name: "tall", quick: 36_000, thorough: 200_000, f: c08_tall },
                Sub { name: "vast", quick: 100, thorough: 3_000, f: c08_vast },
            ],
        },
        Prop {
            id: "C09",
            rule: "non-trivial: at least one link exists and at least one is missing (fields), at least 3 writes (packing)",
            assumptions: &["columns are sorted and disjoint (C04)"],
            subs: vec![
                Sub { name: "pairs", quick: 480_000, thorough: 4_000_000, f: c09_pairs },
                Sub { name: "columns", quick: 180_000, thorough: 1_000_000, f: c09_columns },
                Sub { name: "layers", quick: 120_000, thorough: 600_000, f: c09_layers },
                Sub { name: "packing", quick: 360_000, thorough: 2_000_000, f: c09_packing },
                Sub { name: "vast", quick: 100, thorough: 3_000, f: c09_vast },
            ],
        },
        Prop {
            id: "C10",
            rule: "non-trivial: erosion removes at least one walkable entry and keeps at least one",
            assumptions: &["'step distance' is the two-sweep chamfer distance of Recast (exact on planar layers)"],
            subs: vec![
                Sub { name: "plans", quick: 72_000, thorough: 500_000, f: c10_plans },
                Sub { name: "columns", quick: 120_000, thorough: 800_000, f: c10_columns },
                Sub { name: "wide", quick: 240, thorough: 1_500, f: c10_wide },
                Sub { name: "vast", quick: 100, thorough: 3_000, f: c10_vast },
            ],
        },
        Prop {
            id: "C11",
            rule: "non-trivial: at least one entry is retagged and at least one is not",
            assumptions: &["cell centres exactly on a polygon edge are not judged", "vertical range is compared after truncating its ends to whole voxels, inclusive"],
            subs: vec![Sub { name: "volumes", quick: 180_000, thorough: 1_500_000, f: c11 }, Sub { name: "vast", quick: 150, thorough: 5_000, f: c11_vast }],
        },
        Prop {
            id: "C12",
            rule: "non-trivial: the maximum unsmoothed distance exceeds 2, so that smoothing acts",
            assumptions: &["chamfer distance as in Recast's two sweeps"],
            subs: vec![
                Sub { name: "plans", quick: 72_000, thorough: 500_000, f: c12_plans },
                Sub { name: "columns", quick: 120_000, thorough: 800_000, f: c12_columns },
                Sub { name: "wide", quick: 240, thorough: 2_000, f: c12_wide },
                Sub { name: "vast", quick: 100, thorough: 3_000, f: c12_vast },
                Sub { name: "broad", quick: 4, thorough: 40, f: c12_broad },
            ],
        },
    ]
}
