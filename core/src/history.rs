//! C40: the stages run in any order and repeatedly on one field.
use crate::ad::*;
use crate::{compact, contours, gens, poly, regions};
use glam::{Vec2, Vec3A};
use pbt::*;
use refmodel::chf::Chf;
use refmodel::field::{Field, Span as MSpan};
use rerecast::*;
use std::collections::HashSet;

/// Everything a compact heightfield holds, against the model.
fn same(code: &CompactHeightfield, m: &Chf, border: u16, done: &str) -> Res {
    let g = chf_from_code(code).map_err(|e| Fail::new("structure", format!("after {done}: {e}")))?;
    if let Some(d) = chf_diff(&g, m) {
        return Err(Fail::new("entries", format!("after {done}: {d}")));
    }
    if let Some(d) = compact::links_diff(&g, m) {
        return Err(Fail::new("links", format!("after {done}: {d}")));
    }
    ensure!(g.dist == m.dist && g.max_dist == m.max_dist, "distances", "after {done}: distances {:?} (largest {}), expected {:?} (largest {})", g.dist, g.max_dist, m.dist, m.max_dist);
    ensure!(g.max_reg == m.max_reg && code.border_size == border, "regions", "after {done}: {} regions border {}, expected {} and {border}", g.max_reg, code.border_size, m.max_reg);
    for (p, q) in g.spans.iter().zip(&m.spans) {
        ensure!(p.reg == q.reg, "regions", "after {done}: region {:#x} at ({},{}) floor {}, expected {:#x}", p.reg, q.x, q.z, q.y, q.reg);
    }
    Ok(())
}
/// Filters and new geometry in any order; the field goes on into the second half.
fn first_half(s: &mut Src, c: &mut Ctx, f: Field, agent: (u16, u16), done: &mut String) -> Result<(Heightfield, Field), Fail> {
    let mut hf = hf_simple(&f);
    let mut m = f;
    let n = s.usize(0, 7);
    for _ in 0..n {
        let (wh, cl) = if s.chance(2, 3) { agent } else { (s.int(0, 9) as u16, s.int(0, 5) as u16) };
        match s.weighted(&[2, 2, 2, 3]) {
            0 => {
                hf.filter_low_hanging_walkable_obstacles(cl);
                m.low_hanging(cl as i32);
                done.push_str(&format!("low obstacles {cl}; "));
            }
            1 => {
                hf.filter_ledge_spans(wh, cl);
                m.ledges(wh as i32, cl as i32);
                done.push_str(&format!("ledges {wh} {cl}; "));
            }
            2 => {
                hf.filter_walkable_low_height_spans(wh);
                m.low_height(wh as i32);
                done.push_str(&format!("headroom {wh}; "));
            }
            _ => {
                let (x0, z0) = (s.usize(0, m.w - 1), s.usize(0, m.h - 1));
                let (x1, z1) = (s.usize(x0, m.w - 1), s.usize(z0, m.h - 1));
                let lo = s.int(0, 30);
                let hi = lo + s.int(1, 8);
                let area = gens::area(s);
                for z in z0..=z1 {
                    for x in x0..=x1 {
                        let (fx, fz) = (x as f32, z as f32);
                        let t = [Vec3A::new(fx + 0.25, lo as f32, fz + 0.25), Vec3A::new(fx + 0.5, hi as f32, fz + 0.75), Vec3A::new(fx + 0.75, lo as f32, fz + 0.25)];
                        hf.rasterize_triangle(t, AreaType(area), cl).map_err(|e| Fail::new("error", format!("{e}")))?;
                        m.insert(x + z * m.w, MSpan { min: lo as i32, max: hi as i32, area }, cl as i32);
                    }
                }
                done.push_str(&format!("block {lo}..{hi}@{area}~{cl} in ({x0},{z0})-({x1},{z1}); "));
            }
        }
        let got = field_from(&hf).map_err(|e| Fail::new("structure", format!("after {done}: {e}")))?;
        ensure!(got == m, "columns", "after {done}: {}", first_diff(&got, &m));
        c.count("steps on the heightfield", 1);
    }
    Ok((hf, m))
}
fn second_half(s: &mut Src, c: &mut Ctx, mut code: CompactHeightfield, mut m: Chf, done: &mut String) -> Res {
    let origin = code.aabb.min;
    let fresh = code.clone();
    let (cs, ch) = (code.cell_size, code.cell_height);
    let (mut border, mut dist, mut regs) = (0u16, false, false);
    let (mut builds, mut changed_since, mut rebuilt) = (0, false, false);
    let n = s.usize(2, 12);
    for _ in 0..n {
        match s.weighted(&[2, 3, 3, if dist { 4 } else { 0 }, if regs { 3 } else { 0 }]) {
            0 => {
                let r = s.small(0, 3) as u16;
                code.erode_walkable_area(r);
                m.erode(r as u32);
                changed_since = true;
                done.push_str(&format!("erode {r}; "));
            }
            1 => {
                let (x0, z0) = (s.usize(0, m.w - 1), s.usize(0, m.h - 1));
                let (x1, z1) = (s.usize(x0, m.w - 1), s.usize(z0, m.h - 1));
                let lo = s.int(0, 20) as i32;
                let hi = if s.bool() { 65535 } else { lo + s.int(0, 20) as i32 };
                let area = gens::area(s);
                let at = |x: f32, z: f32| Vec2::new(origin.x + x * cs, origin.z + z * cs);
                let (a, b) = (x0 as f32 + 0.25, x1 as f32 + 0.75);
                let (p, q) = (z0 as f32 + 0.25, z1 as f32 + 0.75);
                let mut vertices = vec![at(a, p), at(a, q), at(b, q), at(b, p)];
                if s.bool() {
                    vertices.reverse();
                }
                code.mark_convex_poly_area(ConvexVolume { vertices, min_y: origin.y + lo as f32 * ch, max_y: origin.y + (hi as f32 + 0.5) * ch, area: AreaType(area) });
                for i in 0..m.spans.len() {
                    let sp = &m.spans[i];
                    if m.areas[i] != 0 && (x0 as i32..=x1 as i32).contains(&sp.x) && (z0 as i32..=z1 as i32).contains(&sp.z) && sp.y >= lo && sp.y <= hi {
                        m.areas[i] = area;
                    }
                }
                changed_since = true;
                done.push_str(&format!("mark ({x0},{z0})-({x1},{z1}) from {lo} to {hi} as {area}; "));
            }
            2 => {
                code.build_distance_field();
                m.distance_field();
                dist = true;
                done.push_str("distances; ");
            }
            3 => {
                let (b, min, merge) = regions::sizes(s, m.w, m.h);
                done.push_str(&format!("regions {b} {min} {merge}; "));
                let (r, e) = (code.build_regions(b, min, merge), m.build_regions(b.min(300) as usize, min as i64, merge as i64));
                ensure!(r.is_ok() == e.is_ok(), "region-count", "after {done}: {r:?}");
                if e.is_err() {
                    return Ok(());
                }
                border = b;
                m.border = b as usize;
                regs = true;
                builds += 1;
                rebuilt |= builds > 1 && changed_since;
                changed_since = false;
            }
            _ => {
                let (max_error, max_edge, wall, area) = contours::settings(s, false);
                done.push_str(&format!("contours {max_error} {max_edge} {wall} {area}; "));
                let i = contours::In { m: m.clone(), planar: false, max_error, max_edge, wall, area };
                let set = code.build_contours(max_error, max_edge, i.flags());
                contours::agree_set(&i, &set, c).map_err(|e| Fail::new(&e.sig, format!("after {done}: {}", e.msg)))?;
                let again = code.build_contours(max_error, max_edge, i.flags());
                ensure!(again.contours == set.contours, "unstable", "after {done}: outlining again gives other contours");
                if s.chance(1, 3) {
                    let p = poly::PIn { set, valid: HashSet::new(), all_valid: false, holed: HashSet::new(), nvp: poly::nvp(s) };
                    let (e, l) = (c.nontrivial, done.clone());
                    poly::c21_oracle(&p, c).map_err(|e| Fail::new(&e.sig, format!("after {l}: {}", e.msg)))?;
                    c.nontrivial = e;
                }
            }
        }
        same(&code, &m, border, done)?;
        ensure!(same_geometry(&fresh, &code), "other-data", "after {done}: a stage changed data that is not its own");
        c.count("steps on the compact heightfield", 1);
    }
    c.label_if(builds > 1, "regions built several times");
    c.nontrivial_if(rebuilt);
    Ok(())
}
fn c40_plans(s: &mut Src, c: &mut Ctx) -> Res {
    let p = gens::plan(s, 14);
    whole(s, c, p.f, (p.wh as u16, p.climb as u16))
}
fn c40_columns(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gens::columns(s, 8);
    let (wh, cl) = (s.int(1, 8) as u16, s.int(0, 6) as u16);
    whole(s, c, f, (wh, cl))
}
fn whole(s: &mut Src, c: &mut Ctx, f: Field, agent: (u16, u16)) -> Res {
    let start = gens::field_picture(&f);
    let mut done = String::new();
    let r = (|| {
        let (hf, m) = first_half(s, c, f, agent, &mut done)?;
        let (wh, cl) = if s.chance(3, 4) { agent } else { (s.int(0, 9) as u16, s.int(0, 5) as u16) };
        done.push_str(&format!("compact {wh} {cl}; "));
        match (hf.into_compact(wh, cl), Chf::build(&m, wh as i32, cl as i32)) {
            (Err(_), Err(_)) => {
                c.label("too many layers, reported");
                Ok(())
            }
            (Ok(code), Ok(model)) => {
                same(&code, &model, 0, &done)?;
                second_half(s, c, code, model, &mut done)
            }
            (a, b) => Err(Fail::new("layers", format!("after {done}: compact field {}, expected {}", if a.is_ok() { "built" } else { "refused" }, if b.is_ok() { "built" } else { "refused" }))),
        }
    })();
    c.describe(|| format!("{done} on {start}"));
    r
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C40",
        rule: "non-trivial: regions are built again after areas changed since they were built before",
        assumptions: &["the reference models of the single stages (lib/refmodel)", "regions are only built once distances exist, contours once regions exist"],
        subs: vec![
            Sub { name: "plans", quick: 200_000, thorough: 4_000_000, f: c40_plans },
            Sub { name: "columns", quick: 120_000, thorough: 2_500_000, f: c40_columns },
        ],
    }]
}
