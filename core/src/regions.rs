//! C13, C14: watershed regions.
use crate::ad::*;
use crate::gens;
use glam::Vec3;
use pbt::*;
use refmodel::chf::{Chf, NONE};
use refmodel::field::{Field, Span};
use refmodel::BORDER;
use rerecast::*;
use std::collections::HashMap;

pub struct RegIn {
    pub chf: Chf,
    pub border: u16,
    pub min: u16,
    pub merge: u16,
}
pub fn sizes(s: &mut Src, w: usize, h: usize) -> (u16, u16, u16) {
    let border = match s.weighted(&[3, 3, 1]) {
        0 => 0,
        1 => s.int(1, 5) as u16,
        _ => *s.pick(&[0u16, 1, (w.min(h) as u16).div_ceil(2), w as u16, (h as u16).saturating_add(3), 300, 65535]),
    };
    let pick = |s: &mut Src| match s.weighted(&[2, 4, 2, 1]) {
        0 => *s.pick(&[0u16, 1]),
        1 => s.int(2, 20) as u16,
        2 => s.int(8, 120) as u16,
        _ => *s.pick(&[400u16, 65535]),
    };
    (border, pick(s), pick(s))
}
/// A field with distances: a plan, usually with its own distance field, sometimes with made-up distances.
pub fn field_in(s: &mut Src, max: usize, c: &mut Ctx, made_up: bool) -> Option<RegIn> {
    let p = gens::plan(s, max);
    let (border, min, merge) = sizes(s, p.f.w, p.f.h);
    let Some(mut chf) = gens::plan_chf(&p) else {
        c.label("not representable");
        return None;
    };
    let radius = s.weighted(&[3, 1, 1]) as u32;
    chf.erode(radius);
    chf.distance_field();
    let mode = if made_up { s.weighted(&[4, 1, 1]) } else { 0 };
    match mode {
        1 => {
            for d in chf.dist.iter_mut() {
                *d = s.int(0, 12) as u16
            }
            chf.max_dist = s.int(0, 40) as u16;
            c.label("made-up distances");
        }
        2 => {
            for _ in 0..s.usize(1, 10) {
                if !chf.dist.is_empty() {
                    let i = s.usize(0, chf.dist.len() - 1);
                    chf.dist[i] = s.int(0, 60) as u16;
                }
            }
            chf.max_dist = chf.max_dist.max(s.int(0, 50) as u16);
            c.label("perturbed distances");
        }
        _ => {}
    }
    c.label_if(border > 0, "with border");
    c.label_if(p.layers > 1, "several layers");
    c.describe(|| format!("radius {radius} border {border} min {min} merge {merge} height {} climb {} ops {} field {}", p.wh, p.climb, p.ops, gens::picture(&chf)));
    Some(RegIn { chf, border, min, merge })
}
fn run_code(i: &RegIn) -> (Result<(), String>, CompactHeightfield, CompactHeightfield) {
    let before = chf_to_code(&i.chf, 0.5, 0.25, Vec3::ZERO, 4, 2);
    let mut after = before.clone();
    let r = after.build_regions(i.border, i.min, i.merge).map_err(|e| e.to_string());
    (r, before, after)
}

// ------------------------------------------------------------------ C13
fn in_border(m: &Chf, i: usize, b: i32) -> bool {
    let s = &m.spans[i];
    s.x < b || s.z < b || s.x >= m.w as i32 - b || s.z >= m.h as i32 - b
}
fn uf_find(p: &mut [usize], mut i: usize) -> usize {
    while p[i] != i {
        p[i] = p[p[i]];
        i = p[i];
    }
    i
}
/// Components of entries under links between entries for which `same` holds.
fn components(m: &Chf, same: impl Fn(usize, usize) -> bool) -> Vec<usize> {
    let mut p: Vec<usize> = (0..m.spans.len()).collect();
    for i in 0..m.spans.len() {
        for d in 0..4 {
            let a = m.spans[i].nb[d];
            if a != NONE && same(i, a) {
                let (x, y) = (uf_find(&mut p, i), uf_find(&mut p, a));
                p[x] = y;
            }
        }
    }
    (0..p.len()).map(|i| uf_find(&mut p, i)).collect()
}
pub fn c13_oracle(i: &RegIn, out: &CompactHeightfield, c: &mut Ctx) -> Res {
    let m = &i.chf;
    let g = chf_from_code(out).map_err(|e| Fail::new("structure", e))?;
    let n = m.spans.len();
    ensure!(g.spans.len() == n, "structure", "the number of entries changed");
    ensure!(g.border == i.border as usize, "border-size", "border size {} recorded, {} requested", g.border, i.border);
    let reg: Vec<u16> = g.spans.iter().map(|s| s.reg).collect();
    let b = i.border.min(out.width.max(out.height)) as i32;
    let mut area_of: HashMap<u16, u8> = HashMap::new();
    for k in 0..n {
        let at = format!("entry at ({},{}) floor {} area {} region {:#x}", m.spans[k].x, m.spans[k].z, m.spans[k].y, m.areas[k], reg[k]);
        if m.areas[k] == 0 {
            ensure!(reg[k] == 0, "unwalkable-in-region", "{at}: unwalkable space has a region");
            continue;
        }
        let ib = b > 0 && in_border(m, k, b);
        ensure!(ib == (reg[k] & BORDER != 0), "border", "{at}: {} the border of {} cells", if ib { "inside" } else { "outside" }, i.border);
        if reg[k] != 0 && reg[k] & BORDER == 0 {
            ensure!(reg[k] <= g.max_reg, "max-region", "{at}: the largest region is said to be {}", g.max_reg);
            let a = *area_of.entry(reg[k]).or_insert(m.areas[k]);
            ensure!(a == m.areas[k], "mixed-area", "{at}: the region also holds area {a}");
        }
    }
    ensure!(area_of.len() <= g.max_reg as usize, "max-region", "{} regions exist but the largest is said to be {}", area_of.len(), g.max_reg);
    // connected
    let comp = components(m, |a, b| reg[a] == reg[b]);
    let mut root: HashMap<u16, usize> = HashMap::new();
    for k in 0..n {
        if reg[k] != 0 && reg[k] & BORDER == 0 {
            let r = *root.entry(reg[k]).or_insert(comp[k]);
            ensure!(r == comp[k], "disconnected", "region {} is not connected: ({},{}) is apart from the rest", reg[k], m.spans[k].x, m.spans[k].z);
        }
    }
    // nothing large enough is lost
    let lost = |k: usize| m.areas[k] != 0 && reg[k] == 0;
    let comp = components(m, |a, b| lost(a) && lost(b) && m.areas[a] == m.areas[b]);
    let mut size: HashMap<usize, (usize, bool, bool)> = HashMap::new(); // size, has interior, touches border
    for k in 0..n {
        if !lost(k) {
            continue;
        }
        let e = size.entry(comp[k]).or_default();
        e.0 += 1;
        let mut near_border = false;
        for d in 0..4 {
            let a = m.spans[k].nb[d];
            if a == NONE {
                continue;
            }
            near_border |= reg[a] & BORDER != 0;
            e.2 |= reg[a] & BORDER != 0;
            // a lost space of another area, or a kept region, is another space
            for d2 in [(d + 1) & 3, (d + 3) & 3] {
                let a2 = m.spans[a].nb[d2];
                near_border |= a2 != NONE && reg[a2] & BORDER != 0;
            }
        }
        let raw_interior = m.spans[k].nb.iter().all(|a| *a != NONE && m.areas[*a] == m.areas[k]);
        e.1 |= raw_interior && !near_border;
    }
    let mut suspicious = vec![];
    for (r, (sz, interior, border)) in &size {
        if *interior && (*sz >= i.min as usize || *border) {
            suspicious.push((*r, *sz, *border));
        }
        c.count("lost spaces", 1);
    }
    if !suspicious.is_empty() {
        // nested pieces of one area are measured one by one: ask the model before complaining
        let mut md = m.clone();
        if md.build_regions(i.border as usize, i.min as i64, i.merge as i64).is_ok() {
            for (r, sz, border) in suspicious {
                let k = (0..n).find(|k| comp[*k] == r && lost(*k)).unwrap();
                let kept = (0..n).any(|k| comp[k] == r && lost(k) && md.spans[k].reg != 0);
                ensure!(!kept, "lost", "{sz} connected entries around ({},{}) belong to no region although the minimum is {} (touching the border: {border})", m.spans[k].x, m.spans[k].z, i.min);
                c.label("nested small pieces");
            }
        }
    }
    c.count("regions", g.max_reg as u64);
    c.nontrivial_if(g.max_reg >= 2);
    Ok(())
}
fn c13_check(i: &RegIn, c: &mut Ctx) -> Res {
    let (r, before, after) = run_code(i);
    if let Err(e) = r {
        return Err(Fail::new("spurious-error", format!("{e} for {} entries", i.chf.spans.len())));
    }
    ensure!(same_geometry(&before, &after) && before.areas == after.areas && before.dist == after.dist && before.max_distance == after.max_distance, "untouched", "building regions changed geometry, areas or distances");
    c13_oracle(i, &after, c)
}
fn c13_plans(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = field_in(s, 28, c, false) else { return Ok(()) };
    c13_check(&i, c)
}
fn c13_large(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = field_in(s, 110, c, false) else { return Ok(()) };
    c13_check(&i, c)
}
/// Unstructured columns: asymmetric links, many layers.
fn columns_in(s: &mut Src, c: &mut Ctx) -> Option<RegIn> {
    let f = gens::columns(s, 14);
    let (wh, cl) = (s.int(1, 8) as i32, s.int(0, 6) as i32);
    let Ok(mut chf) = Chf::build(&f, wh, cl) else { return None };
    chf.distance_field();
    let (border, min, merge) = sizes(s, f.w, f.h);
    c.describe(|| format!("border {border} min {min} merge {merge} height {wh} climb {cl} {}", gens::field_picture(&f)));
    Some(RegIn { chf, border, min, merge })
}
/// More entries than 16 bits count, or longer than 15 bits count.
pub fn vast_in(s: &mut Src, c: &mut Ctx) -> Option<RegIn> {
    let f = gens::vast(s);
    let (wh, cl) = (s.int(1, 8) as i32, s.int(1, 5) as i32);
    let Ok(mut chf) = Chf::build(&f, wh, cl) else { return None };
    chf.distance_field();
    let (border, min, merge) = sizes(s, f.w, f.h);
    c.describe(|| format!("border {border} min {min} merge {merge} height {wh} climb {cl} vast field {}x{} with {} entries", f.w, f.h, chf.spans.len()));
    Some(RegIn { chf, border, min, merge })
}
fn c13_vast(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = vast_in(s, c) else { return Ok(()) };
    if i.chf.spans.len() > 32767 && run_code(&i).0.is_err() {
        // possibly more spaces than ids: the model decides
        return c14_check(&i, c);
    }
    c13_check(&i, c)
}
fn c14_vast(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = vast_in(s, c) else { return Ok(()) };
    c14_check(&i, c)
}
fn c13_columns(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = columns_in(s, c) else { return Ok(()) };
    c13_check(&i, c)
}
/// As many separate spaces as region ids, a few fewer, or a few more.
fn many(s: &mut Src, c: &mut Ctx) -> (RegIn, usize) {
    let w = 262usize;
    let border = if s.chance(1, 3) { 1 } else { 0 };
    let n = (0x7ffe + s.int(-3, 3)) as usize;
    let h = 2 * n.div_ceil(w / 2 - 1) + 4;
    let mut f = Field::new(w, h);
    let mut left = n;
    // single cells (isolated), plus one 3x3 block so that the watershed has a level to start from
    for z in (1..h - 1).step_by(2) {
        for x in (1..w - 1).step_by(2) {
            if left > 1 {
                f.cols[x + z * w].push(Span { min: 0, max: 1, area: 255 });
                left -= 1;
            }
        }
    }
    let (x0, z0) = (1, h - 4);
    for z in z0..z0 + 3 {
        for x in x0..x0 + 3 {
            let col = &mut f.cols[x + z * w];
            col.clear();
            col.push(Span { min: 0, max: 1, area: 255 });
        }
    }
    let mut chf = Chf::build(&f, 2, 1).unwrap();
    chf.distance_field();
    c.describe(|| format!("{n} separate spaces, border {border}"));
    let total = components(&chf, |_, _| true).iter().enumerate().filter(|(i, r)| i == *r).count();
    (RegIn { chf, border, min: 0, merge: 0 }, total + if border > 0 { 4 } else { 0 })
}
fn c13_many(s: &mut Src, c: &mut Ctx) -> Res {
    let (i, ids) = many(s, c);
    let (r, _, after) = run_code(&i);
    c.nontrivial = true;
    match r {
        Err(_) => {
            ensure!(ids + 4 > 0x7ffe, "spurious-error", "{ids} ids are needed and fit below the border flag, but an overflow is reported");
            c.label("overflow reported");
            Ok(())
        }
        Ok(()) => c13_oracle(&i, &after, c),
    }
}

// ------------------------------------------------------------------ C14
/// `Err` unless the two labelings group the entries identically (0 only with 0).
pub fn same_grouping(m: &Chf, got: &[u16], want: &[u16]) -> Res {
    let (mut f, mut b) = (HashMap::from([(0u16, 0u16)]), HashMap::from([(0u16, 0u16)]));
    for k in 0..got.len() {
        let x = *f.entry(got[k]).or_insert(want[k]);
        let y = *b.entry(want[k]).or_insert(got[k]);
        let s = &m.spans[k];
        ensure!(x == want[k] && y == got[k], "grouping", "entry at ({},{}) floor {}: region {:#x}, the original has {:#x} (those two are not the same group elsewhere)", s.x, s.z, s.y, got[k], want[k]);
        ensure!(got[k] & BORDER == want[k] & BORDER, "grouping", "entry at ({},{}): border region against ordinary region", s.x, s.z);
    }
    Ok(())
}
fn c14_check(i: &RegIn, c: &mut Ctx) -> Res {
    let (r, _, after) = run_code(i);
    let mut m = i.chf.clone();
    let st = m.build_regions(i.border as usize, i.min as i64, i.merge as i64);
    match (r, st) {
        (Err(_), Err(_)) => {
            c.label("overflow reported");
            Ok(())
        }
        (Err(e), Ok(_)) => Err(Fail::new("spurious-error", format!("{e}"))),
        (Ok(_), Err(_)) => Err(Fail::new("missing-error", "too many regions were not reported")),
        (Ok(_), Ok(st)) => {
            let got: Vec<u16> = after.spans.iter().map(|s| s.region.bits()).collect();
            let want: Vec<u16> = m.spans.iter().map(|s| s.reg).collect();
            same_grouping(&m, &got, &want)?;
            ensure!(after.max_region.bits() == m.max_reg, "max-region", "largest region {}, the original has {}", after.max_region.bits(), m.max_reg);
            c.count("floods", st.flooded);
            c.count("merges", st.merged);
            c.count("islands dropped", st.dropped);
            c.count("overlaps", st.overlap);
            c.count("levels", st.levels);
            c.nontrivial_if(st.merged > 0 || st.dropped > 0 || m.max_reg >= 3);
            Ok(())
        }
    }
}
fn c14_plans(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = field_in(s, 28, c, true) else { return Ok(()) };
    c14_check(&i, c)
}
fn c14_large(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = field_in(s, 110, c, true) else { return Ok(()) };
    c14_check(&i, c)
}
fn c14_columns(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(i) = columns_in(s, c) else { return Ok(()) };
    c14_check(&i, c)
}
/// Rooms on a lattice joined by doors: many regions, merging chains, seen with all size limits.
fn rooms(s: &mut Src, c: &mut Ctx) -> RegIn {
    let (nx, nz) = (s.usize(1, 6), s.usize(1, 6));
    let r = s.usize(3, 9);
    let (w, h) = (nx * r + 1, nz * r + 1);
    let mut f = Field::new(w, h);
    let mut walk = vec![true; w * h];
    for z in 0..h {
        for x in 0..w {
            if x % r == 0 || z % r == 0 {
                walk[x + z * w] = false;
            }
        }
    }
    for z in 0..nz {
        for x in 0..nx {
            // doors to the right and downward, of random width
            if x + 1 < nx && s.chance(4, 5) {
                let k = s.usize(1, r - 1);
                let o = s.usize(1, r - k);
                (o..o + k).for_each(|j| walk[(x + 1) * r + (z * r + j) * w] = true);
            }
            if z + 1 < nz && s.chance(4, 5) {
                let k = s.usize(1, r - 1);
                let o = s.usize(1, r - k);
                (o..o + k).for_each(|j| walk[x * r + j + (z + 1) * r * w] = true);
            }
        }
    }
    let areas: Vec<u8> = (0..nx * nz).map(|_| if s.chance(1, 6) { 5 } else { 255 }).collect();
    for z in 0..h {
        for x in 0..w {
            if walk[x + z * w] {
                let a = areas[(x / r).min(nx - 1) + (z / r).min(nz - 1) * nx];
                f.cols[x + z * w].push(Span { min: 0, max: 1, area: a });
            }
        }
    }
    let mut chf = Chf::build(&f, 2, 1).unwrap();
    chf.distance_field();
    let (border, min, merge) = sizes(s, w, h);
    c.describe(|| format!("border {border} min {min} merge {merge} rooms {}", gens::picture(&chf)));
    RegIn { chf, border, min, merge }
}
fn c13_rooms(s: &mut Src, c: &mut Ctx) -> Res {
    let i = rooms(s, c);
    c13_check(&i, c)
}
fn c14_rooms(s: &mut Src, c: &mut Ctx) -> Res {
    let i = rooms(s, c);
    c14_check(&i, c)
}
/// One room with a one-cell-wide corridor longer than 16-bit distances.
fn c14_corridor(s: &mut Src, c: &mut Ctx) -> Res {
    let w = 2 * s.usize(125, 135);
    let h = 2 * s.usize(128, 136) + 1;
    let mut f = Field::new(w + 8, h);
    for z in 0..h {
        for x in 0..w {
            // serpentine: full rows at even z, single connecting cells at odd z
            let on = if z % 2 == 0 { true } else { x == if z % 4 == 1 { w - 1 } else { 0 } };
            if on && (x >= 11 || z >= 11) {
                f.cols[x + z * f.w].push(Span { min: 0, max: 1, area: 255 });
            }
        }
    }
    for z in 0..11 {
        for x in 0..11 {
            f.cols[x + z * f.w].push(Span { min: 0, max: 1, area: 255 });
        }
    }
    let mut chf = Chf::build(&f, 2, 1).unwrap();
    chf.distance_field();
    c.describe(|| format!("corridor of {} cells", chf.spans.len()));
    c.nontrivial = true;
    c14_check(&RegIn { chf, border: 0, min: s.int(0, 30) as u16, merge: s.int(0, 30) as u16 }, c)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "non-trivial: at least two regions result (many: about as many spaces as region ids)",
            assumptions: &["links of the field are as C09 defines them", "space without any entry away from both its boundary and the border may be left without a region (the original watershed never seeds there)"],
            subs: vec![
                Sub { name: "plans", quick: 200_000, thorough: 3_000_000, f: c13_plans },
                Sub { name: "columns", quick: 80_000, thorough: 400_000, f: c13_columns },
                Sub { name: "rooms", quick: 30_000, thorough: 150_000, f: c13_rooms },
                Sub { name: "large", quick: 3_000, thorough: 20_000, f: c13_large },
                Sub { name: "vast", quick: 40, thorough: 1_000, f: c13_vast },
                Sub { name: "many", quick: 8, thorough: 48, f: c13_many },
            ],
        },
        Prop {
            id: "C14",
            rule: "non-trivial: the original merges or drops at least one region, or ends with at least three",
            assumptions: &["lib/refmodel re-implements the original rcBuildRegions; it is validated against the dumps of the original in the repository's dungeon reference data"],
            subs: vec![
                Sub { name: "plans", quick: 400_000, thorough: 6_000_000, f: c14_plans },
                Sub { name: "columns", quick: 100_000, thorough: 400_000, f: c14_columns },
                Sub { name: "rooms", quick: 60_000, thorough: 150_000, f: c14_rooms },
                Sub { name: "large", quick: 4_000, thorough: 20_000, f: c14_large },
                Sub { name: "vast", quick: 40, thorough: 1_000, f: c14_vast },
                Sub { name: "corridor", quick: 1, thorough: 16, f: c14_corridor },
            ],
        },
    ]
}
