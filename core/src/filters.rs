//! C05, C06, C07: the heightfield filters against the column model.
use crate::ad::*;
use crate::gens;
use pbt::*;
use refmodel::field::Field;
use rerecast::*;

fn run(s: &mut Src, c: &mut Ctx, big: bool, code: impl Fn(&mut Heightfield, u16, u16), model: impl Fn(&mut Field, i32, i32), what: &str) -> Result<(Field, Field, Field), Fail> {
    let f = gens::columns(s, if big { 14 } else { 5 });
    let (wh, cl) = gens::agent(s);
    run_on(f, wh, cl, c, code, model, what)
}
fn run_on(f: Field, wh: u16, cl: u16, c: &mut Ctx, code: impl Fn(&mut Heightfield, u16, u16), model: impl Fn(&mut Field, i32, i32), what: &str) -> Result<(Field, Field, Field), Fail> {
    c.describe(|| format!("height {wh} climb {cl} field {}", gens::field_picture(&f)));
    let mut hf = hf_simple(&f);
    let before = hf.clone();
    code(&mut hf, wh, cl);
    let got = field_from(&hf).map_err(|e| Fail::new("structure", e))?;
    let mut want = f.clone();
    model(&mut want, wh as i32, cl as i32);
    ensure!(got == want, "mismatch", "{what} (height {wh}, climb {cl}): {}", first_diff(&got, &want));
    ensure!(hf.aabb == before.aabb && hf.cell_size == before.cell_size && hf.cell_height == before.cell_height && hf.spans == before.spans, "other-data", "{what} changed data other than areas");
    let changed = f.cols.iter().flatten().zip(want.cols.iter().flatten()).filter(|(a, b)| a.area != b.area).count();
    c.count("spans", f.span_count() as u64);
    c.count("changed", changed as u64);
    Ok((f, got, want))
}
fn mark(c: &mut Ctx, before: &Field, after: &Field) {
    let spans = before.span_count();
    let changed = before.cols.iter().flatten().zip(after.cols.iter().flatten()).filter(|(a, b)| a.area != b.area).count();
    c.nontrivial_if(changed > 0 && spans > changed);
}

fn c05_case(s: &mut Src, c: &mut Ctx) -> Res {
    // dense stacks of close spans, so that steps around the climb height are common
    let (w, h) = (s.usize(1, 3), s.usize(1, 3));
    let mut f = Field::new(w, h);
    let cl = match s.weighted(&[8, 1]) {
        0 => s.int(0, 5) as u16,
        _ => *s.pick(&[65535u16, 300, 255, 32768]),
    };
    for i in 0..w * h {
        let mut y = if s.chance(1, 10) { s.int(65400, 65500) } else { s.int(0, 5) } as i32;
        for _ in 0..s.usize(0, 7) {
            let t = s.int(1, 4) as i32;
            let a = *s.pick(&[0u8, 255, 0, 1, 7, 254]);
            gens::put(&mut f, i % w, i / w, y, y + t, a);
            y += t + s.int(1, 4) as i32;
        }
    }
    c.describe(|| format!("climb {cl} field {}", gens::field_picture(&f)));
    let mut hf = hf_simple(&f);
    hf.filter_low_hanging_walkable_obstacles(cl);
    let got = field_from(&hf).map_err(|e| Fail::new("structure", e))?;
    let mut want = f.clone();
    want.low_hanging(cl as i32);
    ensure!(got == want, "mismatch", "low-obstacle filter (climb {cl}): {}", first_diff(&got, &want));
    mark(c, &f, &want);
    Ok(())
}
fn c05_columns(s: &mut Src, c: &mut Ctx) -> Res {
    let (f, _, w) = run(s, c, true, |h, _, cl| h.filter_low_hanging_walkable_obstacles(cl), |f, _, cl| f.low_hanging(cl), "low-obstacle filter")?;
    mark(c, &f, &w);
    Ok(())
}
fn c06_small(s: &mut Src, c: &mut Ctx) -> Res {
    let (f, _, w) = run(s, c, false, |h, wh, cl| h.filter_ledge_spans(wh, cl), |f, wh, cl| f.ledges(wh, cl), "ledge filter")?;
    mark(c, &f, &w);
    Ok(())
}
fn c06_large(s: &mut Src, c: &mut Ctx) -> Res {
    let (f, _, w) = run(s, c, true, |h, wh, cl| h.filter_ledge_spans(wh, cl), |f, wh, cl| f.ledges(wh, cl), "ledge filter")?;
    mark(c, &f, &w);
    Ok(())
}
/// 3x3 neighbourhoods around one span, so that the interior rule (not the border rule) decides.
fn c06_cross(s: &mut Src, c: &mut Ctx) -> Res {
    let mut f = Field::new(3, 3);
    let base = *s.pick(&[20i32, 3, 40, 65500, 260]);
    let (wh, mut cl) = (s.int(1, 8) as u16, s.int(0, 5) as u16);
    // steps up to the whole height of the field
    let tall = s.chance(1, 10);
    if tall {
        cl = *s.pick(&[32767u16, 32768, 40000, 50000, 20000, 300, 255, 65535]);
    }
    for i in 0..9 {
        let mut y = if tall { s.int(1, 65500) as i32 } else { base + s.int(-8, 8) as i32 };
        for k in 0..s.usize(if i == 4 { 1 } else { 0 }, 3) {
            let a = if i == 4 && k == 0 { 255 } else { *s.pick(&[255u8, 0, 9]) };
            let low = if k == 0 && (tall || s.chance(1, 4)) { 0 } else { y - 1 };
            gens::put(&mut f, i % 3, i / 3, low, y, a);
            y += s.int(2, 14) as i32;
        }
    }
    c.describe(|| format!("height {wh} climb {cl} field {}", gens::field_picture(&f)));
    let mut hf = hf_simple(&f);
    hf.filter_ledge_spans(wh, cl);
    let got = field_from(&hf).map_err(|e| Fail::new("structure", e))?;
    let mut want = f.clone();
    want.ledges(wh as i32, cl as i32);
    ensure!(got == want, "mismatch", "ledge filter (height {wh}, climb {cl}): {}", first_diff(&got, &want));
    let walk = f.cols[4].iter().filter(|s| s.area != 0).count();
    let kept = want.cols[4].iter().filter(|s| s.area != 0).count();
    c.label_if(kept > 0, "inner span kept");
    c.label_if(walk > kept, "inner span removed");
    c.nontrivial_if(walk > 0 && f.cols.iter().filter(|c| !c.is_empty()).count() >= 4);
    Ok(())
}
fn c07_filter(s: &mut Src, c: &mut Ctx) -> Res {
    let (f, _, w) = run(s, c, s_big(), |h, wh, _| h.filter_walkable_low_height_spans(wh), |f, wh, _| f.low_height(wh), "headroom filter")?;
    mark(c, &f, &w);
    Ok(())
}
fn s_big() -> bool {
    true
}
fn c07_tall(s: &mut Src, c: &mut Ctx) -> Res {
    // single columns with gaps right around the agent height, including the height limit
    let mut f = Field::new(1, 1);
    let wh = *s.pick(&[1u16, 2, 3, 10, 254, 255, 256, 257, 1000, 40000, 65535]);
    let mut y = if s.bool() { (65535 - wh as i32 - s.int(-3, 6) as i32).clamp(0, 65500) } else { s.int(0, 4) as i32 };
    for _ in 0..s.usize(1, 5) {
        let a = *s.pick(&[255u8, 255, 0, 3]);
        gens::put(&mut f, 0, 0, y, y + 1, a);
        y = (y + 1 + (wh as i32 + s.int(-2, 2) as i32).max(1)).min(65534);
    }
    c.describe(|| format!("height {wh} field {}", gens::field_picture(&f)));
    let mut hf = hf_simple(&f);
    hf.filter_walkable_low_height_spans(wh);
    let got = field_from(&hf).map_err(|e| Fail::new("structure", e))?;
    let mut want = f.clone();
    want.low_height(wh as i32);
    ensure!(got == want, "mismatch", "headroom filter (height {wh}): {}", first_diff(&got, &want));
    c.nontrivial_if(f.cols[0].iter().any(|s| s.area != 0));
    Ok(())
}
/// One-call population = rasterize everything, then the three filters in order (all by the model
/// after rasterization, so that a broken filter or a broken order is seen).
fn c07_populate(s: &mut Src, c: &mut Ctx) -> Res {
    let sc = crate::scenes::scene(s, 10);
    let (wh, cl) = (s.int(1, 12) as u16, s.int(0, 6) as u16);
    c.describe(|| format!("height {wh} climb {cl} {}", sc.describe()));
    let mut a = sc.heightfield();
    let mut b = a.clone();
    a.populate_from_trimesh(sc.mesh.clone(), wh, cl).map_err(|e| Fail::new("populate-error", format!("{e}")))?;
    let got = field_from(&a).map_err(|e| Fail::new("structure", e))?;
    for (i, t) in sc.mesh.indices.iter().enumerate() {
        let v = [0, 1, 2].map(|k| sc.mesh.vertices[t[k] as usize]);
        b.rasterize_triangle(v, sc.mesh.area_types[i], cl).map_err(|e| Fail::new("rasterize-error", format!("{e}")))?;
    }
    let mut want = field_from(&b).map_err(|e| Fail::new("structure", e))?;
    let raw = want.clone();
    want.low_hanging(cl as i32);
    let l = want.clone();
    want.ledges(wh as i32, cl as i32);
    let m = want.clone();
    want.low_height(wh as i32);
    ensure!(got == want, "mismatch", "populate_from_trimesh (height {wh}, climb {cl}): {}", first_diff(&got, &want));
    c.label_if(raw != l, "low-obstacle filter acted");
    c.label_if(l != m, "ledge filter acted");
    c.label_if(m != want, "headroom filter acted");
    c.nontrivial_if(raw.span_count() > 0 && raw != want);
    Ok(())
}

fn vast(s: &mut Src, c: &mut Ctx, code: impl Fn(&mut Heightfield, u16, u16), model: impl Fn(&mut Field, i32, i32), what: &str) -> Res {
    let f = gens::vast(s);
    let (wh, cl) = gens::vast_agent(s);
    let (f, _, w) = run_on(f, wh, cl, c, code, model, what)?;
    mark(c, &f, &w);
    Ok(())
}
fn c05_vast(s: &mut Src, c: &mut Ctx) -> Res {
    vast(s, c, |h, _, cl| h.filter_low_hanging_walkable_obstacles(cl), |f, _, cl| f.low_hanging(cl), "low-obstacle filter")
}
fn c06_vast(s: &mut Src, c: &mut Ctx) -> Res {
    vast(s, c, |h, wh, cl| h.filter_ledge_spans(wh, cl), |f, wh, cl| f.ledges(wh, cl), "ledge filter")
}
fn c07_vast(s: &mut Src, c: &mut Ctx) -> Res {
    vast(s, c, |h, wh, _| h.filter_walkable_low_height_spans(wh), |f, wh, _| f.low_height(wh), "headroom filter")
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "a case is non-trivial when the filter changes at least one span and leaves at least one unchanged; distinct = distinct choice tapes",
            assumptions: &["columns are sorted and disjoint (C04)"],
            subs: vec![
                Sub { name: "stacks", quick: 720_000, thorough: 6_000_000, f: c05_case },
                Sub { name: "columns", quick: 72_000, thorough: 400_000, f: c05_columns },
                Sub { name: "vast", quick: 100, thorough: 3_000, f: c05_vast },
            ],
        },
        Prop {
            id: "C06",
            rule: "non-trivial: the filter changes at least one span and keeps at least one (fields), or the centre span has at least 4 occupied columns around it (cross)",
            assumptions: &["columns are sorted and disjoint (C04)"],
            subs: vec![
                Sub { name: "cross", quick: 1_200_000, thorough: 10_000_000, f: c06_cross },
                Sub { name: "small", quick: 180_000, thorough: 1_500_000, f: c06_small },
                Sub { name: "large", quick: 48_000, thorough: 300_000, f: c06_large },
                Sub { name: "vast", quick: 100, thorough: 3_000, f: c06_vast },
            ],
        },
        Prop {
            id: "C07",
            rule: "non-trivial: the filter changes at least one span and keeps at least one (fields); a walkable span exists (tall); the filters change the rasterized field (populate)",
            assumptions: &["columns are sorted and disjoint (C04)"],
            subs: vec![
                Sub { name: "columns", quick: 90_000, thorough: 600_000, f: c07_filter },
                Sub { name: "tall", quick: 360_000, thorough: 2_000_000, f: c07_tall },
                Sub { name: "populate", quick: 36_000, thorough: 250_000, f: c07_populate },
                Sub { name: "vast", quick: 100, thorough: 3_000, f: c07_vast },
            ],
        },
    ]
}
