//! Generators shared by the checks.
use pbt::Src;
use refmodel::chf::Chf;
use refmodel::field::{Field, Span};

pub const AREAS: [u8; 6] = [255, 0, 1, 7, 63, 254];
/// Some area, often one that differs from another likely one by a single bit.
pub fn area(s: &mut Src) -> u8 {
    match s.weighted(&[6, 1, 1, 1]) {
        0 => *s.pick(&AREAS),
        1 => 255 ^ (1 << s.int(0, 7)),
        2 => 1 << s.int(0, 7),
        _ => s.int(0, 255) as u8,
    }
}
/// Some walkable area.
pub fn walkable(s: &mut Src) -> u8 {
    match s.weighted(&[6, 2, 1]) {
        0 => *s.pick(&[255u8, 255, 1, 7]),
        1 => 255 ^ (1 << s.int(0, 7)),
        _ => s.int(1, 255) as u8,
    }
}

/// Columns with several correlated layers; `max` bounds the grid size.
pub fn columns(s: &mut Src, max: usize) -> Field {
    let w = s.usize(1, max);
    let h = s.usize(1, max);
    let mut f = Field::new(w, h);
    let layers = s.usize(0, 4);
    let mut base = match s.weighted(&[6, 1, 1]) {
        0 => s.int(0, 6) as i32,
        1 => s.int(60000, 65400) as i32,
        _ => s.int(0, 300) as i32,
    };
    for l in 0..layers {
        let noise = s.int(0, 6) as i32;
        let (sx, sz) = (s.int(-2, 2) as i32, s.int(-2, 2) as i32);
        let keep = s.int(1, 4) as u64;
        let area = self::area(s);
        let mixed = s.chance(1, 3);
        for z in 0..h {
            for x in 0..w {
                if keep < 4 && !s.chance(keep + 1, 5) {
                    continue;
                }
                let n = if noise > 0 { s.int(0, noise as i64) as i32 } else { 0 };
                let top = base + sx * x as i32 + sz * z as i32 + n;
                let thick = if s.chance(1, 4) { s.int(1, 9) as i32 } else { 1 };
                let a = if mixed { self::area(s) } else { area };
                put(&mut f, x, z, top - thick, top, a);
            }
        }
        base += match s.weighted(&[4, 2, 1]) {
            0 => s.int(1, 12),
            1 => s.int(10, 40),
            _ => s.int(200, 300),
        } as i32;
        if l == 0 && s.chance(1, 12) {
            base = 65535 - s.int(0, 12) as i32;
        }
    }
    f
}
/// Adds a span if it keeps a gap of at least one voxel to all others of the column.
pub fn put(f: &mut Field, x: usize, z: usize, min: i32, max: i32, area: u8) -> bool {
    let min = min.clamp(0, 65534);
    let max = max.clamp(min + 1, 65535);
    let c = &mut f.cols[x + z * f.w];
    if c.iter().any(|o| o.min <= max && o.max >= min) {
        return false;
    }
    let at = c.iter().position(|o| o.min > max).unwrap_or(c.len());
    c.insert(at, Span { min, max, area });
    true
}

/// Walkable height and climb for column tests.
pub fn agent(s: &mut Src) -> (u16, u16) {
    let wh = match s.weighted(&[6, 1, 1]) {
        0 => s.int(1, 12) as u16,
        1 => s.int(1, 400) as u16,
        _ => *s.pick(&[0u16, 255, 256, 65535, 65534, 32768]),
    };
    let cl = match s.weighted(&[6, 1, 1]) {
        0 => s.int(0, 6) as u16,
        1 => s.int(0, 300) as u16,
        _ => *s.pick(&[65535u16, 255, 256, 32767, 32768]),
    };
    (wh, cl)
}

/// A floor plan: rooms, walls, area patches, steps, bridges. Everything walkable unless cut.
pub struct Plan {
    pub f: Field,
    pub wh: i32,
    pub climb: i32,
    pub layers: usize,
    pub ops: String,
}
pub fn plan(s: &mut Src, max: usize) -> Plan {
    let w = s.usize(1, max);
    let h = s.usize(1, max);
    plan_sized(s, w, h)
}
pub fn plan_sized(s: &mut Src, w: usize, h: usize) -> Plan {
    let (wh, climb) = (s.int(2, 6) as i32, s.int(0, 3) as i32);
    let mut ops = String::new();
    let palette = if s.chance(3, 4) { [255, 1, 7, 200] } else { [255, walkable(s), walkable(s), walkable(s)] };
    let mut f = Field::new(w, h);
    let mut layers = 1 + s.weighted(&[6, 2, 1]);
    if w * h > 3000 {
        layers = 1;
    }
    let mut base = 1;
    for l in 0..layers {
        // floor y and area per cell
        let start_open = l == 0 && !s.chance(1, 5);
        let mut fl: Vec<Option<(i32, u8)>> = vec![if start_open { Some((base, 255)) } else { None }; w * h];
        let n = s.small(0, 14) as usize;
        for _ in 0..n {
            let kind = s.weighted(&[5, 3, 3, 2, 2, 2, 2, 1, 2]);
            let (x0, z0) = (s.usize(0, w - 1), s.usize(0, h - 1));
            let (rw, rh) = (s.small(1, w as i64) as usize, s.small(1, h as i64) as usize);
            let (x1, z1) = ((x0 + rw).min(w), (z0 + rh).min(h));
            let k = s.int(1, 3) as i32;
            ops.push_str(&format!("L{l}:{}({x0},{z0},{x1},{z1})*{k} ", ["cut", "open", "area", "raise", "ring", "noise", "ramp", "areanoise", "disc"][kind]));
            let r2 = (rw.min(rh) as i32 + 1).pow(2);
            for z in z0..if kind == 8 { h } else { z1 } {
                for x in x0..if kind == 8 { w } else { x1 } {
                    let c = &mut fl[x + z * w];
                    match kind {
                        0 => *c = None,
                        1 => *c = Some((base, 255)),
                        2 => {
                            if let Some(v) = c {
                                v.1 = palette[k as usize]
                            }
                        }
                        3 => {
                            if let Some(v) = c {
                                v.0 += k
                            }
                        }
                        4 => {
                            if x == x0 || z == z0 || x + 1 == x1 || z + 1 == z1 {
                                *c = None
                            }
                        }
                        5 => {
                            if s.chance(k as u64, 6) {
                                *c = None
                            }
                        }
                        6 => {
                            if let Some(v) = c {
                                v.0 += ((x - x0) as i32 * k) / 3
                            }
                        }
                        7 => {
                            if s.chance(k as u64, 6) {
                                if let Some(v) = c {
                                    v.1 = 3
                                }
                            }
                        }
                        _ => {
                            let (dx, dz) = ((x - x0) as i32, (z - z0) as i32);
                            if dx * dx + dz * dz <= r2 {
                                *c = if k == 1 { Some((base, 255)) } else { None }
                            }
                        }
                    }
                }
            }
        }
        for z in 0..h {
            for x in 0..w {
                if let Some((y, a)) = fl[x + z * w] {
                    put(&mut f, x, z, y - 1, y, a);
                }
            }
        }
        base += wh + s.int(0, 6) as i32;
    }
    Plan { f, wh, climb, layers, ops }
}

/// Compact field of a plan with links (model side); None when it cannot be represented.
pub fn plan_chf(p: &Plan) -> Option<Chf> {
    Chf::build(&p.f, p.wh, p.climb).ok()
}

/// ASCII picture of the areas of the lowest entries of a compact field (small fields only).
pub fn picture(c: &Chf) -> String {
    let mut t = format!("{}x{} entries={}", c.w, c.h, c.spans.len());
    if c.w * c.h <= 400 {
        t.push(' ');
        for z in 0..c.h {
            for x in 0..c.w {
                let (f, n) = c.cells[x + z * c.w];
                t.push(match n {
                    0 => '.',
                    1 => match c.areas[f] {
                        255 => '#',
                        0 => '-',
                        a => (b'a' + a % 26) as char,
                    },
                    k => (b'0' + (k as u8).min(9)) as char,
                });
            }
            t.push('/');
        }
    }
    t
}
pub fn field_picture(f: &Field) -> String {
    let cols: Vec<String> = f.cols.iter().take(12).map(|c| crate::ad::short(c)).collect();
    format!("{}x{} {}", f.w, f.h, cols.join(""))
}

/// Fields with more columns or entries than 16 bits count. Content comes from a hash of the
/// coordinates, so the tape stays short.
pub fn vast(s: &mut Src) -> Field {
    let (w, h) = match s.weighted(&[3, 2, 2, 1, 1]) {
        0 => (s.usize(255, 420), s.usize(250, 420)),
        1 => (*s.pick(&[32766usize, 32767, 32768, 32769, 40000, 65534, 65535]), s.usize(1, 2)),
        2 => (s.usize(1, 2), *s.pick(&[32766usize, 32767, 32768, 32769, 40000, 65534, 65535])),
        3 => (s.usize(1, 300), s.usize(1, 300)),
        _ => (s.usize(1000, 3000), s.usize(3, 40)),
    };
    let mut f = Field::new(w, h);
    let layers = s.usize(1, 3);
    let seed = s.u64();
    let mix = |x: usize, z: usize, l: usize, k: u64| {
        let mut v = seed ^ (x as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (z as u64).wrapping_mul(0xC2B2AE3D27D4EB4F) ^ ((l as u64 * 8 + k) << 56);
        v = (v ^ (v >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        v ^ (v >> 32)
    };
    let mut base = *s.pick(&[1i32, 5, 300, 60000]);
    for l in 0..layers {
        let cell = if s.bool() { s.usize(1, 40) } else { s.usize(20, 300) }; // patches of this size share height and area
        let noise = s.int(0, 5) as u64;
        let holes = *s.pick(&[0u64, 0, 1, 10, 200]); // per 1000 columns
        for z in 0..h {
            for x in 0..w {
                if mix(x, z, l, 0) % 1000 < holes {
                    continue;
                }
                let (px, pz) = (x / cell, z / cell);
                let top = base + (mix(px, pz, l, 1) % (noise + 1)) as i32;
                let a = [255, 255, 255, 7, 0, 1][(mix(px, pz, l, 2) % 6) as usize];
                put(&mut f, x, z, top - 1, top, a);
            }
        }
        base += s.int(2, 20) as i32 + noise as i32;
    }
    f
}
/// Height and climb that fit vast fields.
pub fn vast_agent(s: &mut Src) -> (u16, u16) {
    (s.int(1, 8) as u16, s.int(0, 5) as u16)
}
