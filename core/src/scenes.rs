//! Triangle scenes in world units.
use glam::{UVec3, Vec3, Vec3A};
use pbt::Src;
use rerecast::*;

pub struct Scene {
    pub mesh: TriMesh,
    pub cs: f32,
    pub ch: f32,
    pub aabb: Aabb3d,
    pub desc: String,
}
impl Scene {
    pub fn heightfield(&self) -> Heightfield {
        HeightfieldBuilder { aabb: self.aabb, cell_size: self.cs, cell_height: self.ch }.build().expect("small field")
    }
    pub fn describe(&self) -> String {
        format!("cs {} ch {} bounds {:?}..{:?} {} tris: {}", self.cs, self.ch, self.aabb.min, self.aabb.max, self.mesh.indices.len(), self.desc)
    }
}
pub fn tri(m: &mut TriMesh, a: Vec3A, b: Vec3A, c: Vec3A, area: u8) {
    let n = m.vertices.len() as u32;
    m.vertices.extend([a, b, c]);
    m.indices.push(UVec3::new(n, n + 1, n + 2));
    m.area_types.push(AreaType(area));
}
pub fn quad(m: &mut TriMesh, p: [Vec3A; 4], area: u8) {
    let n = m.vertices.len() as u32;
    m.vertices.extend(p);
    m.indices.push(UVec3::new(n, n + 1, n + 2));
    m.indices.push(UVec3::new(n, n + 2, n + 3));
    m.area_types.extend([AreaType(area); 2]);
}
/// Axis-aligned box, outward faces (counter-clockwise from outside, y up).
pub fn boxx(m: &mut TriMesh, lo: Vec3A, hi: Vec3A, area: u8) {
    let p = |x: bool, y: bool, z: bool| Vec3A::new(if x { hi.x } else { lo.x }, if y { hi.y } else { lo.y }, if z { hi.z } else { lo.z });
    let (f, t) = (false, true);
    quad(m, [p(f, t, f), p(f, t, t), p(t, t, t), p(t, t, f)], area); // top
    quad(m, [p(f, f, f), p(t, f, f), p(t, f, t), p(f, f, t)], area);
    quad(m, [p(f, f, f), p(f, t, f), p(t, t, f), p(t, f, f)], area);
    quad(m, [p(f, f, t), p(t, f, t), p(t, t, t), p(f, t, t)], area);
    quad(m, [p(f, f, f), p(f, f, t), p(f, t, t), p(f, t, f)], area);
    quad(m, [p(t, f, f), p(t, t, f), p(t, t, t), p(t, f, t)], area);
}
/// Ground, boxes, ramps, floating plates, loose triangles; slope-marked.
/// Coordinates are multiples of 1/8 unit; `n` is the field size in cells.
pub fn scene(s: &mut Src, n: usize) -> Scene {
    let cs = *s.pick(&[1.0f32, 0.5, 0.25, 0.3, 0.75, 2.0]);
    let ch = *s.pick(&[0.5f32, 0.25, 0.2, 1.0, 0.1]);
    let (w, h) = (s.usize(1, n) as f32, s.usize(1, n) as f32);
    let o = Vec3A::new(s.int(-8, 8) as f32, s.int(-4, 4) as f32, s.int(-8, 8) as f32);
    let mut m = TriMesh::default();
    let mut desc = String::new();
    let ext = Vec3A::new(w * cs, 0.0, h * cs);
    let k = s.usize(0, 6);
    if !s.chance(1, 6) {
        quad(&mut m, [o, o + Vec3A::new(0.0, 0.0, ext.z), o + ext, o + Vec3A::new(ext.x, 0.0, 0.0)], 0);
        desc.push_str("ground ");
    }
    let pos = |s: &mut Src| o + Vec3A::new(s.int(-1, 9) as f32 / 8.0 * ext.x, s.int(0, 16) as f32 / 8.0, s.int(-1, 9) as f32 / 8.0 * ext.z);
    for _ in 0..k {
        match s.weighted(&[4, 3, 2, 2]) {
            0 => {
                let p = pos(s);
                let d = Vec3A::new(s.int(1, 6) as f32 / 8.0 * ext.x, s.int(1, 16) as f32 / 8.0, s.int(1, 6) as f32 / 8.0 * ext.z);
                boxx(&mut m, p, p + d, 0);
                desc.push_str("box ");
            }
            1 => {
                let p = pos(s);
                let (dx, dz, dy) = (s.int(1, 6) as f32 / 8.0 * ext.x, s.int(1, 6) as f32 / 8.0 * ext.z, s.int(-16, 16) as f32 / 8.0);
                quad(&mut m, [p, p + Vec3A::new(0.0, 0.0, dz), p + Vec3A::new(dx, dy, dz), p + Vec3A::new(dx, dy, 0.0)], 0);
                desc.push_str("ramp ");
            }
            2 => {
                let p = pos(s);
                let (dx, dz) = (s.int(1, 8) as f32 / 8.0 * ext.x, s.int(1, 8) as f32 / 8.0 * ext.z);
                quad(&mut m, [p, p + Vec3A::new(0.0, 0.0, dz), p + Vec3A::new(dx, 0.0, dz), p + Vec3A::new(dx, 0.0, 0.0)], 0);
                desc.push_str("plate ");
            }
            _ => {
                let (a, b, c) = (pos(s), pos(s), pos(s));
                tri(&mut m, a, b, c, 0);
                desc.push_str("tri ");
            }
        }
    }
    m.mark_walkable_triangles(0.8);
    if s.chance(1, 3) {
        for a in m.area_types.iter_mut() {
            if a.is_walkable() && s.chance(1, 3) {
                *a = AreaType(*s.pick(&[1u8, 9, 100]));
            }
        }
    }
    let top = *s.pick(&[4.0f32, 8.0, 2.0, 1.0]);
    let aabb = Aabb3d { min: Vec3::from(o) - Vec3::new(0.0, 0.5, 0.0), max: Vec3::from(o + ext) + Vec3::new(0.0, top, 0.0) };
    Scene { mesh: m, cs, ch, aabb, desc }
}
