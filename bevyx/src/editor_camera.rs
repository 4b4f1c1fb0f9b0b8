//! C39: the editor's camera.
use bevy::input::keyboard::{Key, KeyboardInput};
use bevy::input::mouse::{MouseButtonInput, MouseMotion, MouseScrollUnit, MouseWheel};
use bevy::input::{ButtonState, InputPlugin};
use bevy::math::DVec3;
use bevy::prelude::*;
use bevy::time::TimeUpdateStrategy;
use bevy::window::CursorGrabMode;
use pbt::{Ctx, Prop, Src, Sub, ensure};
use std::f64::consts::FRAC_PI_2;
use std::time::Duration;

/// Keys that steer, with their direction: right, up, forward.
const KEYS: [(KeyCode, DVec3); 6] = [
    (KeyCode::KeyW, DVec3::new(0.0, 0.0, 1.0)),
    (KeyCode::KeyS, DVec3::new(0.0, 0.0, -1.0)),
    (KeyCode::KeyA, DVec3::new(-1.0, 0.0, 0.0)),
    (KeyCode::KeyD, DVec3::new(1.0, 0.0, 0.0)),
    (KeyCode::KeyE, DVec3::new(0.0, 1.0, 0.0)),
    (KeyCode::KeyQ, DVec3::new(0.0, -1.0, 0.0)),
];
const OTHERS: [KeyCode; 5] = [KeyCode::ShiftLeft, KeyCode::KeyM, KeyCode::Space, KeyCode::ArrowUp, KeyCode::ShiftRight];
fn key(app: &mut App, k: KeyCode, pressed: bool, repeat: bool, window: Entity) {
    let state = if pressed { ButtonState::Pressed } else { ButtonState::Released };
    app.world_mut().send_event(KeyboardInput { key_code: k, logical_key: Key::Character("k".into()), state, text: None, repeat, window });
}
fn see(app: &mut App, cam: Entity) -> (DVec3, DVec3, DVec3) {
    let t = app.world().get::<Transform>(cam).unwrap();
    (t.translation.as_dvec3(), t.forward().as_dvec3(), t.right().as_dvec3())
}

fn c39(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    let mut app = App::new();
    app.add_plugins((MinimalPlugins, AssetPlugin::default(), InputPlugin));
    app.init_asset::<Image>();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    let windows: Vec<Entity> = (0..s.usize(1, 2)).map(|_| app.world_mut().spawn(Window { focused: s.chance(5, 6), visible: s.chance(4, 5), ..default() }).id()).collect();
    app.add_plugins(crate::camera::plugin);
    app.update();
    let mut q = app.world_mut().query_filtered::<Entity, With<Camera3d>>();
    let cams: Vec<Entity> = q.iter(app.world()).collect();
    ensure!(cams.len() == 1, "camera", "{} cameras", cams.len());
    let cam = cams[0];
    let (mut pos, fwd, _) = see(&mut app, cam);
    ensure!(pos.is_finite() && fwd.is_finite(), "start", "the camera starts at {pos} and looks towards {fwd}");
    let mut pitch = fwd.y.asin();
    let mut yaw = (-fwd.x).atan2(-fwd.z);
    let mut looked = false;
    let mut held = [false; 6];
    let mut other = [false; 5];
    let (mut right, mut left) = (false, false);
    let mut toggled = false;
    let mut speed = 15.0f64;
    let mut vel = DVec3::ZERO;
    let mut locked = vec![false; windows.len()];
    let mut travelled = 0.0;
    for step in 0..s.usize(2, 24) {
        let mut did = String::new();
        for k in 0..6 {
            if s.chance(1, if held[k] { 5 } else { 6 }) {
                held[k] = !held[k];
                key(&mut app, KEYS[k].0, held[k], false, windows[0]);
                did += &format!("{}{:?} ", if held[k] { "+" } else { "-" }, KEYS[k].0);
            } else if held[k] && s.chance(1, 4) {
                key(&mut app, KEYS[k].0, true, true, windows[0]);
            } else if !held[k] && s.chance(1, 30) {
                // too short to be seen
                key(&mut app, KEYS[k].0, true, false, windows[0]);
                key(&mut app, KEYS[k].0, false, false, windows[0]);
                did += &format!("+-{:?} ", KEYS[k].0);
            }
        }
        let mut change = false;
        for k in 0..5 {
            if s.chance(1, if k < 2 { 6 } else { 20 }) {
                other[k] = !other[k];
                key(&mut app, OTHERS[k], other[k], false, windows[0]);
                did += &format!("{}{:?} ", if other[k] { "+" } else { "-" }, OTHERS[k]);
                if k == 1 && other[k] {
                    toggled = !toggled;
                    change = true;
                }
            } else if other[k] && s.chance(1, 3) {
                key(&mut app, OTHERS[k], true, true, windows[0]);
            } else if !other[k] && s.chance(1, 20) {
                key(&mut app, OTHERS[k], true, false, windows[0]);
                key(&mut app, OTHERS[k], false, false, windows[0]);
                did += &format!("+-{:?} ", OTHERS[k]);
                if k == 1 {
                    toggled = !toggled;
                    change = true;
                }
            }
        }
        if s.chance(1, 4) {
            right = !right;
            change = true;
            let state = if right { ButtonState::Pressed } else { ButtonState::Released };
            app.world_mut().send_event(MouseButtonInput { button: MouseButton::Right, state, window: windows[0] });
            did += if right { "+Right " } else { "-Right " };
        } else if !right && s.chance(1, 12) {
            for state in [ButtonState::Pressed, ButtonState::Released] {
                app.world_mut().send_event(MouseButtonInput { button: MouseButton::Right, state, window: windows[0] });
            }
            change = true;
            did += "+-Right ";
        }
        if s.chance(1, 10) {
            left = !left;
            let state = if left { ButtonState::Pressed } else { ButtonState::Released };
            app.world_mut().send_event(MouseButtonInput { button: MouseButton::Left, state, window: windows[0] });
        }
        let grab = right || toggled;
        let mut turn = bevy::math::DVec2::ZERO;
        if s.chance(1, 3) {
            for _ in 0..s.usize(1, 3) {
                let m = if s.chance(1, 6) { 900 } else { 90 };
                let d = Vec2::new(s.int(-m, m) as f32, s.int(-m, m) as f32);
                turn += d.as_dvec2();
                app.world_mut().send_event(MouseMotion { delta: d });
            }
            did += &format!("mouse {turn} ");
        }
        if s.chance(1, 6) {
            let pixel = s.bool();
            let n = s.int(-6, 12) as f32 / 2.0;
            let (unit, y) = if pixel { (MouseScrollUnit::Pixel, n * 16.0) } else { (MouseScrollUnit::Line, n) };
            app.world_mut().send_event(MouseWheel { unit, x: s.int(-3, 3) as f32, y, window: windows[0] });
            speed *= 1.0 + 0.1 * n as f64;
            did += &format!("scroll {n} ");
        }
        for (k, w) in windows.iter().enumerate() {
            if s.chance(1, 10) {
                let mut w = app.world_mut().get_mut::<Window>(*w).unwrap();
                w.focused = !w.focused;
                did += &format!("window {k} focused: {} ", w.focused);
            }
        }
        let ms = *s.pick(&[0u64, 1, 8, 16, 16, 33, 250]);
        app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_millis(ms)));
        c.describe(|| format!("[{did}{ms} ms]"));
        // what has to happen
        let axis: DVec3 = if grab { (0..6).filter(|k| held[*k]).map(|k| KEYS[k].1).sum() } else { DVec3::ZERO };
        if axis != DVec3::ZERO {
            vel = axis.normalize() * speed * if other[0] { 3.0 } else { 1.0 };
        } else {
            vel *= 0.5;
            if vel.length_squared() < 1e-6 {
                vel = DVec3::ZERO;
            }
        }
        let (_, fwd, rgt) = see(&mut app, cam);
        let dt = ms as f64 / 1000.0;
        let go = (rgt * vel.x + DVec3::Y * vel.y + fwd * vel.z) * dt;
        if change {
            for (k, w) in windows.iter().enumerate() {
                if !grab || app.world().get::<Window>(*w).unwrap().focused {
                    locked[k] = grab;
                }
            }
        }
        let turned = turn != bevy::math::DVec2::ZERO && grab;
        if turned {
            pitch = (pitch - turn.y / 360.0).clamp(-FRAC_PI_2, FRAC_PI_2);
            yaw -= turn.x / 360.0;
            looked = true;
        }
        app.update();
        let e = crate::editor_scene::errors();
        ensure!(e.is_empty(), "error", "step {step}: {e:?}");
        let (at, f2, r2) = see(&mut app, cam);
        let off = (at - (pos + go)).length();
        ensure!(off <= 1e-3 * go.length() + 2e-6 * pos.length() + 1e-5, "movement", "step {step}: {did}: the camera went from {pos} to {at}, that is by {} instead of {go} (grabbed {grab}, velocity {vel})", at - pos);
        let want_f = DVec3::new(-yaw.sin() * pitch.cos(), pitch.sin(), -yaw.cos() * pitch.cos());
        let want_r = DVec3::new(yaw.cos(), 0.0, -yaw.sin());
        ensure!((f2 - want_f).length() < 2e-3 && (r2 - want_r).length() < 2e-3, "look", "step {step}: {did}: the camera looks towards {f2}, right is {r2}, instead of {want_f} and {want_r} (grabbed {grab})");
        for (k, w) in windows.iter().enumerate() {
            let o = &app.world().get::<Window>(*w).unwrap().cursor_options;
            let (lock, hidden) = (o.grab_mode != CursorGrabMode::None, !o.visible);
            ensure!(lock == locked[k] && hidden == locked[k], "cursor", "step {step}: {did}: the pointer of window {k} is locked: {lock}, hidden: {hidden}, instead of {}", locked[k]);
        }
        travelled += go.length();
        pos = at;
    }
    c.label_if(looked, "looked around");
    c.nontrivial_if(travelled > 0.5);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C39",
        rule: "the camera travels by more than half a unit",
        assumptions: &["keys, buttons, motion and scrolling arrive as Bevy's input events; nothing is let go and pressed again within one frame"],
        subs: vec![Sub { name: "steering", quick: 6_000, thorough: 200_000, f: c39 }],
    }]
}
