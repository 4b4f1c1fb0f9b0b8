//! C38: the editor's controls.
use crate::build::BuildNavmesh;
use crate::get_navmesh_input::GetNavmeshInput;
use crate::theme::interaction::InteractionPalette;
use crate::visualization::{AvailableGizmos, GizmosToDraw};
use bevy::picking::backend::HitData;
use bevy::picking::pointer::{Location, PointerId};
use bevy::prelude::*;
use bevy::render::camera::NormalizedRenderTarget;
use pbt::{Ctx, Fail, Prop, Src, Sub, ensure};
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Resource, Default)]
struct Seen {
    builds: usize,
    loads: usize,
}
fn texts(w: &World, e: Entity, out: &mut String) {
    if let Some(t) = w.get::<Text>(e) {
        out.push_str(&t.0);
    }
    for c in w.get::<Children>(e).into_iter().flatten() {
        texts(w, *c, out);
    }
}
/// The buttons by what is written on them or, where nothing is, beside them.
fn buttons(app: &mut App) -> BTreeMap<String, Vec<Entity>> {
    let mut q = app.world_mut().query_filtered::<Entity, With<Button>>();
    let all: Vec<Entity> = q.iter(app.world()).collect();
    let mut m = BTreeMap::<String, Vec<Entity>>::new();
    for b in all {
        let (mut at, mut text) = (b, String::new());
        texts(app.world(), at, &mut text);
        while text.is_empty() {
            let Some(p) = app.world().get::<ChildOf>(at) else { break };
            at = p.parent();
            texts(app.world(), at, &mut text);
        }
        m.entry(text).or_default().push(b);
    }
    m
}
fn click(app: &mut App, e: Entity, with: PointerButton) {
    let hit = HitData { camera: Entity::PLACEHOLDER, depth: 0.0, position: None, normal: None };
    let at = Location { target: NormalizedRenderTarget::Image(Handle::<Image>::default().into()), position: Vec2::ZERO };
    let p = Pointer::new(PointerId::Mouse, at, e, Click { button: with, hit, duration: Duration::from_millis(80) });
    app.world_mut().trigger_targets(p, e);
    app.world_mut().flush();
}
const MENU: [&str; 2] = ["Load Scene", "Build Navmesh"];
const SWITCHES: [(&str, AvailableGizmos); 4] = [("Show Visual", AvailableGizmos::Visual), ("Show Affector", AvailableGizmos::Affector), ("Show Polygon Mesh", AvailableGizmos::PolyMesh), ("Show Detail Mesh", AvailableGizmos::DetailMesh)];
const DIALOG: [&str; 2] = ["Load", "x"];

fn c38(s: &mut Src, c: &mut Ctx) -> pbt::Res {
    let mut app = App::new();
    app.add_plugins((TaskPoolPlugin::default(), TransformPlugin));
    app.init_resource::<Assets<Mesh>>().init_resource::<Assets<Image>>().init_resource::<Assets<StandardMaterial>>().init_resource::<Assets<GizmoAsset>>().init_resource::<Seen>();
    // (clicks only bubble where windows are known)
    app.world_mut().register_component::<Window>();
    app.add_plugins((crate::ui::plugin, crate::theme::plugin, crate::visualization::plugin));
    app.add_observer(|_: Trigger<BuildNavmesh>, mut n: ResMut<Seen>| n.builds += 1);
    app.add_observer(|_: Trigger<GetNavmeshInput>, mut n: ResMut<Seen>| n.loads += 1);
    app.update();
    crate::editor_scene::errors();
    let mut on: Vec<bool> = SWITCHES.iter().map(|g| app.world().resource::<GizmosToDraw>().contains(&g.1)).collect();
    let (mut builds, mut loads, mut open) = (0, 0, 0);
    let mut ids = app.world().entities().len();
    for step in 0..s.usize(1, 12) {
        let all = buttons(&mut app);
        for name in MENU.iter().chain(SWITCHES.iter().map(|x| &x.0)) {
            ensure!(all.get(*name).is_some_and(|b| b.len() == 1), "controls", "step {step}: there is not one control {name:?} among {:?}", all.keys());
        }
        for name in DIALOG {
            let n = all.get(name).map_or(0, Vec::len);
            ensure!((n > 0) == (open > 0), "dialog", "step {step}: {n} controls {name:?} after the dialog was opened {open} times since it was closed");
        }
        let n: usize = all.values().map(Vec::len).sum();
        ensure!(n <= 6 + 2 * open, "controls", "step {step}: {n} controls: {:?}", all.keys());
        match s.weighted(&[8, 1, 1, if open > 0 { 2 } else { 0 }]) {
            3 => {
                // a click at a place where the open dialog covers a control
                let mut top = *s.pick(&all[DIALOG[0]]);
                while let Some(p) = app.world().get::<ChildOf>(top) {
                    top = p.parent();
                }
                let name = *s.pick(&[MENU[0], MENU[1], SWITCHES[0].0, SWITCHES[3].0]);
                let under = all[name][0];
                c.describe(|| format!("{name:?} through the dialog"));
                c.label("through the dialog");
                let p = app.world().get::<Pickable>(top).cloned().unwrap_or_default();
                if p.is_hoverable {
                    click(&mut app, top, PointerButton::Primary);
                }
                if !p.should_block_lower {
                    click(&mut app, under, PointerButton::Primary);
                }
            }
            0 => {
                // the dialog covers the rest, but a click may still be under way when it opens
                let name = if open > 0 && s.chance(2, 3) { *s.pick(&DIALOG) } else { *s.pick(&[MENU[0], MENU[1], SWITCHES[0].0, SWITCHES[1].0, SWITCHES[2].0, SWITCHES[3].0]) };
                let b = &all[name];
                let e = b[s.below(b.len() as u64) as usize];
                // whatever of the button is under the pointer
                let parts: Vec<Entity> = std::iter::once(e).chain(app.world().get::<Children>(e).into_iter().flatten().copied()).collect();
                let e = *s.pick(&parts);
                c.describe(|| format!("{name:?}"));
                click(&mut app, e, PointerButton::Primary);
                match name {
                    "Load Scene" => {
                        c.label_if(open > 0, "opened twice");
                        open += 1;
                    }
                    "Build Navmesh" => builds += 1,
                    "Load" => {
                        loads += 1;
                        open = 0;
                    }
                    "x" => open = 0,
                    _ => {
                        let k = SWITCHES.iter().position(|x| x.0 == name).unwrap();
                        on[k] = !on[k];
                    }
                }
                c.nontrivial_if(open > 0 || loads + builds > 0);
            }
            1 => {
                // beside the controls
                let mut q = app.world_mut().query_filtered::<Entity, (With<Node>, Without<Button>)>();
                let others: Vec<Entity> = q.iter(app.world()).filter(|e| !app.world().get::<ChildOf>(*e).is_some_and(|p| app.world().get::<Button>(p.parent()).is_some())).collect();
                if !others.is_empty() {
                    let e = *s.pick(&others);
                    c.describe(|| "beside".into());
                    click(&mut app, e, PointerButton::Primary);
                }
            }
            _ => {
                // the colour of a control shows what happens to it
                let flat: Vec<Entity> = all.values().flatten().copied().collect();
                let e = *s.pick(&flat);
                let changes = s.chance(2, 3);
                let i = if changes { *s.pick(&[Interaction::None, Interaction::Hovered, Interaction::Pressed]) } else { app.world().get::<Interaction>(e).copied().unwrap_or_default() };
                if changes {
                    app.world_mut().entity_mut(e).insert(i);
                }
                // switched off, or on again
                let off = s.chance(1, 3);
                if off || !changes {
                    app.world_mut().entity_mut(e).insert(Pickable { should_block_lower: !off, is_hoverable: !off });
                } else {
                    app.world_mut().entity_mut(e).remove::<Pickable>();
                }
                app.update();
                let p = app.world().get::<InteractionPalette>(e).ok_or(Fail::new("palette", format!("step {step}: a control has no palette")))?;
                let want = if off {
                    p.disabled
                } else {
                    match i {
                        Interaction::None => p.none,
                        Interaction::Hovered => p.hovered,
                        Interaction::Pressed => p.pressed,
                    }
                };
                let got = app.world().get::<BackgroundColor>(e).map(|b| b.0);
                ensure!(got == Some(want), "palette", "step {step}: a control that is {i:?} (off: {off}) has colour {got:?} instead of {want:?}");
            }
        }
        if s.bool() {
            app.update();
        }
        let e = crate::editor_scene::errors();
        ensure!(e.is_empty(), "error", "step {step}: {e:?}");
        let seen = app.world().resource::<Seen>();
        ensure!(seen.builds == builds, "builds", "step {step}: {} builds were started instead of {builds}", seen.builds);
        ensure!(seen.loads == loads, "loads", "step {step}: {} scenes were loaded instead of {loads}", seen.loads);
        let g = app.world().resource::<GizmosToDraw>();
        for (k, x) in SWITCHES.iter().enumerate() {
            ensure!(g.contains(&x.1) == on[k], "switch", "step {step}: {:?} is {} instead of {}", x.0, !on[k], on[k]);
        }
        if open == 0 {
            let n = app.world().entities().len();
            ensure!(step == 0 || n <= ids, "left-over", "step {step}: {n} entities instead of {ids}: something of the dialog is left");
            ids = n;
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C38",
        rule: "a scene or the dialog is loaded or opened, or a build is started",
        assumptions: &["clicks are delivered to the control under the pointer (Bevy's picking)"],
        subs: vec![Sub { name: "clicks", quick: 20_000, thorough: 400_000, f: c38 }],
    }]
}
