//! C35–C39: the editor itself, run without its window.
//! The root below is the editor's own main.rs (see build.rs), with `main` renamed.
include!(concat!(env!("OUT_DIR"), "/editor_root.rs"));

#[path = "editor_camera.rs"]
mod editor_camera;
#[path = "editor_scene.rs"]
mod editor_scene;
#[path = "editor_ui.rs"]
mod editor_ui;
mod meshes;
mod transfer;

fn main() {
    editor_scene::start();
    pbt::main_with(editor_scene::props().into_iter().chain(editor_ui::props()).chain(editor_camera::props()).collect())
}
