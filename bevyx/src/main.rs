mod colliders;
mod editor;
mod meshes;
mod plugins;
mod transfer;

fn main() {
    let mut p = vec![];
    p.extend(meshes::props());
    p.extend(colliders::props());
    p.extend(transfer::props());
    p.extend(editor::props());
    p.extend(plugins::props());
    pbt::main_with(p)
}
