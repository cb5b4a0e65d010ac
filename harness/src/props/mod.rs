use crate::engine::Prop;

mod common;
mod items;
mod layout;
mod robust;
mod process;
mod scoping;
mod language;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(language::props());
    v.extend(items::props());
    v.extend(layout::props());
    v.extend(scoping::props());
    v.extend(robust::props());
    v.extend(process::props());
    v
}
