pub mod core;
pub mod damage;
pub mod ident;
pub mod maps;
pub mod multi;
pub mod server;
pub mod stack;
pub mod text;
pub mod win;
use crate::engine::Prop;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(core::props());
    v.extend(ident::props());
    v.extend(stack::props());
    v.extend(multi::props());
    v.extend(text::props());
    v.extend(win::props());
    v.extend(maps::props());
    v.extend(server::props());
    v.extend(damage::props());
    v
}
