#[path = "../../src/all.rs"]
mod all;
fn main() { for (_, f) in all::TABLE.iter() { f(); } }
