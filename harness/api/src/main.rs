include!("prelude.rs");
fn main() { drive(vec![]) }
