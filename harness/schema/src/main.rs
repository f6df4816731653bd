include!("prelude.rs");
fn main() {
    drive(&[Entry { i: 0, of: of::<Option<Point>>, de: de::<Option<Point>> }]);
}
