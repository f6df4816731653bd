// Included by every generated crate: the library of types the specification refers to (Lib in
// SchemaTypes.tla) and the driver.
use std::io::{BufRead, Write};
#[allow(unused_imports)]
use std::{borrow::Cow, cell::{Cell, RefCell}, collections::*, marker::PhantomData, net::*, rc::Rc, sync::{Arc, Mutex, Weak}};
use zod::{Namespace, Zod, ZodType};

#[derive(Namespace)]
pub struct Ns;

#[derive(Zod, serde::Deserialize, Default, Clone)]
#[zod(namespace = "Ns")]
#[allow(dead_code)]
pub struct Point { x1: u8, one_two: Option<String> }
#[derive(Zod, serde::Deserialize, Default, Clone)]
#[zod(namespace = "Ns")]
#[allow(dead_code)]
pub enum Color { #[default] Red, Two(u8) }
#[derive(Zod, serde::Deserialize, Default, Clone)]
#[zod(namespace = "Ns")]
#[allow(dead_code)]
pub struct Node { one: bool, two: Option<Box<Node>> }
#[derive(Zod, serde::Deserialize, Default, Clone)]
#[zod(namespace = "Ns")]
#[allow(dead_code)]
pub struct Meters(f64);
#[derive(Zod, serde::Deserialize, Default, Clone)]
#[zod(namespace = "Ns")]
#[allow(dead_code)]
pub struct Pair(i16, String);
#[derive(Zod, serde::Deserialize, Default, Clone)]
#[zod(namespace = "Ns")]
#[serde(tag = "type", content = "content")]
#[allow(dead_code)]
pub enum Tree { #[default] One, Two(Vec<Tree>) }
#[derive(Zod, serde::Deserialize, Default, Clone)]
#[zod(namespace = "Ns")]
#[allow(dead_code)]
pub struct Even { one: u8, #[serde(default)] two: bool }

#[allow(dead_code)]
fn dflt<T: Default>() -> T { T::default() }

#[allow(dead_code)]
pub fn of<T: ZodType>() -> [String; 4] {
    let td = T::type_def();
    let kind = match td { zod::TsTypeDef::Interface(_) => "interface", zod::TsTypeDef::Type(_) => "type" };
    [T::schema(), T::inline_schema(), format!("{kind} {td}"), T::inline().to_string()]
}
#[allow(dead_code)]
pub fn de<T: serde::de::DeserializeOwned>(s: &str) -> bool { serde_json::from_str::<T>(s).is_ok() }

pub struct Entry { pub i: usize, pub of: fn() -> [String; 4], pub de: fn(&str) -> bool }

/// dump: everything generated;  de: reads `<declaration>\t<json>` lines, prints 1 or 0
pub fn drive(table: &[Entry]) {
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    if std::env::args().nth(1).as_deref() == Some("dump") {
        for m in Ns::members() {
            let (k, td) = match m.type_def() { zod::TsTypeDef::Interface(s) => ("interface", s), zod::TsTypeDef::Type(s) => ("type", s) };
            writeln!(out, "{}", serde_json::json!({"name": m.name(), "schema": m.schema(), "kind": k, "td": td})).unwrap();
        }
        for e in table {
            let [s, is, td, itd] = (e.of)();
            writeln!(out, "{}", serde_json::json!({"i": e.i, "schema": s, "inline": is, "td": td, "itd": itd})).unwrap();
        }
    } else {
        let by: HashMap<usize, fn(&str) -> bool> = table.iter().map(|e| (e.i, e.de)).collect();
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let (i, j) = l.split_once('\t').unwrap();
            writeln!(out, "{}", by[&i.parse::<usize>().unwrap()](j) as u8).unwrap();
        }
    }
}
