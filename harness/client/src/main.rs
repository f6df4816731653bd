//! Prints the client generated for a small backend (two namespaces with methods of the same names).
use futures::Stream;
use zod::{rpc::{self, clients::WebsocketClient, Backend}, Namespace};

#[derive(Namespace)]
pub struct Alpha;
#[derive(Namespace)]
#[namespace(name = "Beta")]
pub struct B;

#[rpc::namespace]
impl Alpha {
    async fn req(&mut self, t: u32, _p: String) -> u32 { t }
    fn sub(&mut self, t: u32, _p: String) -> impl Stream<Item = u32> { futures::stream::iter([t]) }
}
#[rpc::namespace]
impl B {
    async fn req(&mut self, t: u32, _p: String) -> u32 { t }
    fn sub(&mut self, t: u32, _p: String) -> impl Stream<Item = u32> { futures::stream::iter([t]) }
}
#[derive(rpc::Backend)]
struct Be(Alpha, B);

fn main() {
    print!("{}", Be::generate::<WebsocketClient>());
}
