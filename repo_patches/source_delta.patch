From bb4a5f2085e1bdbf30fdc41b913fe433e8caa0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 01/31] fix: a client that disconnects before its reply no
 longer kills the backend task

The reply to a method call was sent with unwrap(): when the caller had gone,
the panic ended the task that serves every connection.
---
 derive/src/rpc/impl_rpc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index c280c72..410935f 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -168,9 +168,11 @@ pub fn expand_req_variant_impl_method(
         ident.span() =>
         let res = ctx.#ident(#(#expanded_args),*).await;
 
-        sender
+        if let ::std::result::Result::<_, _>::Err(err) = sender
             .unbounded_send(#__private::Response::method(id, res))
-            .unwrap();
+        {
+            #__private::tracing::warn!(?err, "Failed to send response");
+        }
         None
     }
 }
-- 
2.43.0


From c0821ffef27c6deb79d46174e203166978fef83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 02/31] fix: rpc methods without arguments accept the empty
 argument list the client sends

---
 derive/src/rpc/impl_rpc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 410935f..f73945f 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -128,6 +128,11 @@ pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenS
 
 pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
     let ident = &item.ident;
+    if item.arg_types.is_empty() {
+        // the client sends an empty array, which serde does not accept as `()`
+        return quote!(#ident { args: [(); 0] });
+    }
+
     let arg_types = item.arg_types.iter().map(|RpcArg { ty, .. }| quote!(#ty,));
 
     quote! {
-- 
2.43.0


From d92cff2046e5607ad8e6f47b51f2b5c9f6e759d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 03/31] fix: requests are dispatched by the namespace's name,
 not by its Rust identifier

The generated client addresses a namespace by Namespace::NAME. The dispatcher
expected the type's identifier, so a namespace with #[namespace(name = ..)]
could not be called at all.
---
 derive/src/rpc/backend_impl.rs | 40 ++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2922009..97d2974 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -78,19 +78,55 @@ fn expand_backend_impl(
 }
 
 pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
+    let zod = get_zod();
     let __private = get_private();
     let req_variants = fields.iter().map(|f| {
         let ty = &f.ty;
         let variant_ident = variant_ident_from_ty(ty);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
+    let req_from_namespace = fields.iter().map(|f| {
+        let ty = &f.ty;
+        let variant_ident = variant_ident_from_ty(ty);
+        quote_spanned!(ty.span() => <#ty as #zod::Namespace>::NAME => {
+            #__private::serde_json::from_value(req.value).map(Self::#variant_ident)
+        })
+    });
+
     quote! {
 
-        #[derive(#__private::serde::Deserialize, Debug)]
-        #[serde(tag = "namespace")]
+        #[derive(Debug)]
         enum #ident {
             #(#req_variants),*
         }
+
+        // The client addresses a namespace by its (possibly custom) name which is not known to the
+        // macro, so the variant can not be selected with `#[serde(tag = "namespace")]`.
+        impl<'de> #__private::serde::Deserialize<'de> for #ident {
+            fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+            where
+                D: #__private::serde::Deserializer<'de>,
+            {
+                #[derive(#__private::serde::Deserialize)]
+                struct Tagged {
+                    namespace: String,
+                    #[serde(flatten)]
+                    value: #__private::serde_json::Value,
+                }
+
+                let req = <Tagged as #__private::serde::Deserialize>::deserialize(deserializer)?;
+
+                let res: ::std::result::Result<_, #__private::serde_json::Error> = match req.namespace.as_str() {
+                    #(#req_from_namespace,)*
+                    unknown => {
+                        return ::std::result::Result::Err(#__private::serde::de::Error::custom(
+                            format!("unknown namespace `{}`", unknown),
+                        ))
+                    }
+                };
+                res.map_err(#__private::serde::de::Error::custom)
+            }
+        }
     }
 }
 
-- 
2.43.0


From 430a6069827e7efc881dfe37be33b25bba00d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 04/31] fix: request ids are scoped to the connection they came
 from

BackendProxy kept one map of running streams for all connections. Every client
numbers its requests from 1, so a client could cancel the stream of another
one, or make it impossible to cancel by opening a stream with the same id.
---
 src/rpc/servers/proxy.rs | 58 +++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/rpc/servers/proxy.rs b/src/rpc/servers/proxy.rs
index 4f61970..de0a7bd 100644
--- a/src/rpc/servers/proxy.rs
+++ b/src/rpc/servers/proxy.rs
@@ -3,11 +3,25 @@ use futures::{
     SinkExt, Stream, StreamExt,
 };
 use pin_project_lite::pin_project;
-use zod_core::rpc::{server::Backend, Request, Response};
+use std::{
+    collections::HashMap,
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
+};
+use zod_core::rpc::{
+    server::{Backend, SubscriberMap},
+    Request, Response,
+};
+
+/// a request together with the connection it came from
+type ProxyMessage = (usize, Result<Request, Response>, UnboundedSender<Response>);
 
 #[derive(Clone, Debug)]
 pub struct BackendProxy {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<ProxyMessage>,
+    next_connection: Arc<AtomicUsize>,
 }
 
 impl BackendProxy {
@@ -15,13 +29,22 @@ impl BackendProxy {
     where
         T: Backend + Send + 'static,
     {
-        let (tx, mut rx) = unbounded();
-        let mut subscribers = Default::default();
+        let (tx, mut rx) = unbounded::<ProxyMessage>();
+        // request ids are only unique within a connection
+        let mut subscribers = HashMap::<usize, SubscriberMap>::new();
 
         tokio::spawn(async move {
-            while let Some((result, mut res)) = rx.next().await {
+            while let Some((connection, result, mut res)) = rx.next().await {
                 match result {
-                    Ok(req) => backend.handle_request(req, res, &mut subscribers).await,
+                    Ok(req) => {
+                        if !subscribers.contains_key(&connection) {
+                            // forget the connections which have no running streams
+                            subscribers.retain(|_, s| s.values().any(|jh| !jh.is_finished()));
+                        }
+
+                        let subscribers = subscribers.entry(connection).or_default();
+                        backend.handle_request(req, res, subscribers).await
+                    }
                     Err(err) => {
                         if let Err(err) = res.send(err).await {
                             tracing::warn!(?err);
@@ -31,11 +54,15 @@ impl BackendProxy {
             }
         });
 
-        Self { tx }
+        Self {
+            tx,
+            next_connection: Default::default(),
+        }
     }
     pub fn connect(&self) -> ProxyConnection {
         let (res_tx, res_rx) = unbounded();
         ProxyConnection {
+            id: self.next_connection.fetch_add(1, Ordering::Relaxed),
             tx: self.tx.clone(),
             res_tx,
             res_rx,
@@ -44,27 +71,34 @@ impl BackendProxy {
 }
 
 pub struct ProxyConnection {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    id: usize,
+    tx: UnboundedSender<ProxyMessage>,
     res_tx: UnboundedSender<Response>,
     res_rx: UnboundedReceiver<Response>,
 }
 
 impl ProxyConnection {
     pub fn split(self) -> (ProxyTx, ProxyRx) {
-        let ProxyConnection { tx, res_tx, res_rx } = self;
-        (ProxyTx { tx, res_tx }, ProxyRx { res_rx })
+        let ProxyConnection {
+            id,
+            tx,
+            res_tx,
+            res_rx,
+        } = self;
+        (ProxyTx { id, tx, res_tx }, ProxyRx { res_rx })
     }
 }
 
 pub struct ProxyTx {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    id: usize,
+    tx: UnboundedSender<ProxyMessage>,
     res_tx: UnboundedSender<Response>,
 }
 
 impl ProxyTx {
     pub fn send(&self, req: Result<Request, Response>) -> Result<(), ClientError> {
         self.tx
-            .unbounded_send((req, self.res_tx.clone()))
+            .unbounded_send((self.id, req, self.res_tx.clone()))
             .map_err(|_| ClientError::Disconnected)
     }
 }
-- 
2.43.0


From 2cd7b609ac30aeb8b38415efdffb67f252b4bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 05/31] fix: a stream that is replaced under its id is stopped

The handle of the earlier stream was dropped, which detached its task: the
stream kept emitting under an id that could no longer cancel it.
---
 derive/src/rpc/backend_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 97d2974..2db2d97 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -56,7 +56,9 @@ fn expand_backend_impl(
                         match #__private::serde_json::from_value::<#req_ident>(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
-                                    subscribers.insert(id, jh);
+                                    if let Some(replaced) = subscribers.insert(id, jh) {
+                                        replaced.abort();
+                                    }
                                 }
                             }
                             ::std::result::Result::<_, _>::Err(err) => {
-- 
2.43.0


From 79104e19a114e6303f6ddb1f6045e9d4887e905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 06/31] fix: a stream that is always ready can be cancelled and
 does not starve other tasks

The forwarding loop never yielded to the runtime while items were ready, so an
abort had no point at which it could take effect.
---
 derive/src/rpc/impl_rpc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index f73945f..e23448d 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -201,6 +201,8 @@ pub fn expand_req_variant_impl_stream(
                                 #__private::tracing::warn!(?err, "Failed to emit event");
                                 break;
                             }
+                            // a stream which is always ready must not block cancellation or other tasks
+                            #__private::tokio::task::yield_now().await;
                         }
                 }
 
-- 
2.43.0


From 2ecd15dcb88c7910cefda5737c0485b2fe19520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 07/31] fix: events of a socket the client has given up no
 longer disturb its successor

---
 src/rpc/clients/static/websocket_client.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 453c28e..134315b 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -29,6 +29,7 @@ function websocketStore(url: string) {
     if (socket) {
       socket.close();
       socket = undefined;
+      openPromise = undefined;
     }
   }
 
@@ -51,7 +52,8 @@ function websocketStore(url: string) {
     }
 
     console.debug("creating a new socket");
-    socket = new WebSocket(url);
+    const current = new WebSocket(url);
+    socket = current;
 
     socket.onmessage = (event) => {
       const res = JSON.parse(event.data);
@@ -72,6 +74,9 @@ function websocketStore(url: string) {
     };
 
     socket.onclose = (event: Event) => {
+      // a socket we have given up must not disturb its successor
+      if (socket !== current) return;
+
       if (subscriptions.size > 0) {
         console.warn(event);
       }
@@ -86,9 +91,10 @@ function websocketStore(url: string) {
 
       socket.onerror = (error) => {
         reject(error);
-        openPromise = undefined;
+        if (socket === current) openPromise = undefined;
       };
       socket.onopen = (_: Event) => {
+        if (socket !== current) return;
         reopenCount = 0;
         resolve(undefined);
         openPromise = undefined;
-- 
2.43.0


From 140d4168bd052c8c44d6d0de2997727a7ad51055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 08/31] fix: calls made while the connection fails or is given
 up are transmitted, once and in order

---
 src/rpc/clients/static/websocket_client.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 134315b..2780a8e 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -11,6 +11,9 @@ function websocketStore(url: string) {
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
+  // frames waiting for an open socket
+  const pending: string[] = [];
+
   const subscriptions = new Set<([id, data]: [number, unknown]) => void>();
 
   function reopenTimeout() {
@@ -36,7 +39,7 @@ function websocketStore(url: string) {
   function reopen() {
     close();
     if (subscriptions.size > 0) {
-      reopenTimeoutHandler = setTimeout(() => open(), reopenTimeout());
+      reopenTimeoutHandler = setTimeout(open_and_send, reopenTimeout());
     }
   }
 
@@ -98,25 +101,29 @@ function websocketStore(url: string) {
         reopenCount = 0;
         resolve(undefined);
         openPromise = undefined;
+        open_and_send();
       };
     });
     return openPromise;
   }
 
-  const open_and_send = (value: string) => {
+  const open_and_send = () => {
     if (!socket || socket.readyState !== WebSocket.OPEN)
-      open().then(() => open_and_send(value));
+      // a failure is handled by `onclose`
+      open().catch(() => {});
     else {
-      socket.send(value);
+      pending.splice(0).forEach((value) => socket?.send(value));
     }
   };
 
   return {
     send(value: string) {
-      open_and_send(value);
+      pending.push(value);
+      open_and_send();
     },
     subscribe(subscription: (value: [number, unknown]) => void) {
       subscriptions.add(subscription);
+      if (pending.length > 0) open_and_send();
       return () => {
         subscriptions.delete(subscription);
         if (subscriptions.size === 0) {
-- 
2.43.0


From f5b59cf77423df74938d13ce5ecf241d51e49fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 09/31] fix: an error reply rejects the promise of its request

---
 src/rpc/clients/static/websocket_client.ts | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 2780a8e..f156090 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -14,7 +14,9 @@ function websocketStore(url: string) {
   // frames waiting for an open socket
   const pending: string[] = [];
 
-  const subscriptions = new Set<([id, data]: [number, unknown]) => void>();
+  const subscriptions = new Set<
+    ([id, data]: [number, unknown], failed?: boolean) => void
+  >();
 
   function reopenTimeout() {
     const n = reopenCount;
@@ -73,6 +75,10 @@ function websocketStore(url: string) {
         subscriptions.forEach((subscription) =>
           subscription(initialValue as any)
         );
+      } else if ("error" in res) {
+        subscriptions.forEach((subscription) =>
+          subscription([res.error.id, res.error.data], true)
+        );
       }
     };
 
@@ -121,7 +127,9 @@ function websocketStore(url: string) {
       pending.push(value);
       open_and_send();
     },
-    subscribe(subscription: (value: [number, unknown]) => void) {
+    subscribe(
+      subscription: (value: [number, unknown], failed?: boolean) => void
+    ) {
       subscriptions.add(subscription);
       if (pending.length > 0) open_and_send();
       return () => {
@@ -167,8 +175,8 @@ export function subscribe<T>(
 
   let store = {
     subscribe(cb: (value: T) => void) {
-      return CONNECTION.subscribe(([res_id, data]) => {
-        if (res_id == id) {
+      return CONNECTION.subscribe(([res_id, data], failed) => {
+        if (res_id == id && !failed) {
           cb(data as T);
         }
       });
@@ -187,14 +195,16 @@ export async function request<T>(
   args: IArguments
 ): Promise<T> {
   let unsubscribe: () => void | undefined;
-  let promise = new Promise((resolve: (_: T) => void, _) => {
+  let promise = new Promise((resolve: (_: T) => void, reject) => {
     req_id += 1;
     let id = req_id;
     let request = { req_id, namespace, method, args: [...args] };
     let start = performance.now();
 
-    unsubscribe = CONNECTION.subscribe(([res_id, data]: [number, any]) => {
-      if (res_id == id) {
+    unsubscribe = CONNECTION.subscribe(([res_id, data]: [number, any], failed) => {
+      if (res_id == id && failed) {
+        reject(data);
+      } else if (res_id == id) {
         console.log("Exec Response", {
           req_id,
           request,
-- 
2.43.0


From 7f5e3f3dfd1df09b9abd5145bb87720223edb371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 10/31] fix: built-ins refer to the declarations of their type
 arguments, so that recursive types terminate

---
 core/src/build_ins.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index fc5ad9a..c71392e 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -1,3 +1,4 @@
+use crate::InlinedType;
 use crate::TsTypeDef;
 use crate::ZodType;
 
@@ -48,7 +49,7 @@ macro_rules! impl_tuples {
             /// [T1, T2, ... ]
             /// ```
             fn type_def() -> TsTypeDef {
-                TsTypeDef::Type(format!("[{}]", vec![$($i::type_def().to_string()),*].join(", ")))
+                TsTypeDef::Type(format!("[{}]", vec![$($i::inline().to_string()),*].join(", ")))
             }
 
 
@@ -57,7 +58,7 @@ macro_rules! impl_tuples {
             /// z.tuple([T1, T2, ... ])
             /// ```
             fn schema() -> String {
-                format!("z.tuple([{}])", vec![$($i::schema()),*].join(", "))
+                format!("z.tuple([{}])", vec![$($i::inline_schema()),*].join(", "))
             }
         }
     };
@@ -87,6 +88,13 @@ macro_rules! impl_wrapper {
                 T::schema()
             }
 
+            fn inline_schema() -> String {
+                T::inline_schema()
+            }
+
+            fn inline() -> InlinedType {
+                T::inline()
+            }
         }
     };
 }
@@ -173,7 +181,7 @@ impl<T: ZodType> ZodType for Vec<T> {
     /// Array<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Array<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Array<{}>", T::inline()))
     }
 
     /// ```ts
@@ -191,7 +199,7 @@ impl<T: ZodType> ZodType for std::collections::HashSet<T> {
     /// Set<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Set<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Set<{}>", T::inline()))
     }
 
     /// ```ts
@@ -209,7 +217,7 @@ impl<K: ZodType, V: ZodType> ZodType for std::collections::HashMap<K, V> {
     /// Map<K, V>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Map<{}, {}>", K::type_def(), V::type_def()))
+        TsTypeDef::Type(format!("Map<{}, {}>", K::inline(), V::inline()))
     }
 
     /// ```ts
@@ -228,7 +236,7 @@ impl<T: ZodType> ZodType for Option<T> {
     /// ```
     fn type_def() -> TsTypeDef {
         // Todo
-        TsTypeDef::Type(format!("({} | undefined)", T::type_def()))
+        TsTypeDef::Type(format!("({} | undefined)", T::inline()))
     }
 
     /// ```ts
@@ -248,8 +256,8 @@ impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
             "{{ Ok: {} }} | {{ Err: {} }}",
-            T::type_def(),
-            E::type_def()
+            T::inline(),
+            E::inline()
         ))
     }
 
-- 
2.43.0


From 5f7d566c0ca634bdb9db858689bd7bd89b065ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 11/31] fix: the schema of bool is z.boolean()

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index c71392e..1cef26b 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -151,7 +151,7 @@ impl_primitive!("number", isize, "z.number().finite().int()");
 impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
-impl_primitive!("boolean", bool, "z.bool()");
+impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
 impl_primitive!("null", (), "z.null()");
 
-- 
2.43.0


From 060101cc43c132be9824385f2171ba04b4d77648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 12/31] fix: an Option is null when it is None

---
 core/src/build_ins.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 1cef26b..634ed4f 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -232,19 +232,19 @@ impl<K: ZodType, V: ZodType> ZodType for std::collections::HashMap<K, V> {
 impl<T: ZodType> ZodType for Option<T> {
     /// ```ts
     /// // TS-type
-    /// T | undefined
+    /// T | null | undefined
     /// ```
     fn type_def() -> TsTypeDef {
         // Todo
-        TsTypeDef::Type(format!("({} | undefined)", T::inline()))
+        TsTypeDef::Type(format!("({} | null | undefined)", T::inline()))
     }
 
     /// ```ts
     /// // zod schema
-    /// z.lazy(() => T).optional()
+    /// z.lazy(() => T).nullish()
     /// ```
     fn schema() -> String {
-        format!("{}.optional()", T::inline_schema())
+        format!("{}.nullish()", T::inline_schema())
     }
 }
 
-- 
2.43.0


From 0d166bd36b4ad6f03c0109b79e23715426490ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 13/31] fix: schemas of wide integers do not accept the first
 number out of range, usize and isize are bounded

---
 core/src/build_ins.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 634ed4f..d7e3c8a 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -117,17 +117,29 @@ impl_primitive!(
     u32,
     "z.number().finite().int().nonnegative().lte(4294967295)"
 );
+// The greatest values of the wide integers are no doubles, the next greater numbers are.
 impl_primitive!(
     "number",
     u64,
-    "z.number().finite().int().nonnegative().lte(18446744073709551615)"
+    "z.number().finite().int().nonnegative().lt(18446744073709551616)"
 );
 impl_primitive!(
     "number",
     u128,
-    "z.number().finite().int().nonnegative().lte(340282366920938463463374607431768211455)"
+    "z.number().finite().int().nonnegative().lt(340282366920938463463374607431768211456)"
+);
+#[cfg(target_pointer_width = "64")]
+impl_primitive!(
+    "number",
+    usize,
+    "z.number().finite().int().nonnegative().lt(18446744073709551616)"
+);
+#[cfg(not(target_pointer_width = "64"))]
+impl_primitive!(
+    "number",
+    usize,
+    "z.number().finite().int().nonnegative().lte(4294967295)"
 );
-impl_primitive!("number", usize, "z.number().finite().int().nonnegative()");
 
 impl_primitive!("number", i8, "z.number().finite().int().lte(127).gte(-128)");
 impl_primitive!(
@@ -143,10 +155,21 @@ impl_primitive!(
 impl_primitive!(
     "number",
     i64,
-    "z.number().finite().int().lte(9223372036854775807).gte(-9223372036854775808)"
+    "z.number().finite().int().lt(9223372036854775808).gte(-9223372036854775808)"
+);
+impl_primitive!("number", i128, "z.number().finite().int().lt(170141183460469231731687303715884105728).gte(-170141183460469231731687303715884105728)");
+#[cfg(target_pointer_width = "64")]
+impl_primitive!(
+    "number",
+    isize,
+    "z.number().finite().int().lt(9223372036854775808).gte(-9223372036854775808)"
+);
+#[cfg(not(target_pointer_width = "64"))]
+impl_primitive!(
+    "number",
+    isize,
+    "z.number().finite().int().lte(2147483647).gte(-2147483648)"
 );
-impl_primitive!("number", i128, "z.number().finite().int().lte(170141183460469231731687303715884105727).gte(-170141183460469231731687303715884105728)");
-impl_primitive!("number", isize, "z.number().finite().int()");
 
 impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
-- 
2.43.0


From 3a404331caac886b59f35929f1252b7a4597d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 14/31] fix: float schemas do not accept infinities, which JSON
 cannot carry

---
 core/src/build_ins.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index d7e3c8a..522b524 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -171,8 +171,8 @@ impl_primitive!(
     "z.number().finite().int().lte(2147483647).gte(-2147483648)"
 );
 
-impl_primitive!("number", f32, "z.number()");
-impl_primitive!("number", f64, "z.number()");
+impl_primitive!("number", f32, "z.number().finite()");
+impl_primitive!("number", f64, "z.number().finite()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
@@ -318,10 +318,10 @@ impl_primitive!("string", std::net::IpAddr, "z.string().ip()");
 impl_primitive!("string", smol_str::SmolStr, "z.string()");
 
 #[cfg(feature = "ordered-float")]
-impl_primitive!("number", ordered_float::NotNan<f32>, "z.number()");
+impl_primitive!("number", ordered_float::NotNan<f32>, "z.number().finite()");
 
 #[cfg(feature = "ordered-float")]
-impl_primitive!("number", ordered_float::NotNan<f64>, "z.number()");
+impl_primitive!("number", ordered_float::NotNan<f64>, "z.number().finite()");
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 21eece4d1e309c300de4ef9261ed57f7530374be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 15/31] fix: a Weak may be null, PhantomData is null

---
 core/src/build_ins.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 522b524..fc54f10 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -190,8 +190,9 @@ impl_wrapper!(impl<T: ZodType + ToOwned> ZodType for std::borrow::Cow<'static, T
 impl_wrapper!(impl<T: ZodType> ZodType for std::cell::Cell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::cell::RefCell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Mutex<T>);
-impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Weak<T>);
-impl_wrapper!(impl<T: ZodType> ZodType for std::marker::PhantomData<T>);
+
+impl_shadow!("Option", "Option&lt;T&gt;", Option<T>; impl<T: ZodType> ZodType for std::sync::Weak<T>);
+impl_shadow!("()", "()", (); impl<T: ZodType> ZodType for std::marker::PhantomData<T>);
 
 impl_shadow!("HashSet", "HashSet&lt;T,+RandomState&gt;", std::collections::HashSet<T>; impl<T: ZodType> ZodType for std::collections::BTreeSet<T>);
 impl_shadow!("HashMap", "HashMap&lt;K,+V,+RandomState&gt;", std::collections::HashMap<K, V>; impl<K: ZodType, V: ZodType> ZodType for std::collections::BTreeMap<K, V>);
-- 
2.43.0


From 36165833e23e8720598db5e0f7f53b0899176ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 16/31] fix: the schema of an array checks its length

---
 core/src/build_ins.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index fc54f10..8c08654 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -197,8 +197,6 @@ impl_shadow!("()", "()", (); impl<T: ZodType> ZodType for std::marker::PhantomDa
 impl_shadow!("HashSet", "HashSet&lt;T,+RandomState&gt;", std::collections::HashSet<T>; impl<T: ZodType> ZodType for std::collections::BTreeSet<T>);
 impl_shadow!("HashMap", "HashMap&lt;K,+V,+RandomState&gt;", std::collections::HashMap<K, V>; impl<K: ZodType, V: ZodType> ZodType for std::collections::BTreeMap<K, V>);
 
-impl_shadow!("Vec", "Vec&lt;T&gt;", Vec<T>; impl<T: ZodType, const N: usize> ZodType for [T; N]);
-
 impl<T: ZodType> ZodType for Vec<T> {
     /// ```ts
     /// // TS-type
@@ -217,6 +215,24 @@ impl<T: ZodType> ZodType for Vec<T> {
     }
 }
 
+impl<T: ZodType, const N: usize> ZodType for [T; N] {
+    /// ```ts
+    /// // TS-type
+    /// Array<T>
+    /// ```
+    fn type_def() -> TsTypeDef {
+        Vec::<T>::type_def()
+    }
+
+    /// ```ts
+    /// // zod schema
+    /// z.array(z.lazy(() => T)).length(N)
+    /// ```
+    fn schema() -> String {
+        format!("{}.length({})", Vec::<T>::schema(), N)
+    }
+}
+
 impl<T: ZodType> ZodType for std::collections::HashSet<T> {
     /// ```ts
     /// // TS-type
-- 
2.43.0


From 012e0b49b4ab93bad3b058948fb5eeee2d771a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 17/31] fix: the schema of char accepts every character

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 8c08654..100930b 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -175,7 +175,7 @@ impl_primitive!("number", f32, "z.number().finite()");
 impl_primitive!("number", f64, "z.number().finite()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
-impl_primitive!("string", char, "z.string().length(1)");
+impl_primitive!("string", char, r"z.string().regex(/^[^\ud800-\udfff]$/u)");
 impl_primitive!("null", (), "z.null()");
 
 impl_tuples!(
-- 
2.43.0


From 2ee62cf2ad072676aea8717bf6ed7e02dffe0a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 18/31] fix: tuple structs and structs with flattened fields
 are types, not interfaces

---
 derive/src/impl_struct.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 75def9d..7b0071a 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -123,9 +123,11 @@ impl<'a> Struct<'a> {
 
             }
         } else {
-            let interface_or_type = match (self.fields.len() == 1, self.style, self.transparent) {
-                (_, Style::Unit, _) | (true, Style::Tuple, _) | (_, _, true) => quote!(Type),
-                _ => quote!(Interface),
+            // an interface can neither be a tuple nor an intersection
+            let flattened = self.fields.iter().any(|f| f.flatten);
+            let interface_or_type = match (self.style, self.transparent || flattened) {
+                (Style::Struct, false) => quote!(Interface),
+                _ => quote!(Type),
             };
 
             quote! {
-- 
2.43.0


From e68e40e1fec6ed1979ec7f271ba161ac5ecb7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 19/31] fix: a tuple with skipped fields stays a tuple

---
 derive/src/impl_enum/variant/mod.rs           |  1 +
 derive/src/impl_enum/variant/tuple_variant.rs | 18 ++++++++++--------
 derive/src/impl_struct.rs                     | 19 +++++++++++--------
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index 3fccd76..e22da8e 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -37,6 +37,7 @@ impl<'a> Variant<'a> {
                 span,
                 tag,
                 name,
+                newtype: variant.fields.len() == 1,
                 fields,
             }),
             Style::Struct => Self::Struct(StructVariant {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index b20a29a..c9074d9 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -11,13 +11,15 @@ pub struct TupleVariant<'a> {
     pub span: Span,
     pub tag: &'a TagType,
     pub name: String,
+    /// declared with exactly one field. Skipping fields does not make a newtype of a tuple.
+    pub newtype: bool,
     pub fields: field::VariantFields<'a>,
 }
 
 impl<'a> TupleVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let inner = match self.fields.len() {
-            0 => {
+        let inner = match self.newtype {
+            true if self.fields.len() == 0 => {
                 // may occur if fields are skipped. In this case we handle it like a unit variant
                 return UnitVariant {
                     span: self.span,
@@ -26,14 +28,14 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_schema();
             }
-            1 => self
+            true => self
                 .fields
                 .expand_schema()
                 .into_iter()
                 .next()
                 .expect("one field"),
 
-            _ => {
+            false => {
                 let inner = self.fields.expand_schema();
                 quote! {
                     {
@@ -65,9 +67,9 @@ impl<'a> TupleVariant<'a> {
         let tag_type = self.tag;
         let name = &self.name;
 
-        let inner = match expanded_fields.len() {
+        let inner = match self.newtype {
             // may occur if fields are skipped. In this case we handle it like a unit variant
-            0 => {
+            true if expanded_fields.is_empty() => {
                 return UnitVariant {
                     span: self.span,
                     tag: self.tag,
@@ -75,12 +77,12 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_type_defs()
             }
-            1 => expanded_fields
+            true => expanded_fields
                 .first()
                 .expect("exactly one variant")
                 .clone(),
 
-            _ => {
+            false => {
                 quote! {
                     {
                         let inner: std::vec::Vec<String> = vec![#(#expanded_fields),*];
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 7b0071a..c625d3f 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -32,6 +32,9 @@ pub fn expand(
 
     let style = fields.style;
 
+    // skipping fields does not make a newtype of a tuple
+    let newtype = style == Style::Tuple && fields.len() == 1;
+
     let fields = fields
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
@@ -59,6 +62,7 @@ pub fn expand(
         ident,
         fields,
         style,
+        newtype,
         from_ty,
     };
 
@@ -73,6 +77,7 @@ struct Struct<'a> {
     name: String,
     fields: Vec<StructField<'a>>,
     style: Style,
+    newtype: bool,
     from_ty: Option<syn::Type>,
 }
 
@@ -177,15 +182,14 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_type_defs(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
                     .expect("Newtype")
                     .expand_type_defs(),
-                _ => {
+                false => {
                     let fields = fields.into_iter().map(|f| f.expand_type_defs());
 
                     quote! {
@@ -220,15 +224,14 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_schema(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
                     .expect("Newtype")
                     .expand_schema(),
-                _ => {
+                false => {
                     // make sure all fields followed an optional field are also optional
                     if let Some(f) = fields
                         .iter()
-- 
2.43.0


From 0ce4e737c5fd406eb0426008439b1e7b346c04e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 20/31] fix: struct variants without fields

---
 derive/src/impl_enum/variant/struct_variant.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 6eeabab..1646fef 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -16,7 +16,8 @@ pub struct StructVariant<'a> {
 impl<'a> StructVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
         let inner = match self.fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
+            // all fields are skipped, or there are none
+            0 => quote!(""),
             1 => {
                 let inner = self.fields.expand_schema();
                 inner.first().expect("one field").clone()
@@ -58,7 +59,8 @@ impl<'a> StructVariant<'a> {
         let name = self.attrs.name().deserialize_name();
 
         let inner = match expanded_fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
+            // all fields are skipped, or there are none
+            0 => quote!(""),
             1 => expanded_fields
                 .first()
                 .expect("exactly one variant")
-- 
2.43.0


From 56cf9443dcba7913d6f05098ccb34e7eb2d6e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 21/31] fix: newtype variants of internally tagged enums carry
 their tag beside the members of their content

---
 derive/src/impl_enum/mod.rs                   |  7 +++++++
 derive/src/impl_enum/variant/mod.rs           |  4 ++++
 derive/src/impl_enum/variant/tuple_variant.rs | 11 +++++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 46c122e..37b1d21 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -154,6 +154,13 @@ impl<'a> Enum<'a> {
                 let expanded_variant_schemas = self.variants.iter().map(|v| v.expand_schema());
 
                 match self.tag {
+                    // discriminatedUnion takes plain objects only
+                    TagType::Internal { .. } if self.variants.iter().any(Variant::is_newtype) => {
+                        quote! {
+                            let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
+                            format!("z.union([{}])", variants.join(", "))
+                        }
+                    }
                     TagType::External => {
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index e22da8e..ef9caae 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -49,6 +49,10 @@ impl<'a> Variant<'a> {
         }
     }
 
+    pub fn is_newtype(&self) -> bool {
+        matches!(self, Variant::Tuple(tuple) if tuple.newtype && tuple.fields.len() == 1)
+    }
+
     /// expand a single variant of an enum into a zod schema
     pub fn expand_schema(&self) -> TokenStream {
         match self {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index c9074d9..befd31f 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -49,9 +49,13 @@ impl<'a> TupleVariant<'a> {
         let span = self.span;
 
         match self.tag {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
             }
+            // only newtypes can be tagged internally, the tag is added to the object they contain
+            TagType::Internal { tag } => {
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\") }}).and({})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
             }
@@ -93,9 +97,12 @@ impl<'a> TupleVariant<'a> {
         };
 
         match tag_type {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
+            TagType::Internal { tag } => {
+                quote_spanned! {span =>  format!("({{ {}: \"{}\" }} & ({}))", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
             }
-- 
2.43.0


From 26bc2e601f5ac0c6aefa87677a23993b465069fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 22/31] fix: member names that are no identifiers are quoted,
 string literals are escaped

---
 derive/src/impl_enum/field.rs                 |  4 +--
 derive/src/impl_enum/mod.rs                   |  5 +--
 .../src/impl_enum/variant/struct_variant.rs   | 15 +++++---
 derive/src/impl_enum/variant/tuple_variant.rs | 19 +++++++----
 derive/src/impl_enum/variant/unit_variant.rs  | 21 +++++++-----
 derive/src/impl_struct.rs                     |  6 ++--
 derive/src/lib.rs                             |  1 +
 derive/src/ts.rs                              | 34 +++++++++++++++++++
 8 files changed, 81 insertions(+), 24 deletions(-)
 create mode 100644 derive/src/ts.rs

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 2166cd2..14cc1a5 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -1,4 +1,4 @@
-use crate::{args::EnumField, get_zod};
+use crate::{args::EnumField, get_zod, ts};
 
 use darling::ast::Style;
 use proc_macro2::TokenStream;
@@ -30,7 +30,7 @@ impl<'a> VariantFields<'a> {
                         }),
                         Style::Struct => VariantField::Named(NamedField {
                             enum_field,
-                            name: f.attrs.name().deserialize_name(),
+                            name: ts::member_name(&f.attrs.name().deserialize_name()),
                             optional: !f.attrs.default().is_none(),
                         }),
                         Style::Unit => unreachable!(),
diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 37b1d21..6652f0a 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -1,7 +1,7 @@
 mod field;
 mod variant;
 
-use crate::{docs::RustDocs, expand_type_registration, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, impl_inventory, ts};
 use variant::Variant;
 
 use super::args;
@@ -168,9 +168,10 @@ impl<'a> Enum<'a> {
                         }
                     }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
+                        let tag = ts::string_literal(tag);
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
-                            format!("z.discriminatedUnion(\"{}\", [{}])", #tag, variants.join(", "))
+                            format!("z.discriminatedUnion({}, [{}])", #tag, variants.join(", "))
                         }
                     }
                     TagType::None => {
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 1646fef..94e0092 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -1,4 +1,5 @@
 use super::field;
+use crate::ts;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use serde_derive_internals::{ast, attr::TagType};
@@ -36,16 +37,19 @@ impl<'a> StructVariant<'a> {
 
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
+        let (name, literal) = (ts::member_name(&name), ts::string_literal(&name));
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
                 quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #name, #inner) }
             }
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }})", #tag, #name, #inner) }
+                let tag = ts::member_name(tag);
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {} }})", #tag, #literal, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
+                let (tag, content) = (ts::member_name(tag), ts::member_name(content));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: z.object({{ {} }}) }})", #tag, #literal, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  format!("z.object({{ {} }})", #inner) }
@@ -57,6 +61,7 @@ impl<'a> StructVariant<'a> {
         let expanded_fields = self.fields.expand_type_defs();
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
+        let (name, literal) = (ts::member_name(&name), ts::string_literal(&name));
 
         let inner = match expanded_fields.len() {
             // all fields are skipped, or there are none
@@ -83,12 +88,14 @@ impl<'a> StructVariant<'a> {
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) }
+                let tag = ts::member_name(tag);
+                quote_spanned! {span =>  format!("{{ {}: {}, {} }}", #tag, #literal, #inner) }
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }} }}", #tag, #name, #content, #inner) }
+                let (tag, content) = (ts::member_name(tag), ts::member_name(content));
+                quote_spanned! {span =>  format!("{{ {}: {}, {}: {{ {} }} }}", #tag, #literal, #content, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
             TagType::None => {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index befd31f..0c322b2 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -1,5 +1,6 @@
 use super::field;
 use super::UnitVariant;
+use crate::ts;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
@@ -45,7 +46,8 @@ impl<'a> TupleVariant<'a> {
                 }
             }
         };
-        let name = &self.name;
+        let name = ts::member_name(&self.name);
+        let literal = ts::string_literal(&self.name);
         let span = self.span;
 
         match self.tag {
@@ -54,10 +56,12 @@ impl<'a> TupleVariant<'a> {
             }
             // only newtypes can be tagged internally, the tag is added to the object they contain
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\") }}).and({})", #tag, #name, #inner) }
+                let tag = ts::member_name(tag);
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}) }}).and({})", #tag, #literal, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
+                let (tag, content) = (ts::member_name(tag), ts::member_name(content));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: {} }})", #tag, #literal, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  String::from(#inner) }
@@ -69,7 +73,8 @@ impl<'a> TupleVariant<'a> {
         let expanded_fields = self.fields.expand_type_defs();
         let span = self.span;
         let tag_type = self.tag;
-        let name = &self.name;
+        let name = ts::member_name(&self.name);
+        let literal = ts::string_literal(&self.name);
 
         let inner = match self.newtype {
             // may occur if fields are skipped. In this case we handle it like a unit variant
@@ -101,10 +106,12 @@ impl<'a> TupleVariant<'a> {
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("({{ {}: \"{}\" }} & ({}))", #tag, #name, #inner) }
+                let tag = ts::member_name(tag);
+                quote_spanned! {span =>  format!("({{ {}: {} }} & ({}))", #tag, #literal, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
+                let (tag, content) = (ts::member_name(tag), ts::member_name(content));
+                quote_spanned! {span =>  format!("{{ {}: {}, {}: {} }}", #tag, #literal, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  #inner }
diff --git a/derive/src/impl_enum/variant/unit_variant.rs b/derive/src/impl_enum/variant/unit_variant.rs
index 59efcfc..c5cc805 100644
--- a/derive/src/impl_enum/variant/unit_variant.rs
+++ b/derive/src/impl_enum/variant/unit_variant.rs
@@ -1,3 +1,4 @@
+use crate::ts;
 use proc_macro2::{Span, TokenStream};
 use quote::quote_spanned;
 use serde_derive_internals::attr::TagType;
@@ -12,16 +13,18 @@ pub struct UnitVariant<'a> {
 
 impl<'a> UnitVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let name = &self.name;
+        let literal = ts::string_literal(&self.name);
         match self.tag {
             TagType::External => {
-                quote_spanned!(self.span => format!("z.literal(\"{}\")", #name))
+                quote_spanned!(self.span => format!("z.literal({})", #literal))
             }
             TagType::Internal { tag } => {
-                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
+                let tag = ts::member_name(tag);
+                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal({}) }})", #tag, #literal))
             }
             TagType::Adjacent { tag, .. } => {
-                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
+                let tag = ts::member_name(tag);
+                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal({}) }})", #tag, #literal))
             }
             TagType::None => {
                 quote_spanned!(self.span => String::from("z.null()"))
@@ -31,16 +34,18 @@ impl<'a> UnitVariant<'a> {
 
     /// Example `A`  ->  `"A"`
     pub fn expand_type_defs(&self) -> TokenStream {
-        let name = &self.name;
+        let literal = ts::string_literal(&self.name);
         match self.tag {
             TagType::External => {
-                quote_spanned!(self.span => format!("\"{}\"", #name))
+                quote_spanned!(self.span => #literal.to_string())
             }
             TagType::Internal { tag } => {
-                quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
+                let tag = ts::member_name(tag);
+                quote_spanned!(self.span => format!("{{ {}: {} }}", #tag, #literal))
             }
             TagType::Adjacent { tag, .. } => {
-                quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
+                let tag = ts::member_name(tag);
+                quote_spanned!(self.span => format!("{{ {}: {} }}", #tag, #literal))
             }
             TagType::None => {
                 quote_spanned!(self.span => String::from("null"))
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index c625d3f..6c7baf9 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -1,4 +1,4 @@
-use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory, ts};
 
 use super::args;
 use darling::ast::{Fields, Style};
@@ -41,7 +41,9 @@ pub fn expand(
         .filter(|(_, attrs)| !attrs.skip_deserializing())
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
-            name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
+            name: ident
+                .as_ref()
+                .map(|_| ts::member_name(&attrs.name().deserialize_name())),
             optional: !attrs.default().is_none(),
             transparent,
             flatten: attrs.flatten(),
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index bff2bac..e78555a 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -12,6 +12,7 @@ mod impl_enum;
 mod impl_inventory;
 mod impl_namespace;
 mod impl_struct;
+mod ts;
 
 use darling::{ast::Data, FromDeriveInput};
 use docs::RustDocs;
diff --git a/derive/src/ts.rs b/derive/src/ts.rs
new file mode 100644
index 0000000..5abeefc
--- /dev/null
+++ b/derive/src/ts.rs
@@ -0,0 +1,34 @@
+//! Names as they are written in TypeScript
+
+/// The name of a member of an object. Names that are no identifiers are quoted.
+pub fn member_name(name: &str) -> String {
+    let mut chars = name.chars();
+    let is_ident = chars
+        .next()
+        .map_or(false, |c| c.is_ascii_alphabetic() || c == '_' || c == '$')
+        && chars.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$');
+
+    if is_ident {
+        name.to_string()
+    } else {
+        string_literal(name)
+    }
+}
+
+pub fn string_literal(value: &str) -> String {
+    let mut out = String::from("\"");
+    for c in value.chars() {
+        match c {
+            '"' | '\\' => {
+                out.push('\\');
+                out.push(c);
+            }
+            c if c.is_control() || c == '\u{2028}' || c == '\u{2029}' => {
+                out += &format!("\\u{:04x}", c as u32)
+            }
+            c => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
-- 
2.43.0


From 738331a3869c873799ad5b0a49c8e70880a16d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 23/31] fix: a default of the container makes its fields
 optional

---
 derive/src/impl_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 6c7baf9..471a557 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -35,6 +35,9 @@ pub fn expand(
     // skipping fields does not make a newtype of a tuple
     let newtype = style == Style::Tuple && fields.len() == 1;
 
+    // the container may provide the defaults of its fields
+    let all_optional = !serde_ast.attrs.default().is_none() && !newtype && !transparent;
+
     let fields = fields
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
@@ -44,7 +47,7 @@ pub fn expand(
             name: ident
                 .as_ref()
                 .map(|_| ts::member_name(&attrs.name().deserialize_name())),
-            optional: !attrs.default().is_none(),
+            optional: !attrs.default().is_none() || (all_optional && !attrs.flatten()),
             transparent,
             flatten: attrs.flatten(),
         })
-- 
2.43.0


From 187f97de4ce2ae4fa6d18545f06adf5725bd0a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 24/31] fix: types converted with from or try_from are referred
 to by name, so that recursive ones terminate

---
 derive/src/impl_enum/mod.rs | 14 ++++++++++----
 derive/src/impl_struct.rs   |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 6652f0a..2227309 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -76,19 +76,25 @@ impl<'a> Enum<'a> {
             quote! {
                 impl #zod::ZodType for #ident {
                     fn schema() -> String {
-                        <#t as #zod::ZodType>::schema()
+                        <#t as #zod::ZodType>::inline_schema()
                     }
 
                     fn inline_schema() -> String {
-                        <#t as #zod::ZodType>::inline_schema()
+                        format!("z.lazy(() => {}.{})",
+                            <#ns_path as #zod::Namespace>::NAME,
+                            #name
+                        )
                     }
 
                     fn type_def() -> #zod::TsTypeDef {
-                        <#t as #zod::ZodType>::type_def()
+                        #zod::TsTypeDef::Type(<#t as #zod::ZodType>::inline().to_string())
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> Option<&'static str> {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 471a557..306f93d 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -119,7 +119,10 @@ impl<'a> Struct<'a> {
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> Option<&'static str> {
-- 
2.43.0


From d79fc8eaf89ddc17e51b46f6bc521ad52a275a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 25/31] fix: docs can not end the comment they are written in

---
 derive/src/docs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 11c5002..8ecd24a 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -41,7 +41,8 @@ impl ToTokens for RustDocs {
             Some(ref docs) => {
                 let docs = format!(
                     "/**\n{}*/\n",
-                    docs.lines()
+                    docs.replace("*/", "*\\/")
+                        .lines()
                         .map(|line| format!("* {}\n", line))
                         .collect::<String>()
                 );
-- 
2.43.0


From 9e06775db8c82ee79ff022d10cd2e2ddb7d9eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 26/31] fix: names of functions and arguments that mean
 something else in TypeScript

---
 derive/src/rpc/args.rs     | 13 +++++++++++--
 derive/src/rpc/impl_rpc.rs | 14 +++++++++++---
 derive/src/ts.rs           | 19 +++++++++++++++++++
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 7226b12..e730af5 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,7 +1,9 @@
 use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro_error::{abort, abort_call_site};
 use quote::format_ident;
-use syn::{parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
+use syn::{ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
+
+use crate::ts;
 
 #[derive(FromDeriveInput)]
 pub struct BackendInput {
@@ -121,7 +123,14 @@ impl RpcItem {
                 syn::FnArg::Typed(t) => Some(RpcArg {
                     ty: t.ty.clone(),
                     name: match t.pat.as_ref() {
-                        syn::Pat::Ident(ident) => ident.ident.to_string(),
+                        syn::Pat::Ident(ident) => {
+                            let name = ident.ident.unraw().to_string();
+                            if ts::is_reserved(&name) || ts::is_used_by_client(&name) {
+                                format!("{}_", name)
+                            } else {
+                                name
+                            }
+                        }
                         _ => abort_call_site!("Expected an ident, got {:?}", t.pat),
                     },
                 }),
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index e23448d..fef6dd9 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -2,10 +2,10 @@ use proc_macro2::TokenStream;
 
 use proc_macro_error::abort;
 use quote::{quote, quote_spanned};
-use syn::{Ident, Type};
+use syn::{ext::IdentExt, Ident, Type};
 
 use crate::rpc::args::{self, RpcArg, RpcInput, RpcItemKind};
-use crate::{get_private, get_private_spanned, get_zod};
+use crate::{get_private, get_private_spanned, get_zod, ts};
 
 pub fn expand(input: RpcInput) -> TokenStream {
     let __private = get_private();
@@ -61,7 +61,15 @@ pub fn expand(input: RpcInput) -> TokenStream {
 pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let zod = get_zod();
-    let name = item.ident.to_string();
+    let name = item.ident.unraw().to_string();
+
+    if ts::is_reserved(&name) || ts::is_used_by_client(&name) {
+        abort!(
+            item.ident.span(),
+            "zod: `{}` can not be the name of a function of the client",
+            name
+        )
+    }
 
     let args = item
         .arg_types
diff --git a/derive/src/ts.rs b/derive/src/ts.rs
index 5abeefc..e0e0b4d 100644
--- a/derive/src/ts.rs
+++ b/derive/src/ts.rs
@@ -32,3 +32,22 @@ pub fn string_literal(value: &str) -> String {
     out.push('"');
     out
 }
+
+/// whether TypeScript does not allow to declare a value of this name
+pub fn is_reserved(name: &str) -> bool {
+    #[rustfmt::skip]
+    const RESERVED: &[&str] = &[
+        "arguments", "await", "break", "case", "catch", "class", "const", "continue", "debugger",
+        "default", "delete", "do", "else", "enum", "eval", "export", "extends", "false", "finally",
+        "for", "function", "if", "implements", "import", "in", "instanceof", "interface", "let",
+        "new", "null", "package", "private", "protected", "public", "return", "static", "super",
+        "switch", "this", "throw", "true", "try", "typeof", "undefined", "var", "void", "while",
+        "with", "yield",
+    ];
+    RESERVED.contains(&name)
+}
+
+/// whether generated functions refer to something else by this name
+pub fn is_used_by_client(name: &str) -> bool {
+    ["z", "request", "subscribe"].contains(&name)
+}
-- 
2.43.0


From 83fbe227ee9df8147c876afd55d2cca2e61e6052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 27/31] fix: types of one name in a namespace and names that
 are no identifiers are rejected

---
 derive/src/impl_enum/mod.rs |  2 +-
 derive/src/impl_struct.rs   |  2 +-
 derive/src/lib.rs           | 18 ++++++++++++++++--
 derive/src/ts.rs            | 13 ++++++-------
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 2227309..ead58b4 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -69,7 +69,7 @@ impl<'a> Enum<'a> {
         let docs = &self.docs;
         let schema = self.expand_schema();
         let type_def = self.expand_typ_defs();
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         if let Some(t) = &self.from_ty {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 306f93d..c98db68 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -95,7 +95,7 @@ impl<'a> Struct<'a> {
         let name = &self.name;
         let docs = &self.docs;
 
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         let zod = get_zod();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index e78555a..5fcef1d 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -17,7 +17,7 @@ mod ts;
 use darling::{ast::Data, FromDeriveInput};
 use docs::RustDocs;
 use proc_macro::TokenStream;
-use proc_macro_error::proc_macro_error;
+use proc_macro_error::{abort, proc_macro_error};
 use quote::{format_ident, quote_spanned};
 use serde_derive_internals::Derive;
 use syn::{Ident, Path};
@@ -177,9 +177,23 @@ fn format_ident_for_registration(p: &syn::Path) -> syn::Path {
 }
 
 /// Prevent duplicate interfaces
-fn expand_type_registration(ident: &Ident, ns_path: &Path) -> proc_macro2::TokenStream {
+fn expand_type_registration(ident: &Ident, ns_path: &Path, name: &str) -> proc_macro2::TokenStream {
     let register_path = format_ident_for_registration(ns_path);
 
+    if !ts::is_identifier(name) || ts::is_reserved(name) || ts::is_used_by_client(name) {
+        abort!(
+            ident.span(),
+            "zod: `{}` can not be the name of a type of the client",
+            name
+        )
+    }
+
+    // the type may be renamed
+    let ident = match *ident == name {
+        true => ident.clone(),
+        false => format_ident!("r#{}", name, span = ident.span()),
+    };
+
     quote_spanned! {ident.span() =>
         impl #register_path {
             #[allow(dead_code)]
diff --git a/derive/src/ts.rs b/derive/src/ts.rs
index e0e0b4d..b022d42 100644
--- a/derive/src/ts.rs
+++ b/derive/src/ts.rs
@@ -2,19 +2,18 @@
 
 /// The name of a member of an object. Names that are no identifiers are quoted.
 pub fn member_name(name: &str) -> String {
-    let mut chars = name.chars();
-    let is_ident = chars
-        .next()
-        .map_or(false, |c| c.is_ascii_alphabetic() || c == '_' || c == '$')
-        && chars.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$');
-
-    if is_ident {
+    if is_identifier(name) {
         name.to_string()
     } else {
         string_literal(name)
     }
 }
 
+pub fn is_identifier(name: &str) -> bool {
+    name.chars().all(|c| c.is_alphanumeric() || c == '_')
+        && syn::parse_str::<syn::Ident>(&format!("r#{}", name)).is_ok()
+}
+
 pub fn string_literal(value: &str) -> String {
     let mut out = String::from("\"");
     for c in value.chars() {
-- 
2.43.0


From 02a23a6a62b38e7d9cc9eb3717e0af7d8895bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 28/31] fix: sets and maps among the arguments are sent as
 arrays and objects

---
 src/rpc/clients/static/websocket_client.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index f156090..e9517a1 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -150,6 +150,13 @@ type Store<T> = {
 const CONNECTION = websocketStore(WS_ADDR);
 let req_id = 0;
 
+// JSON knows neither sets nor maps; in Rust they are read from arrays and objects
+function jsonReplacer(_key: string, value: unknown): unknown {
+  if (value instanceof Set) return [...value];
+  if (value instanceof Map) return Object.fromEntries(value);
+  return value;
+}
+
 function execute({
   req_id,
   method,
@@ -161,7 +168,10 @@ function execute({
   method: string;
   args: any[];
 }): string {
-  return JSON.stringify({ exec: { id: req_id, method, namespace, args } });
+  return JSON.stringify(
+    { exec: { id: req_id, method, namespace, args } },
+    jsonReplacer
+  );
 }
 
 export function subscribe<T>(
-- 
2.43.0


From 7bce15027d86a321223ad19713dca9ebe620d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 29/31] fix: namespaces of a backend whose paths end in the
 same name

---
 derive/src/rpc/backend_impl.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2db2d97..62358c1 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -1,6 +1,6 @@
 use darling::ast::Fields;
 use proc_macro2::TokenStream;
-use syn::{parse_quote, spanned::Spanned, Ident, Path};
+use syn::{spanned::Spanned, Ident};
 
 use crate::rpc::args::{BackendField, BackendInput};
 use crate::{get_private, get_zod};
@@ -82,14 +82,14 @@ fn expand_backend_impl(
 pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
     let zod = get_zod();
     let __private = get_private();
-    let req_variants = fields.iter().map(|f| {
+    let req_variants = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
-    let req_from_namespace = fields.iter().map(|f| {
+    let req_from_namespace = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         quote_spanned!(ty.span() => <#ty as #zod::Namespace>::NAME => {
             #__private::serde_json::from_value(req.value).map(Self::#variant_ident)
         })
@@ -141,7 +141,7 @@ pub fn expand_req_enum_impl(
 
     let req_call_dispatch = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         let field_or_index = f.ident.clone().map(|ident| quote!(#ident)).unwrap_or_else(|| {
             let index = syn::Index::from(index);
             quote!(#index)
@@ -167,7 +167,7 @@ pub fn expand_req_enum_impl(
     }
 }
 
-fn variant_ident_from_ty(ty: &syn::Type) -> Ident {
-    let p: Path = parse_quote!(#ty);
-    p.segments.last().expect("one segment").ident.clone()
+/// The last segments of the paths of two namespaces may be the same.
+fn variant_ident(index: usize) -> Ident {
+    format_ident!("Namespace{}", index)
 }
-- 
2.43.0


From 6c037df6709d744aba55137ed0436b904ae4627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 30/31] fix: two namespaces of one name in a backend are
 rejected

---
 core/src/rpc/server.rs         | 25 +++++++++++++++++++++++++
 derive/src/rpc/backend_impl.rs | 16 ++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/core/src/rpc/server.rs b/core/src/rpc/server.rs
index fa4bed7..9d80e02 100644
--- a/core/src/rpc/server.rs
+++ b/core/src/rpc/server.rs
@@ -158,3 +158,28 @@ pub trait Backend {
         subscribers: &mut SubscriberMap,
     );
 }
+
+/// Whether no two of the names are the same. Used by the `Backend` derive.
+#[doc(hidden)]
+pub const fn are_unique(names: &[&str]) -> bool {
+    let mut i = 0;
+    while i < names.len() {
+        let mut j = i + 1;
+        while j < names.len() {
+            if is_same(names[i].as_bytes(), names[j].as_bytes()) {
+                return false;
+            }
+            j += 1;
+        }
+        i += 1;
+    }
+    true
+}
+
+const fn is_same(a: &[u8], b: &[u8]) -> bool {
+    let mut i = 0;
+    while i < a.len() && i < b.len() && a[i] == b[i] {
+        i += 1;
+    }
+    i == a.len() && i == b.len()
+}
diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 62358c1..ee5e16b 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -12,6 +12,7 @@ pub fn expand(input: BackendInput, fields: Fields<BackendField>) -> TokenStream
     let req_ident = format_ident!("{}Req", ident);
 
     let backend_impl = expand_backend_impl(&ident, &req_ident, &fields);
+    let unique_names = expand_unique_names(&ident);
     let req_enum = expand_req_enum(&req_ident, &fields);
     let req_enum_impl = expand_req_enum_impl(&ident, &req_ident, &fields);
 
@@ -19,6 +20,8 @@ pub fn expand(input: BackendInput, fields: Fields<BackendField>) -> TokenStream
         const _: () = {
             #backend_impl
 
+            #unique_names
+
             #req_enum
 
             #req_enum_impl
@@ -79,6 +82,19 @@ fn expand_backend_impl(
     }
 }
 
+/// Requests name the namespace they are meant for.
+fn expand_unique_names(ident: &Ident) -> TokenStream {
+    let __private = get_private();
+
+    quote_spanned! {
+        ident.span() =>
+        const _: () = ::std::assert!(
+            #__private::server::are_unique(<#ident as #__private::server::Backend>::NS_NAMES),
+            "zod: the namespaces of a backend must have different names"
+        );
+    }
+}
+
 pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
     let zod = get_zod();
     let __private = get_private();
-- 
2.43.0


From f5dfca3e8efa94c4cc80384e6493cb6824173bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 31/31] fix: namespaces whose names the client can not declare
 are rejected

---
 derive/src/impl_namespace.rs | 16 +++++++++++++---
 derive/src/ts.rs             | 12 ++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_namespace.rs b/derive/src/impl_namespace.rs
index 629d944..52c7253 100644
--- a/derive/src/impl_namespace.rs
+++ b/derive/src/impl_namespace.rs
@@ -1,13 +1,23 @@
-use crate::{args, format_ident_for_registration, get_zod};
+use crate::{args, format_ident_for_registration, get_zod, ts};
+use proc_macro_error::abort;
 use quote::quote;
-use syn::parse_quote;
+use syn::{ext::IdentExt, parse_quote};
 
 pub fn expand(
     input: args::NamespaceInput,
     docs: crate::docs::RustDocs,
 ) -> proc_macro2::TokenStream {
     let ident = input.ident;
-    let name = input.name.unwrap_or_else(|| ident.to_string());
+    let name = input.name.unwrap_or_else(|| ident.unraw().to_string());
+
+    if !ts::is_identifier(&name) || ts::is_reserved(&name) || ts::is_declared_by_client(&name) {
+        abort!(
+            ident.span(),
+            "zod: `{}` can not be the name of a namespace of the client",
+            name
+        )
+    }
+
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let p = parse_quote!(#ident);
diff --git a/derive/src/ts.rs b/derive/src/ts.rs
index b022d42..7367b2c 100644
--- a/derive/src/ts.rs
+++ b/derive/src/ts.rs
@@ -50,3 +50,15 @@ pub fn is_reserved(name: &str) -> bool {
 pub fn is_used_by_client(name: &str) -> bool {
     ["z", "request", "subscribe"].contains(&name)
 }
+
+/// whether the client declares something of this name, or refers to something global by it, next to the
+/// namespaces
+pub fn is_declared_by_client(name: &str) -> bool {
+    #[rustfmt::skip]
+    const NAMES: &[&str] = &[
+        "WS_ADDR", "reopenTimeouts", "websocketStore", "CONNECTION", "req_id", "jsonReplacer",
+        "execute", "JSON", "Map", "Object", "Promise", "Set", "WebSocket", "clearTimeout",
+        "console", "performance", "setTimeout",
+    ];
+    is_used_by_client(name) || NAMES.contains(&name)
+}
-- 
2.43.0

