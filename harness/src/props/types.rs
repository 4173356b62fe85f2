//! Ready-made capability sets and the runtime helpers (C43).
use crate::core::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};
use pmcp::shared::runtime;
use pmcp::types::capabilities::*;
use proptest::collection::{hash_map, vec};
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::time::Duration;

type Lc = Option<Option<bool>>;
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Caps {
    tools: Lc,
    prompts: Lc,
    resources: Option<(Option<bool>, Option<bool>)>,
    logging: Option<Option<Vec<String>>>,
    sampling: Option<Option<Vec<String>>>,
    roots: Option<bool>,
    completions: bool,
    experimental: Option<std::collections::HashMap<String, Value>>,
}
fn caps() -> BoxedStrategy<Caps> {
    let lc = || option::of(option::of(any::<bool>()));
    let names = || option::of(option::of(vec(text(), 0..3)));
    (lc(), lc(), option::of((option::of(any::<bool>()), option::of(any::<bool>()))), names(), names(), option::of(any::<bool>()), any::<bool>(), option::of(hash_map(text(), jval(), 0..3)))
        .prop_map(|(tools, prompts, resources, logging, sampling, roots, completions, experimental)| Caps { tools, prompts, resources, logging, sampling, roots, completions, experimental })
        .boxed()
}
fn put<T: Serialize>(k: &str, v: &Option<T>) -> Value {
    let mut m = Map::new();
    if let Some(v) = v {
        m.insert(k.into(), json!(v));
    }
    Value::Object(m)
}
impl Caps {
    /// The JSON the specification gives this set on `client`'s or the server's side.
    fn wire(&self, client: bool) -> Value {
        let mut o = Map::new();
        let mut add = |k: &str, v: Option<Value>| {
            if let Some(v) = v {
                o.insert(k.into(), v);
            }
        };
        add("tools", self.tools.as_ref().map(|x| put("listChanged", x)));
        add("prompts", self.prompts.as_ref().map(|x| put("listChanged", x)));
        add(
            "resources",
            self.resources.as_ref().map(|(s, l)| {
                let mut v = put("subscribe", s);
                if let Some(l) = l {
                    v["listChanged"] = json!(l);
                }
                v
            }),
        );
        add("logging", self.logging.as_ref().map(|x| put("levels", x)));
        add("sampling", self.sampling.as_ref().map(|x| put("models", x)));
        if client {
            add("roots", self.roots.map(|b| json!({"listChanged": b})));
        } else {
            add("completions", self.completions.then(|| json!({})));
        }
        add("experimental", self.experimental.as_ref().map(|x| json!(x)));
        Value::Object(o)
    }
    fn client(&self) -> ClientCapabilities {
        ClientCapabilities {
            tools: self.tools.map(|list_changed| ToolCapabilities { list_changed }),
            prompts: self.prompts.map(|list_changed| PromptCapabilities { list_changed }),
            resources: self.resources.map(|(subscribe, list_changed)| ResourceCapabilities { subscribe, list_changed }),
            logging: self.logging.clone().map(|levels| LoggingCapabilities { levels }),
            sampling: self.sampling.clone().map(|models| SamplingCapabilities { models }),
            roots: self.roots.map(|list_changed| RootsCapabilities { list_changed }),
            experimental: self.experimental.clone(),
        }
    }
    fn server(&self) -> ServerCapabilities {
        ServerCapabilities {
            tools: self.tools.map(|list_changed| ToolCapabilities { list_changed }),
            prompts: self.prompts.map(|list_changed| PromptCapabilities { list_changed }),
            resources: self.resources.map(|(subscribe, list_changed)| ResourceCapabilities { subscribe, list_changed }),
            logging: self.logging.clone().map(|levels| LoggingCapabilities { levels }),
            completions: self.completions.then(CompletionCapabilities::default),
            sampling: self.sampling.clone().map(|models| SamplingCapabilities { models }),
            experimental: self.experimental.clone(),
        }
    }
}
fn js<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap_or(Value::Null)
}

/// What a ready-made set must say: every feature it names, with its notifications on.
fn ready() -> Vec<(&'static str, Value, Value)> {
    let (t, r) = (json!({"listChanged": true}), json!({"subscribe": true, "listChanged": true}));
    vec![
        ("client minimal", js(&ClientCapabilities::minimal()), json!({})),
        (
            "client full",
            js(&ClientCapabilities::full()),
            json!({"tools": t, "prompts": t, "resources": r, "logging": {"levels": ["debug", "info", "warning", "error"]}, "sampling": {}, "roots": t}),
        ),
        ("client default", js(&ClientCapabilities::default()), json!({})),
        ("server minimal", js(&ServerCapabilities::minimal()), json!({})),
        ("server default", js(&ServerCapabilities::default()), json!({})),
        ("server tools_only", js(&ServerCapabilities::tools_only()), json!({"tools": t})),
        ("server prompts_only", js(&ServerCapabilities::prompts_only()), json!({"prompts": t})),
        ("server resources_only", js(&ServerCapabilities::resources_only()), json!({"resources": r})),
    ]
}

fn sets(c: &mut Ctx) {
    c.check(sub("sets", 10_000, "at least one feature is present and one absent"), caps, |k: &Caps| -> CaseResult {
        let (cw, sw) = (k.wire(true), k.wire(false));
        let (cl, sv) = (k.client(), k.server());
        ensure!(same(&js(&cl), &cw), "client-wire", "{} for {cw}", js(&cl));
        ensure!(same(&js(&sv), &sw), "server-wire", "{} for {sw}", js(&sv));
        // The peer sees what was declared, whether it reads it from text or from a value.
        let cb: ClientCapabilities = serde_json::from_str(&cw.to_string()).map_err(|e| Fail::new("client-parse", format!("{e}: {cw}")))?;
        let sb: ServerCapabilities = serde_json::from_str(&sw.to_string()).map_err(|e| Fail::new("server-parse", format!("{e}: {sw}")))?;
        ensure!(same(&js(&cb), &cw), "client-parse", "{} for {cw}", js(&cb));
        ensure!(same(&js(&sb), &sw), "server-parse", "{} for {sw}", js(&sb));
        for (w, c) in [("built", &cl), ("parsed", &cb)] {
            let got = [c.supports_tools(), c.supports_prompts(), c.supports_resources(), c.supports_sampling()];
            ensure_eq!(got, ["tools", "prompts", "resources", "sampling"].map(|f| cw.get(f).is_some()), "client-predicate", "{w} {cw}");
        }
        for (w, s) in [("built", &sv), ("parsed", &sb)] {
            let got = [s.provides_tools(), s.provides_prompts(), s.provides_resources()];
            ensure_eq!(got, ["tools", "prompts", "resources"].map(|f| sw.get(f).is_some()), "server-predicate", "{w} {sw}");
        }
        // A ready-made set overlaid with these features is these features and its own.
        for (n, got, want) in ready() {
            ensure!(same(&got, &want), format!("ready-{}", n.replace(' ', "-")), "{n}: {got}, expected {want}");
        }
        let mut f = ClientCapabilities::full();
        f.tools = cl.tools.clone();
        ensure_eq!(f.supports_tools(), k.tools.is_some(), "overlay", "{f:?}");
        let n = cw.as_object().map_or(0, Map::len);
        Ok(Info::nt(n > 0 && n < 7).label(k.experimental.is_some(), "experimental").label(k.tools == Some(None), "empty feature object"))
    });
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Rt {
    tasks: Vec<(u32, bool)>,
    blocking: Vec<(i64, bool)>,
    sleeps: Vec<u64>,
}
fn runtime_sub(c: &mut Ctx) {
    let st = || (vec((0u32..50, any::<bool>()), 0..8), vec((any::<i64>(), proptest::bool::weighted(0.3)), 0..4), vec(0u64..5_000, 0..4)).prop_map(|(tasks, blocking, sleeps)| Rt { tasks, blocking, sleeps }).boxed();
    c.check(sub("runtime", 1500, "at least two spawned tasks or a sleep"), st, |k: &Rt| -> CaseResult {
        let ran: Vec<Arc<AtomicU32>> = k.tasks.iter().map(|_| Arc::new(AtomicU32::new(0))).collect();
        let r: Result<(), Fail> = vrt(async {
            for (i, (d, yielding)) in k.tasks.iter().enumerate() {
                let (c, d, y) = (ran[i].clone(), *d, *yielding);
                runtime::spawn(async move {
                    if y {
                        tokio::task::yield_now().await;
                    }
                    runtime::sleep(Duration::from_millis(d.into())).await;
                    c.fetch_add(1, Ordering::SeqCst);
                });
            }
            let t0 = tokio::time::Instant::now();
            for d in &k.sleeps {
                let (a, ms) = (tokio::time::Instant::now(), Duration::from_millis(*d));
                runtime::sleep(ms).await;
                let e = a.elapsed();
                ensure!(e >= ms && e <= ms + Duration::from_millis(2), "sleep", "slept {e:?} for {ms:?}");
            }
            let sum: u64 = k.sleeps.iter().sum();
            ensure!(t0.elapsed() >= Duration::from_millis(sum), "sleep", "{:?} for {sum} ms", t0.elapsed());
            tokio::time::sleep(Duration::from_millis(60)).await;
            for (i, c) in ran.iter().enumerate() {
                ensure_eq!(c.load(Ordering::SeqCst), 1, "spawn", "task {i} of {:?}", k.tasks);
            }
            Ok(())
        });
        r?;
        let r: Result<(), Fail> = rrt(async {
            let hs: Vec<_> = k
                .blocking
                .iter()
                .map(|(v, boom)| {
                    let (v, boom) = (*v, *boom);
                    runtime::spawn_blocking(move || {
                        if boom {
                            std::panic::panic_any("boom");
                        }
                        v
                    })
                })
                .collect();
            for (h, (v, boom)) in hs.into_iter().zip(&k.blocking) {
                match h.await {
                    Ok(x) if !*boom => ensure_eq!(x, *v, "blocking", "result"),
                    Err(e) if *boom => ensure!(!e.to_string().is_empty(), "blocking", "empty error"),
                    o => fail!("blocking", "{o:?} for {v} panicking {boom}"),
                }
            }
            Ok(())
        });
        r?;
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default().as_millis() as u64;
        let (a, t, b) = (now(), runtime::timestamp_millis(), now());
        // The wall clock may be stepped between the readings; only a different unit or epoch is an error.
        ensure!(t + 60_000 >= a.min(b) && t <= a.max(b) + 60_000, "timestamp", "{t} between {a} and {b}");
        Ok(Info::nt(k.tasks.len() > 1 || !k.sleeps.is_empty()).label(k.blocking.iter().any(|b| b.1), "panicking job"))
    });
}

pub fn c43(c: &mut Ctx) {
    sets(c);
    runtime_sub(c);
}
