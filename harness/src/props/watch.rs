//! C39: resource watching, in scratch directories and real time.
use super::misc::Scratch;
use crate::core::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};
use pmcp::server::resource_watcher::{ResourceWatcher, ResourceWatcherBuilder, WatchConfig};
use pmcp::types::protocol::{ResourceInfo, ServerNotification};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use tokio::sync::mpsc;

/// Every file a history can touch; their directories exist from the start.
const FILES: [&str; 14] = [
    "a.txt",
    "b.txt",
    "c.md",
    "ab.txt",
    "d1/a.txt",
    "d1/x.txt",
    "d1/e/x.txt",
    "d2/b.md",
    "d2/e/a.txt",
    "node_modules/m.txt",
    "d1/target/t.txt",
    ".git/c",
    ".DS_Store",
    "d2/.DS_Store",
];
const GLOBS: [&str; 22] = [
    "**/*",
    "*.txt",
    "*",
    "**/*.txt",
    "d1/*",
    "d1/**",
    "**/x.txt",
    "d?/**",
    "d?/*.md",
    "d1/**/x.txt",
    "[ab].txt",
    "a*.txt",
    "**/e/**",
    "*.{txt,md}",
    "a.txt",
    "d2/b.md",
    "**/.DS_Store",
    "**/target/**",
    "**/.git/**",
    "**/node_modules/**",
    "[!a].txt",
    "nothing",
];

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Write(usize),
    Append(usize),
    Delete(usize),
    Rename(usize, usize),
    CreateDelete(usize),
    Read(usize),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    /// changes made without a pause
    Burst(Vec<Op>),
    /// changes to one file with pauses shorter than the debounce time
    Spread(usize, u8, u8),
    Add(usize),
    Remove(usize),
    /// changes to many other files, then to one
    Big(u16, usize),
    /// stopped, a burst, started again
    Restart(Vec<Op>),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    debounce: u64,
    /// patterns and ignored patterns added by the builder, or set in a configuration
    builder: bool,
    patterns: Vec<usize>,
    ignores: Vec<usize>,
    base: u8,
    capacity: usize,
    exist: Vec<usize>,
    registered: Vec<usize>,
    /// a start on a directory that is not there comes first
    missing: bool,
    steps: Vec<Step>,
}
fn file() -> BoxedStrategy<usize> {
    prop_oneof![4 => 0usize..5, 3 => 0usize..FILES.len()].boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => file().prop_map(Op::Write),
        3 => file().prop_map(Op::Append),
        3 => file().prop_map(Op::Delete),
        3 => (file(), file()).prop_map(|(a, b)| Op::Rename(a, b)),
        1 => file().prop_map(Op::CreateDelete),
        2 => file().prop_map(Op::Read),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let step = prop_oneof![
        8 => vec(op(), 1..6).prop_map(Step::Burst),
        3 => (file(), 2u8..5, 30u8..60).prop_map(|(f, n, g)| Step::Spread(f, n, g)),
        2 => file().prop_map(Step::Add),
        2 => file().prop_map(Step::Remove),
        1 => (300u16..1500, file()).prop_map(|(n, f)| Step::Big(n, f)),
        2 => vec(op(), 1..4).prop_map(Step::Restart),
    ];
    (
        (
            prop_oneof![2 => 0u64..60, 3 => 200u64..450],
            prop::bool::weighted(0.4),
            prop_oneof![2 => Just(vec![0]), 3 => vec(0..GLOBS.len(), 1..4), 1 => Just(vec![])],
            prop_oneof![2 => Just(vec![]), 3 => vec(0..GLOBS.len(), 1..3)],
            0u8..4,
            prop::sample::select(vec![1usize, 2, 100]),
        ),
        vec(file(), 0..8),
        vec(file(), 1..8),
        prop::bool::weighted(0.1),
        vec(step, 2..6),
    )
        .prop_map(|((debounce, builder, patterns, ignores, base, capacity), exist, registered, missing, steps)| Case {
            debounce,
            builder,
            patterns,
            ignores,
            base,
            capacity,
            exist,
            registered,
            missing,
            steps,
        })
        .boxed()
}
/// Glob patterns by path segments: `**` is any number of segments, `*` and `?`
/// stay within one, `[..]` is a set, `{a,b}` alternatives.
fn glob(p: &str, path: &str) -> bool {
    if let (Some(o), Some(e)) = (p.find('{'), p.find('}')) {
        return p[o + 1..e].split(',').any(|alt| glob(&format!("{}{alt}{}", &p[..o], &p[e + 1..]), path));
    }
    fn seg(p: &[char], s: &[char]) -> bool {
        match (p.first(), s.first()) {
            (None, None) => true,
            (None, _) => false,
            (Some('*'), _) => (0..=s.len()).any(|k| seg(&p[1..], &s[k..])),
            (Some('['), Some(c)) => {
                let e = p.iter().position(|c| *c == ']').unwrap();
                let (neg, set) = if p[1] == '!' { (true, &p[2..e]) } else { (false, &p[1..e]) };
                set.contains(c) != neg && seg(&p[e + 1..], &s[1..])
            }
            (Some('?'), Some(_)) => seg(&p[1..], &s[1..]),
            (Some(a), Some(b)) => a == b && seg(&p[1..], &s[1..]),
            (Some(_), None) => false,
        }
    }
    fn segs(p: &[&str], s: &[&str]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some(&"**") => (0..=s.len()).any(|k| segs(&p[1..], &s[k..]) && (k < s.len() || p.len() > 1 || !s.is_empty())),
            Some(x) => !s.is_empty() && seg(&x.chars().collect::<Vec<_>>(), &s[0].chars().collect::<Vec<_>>()) && segs(&p[1..], &s[1..]),
        }
    }
    segs(&p.split('/').collect::<Vec<_>>(), &path.split('/').collect::<Vec<_>>())
}
struct Run {
    dir: PathBuf,
    debounce: Duration,
    rx: mpsc::Receiver<ServerNotification>,
    n: u32,
}
impl Run {
    fn exists(&self, f: usize) -> bool {
        self.dir.join(FILES[f]).exists()
    }
    /// Applies one change; the files it touched.
    fn apply(&mut self, o: &Op) -> Vec<usize> {
        use std::io::Write;
        self.n += 1;
        let at = |f: usize| self.dir.join(FILES[f]);
        match *o {
            Op::Write(f) => {
                std::fs::write(at(f), format!("content {}", self.n)).unwrap();
                vec![f]
            }
            Op::Append(f) => {
                std::fs::OpenOptions::new().append(true).create(true).open(at(f)).unwrap().write_all(b"more").unwrap();
                vec![f]
            }
            Op::Delete(f) if self.exists(f) => {
                std::fs::remove_file(at(f)).unwrap();
                vec![f]
            }
            Op::Rename(f, g) if self.exists(f) && f != g => {
                std::fs::rename(at(f), at(g)).unwrap();
                vec![f, g]
            }
            Op::CreateDelete(f) if !self.exists(f) => {
                std::fs::write(at(f), b"short-lived").unwrap();
                std::fs::remove_file(at(f)).unwrap();
                vec![f]
            }
            Op::Read(f) if self.exists(f) => {
                std::fs::read(at(f)).unwrap();
                vec![]
            }
            _ => vec![],
        }
    }
    fn name(&self, n: &ServerNotification) -> Result<usize, Fail> {
        let ServerNotification::ResourceUpdated(p) = n else { fail!("wrong-kind", "notification {n:?}") };
        for (i, f) in FILES.iter().enumerate() {
            if p.uri == uri(&self.dir, f) {
                return Ok(i);
            }
        }
        fail!("wrong-uri", "an update for {:?}, none of the files of {:?}", p.uri, self.dir)
    }
    /// The updates that come: waits for each expected one, then for a quiet time.
    async fn collect(&mut self, want: &BTreeSet<usize>) -> Result<Vec<(usize, Instant)>, Fail> {
        let mut got: Vec<(usize, Instant)> = vec![];
        let end = Instant::now() + Duration::from_secs(6);
        while !want.iter().all(|f| got.iter().any(|(g, _)| g == f)) {
            let Ok(n) = tokio::time::timeout_at(end.into(), self.rx.recv()).await else { break };
            let Some(n) = n else { fail!("channel-closed", "the watcher dropped its channel") };
            got.push((self.name(&n)?, Instant::now()));
        }
        let quiet = self.debounce + Duration::from_millis(200);
        while let Ok(Some(n)) = tokio::time::timeout(quiet, self.rx.recv()).await {
            got.push((self.name(&n)?, Instant::now()));
        }
        Ok(got)
    }
}
fn uri(dir: &Path, f: &str) -> String {
    format!("file://{}/{f}", dir.display())
}
fn info(u: &str, name: &str) -> ResourceInfo {
    ResourceInfo { uri: u.to_string(), name: name.to_string(), description: None, mime_type: None }
}
async fn history(c: &Case) -> CaseResult {
    let s = Scratch::new("c39");
    // c39() makes the parent of the scratch directories the working directory
    let leaf = s.0.file_name().unwrap().to_str().unwrap().to_string();
    let spelled = match c.base {
        0 | 1 => s.0.clone(),
        2 => PathBuf::from(&leaf),
        _ => PathBuf::from(format!("./{leaf}")),
    };
    let (tx, rx) = mpsc::channel(c.capacity);
    let debounce = Duration::from_millis(c.debounce);
    let globs = |v: &[usize]| v.iter().map(|i| GLOBS[*i].to_string()).collect::<Vec<_>>();
    let (mut pats, mut ignores) = (globs(&c.patterns), globs(&c.ignores));
    let watcher: Result<ResourceWatcher, _> = if c.builder {
        let mut b = ResourceWatcherBuilder::new().base_dir(&spelled).debounce(debounce);
        for p in &pats {
            b = b.pattern(p.clone());
        }
        for p in &ignores {
            b = b.ignore(p.clone());
        }
        let d = WatchConfig::default();
        pats.extend(d.patterns);
        ignores.extend(d.ignore_patterns);
        b.build(tx)
    } else {
        let cfg = WatchConfig { debounce, patterns: pats.clone(), ignore_patterns: ignores.clone(), ..Default::default() };
        Ok(ResourceWatcher::new(&spelled, cfg, tx))
    };
    let mut w = watcher.map_err(|e| Fail::new("build", format!("{e}")))?;
    if c.missing {
        std::fs::remove_dir(&s.0).unwrap();
        ensure!(w.start().await.is_err(), "start-missing", "a watch on a directory that is not there started");
        std::fs::create_dir(&s.0).unwrap();
    }
    let mut r = Run { dir: s.0.clone(), debounce, rx, n: 0 };
    for f in FILES {
        std::fs::create_dir_all(s.0.join(f).parent().unwrap()).unwrap();
    }
    for f in &c.exist {
        std::fs::write(s.0.join(FILES[*f]), b"before").unwrap();
    }
    let watched: Vec<bool> = FILES.iter().map(|f| pats.iter().any(|p| glob(p, f)) && !ignores.iter().any(|p| glob(p, f))).collect();
    let mut reg: BTreeSet<usize> = c.registered.iter().copied().collect();
    for f in &reg {
        let u = uri(&s.0, FILES[*f]);
        w.add_resource(u.clone(), info(&u, FILES[*f])).await.map_err(|e| Fail::new("add", format!("{e}")))?;
    }
    w.start().await.map_err(|e| Fail::new("start", format!("{e}")))?;
    let (mut hits, mut silent, mut merged, mut lone, mut restarts) = (0usize, 0usize, 0usize, 0usize, 0usize);
    for (k, st) in c.steps.iter().enumerate() {
        let mut touched: BTreeMap<usize, (usize, Instant)> = BTreeMap::new();
        let note = |t: &mut BTreeMap<usize, (usize, Instant)>, fs: Vec<usize>, at: Instant| {
            for f in fs {
                let e = t.entry(f).or_insert((0, at));
                *e = (e.0 + 1, at);
            }
        };
        let begin = Instant::now();
        // whether every pause was well within the debounce time
        let mut tight = true;
        match st {
            Step::Burst(ops) => {
                for o in ops {
                    let at = Instant::now();
                    let fs = r.apply(o);
                    note(&mut touched, fs, at);
                }
                tight = begin.elapsed() * 2 < debounce;
            }
            Step::Spread(f, n, gap) => {
                let mut last = begin;
                for i in 0..*n {
                    if i > 0 {
                        tokio::time::sleep(debounce * u32::from(*gap) / 100).await;
                    }
                    let at = Instant::now();
                    let fs = r.apply(&Op::Write(*f));
                    note(&mut touched, fs, at);
                    tight &= last.elapsed() * 10 < debounce * 7 && debounce >= Duration::from_millis(200);
                    last = at;
                }
            }
            Step::Add(f) => {
                let u = uri(&s.0, FILES[*f]);
                w.add_resource(u.clone(), info(&u, FILES[*f])).await.map_err(|e| Fail::new("add", format!("{e}")))?;
                reg.insert(*f);
            }
            Step::Remove(f) => {
                w.remove_resource(&uri(&s.0, FILES[*f])).await.map_err(|e| Fail::new("remove", format!("{e}")))?;
                reg.remove(f);
            }
            Step::Big(n, f) => {
                for i in 0..*n {
                    std::fs::write(s.0.join(format!("d2/filler{i}.txt")), b"x").unwrap();
                }
                let at = Instant::now();
                let fs = r.apply(&Op::Write(*f));
                note(&mut touched, fs, at);
                tight = false;
            }
            Step::Restart(ops) => {
                w.stop().await;
                restarts += 1;
                // the watch ends on another task
                tokio::time::sleep(Duration::from_millis(100)).await;
                for o in ops {
                    r.apply(o);
                }
                let got = r.collect(&BTreeSet::new()).await?;
                ensure!(got.is_empty(), "timeout-after-stop", "step {k}: updates after stop: {:?}", names(&got));
                w.start().await.map_err(|e| Fail::new("restart", format!("{e}")))?;
                let at = Instant::now();
                let f = *reg.iter().next().unwrap_or(&0);
                let fs = r.apply(&Op::Write(f));
                note(&mut touched, fs, at);
                tight = false;
            }
        }
        let want: BTreeSet<usize> = touched.keys().copied().filter(|f| reg.contains(f) && watched[*f]).collect();
        let got = r.collect(&want).await?;
        for (f, at) in &got {
            let Some((_, last)) = touched.get(f) else { fail!("untouched", "step {k}: an update for {}, which nothing changed", FILES[*f]) };
            ensure!(reg.contains(f), "unregistered", "step {k}: an update for {}, which is not registered", FILES[*f]);
            ensure!(watched[*f], "not-watched", "step {k}: an update for {} (patterns {pats:?}, ignored {ignores:?})", FILES[*f]);
            if tight {
                ensure!(at.duration_since(*last) >= debounce, "timeout-early", "step {k}: update for {} {:?} after the last change, debounce {debounce:?}", FILES[*f], at.duration_since(*last));
            }
        }
        for f in &want {
            let n = got.iter().filter(|(g, _)| g == f).count();
            ensure!(n > 0, "timeout-missing", "step {k}: no update for {}: {st:?}, got {:?}", FILES[*f], names(&got));
            if tight {
                ensure!(n == 1, "timeout-twice", "step {k}: {n} updates for {} within the debounce time {debounce:?}: {st:?}", FILES[*f]);
            }
            merged += usize::from(tight && touched[f].0 > 1);
            hits += 1;
        }
        silent += touched.len() - want.len();
        lone += usize::from(touched.keys().any(|f| reg.contains(f) && !watched[*f]));
    }
    w.stop().await;
    Ok(Info::nt(hits > 0 && silent > 0)
        .label(merged > 0, "several changes of one file reported once")
        .label(lone > 0, "registered but ignored or outside the patterns")
        .label(restarts > 0, "stopped and started again")
        .label(c.base > 1, "relative base directory")
        .label(c.missing, "start on a missing directory")
        .label(c.steps.iter().any(|s| matches!(s, Step::Big(..))), "hundreds of files at once"))
}
fn names(g: &[(usize, Instant)]) -> Vec<&'static str> {
    g.iter().map(|(f, _)| FILES[*f]).collect()
}

// ---- the registry of watched resources
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Reg {
    max: Option<usize>,
    /// (add or remove, uri, name)
    ops: Vec<(bool, u8, String)>,
    base: bool,
}
fn run_reg(c: &Reg) -> CaseResult {
    let (tx, _rx) = mpsc::channel(1);
    let mut b = ResourceWatcherBuilder::new();
    if let Some(m) = c.max {
        b = b.max_resources(m);
    }
    if c.base {
        b = b.base_dir("/nonexistent/base");
    }
    let built = b.build(tx);
    if !c.base {
        ensure!(built.is_err(), "build-no-base", "a watcher without a base directory was built");
        return Ok(Info::nt(false));
    }
    let w = built.map_err(|e| Fail::new("build", format!("{e}")))?;
    let max = c.max.unwrap_or(10_000);
    let mut model: BTreeMap<String, String> = BTreeMap::new();
    let mut full = false;
    vrt(async {
        for (add, u, name) in &c.ops {
            let u = format!("file:///r/{u}");
            if *add {
                if model.len() >= max && model.contains_key(&u) {
                    continue; // replacing at the limit: left open
                }
                w.add_resource(u.clone(), info(&u, name)).await.map_err(|e| Fail::new("add", format!("{e}")))?;
                if model.len() < max {
                    model.insert(u, name.clone());
                } else {
                    full = true;
                }
            } else {
                w.remove_resource(&u).await.map_err(|e| Fail::new("remove", format!("{e}")))?;
                model.remove(&u);
            }
            let got: BTreeMap<String, String> = w.get_resources().await.into_iter().map(|r| (r.uri, r.name)).collect();
            ensure_eq!(got, model, "registry", "registered after {c:?}");
        }
        Ok(())
    })?;
    Ok(Info::nt(full || c.ops.len() > 3).label(full, "limit reached"))
}
fn reg() -> BoxedStrategy<Reg> {
    (prop::option::weighted(0.7, 0usize..5), vec((prop::bool::weighted(0.7), 0u8..8, name()), 0..12), prop::bool::weighted(0.95))
        .prop_map(|(max, ops, base)| Reg { max, ops, base })
        .boxed()
}
pub fn c39(c: &mut Ctx) {
    let old = std::env::current_dir().unwrap();
    std::env::set_current_dir(std::env::temp_dir()).unwrap();
    c.check(sub("registry", 3000, "the limit was reached, or more than three operations"), reg, run_reg);
    c.check(
        sub("watch", 480, "some changes are reported and some are not").io().workers(32),
        case,
        |c: &Case| rrt(history(c)),
    );
    std::env::set_current_dir(old).unwrap();
}
