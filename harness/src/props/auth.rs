//! C29 (OAuth provider), C30 (authentication middleware).
use crate::core::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};
use async_trait::async_trait;
use pmcp::error::{Error, ErrorCode};
use pmcp::server::auth::*;
use pmcp::types::auth::{AuthInfo, AuthScheme, OAuthInfo, PkceMethod};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::time::Duration;

// ---- C29 ----------------------------------------------------------------------------------------

/// which value a request presents: the right one, another one, or none
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Pr {
    Right,
    Wrong(u8),
    None_,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Tok {
    Access(usize),
    Refresh(usize),
    Code(usize),
    Unknown(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum O {
    Register { id: Option<u8>, secret: Option<String>, name: String, redirects: Vec<u8>, token_resp: u8, scopes: Vec<u8> },
    GetClient(u8),
    Authorize { client: u8, redirect: u8, resp: bool, scope: Vec<u8>, sep: u8 },
    Code { client: u8, user: String, redirect: u8, scopes: Vec<u8>, verifier: Option<String>, method: u8 },
    Exchange { code: Tok, client: Pr, redirect: Pr, verifier: Pr, grant: u8 },
    Create { client: u8, user: String, scopes: Vec<u8> },
    Refresh(Tok),
    Revoke(Tok),
    Check(Tok),
    Advance(u32),
}
const CLIENTS: [&str; 4] = ["app", "app2", "клиент", "a b"];
const REDIR: [&str; 4] = ["https://a.example/cb", "https://a.example/cb/", "https://A.example/cb", "myapp:/cb?x=1"];
const SCOPES: [&str; 5] = ["read", "write", "admin", "Read", "readwrite"];
const METHODS: [Option<&str>; 5] = [None, Some("plain"), Some("S256"), Some("s256"), Some("none")];
fn scopes(v: &[u8]) -> Vec<String> {
    v.iter().map(|i| SCOPES[*i as usize % 5].to_string()).collect()
}
fn challenge(verifier: &str, method: u8) -> String {
    if METHODS[method as usize] == Some("S256") {
        use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine as _};
        use sha2::{Digest, Sha256};
        URL_SAFE_NO_PAD.encode(Sha256::digest(verifier.as_bytes()))
    } else {
        verifier.to_string()
    }
}
#[derive(Debug, Clone, PartialEq)]
enum CodeSt {
    Live,
    /// an attempt with wrong credentials was made: whether that spends the code is left open
    Tried,
    Used,
}
#[derive(Debug, Clone)]
struct CodeM {
    client: u8,
    user: String,
    redirect: u8,
    scopes: Vec<String>,
    verifier: Option<String>,
    method: u8,
    from: i64,
    to: i64,
    st: CodeSt,
}
#[derive(Debug, Clone)]
struct Grant {
    client: String,
    user: String,
    scopes: Vec<String>,
    from: i64,
    to: i64,
    life: i64,
    dead: bool,
}
#[derive(Debug, Clone, Default)]
struct Model {
    codes: Vec<CodeM>,
    /// by issue number; the refresh token of the same number is spent when true
    grants: BTreeMap<usize, (Grant, bool)>,
}
/// what an operation visibly did
#[derive(Debug, Clone)]
enum Out {
    /// number, lifetime, scope
    Token(usize, i64, String),
    Ok,
    Err,
    Info { client: String, user: String, scopes: Vec<String>, expires: i64 },
}
fn right_exchange(c: &CodeM, o: &O) -> bool {
    match o {
        O::Exchange { client, redirect, verifier, grant, .. } => {
            *grant == 0
                && *client == Pr::Right
                && *redirect == Pr::Right
                && match (&c.verifier, verifier) {
                    (None, _) => true,
                    (Some(_), Pr::Right) => METHODS[c.method as usize].map_or(true, |m| m == "plain" || m == "S256"),
                    _ => false,
                }
        },
        _ => false,
    }
}
impl Model {
    /// Is `out` a possible outcome of `o` at a time in [a, b]? Updates the model accordingly.
    fn apply(&mut self, o: &O, out: &Out, (a, b): (i64, i64)) -> Result<(), String> {
        match o {
            O::Exchange { code, .. } => {
                let Tok::Code(i) = code else {
                    return if matches!(out, Out::Err) { Ok(()) } else { Err(format!("exchanging {code:?} succeeded")) };
                };
                let c = &mut self.codes[*i];
                let right = right_exchange(c, o);
                let fresh = b - c.from < 600;
                let stale = a - c.to > 600;
                match out {
                    Out::Token(n, life, said) => {
                        if *said != c.scopes.join(" ") {
                            return Err(format!("the token names scope {said:?}, granted {:?}", c.scopes));
                        }
                        if c.st == CodeSt::Used {
                            return Err("the code was redeemed before".into());
                        }
                        if !right {
                            return Err("redeemed with wrong credentials".into());
                        }
                        if stale {
                            return Err("redeemed after it expired".into());
                        }
                        c.st = CodeSt::Used;
                        let g = Grant { client: CLIENTS[c.client as usize].into(), user: c.user.clone(), scopes: c.scopes.clone(), from: a, to: b, life: *life, dead: false };
                        self.grants.insert(*n, (g, false));
                        Ok(())
                    },
                    Out::Err => {
                        if right && c.st == CodeSt::Live && fresh {
                            return Err("a correct redemption was refused".into());
                        }
                        if c.st == CodeSt::Live {
                            c.st = CodeSt::Tried;
                        }
                        Ok(())
                    },
                    _ => Err("unexpected".into()),
                }
            },
            O::Create { client, user, scopes: s } => match out {
                Out::Token(n, life, said) => {
                    if *said != scopes(s).join(" ") {
                        return Err(format!("the token names scope {said:?}, granted {s:?}"));
                    }
                    self.grants.insert(*n, (Grant { client: CLIENTS[*client as usize].into(), user: user.clone(), scopes: scopes(s), from: a, to: b, life: *life, dead: false }, false));
                    Ok(())
                },
                _ => Err("no token created".into()),
            },
            O::Refresh(t) => {
                // usable: unspent and its access token neither revoked nor replaced
                let usable = match t {
                    Tok::Refresh(i) => self.grants.get(i).filter(|g| !g.1 && !g.0.dead).map(|g| g.0.clone()),
                    _ => None,
                };
                match (usable, out) {
                    (Some(g), Out::Token(n, life, said)) => {
                        if *said != g.scopes.join(" ") {
                            return Err(format!("the token names scope {said:?}, granted {:?}", g.scopes));
                        }
                        let Tok::Refresh(i) = t else { unreachable!() };
                        let old = self.grants.get_mut(i).unwrap();
                        old.1 = true;
                        old.0.dead = true;
                        self.grants.insert(*n, (Grant { from: a, to: b, life: *life, ..g }, false));
                        Ok(())
                    },
                    (None, Out::Err) => Ok(()),
                    (Some(_), _) => Err("a live refresh token was refused".into()),
                    (None, _) => Err("a spent, revoked or unknown refresh token was accepted".into()),
                }
            },
            O::Revoke(t) => {
                match t {
                    Tok::Access(i) => self.grants.get_mut(i).map(|g| g.0.dead = true),
                    Tok::Refresh(i) => self.grants.get_mut(i).map(|g| {
                        if !g.1 {
                            g.1 = true;
                            g.0.dead = true;
                        }
                    }),
                    _ => None,
                };
                if matches!(out, Out::Ok) { Ok(()) } else { Err("revocation failed".into()) }
            },
            O::Check(t) => {
                let g = match t {
                    Tok::Access(i) => self.grants.get(i).filter(|g| !g.0.dead).map(|g| &g.0),
                    _ => None,
                };
                match (g, out) {
                    (None, Out::Err) => Ok(()),
                    (None, _) => Err("a token that is not in force validates".into()),
                    (Some(g), Out::Err) => if b - g.from < g.life { Err("a token in force is refused".into()) } else { Ok(()) },
                    (Some(g), Out::Info { client, user, scopes, expires }) => {
                        if a - g.to > g.life {
                            return Err("an expired token validates".into());
                        }
                        if *client != g.client || *user != g.user || *scopes != g.scopes {
                            return Err(format!("identity {client:?} {user:?} {scopes:?} for {g:?}"));
                        }
                        if *expires < g.from + g.life || *expires > g.to + g.life {
                            return Err(format!("expiry {expires} for {g:?}"));
                        }
                        Ok(())
                    },
                    _ => Err("unexpected".into()),
                }
            },
            _ => Ok(()),
        }
    }
}
#[derive(Default)]
struct Issued {
    codes: Vec<String>,
    tokens: BTreeMap<usize, (String, String)>,
}
impl Issued {
    fn tok(&self, t: &Tok) -> String {
        match t {
            Tok::Access(i) => self.tokens.get(i).map(|x| x.0.clone()),
            Tok::Refresh(i) => self.tokens.get(i).map(|x| x.1.clone()),
            Tok::Code(i) => self.codes.get(*i).cloned(),
            Tok::Unknown(0) => Some(String::new()),
            Tok::Unknown(k) => Some(format!("00000000-0000-4000-8000-00000000000{}", k % 10)),
        }
        .unwrap_or_else(|| "nothing".into())
    }
}
/// point a generated token reference at something that was issued
fn aim(t: Tok, codes: usize, tokens: &[usize]) -> Tok {
    let pick = |i: usize| tokens.get(if i < 1000 { i } else { (tokens.len()).wrapping_sub(1).wrapping_sub(i - 1000) }).copied();
    match t {
        Tok::Access(i) => pick(i).map_or(Tok::Unknown(1), Tok::Access),
        Tok::Refresh(i) => pick(i).map_or(Tok::Unknown(2), Tok::Refresh),
        Tok::Code(_) if codes == 0 => Tok::Unknown(3),
        Tok::Code(i) => Tok::Code(if i < 1000 { i % codes } else { codes - 1 - (i - 1000).min(codes - 1) }),
        u => u,
    }
}
fn token_request(m: &Model, iss: &Issued, o: &O) -> TokenRequest {
    let O::Exchange { code, client, redirect, verifier, grant } = o else { unreachable!() };
    let c = match code {
        Tok::Code(i) => Some(&m.codes[*i]),
        _ => None,
    };
    let pres = |p: &Pr, right: String, wrong: &[String]| match p {
        Pr::Right => Some(right),
        Pr::Wrong(k) => Some(wrong.iter().filter(|w| **w != right).nth(*k as usize % wrong.iter().filter(|w| **w != right).count().max(1)).cloned().unwrap_or_else(|| format!("{right}x"))),
        Pr::None_ => None,
    };
    let cl = c.map_or(0, |c| c.client) as usize;
    let rd = c.map_or(0, |c| c.redirect) as usize;
    let vf = c.and_then(|c| c.verifier.clone()).unwrap_or_default();
    let ch = c.map_or(String::new(), |c| challenge(&vf, c.method));
    TokenRequest {
        grant_type: [GrantType::AuthorizationCode, GrantType::RefreshToken, GrantType::ClientCredentials, GrantType::Password][*grant as usize % 4].clone(),
        code: if *code == Tok::Unknown(9) { None } else { Some(iss.tok(code)) },
        redirect_uri: pres(redirect, REDIR[rd].into(), &REDIR.map(String::from)),
        client_id: pres(client, CLIENTS[cl].into(), &CLIENTS.map(String::from)),
        client_secret: None,
        refresh_token: None,
        username: None,
        password: None,
        scope: None,
        code_verifier: pres(verifier, vf.clone(), &[format!("{vf} "), ch, String::new(), vf.to_uppercase(), vf.chars().skip(1).collect()]),
    }
}
/// run one operation and describe what it did
async fn perform(p: &InMemoryOAuthProvider, o: &O, req: Option<TokenRequest>, tok: String, n: usize) -> (Out, Option<(String, String)>) {
    let got = |r: pmcp::Result<AccessToken>| match r {
        Ok(t) => (Out::Token(n, t.expires_in.map_or(-1, |e| e as i64), t.scope.clone().unwrap_or_else(|| "none".into())), Some((t.access_token, t.refresh_token.unwrap_or_default()))),
        Err(_) => (Out::Err, None),
    };
    match o {
        O::Exchange { .. } => got(p.exchange_code(&req.unwrap()).await),
        O::Create { client, user, scopes: s } => got(p.create_access_token(CLIENTS[*client as usize], user, scopes(s)).await),
        O::Refresh(_) => got(p.refresh_token(&tok).await),
        O::Revoke(_) => (if p.revoke_token(&tok).await.is_ok() { Out::Ok } else { Out::Err }, None),
        O::Check(_) => (
            match p.validate_token(&tok).await {
                Ok(i) if i.token == tok => Out::Info { client: i.client_id, user: i.user_id, scopes: i.scopes, expires: i.expires_at as i64 },
                Ok(_) => Out::Ok,
                Err(_) => Out::Err,
            },
            None,
        ),
        _ => (Out::Ok, None),
    }
}
fn tok_ref(o: &O) -> Option<Tok> {
    match o {
        O::Refresh(t) | O::Revoke(t) | O::Check(t) => Some(*t),
        O::Exchange { code, .. } => Some(*code),
        _ => None,
    }
}
fn retarget(o: &O, m: &Model) -> O {
    let toks: Vec<usize> = m.grants.keys().copied().collect();
    let mut o = o.clone();
    match &mut o {
        O::Refresh(t) | O::Revoke(t) | O::Check(t) => *t = aim(*t, m.codes.len(), &toks),
        O::Exchange { code, .. } => *code = aim(*code, m.codes.len(), &toks),
        _ => {},
    }
    o
}
fn fresh(iss: &Issued, t: &(String, String)) -> bool {
    !t.0.is_empty() && !t.1.is_empty() && t.0 != t.1 && iss.tokens.values().all(|x| x.0 != t.0 && x.1 != t.1 && x.0 != t.1 && x.1 != t.0) && iss.codes.iter().all(|c| *c != t.0 && *c != t.1)
}
fn idx() -> BoxedStrategy<usize> {
    prop_oneof![3 => 0usize..6, 4 => 1000usize..1003].boxed()
}
fn tok() -> BoxedStrategy<Tok> {
    prop_oneof![6 => idx().prop_map(Tok::Access), 6 => idx().prop_map(Tok::Refresh), 1 => idx().prop_map(Tok::Code), 1 => (0u8..10).prop_map(Tok::Unknown)].boxed()
}
fn pr() -> BoxedStrategy<Pr> {
    prop_oneof![8 => Just(Pr::Right), 1 => (0u8..6).prop_map(Pr::Wrong), 1 => Just(Pr::None_)].boxed()
}
fn code_op() -> BoxedStrategy<O> {
    (0u8..4, text(), 0u8..4, vec(0u8..5, 0..4), option::of(text()), prop_oneof![2 => Just(0u8), 3 => Just(1u8), 4 => Just(2u8), 1 => 3u8..5])
        .prop_map(|(client, user, redirect, scopes, verifier, method)| O::Code { client, user, redirect, scopes, verifier, method })
        .boxed()
}
fn exchange() -> BoxedStrategy<O> {
    (prop_oneof![12 => idx().prop_map(Tok::Code), 1 => tok()], pr(), pr(), pr(), prop_oneof![12 => Just(0u8), 1 => 1u8..4]).prop_map(|(code, client, redirect, verifier, grant)| O::Exchange { code, client, redirect, verifier, grant }).boxed()
}
fn good_exchange() -> BoxedStrategy<O> {
    idx().prop_map(|i| O::Exchange { code: Tok::Code(i), client: Pr::Right, redirect: Pr::Right, verifier: Pr::Right, grant: 0 }).boxed()
}
fn create() -> BoxedStrategy<O> {
    (0u8..4, text(), vec(0u8..5, 0..4)).prop_map(|(client, user, scopes)| O::Create { client, user, scopes }).boxed()
}

pub fn c29(c: &mut Ctx) {
    let seq = || {
        let op = prop_oneof![
            2 => (option::weighted(0.8, 0u8..4), option::of(text()), text(), vec(0u8..4, 0..3), 0u8..4, vec(0u8..5, 0..3)).prop_map(|(id, secret, name, redirects, token_resp, scopes)| O::Register { id, secret, name, redirects, token_resp, scopes }),
            1 => (0u8..4).prop_map(O::GetClient),
            3 => (0u8..4, 0u8..4, any::<bool>(), vec(0u8..5, 0..3), 0u8..4).prop_map(|(client, redirect, resp, scope, sep)| O::Authorize { client, redirect, resp, scope, sep }),
            5 => code_op(),
            6 => exchange(),
            3 => create(),
            5 => tok().prop_map(O::Refresh),
            3 => tok().prop_map(O::Revoke),
            4 => tok().prop_map(O::Check),
            2 => prop_oneof![Just(1u32), Just(300), 597u32..604, 3597u32..3604, Just(5000)].prop_map(O::Advance),
        ];
        vec(op, 1..30).boxed()
    };
    c.check(sub("history", 60_000, "a code is redeemed or a token refreshed, and later presented again or revoked"), seq, |ops: &Vec<O>| {
        let clock = Clock::new();
        vrt(async {
            let p = InMemoryOAuthProvider::new("https://issuer.example");
            let mut m = Model::default();
            let mut iss = Issued::default();
            let mut clients: HashMap<String, Value> = HashMap::new();
            let (mut redeemed, mut again, mut refused, mut expired) = (0, false, false, false);
            for (n, o) in ops.iter().enumerate() {
                match o {
                    O::Register { id, secret, name, redirects, token_resp, scopes: s } => {
                        let cl = OAuthClient {
                            client_id: id.map_or(String::new(), |i| CLIENTS[i as usize].into()),
                            client_secret: secret.clone(),
                            client_name: name.clone(),
                            redirect_uris: redirects.iter().map(|r| REDIR[*r as usize].to_string()).collect(),
                            grant_types: vec![GrantType::AuthorizationCode],
                            response_types: [vec![ResponseType::Code], vec![ResponseType::Token], vec![ResponseType::Code, ResponseType::Token], vec![]][*token_resp as usize].clone(),
                            scopes: scopes(s),
                            metadata: HashMap::from([("k".to_string(), json!(name))]),
                        };
                        let mut want = serde_json::to_value(&cl).unwrap();
                        let r = p.register_client(cl).await.map_err(|e| Fail::new("register", e.to_string()))?;
                        let got = serde_json::to_value(&r).unwrap();
                        if id.is_none() {
                            ensure!(!r.client_id.is_empty() && !clients.contains_key(&r.client_id), "client-id", "generated {:?}", r.client_id);
                            want["client_id"] = json!(r.client_id);
                        }
                        if secret.is_none() {
                            ensure!(r.client_secret.as_deref().is_some_and(|s| s.len() >= 16 && clients.values().all(|c| c["client_secret"] != json!(s))), "client-secret", "generated {:?}", r.client_secret);
                            want["client_secret"] = json!(r.client_secret);
                        }
                        ensure!(same(&got, &want), "registered", "registered {got} for {want}");
                        clients.insert(r.client_id.clone(), want);
                    },
                    O::GetClient(i) => {
                        let id = CLIENTS[*i as usize];
                        let got = p.get_client(id).await.map_err(|e| Fail::new("get-client", e.to_string()))?;
                        let got = got.map(|g| serde_json::to_value(&g).unwrap());
                        ensure!(match (&got, clients.get(id)) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false }, "client", "{id}: {got:?} for {:?}", clients.get(id));
                    },
                    O::Authorize { client, redirect, resp, scope, sep } => {
                        let req = AuthorizationRequest {
                            response_type: if *resp { ResponseType::Code } else { ResponseType::Token },
                            client_id: CLIENTS[*client as usize].into(),
                            redirect_uri: REDIR[*redirect as usize].into(),
                            scope: scopes(scope).join([" ", "  ", " \t", "\n"][*sep as usize]),
                            state: None,
                            code_challenge: None,
                            code_challenge_method: None,
                        };
                        let want = clients.get(CLIENTS[*client as usize]).is_some_and(|c| {
                            c["redirect_uris"].as_array().unwrap().contains(&json!(REDIR[*redirect as usize])) && c["response_types"].as_array().unwrap().contains(&json!(if *resp { "code" } else { "token" }))
                        }) && scope.iter().all(|s| *s < 2);
                        let got = p.validate_authorization(&req).await;
                        ensure!(got.is_ok() == want, "authorization", "{req:?} accepted={} for {:?}", got.is_ok(), clients.get(CLIENTS[*client as usize]));
                    },
                    O::Code { client, user, redirect, scopes: s, verifier, method } => {
                        let a = clock.now();
                        let code = p
                            .create_authorization_code(CLIENTS[*client as usize], user, REDIR[*redirect as usize], scopes(s), verifier.as_ref().map(|v| challenge(v, *method)), METHODS[*method as usize].map(String::from))
                            .await
                            .map_err(|e| Fail::new("code", e.to_string()))?;
                        let b = clock.now();
                        ensure!(code.len() >= 16 && !iss.codes.contains(&code) && iss.tokens.values().all(|t| t.0 != code && t.1 != code), "code-unique", "{code}");
                        iss.codes.push(code);
                        m.codes.push(CodeM { client: *client, user: user.clone(), redirect: *redirect, scopes: scopes(s), verifier: verifier.clone(), method: *method, from: a, to: b, st: CodeSt::Live });
                    },
                    O::Advance(s) => clock.advance(*s as i64),
                    o => {
                        let o = retarget(o, &m);
                        let req = matches!(o, O::Exchange { .. }).then(|| token_request(&m, &iss, &o));
                        let dbg = format!("{o:?} with {req:?}");
                        if let (O::Exchange { code: Tok::Code(i), .. }, _) = (&o, 0) {
                            let st = m.codes[*i].st.clone();
                            again |= st == CodeSt::Used;
                            refused |= !right_exchange(&m.codes[*i], &o);
                        }
                        let spent = matches!(&o, O::Refresh(Tok::Refresh(i)) if m.grants[i].1 || m.grants[i].0.dead) || matches!(&o, O::Check(Tok::Access(i)) if m.grants[i].0.dead);
                        again |= spent;
                        let a = clock.now();
                        let (out, pair) = perform(&p, &o, req, tok_ref(&o).map_or(String::new(), |t| iss.tok(&t)), n).await;
                        let b = clock.now();
                        if let Out::Token(_, life, _) = out {
                            ensure!(life > 0, "lifetime", "expires_in {life}");
                            redeemed += 1;
                        }
                        if let Err(e) = m.apply(&o, &out, (a, b)) {
                            fail!(format!("{}", match &o { O::Exchange { .. } => "exchange", O::Refresh(_) => "refresh", O::Revoke(_) => "revoke", O::Check(_) => "validate", _ => "create" }), "op {n}: {dbg} -> {out:?}: {e}");
                        }
                        if let Some(t) = pair {
                            ensure!(fresh(&iss, &t), "token-unique", "{t:?}");
                            iss.tokens.insert(n, t);
                        }
                    },
                }
                // every issued string, probed as an access token
                let toks: Vec<Tok> = iss.tokens.keys().flat_map(|k| [Tok::Access(*k), Tok::Refresh(*k)]).chain((0..iss.codes.len()).map(Tok::Code)).collect();
                for t in toks {
                    let o = O::Check(t);
                    let a = clock.now();
                    let (out, _) = perform(&p, &o, None, iss.tok(&t), n).await;
                    if let Err(e) = m.apply(&o, &out, (a, clock.now())) {
                        fail!("validate", "after op {n} {:?}: {t:?} -> {out:?}: {e}", ops[n]);
                    }
                    if let Tok::Access(i) = t {
                        expired |= !m.grants[&i].0.dead && matches!(out, Out::Err);
                    }
                }
            }
            Ok(Info::nt(redeemed > 0 && again).label(refused, "wrong credentials").label(expired, "a token expired").label(redeemed > 2, "three tokens"))
        })
    });

    // interleavings: up to five tasks, each losing the processor at a generated point
    let race = || {
        let setup = vec(prop_oneof![3 => code_op(), 2 => create(), 1 => good_exchange(), 1 => tok().prop_map(O::Refresh), 1 => tok().prop_map(O::Revoke)], 1..6);
        let op = prop_oneof![5 => good_exchange(), 2 => create(), 6 => idx().prop_map(|i| O::Refresh(Tok::Refresh(i))), 3 => tok().prop_map(O::Revoke), 1 => tok().prop_map(O::Check)];
        (setup, vec((op, prop_oneof![5 => 120u8..129, 1 => 0u8..129]), 2..6)).boxed()
    };
    fn racing(par: bool) -> impl Fn(&(Vec<O>, Vec<(O, u8)>)) -> CaseResult {
        move |(setup, race): &(Vec<O>, Vec<(O, u8)>)| {
            let clock = Clock::new();
            let body = async {
                let p = Arc::new(InMemoryOAuthProvider::new("https://issuer.example"));
                let mut m = Model::default();
                let mut iss = Issued::default();
                for (n, o) in setup.iter().enumerate() {
                    if let O::Code { client, user, redirect, scopes: s, verifier, method } = o {
                        let code = p
                            .create_authorization_code(CLIENTS[*client as usize], user, REDIR[*redirect as usize], scopes(s), verifier.as_ref().map(|v| challenge(v, *method)), METHODS[*method as usize].map(String::from))
                            .await
                            .map_err(|e| Fail::new("code", e.to_string()))?;
                        iss.codes.push(code);
                        m.codes.push(CodeM { client: *client, user: user.clone(), redirect: *redirect, scopes: scopes(s), verifier: verifier.clone(), method: *method, from: 0, to: i64::MAX / 2, st: CodeSt::Live });
                        // time is not at issue here
                        m.codes.last_mut().unwrap().from = clock.now();
                        continue;
                    }
                    let o = retarget(o, &m);
                    let req = matches!(o, O::Exchange { .. }).then(|| token_request(&m, &iss, &o));
                    let (out, pair) = perform(&p, &o, req, tok_ref(&o).map_or(String::new(), |t| iss.tok(&t)), n).await;
                    let now = clock.now();
                    if let Err(e) = m.apply(&o, &out, (now - 1, now)) {
                        fail!("setup", "{o:?} -> {out:?}: {e}");
                    }
                    if let Some(t) = pair {
                        iss.tokens.insert(n, t);
                    }
                }
                let ops: Vec<O> = race.iter().map(|(o, _)| retarget(o, &m)).collect();
                let same_target = (0..ops.len()).any(|i| (0..i).any(|j| tok_ref(&ops[i]).is_some() && tok_ref(&ops[i]) == tok_ref(&ops[j])));
                let mut hs = vec![];
                for (i, o) in ops.iter().enumerate() {
                    let (p, o, k) = (p.clone(), o.clone(), race[i].1);
                    let req = matches!(o, O::Exchange { .. }).then(|| token_request(&m, &iss, &o));
                    let tok = tok_ref(&o).map_or(String::new(), |t| iss.tok(&t));
                    hs.push(tokio::spawn(async move {
                        // lose the processor at the (128-k)-th lock taken
                        for _ in 0..k {
                            tokio::task::consume_budget().await;
                        }
                        perform(&p, &o, req, tok, 100 + i).await
                    }));
                }
                let mut outs = vec![];
                for (i, h) in hs.into_iter().enumerate() {
                    match tokio::time::timeout(Duration::from_secs(20), h).await {
                        Ok(Ok(r)) => outs.push(r),
                        Ok(Err(e)) => fail!("panic", "op {:?}: {e}", ops[i]),
                        // on real threads a stall may be the machine's; the interleaved check decides deadlocks
                        Err(_) if par => return Ok(Info::nt(false).label(true, "stalled")),
                        Err(_) => fail!("deadlock", "{:?} never completes among {ops:?}", ops[i]),
                    }
                }
                for (i, (_, pair)) in outs.iter().enumerate() {
                    if let Some(t) = pair {
                        ensure!(fresh(&iss, t), "token-unique", "{t:?}");
                        iss.tokens.insert(100 + i, t.clone());
                    }
                }
                // probe the final state: every access token, then every refresh token
                let mut probes = vec![];
                let keys: Vec<usize> = iss.tokens.keys().copied().collect();
                for k in &keys {
                    let o = O::Check(Tok::Access(*k));
                    let (out, _) = perform(&p, &o, None, iss.tok(&Tok::Access(*k)), 0).await;
                    probes.push((o, out));
                }
                for k in &keys {
                    let o = O::Refresh(Tok::Refresh(*k));
                    let (out, _) = perform(&p, &o, None, iss.tok(&Tok::Refresh(*k)), 1000 + k).await;
                    probes.push((o, out));
                }
                for i in 0..iss.codes.len() {
                    let o = O::Exchange { code: Tok::Code(i), client: Pr::Right, redirect: Pr::Right, verifier: Pr::Right, grant: 0 };
                    let req = token_request(&m, &iss, &o);
                    let (out, _) = perform(&p, &o, Some(req), String::new(), 5000 + i).await;
                    probes.push((o, out));
                }
                let now = clock.now();
                // some sequential order of the concurrent operations explains everything seen
                let mut order: Vec<usize> = (0..ops.len()).collect();
                let mut ok = false;
                let mut first = None;
                permute(&mut order, 0, &mut |ord| {
                    let mut mm = m.clone();
                    let r = ord
                        .iter()
                        .try_for_each(|i| mm.apply(&ops[*i], &outs[*i].0, (now - 30, now)).map_err(|e| format!("{:?} -> {:?}: {e}", ops[*i], outs[*i].0)))
                        .and_then(|()| probes.iter().try_for_each(|(o, out)| mm.apply(o, out, (now - 30, now)).map_err(|e| format!("afterwards {o:?} -> {out:?}: {e}"))));
                    match r {
                        Ok(()) => ok = true,
                        Err(e) => first = first.take().or(Some(e)),
                    }
                    ok
                });
                ensure!(ok, "not-atomic", "no order of {ops:?} explains {:?}; e.g. in order: {first:?}", outs.iter().map(|x| &x.0).collect::<Vec<_>>());
                Ok(Info::nt(same_target).label(outs.iter().any(|o| matches!(o.0, Out::Err)), "one refused"))
            };
            if par {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
                let r = rt.block_on(body);
                rt.shutdown_background();
                r
            } else {
                vrt(body)
            }
        }
    }
    c.check(sub("interleaved", 60_000, "two concurrent operations on the same code or token"), race, racing(false));
    c.check(sub("parallel", 8_000, "two concurrent operations on the same code or token").workers(3), race, racing(true));
    c.check(
        sub("metadata", 2_000, "a base URL with a path or port, and a scope the provider supports"),
        || (prop::sample::select(vec!["https", "http"]).prop_map(String::from), "[a-z]{1,8}(\\.[a-z]{2,5}){0,2}", option::of(1u16..), vec("[a-z0-9._~-]{1,6}", 0..3), vec(0u8..5, 0..3)).boxed(),
        |(scheme, host, port, path, sc): &(String, String, Option<u16>, Vec<String>, Vec<u8>)| {
            let base = format!("{scheme}://{host}{}{}", port.map_or(String::new(), |p| format!(":{p}")), path.iter().map(|p| format!("/{p}")).collect::<String>());
            vrt(async {
                let p = InMemoryOAuthProvider::new(base.clone());
                let m = p.metadata().await.map_err(|e| Fail::new("metadata", e.to_string()))?;
                ensure_eq!(m.issuer, base, "issuer", "issuer");
                let ends = [Some(&m.authorization_endpoint), Some(&m.token_endpoint), m.jwks_uri.as_ref(), m.userinfo_endpoint.as_ref(), m.registration_endpoint.as_ref(), m.revocation_endpoint.as_ref(), m.introspection_endpoint.as_ref()];
                let ends: Vec<&String> = ends.into_iter().flatten().collect();
                for e in &ends {
                    let rest = e.strip_prefix(&format!("{base}/"));
                    ensure!(rest.is_some_and(|r| !r.is_empty() && !r.contains("//")), "endpoint", "endpoint {e} of {base}");
                }
                ensure!(ends.iter().all(|a| ends.iter().filter(|b| a == *b).count() == 1), "endpoint", "one endpoint twice: {ends:?}");
                for (e, name) in [(Some(&m.authorization_endpoint), "authorize"), (Some(&m.token_endpoint), "token"), (m.jwks_uri.as_ref(), "jwks"), (m.userinfo_endpoint.as_ref(), "userinfo"), (m.registration_endpoint.as_ref(), "register"), (m.revocation_endpoint.as_ref(), "revoke"), (m.introspection_endpoint.as_ref(), "introspect")] {
                    ensure!(e.is_none_or(|e| e.ends_with(&format!("/{name}"))), "endpoint", "endpoint for {name} is {e:?}");
                }
                // what is said to be supported is, and nothing else
                let cl = OAuthClient { client_id: "app".into(), client_secret: None, client_name: "n".into(), redirect_uris: vec![REDIR[0].into()], grant_types: m.grant_types_supported.clone(), response_types: m.response_types_supported.clone(), scopes: m.scopes_supported.clone(), metadata: Default::default() };
                p.register_client(cl).await.map_err(|e| Fail::new("register", e.to_string()))?;
                let want = sc.iter().all(|s| m.scopes_supported.iter().any(|x| x == SCOPES[*s as usize]));
                let rt = m.response_types_supported.first().cloned();
                let Some(rt) = rt else { fail!("response-types", "no response type supported") };
                let req = AuthorizationRequest { response_type: rt, client_id: "app".into(), redirect_uri: REDIR[0].into(), scope: scopes(sc).join(" "), state: None, code_challenge: None, code_challenge_method: None };
                ensure_eq!(p.validate_authorization(&req).await.is_ok(), want, "scopes", "authorising {:?}, supported {:?}", req.scope, m.scopes_supported);
                for (k, meth) in METHODS.iter().enumerate().filter_map(|(k, m)| Some((k, (*m)?))) {
                    let code = p.create_authorization_code("app", "u", REDIR[0], scopes(sc), Some(challenge("verifier", k as u8)), Some(meth.into())).await.map_err(|e| Fail::new("code", e.to_string()))?;
                    let q = TokenRequest { grant_type: GrantType::AuthorizationCode, code: Some(code), redirect_uri: Some(REDIR[0].into()), client_id: Some("app".into()), client_secret: None, refresh_token: None, username: None, password: None, scope: None, code_verifier: Some("verifier".into()) };
                    let ok = p.exchange_code(&q).await.is_ok();
                    ensure_eq!(ok, m.code_challenge_methods_supported.iter().any(|x| x == meth), "challenge-methods", "redeeming with challenge method {meth}, supported {:?}", m.code_challenge_methods_supported);
                }
                ensure!(m.grant_types_supported.contains(&GrantType::AuthorizationCode) && m.grant_types_supported.contains(&GrantType::RefreshToken), "grant-types", "{:?}", m.grant_types_supported);
                Ok(Info::nt((port.is_some() || !path.is_empty()) && want && !sc.is_empty()))
            })
        },
    );
}
fn permute(v: &mut Vec<usize>, i: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    if i == v.len() {
        return f(v);
    }
    for j in i..v.len() {
        v.swap(i, j);
        if permute(v, i + 1, f) {
            return true;
        }
        v.swap(i, j);
    }
    false
}

// ---- C30 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum T {
    Bearer(u8, bool),
    Client(u8),
    All(Box<T>, Vec<u8>),
    Any(Box<T>, Vec<u8>),
    Comp(Vec<T>, bool),
}
/// a scripted identity provider
#[derive(Debug, Clone, Serialize, Deserialize, Default)]
struct Prov {
    /// token -> (client, user, scopes)
    tokens: Vec<(u8, String, String, Vec<u8>)>,
    /// client -> (secret, scopes)
    clients: Vec<(u8, Option<String>, Vec<u8>)>,
    broken: bool,
    /// the provider's own error code
    code: i32,
}
const TOKENS: [&str; 5] = ["tok", "TOK", "tok ", "", "токен"];
#[async_trait]
impl OAuthProvider for Prov {
    async fn register_client(&self, client: OAuthClient) -> pmcp::Result<OAuthClient> {
        Ok(client)
    }
    async fn get_client(&self, id: &str) -> pmcp::Result<Option<OAuthClient>> {
        if self.broken {
            return Err(Error::protocol(ErrorCode::other(self.code), "provider down"));
        }
        Ok(self.clients.iter().find(|c| CLIENTS[c.0 as usize] == id).map(|c| OAuthClient {
            client_id: id.into(),
            client_secret: c.1.clone(),
            client_name: "n".into(),
            redirect_uris: vec![],
            grant_types: vec![],
            response_types: vec![],
            scopes: scopes(&c.2),
            metadata: HashMap::new(),
        }))
    }
    async fn validate_authorization(&self, _: &AuthorizationRequest) -> pmcp::Result<()> {
        Ok(())
    }
    async fn create_authorization_code(&self, _: &str, _: &str, _: &str, _: Vec<String>, _: Option<String>, _: Option<String>) -> pmcp::Result<String> {
        Ok(String::new())
    }
    async fn exchange_code(&self, _: &TokenRequest) -> pmcp::Result<AccessToken> {
        Err(Error::internal("no"))
    }
    async fn create_access_token(&self, _: &str, _: &str, _: Vec<String>) -> pmcp::Result<AccessToken> {
        Err(Error::internal("no"))
    }
    async fn refresh_token(&self, _: &str) -> pmcp::Result<AccessToken> {
        Err(Error::internal("no"))
    }
    async fn revoke_token(&self, _: &str) -> pmcp::Result<()> {
        Ok(())
    }
    async fn validate_token(&self, token: &str) -> pmcp::Result<TokenInfo> {
        match self.tokens.iter().find(|t| TOKENS[t.0 as usize] == token) {
            Some(t) if !self.broken => Ok(TokenInfo { token: token.into(), client_id: t.1.clone(), user_id: t.2.clone(), scopes: scopes(&t.3), expires_at: u64::MAX, token_type: TokenType::Bearer }),
            _ => Err(Error::protocol(ErrorCode::other(self.code), "Token expired")),
        }
    }
    async fn metadata(&self) -> pmcp::Result<OAuthMetadata> {
        Err(Error::internal("no"))
    }
}
fn build(t: &T, ps: &[Arc<Prov>]) -> Box<dyn AuthMiddleware> {
    match t {
        T::Bearer(p, r) => {
            let m = BearerTokenMiddleware::new(ps[*p as usize].clone());
            // required is the default
            Box::new(if *r { m } else { m.with_required(false) })
        },
        T::Client(p) => Box::new(ClientCredentialsMiddleware::new(ps[*p as usize].clone())),
        T::All(i, s) => Box::new(ScopeMiddleware::all(build(i, ps), scopes(s))),
        T::Any(i, s) => Box::new(ScopeMiddleware::any(build(i, ps), scopes(s))),
        T::Comp(v, any) => {
            let m = CompositeMiddleware::new(v.iter().map(|t| build(t, ps)).collect());
            Box::new(if *any { m } else { m.with_require_any(false) })
        },
    }
}
type Id = (String, String, Vec<String>);
/// Err: the JSON-RPC codes the refusal may carry
fn eval(t: &T, ps: &[Arc<Prov>], a: Option<&AuthInfo>) -> Result<Id, Vec<i32>> {
    const AUTH: i32 = -32003;
    const DENIED: i32 = -32004;
    let anon = || ("anonymous".to_string(), "anonymous".to_string(), vec![]);
    match t {
        T::Bearer(p, required) => {
            let p = &ps[*p as usize];
            match a {
                None if !required => Ok(anon()),
                Some(a) if a.scheme == AuthScheme::Bearer => a.token.as_ref().filter(|_| !p.broken).and_then(|t| p.tokens.iter().find(|x| TOKENS[x.0 as usize] == t)).map(|t| (t.1.clone(), t.2.clone(), scopes(&t.3))).ok_or(vec![AUTH]),
                _ => Err(vec![AUTH]),
            }
        },
        T::Client(p) => {
            let p = &ps[*p as usize];
            let Some(a) = a else { return Err(vec![AUTH]) };
            let (Some(Value::String(id)), Some(Value::String(s))) = (a.params.get("client_id"), a.params.get("client_secret")) else { return Err(vec![AUTH]) };
            if p.broken {
                return Err(vec![AUTH, p.code]);
            }
            p.clients.iter().find(|c| CLIENTS[c.0 as usize] == id).filter(|c| c.1.as_ref() == Some(s)).map(|c| (id.clone(), id.clone(), scopes(&c.2))).ok_or(vec![AUTH])
        },
        T::All(i, s) => eval(i, ps, a).and_then(|id| if scopes(s).iter().all(|x| id.2.contains(x)) { Ok(id) } else { Err(vec![DENIED]) }),
        T::Any(i, s) => eval(i, ps, a).and_then(|id| if scopes(s).iter().any(|x| id.2.contains(x)) { Ok(id) } else { Err(vec![DENIED]) }),
        T::Comp(v, any) => {
            let mut codes = vec![];
            for t in v {
                match eval(t, ps, a) {
                    Ok(id) => return Ok(id),
                    Err(e) => codes.extend(e),
                }
            }
            if codes.is_empty() {
                codes.push(AUTH);
            }
            if *any { Err(codes) } else { Ok(anon()) }
        },
    }
}
fn needs(t: &T) -> bool {
    match t {
        T::Bearer(_, r) => *r,
        T::Client(_) => true,
        T::All(i, _) | T::Any(i, _) => needs(i),
        T::Comp(v, any) => *any && v.iter().any(needs),
    }
}
fn count(t: &T) -> usize {
    1 + match t {
        T::All(i, _) | T::Any(i, _) => count(i),
        T::Comp(v, _) => v.iter().map(count).sum(),
        _ => 0,
    }
}

pub fn c30(c: &mut Ctx) {
    let strat = || {
        let leaf = prop_oneof![3 => (0u8..2, any::<bool>()).prop_map(|(p, r)| T::Bearer(p, r)), 2 => (0u8..2).prop_map(T::Client)];
        let tree = leaf.prop_recursive(4, 12, 4, |t| {
            prop_oneof![
                1 => (t.clone(), vec(0u8..5, 0..3)).prop_map(|(t, s)| T::All(Box::new(t), s)),
                1 => (t.clone(), vec(0u8..5, 0..3)).prop_map(|(t, s)| T::Any(Box::new(t), s)),
                2 => (vec(t, 0..4), any::<bool>()).prop_map(|(v, a)| T::Comp(v, a)),
            ]
        });
        let prov = (vec((0u8..5, name(), name(), vec(0u8..5, 0..5)), 0..4), vec((0u8..4, option::weighted(0.8, prop_oneof![Just("s3cret".to_string()), Just(String::new()), text()]), vec(0u8..5, 0..5)), 0..4), prop::bool::weighted(0.1), -32099i32..-31000)
            .prop_map(|(tokens, clients, broken, code)| Prov { tokens, clients, broken, code });
        let scheme = prop_oneof![8 => Just(0u8), 2 => 1u8..5];
        let cred = prop_oneof![5 => (0u8..4).prop_map(|i| json!(CLIENTS[i as usize])), 1 => scalar()];
        let sec = prop_oneof![5 => Just(json!("s3cret")), 1 => Just(json!("S3cret")), 1 => Just(json!("s3cret ")), 1 => Just(json!("")), 1 => scalar()];
        let info = option::weighted(0.85, (scheme, option::weighted(0.9, (0u8..5).prop_map(|i| TOKENS[i as usize].to_string())), option::weighted(0.8, cred), option::weighted(0.8, sec)));
        (tree, vec(prov, 2..3), vec(info, 1..5)).boxed()
    };
    type Inf = Option<(u8, Option<String>, Option<Value>, Option<Value>)>;
    fn info(i: &Inf) -> Option<AuthInfo> {
        i.as_ref().map(|(s, t, c, k)| AuthInfo {
            scheme: [AuthScheme::Bearer, AuthScheme::None, AuthScheme::OAuth2, AuthScheme::Custom("bearer".into()), AuthScheme::Custom("Bearer".into())][*s as usize].clone(),
            token: t.clone(),
            oauth: None,
            params: [("client_id", c), ("client_secret", k)].into_iter().filter_map(|(n, v)| v.clone().map(|v| (n.to_string(), v))).collect(),
        })
    }
    c.check(sub("admission", 100_000, "at least two middlewares nested and a caller presenting credentials"), strat, |(t, ps, infos): &(T, Vec<Prov>, Vec<Inf>)| {
        vrt(async {
            let ps: Vec<Arc<Prov>> = ps.iter().cloned().map(Arc::new).collect();
            let m = build(t, &ps);
            ensure_eq!(m.is_required(), needs(t), "is-required", "{t:?}");
            let (mut yes, mut no) = (false, false);
            for i in infos {
                let a = info(i);
                match (m.authenticate(a.as_ref()).await, eval(t, &ps, a.as_ref())) {
                    (Ok(got), Ok(w)) => {
                        ensure_eq!((got.client_id.clone(), got.user_id.clone(), got.scopes.clone()), w, "identity", "caller {a:?}");
                        for s in SCOPES {
                            ensure_eq!(got.has_scope(s), w.2.iter().any(|x| x == s), "has-scope", "{s} in {w:?}");
                        }
                        ensure!(got.has_all_scopes(&[]) && !got.has_any_scope(&[]), "has-scope", "empty lists");
                        let two = [SCOPES[0], SCOPES[2]];
                        ensure_eq!(got.has_all_scopes(&two), two.iter().all(|s| got.has_scope(s)), "has-scope", "all of {two:?}");
                        ensure_eq!(got.has_any_scope(&two), two.iter().any(|s| got.has_scope(s)), "has-scope", "any of {two:?}");
                        yes |= w.0 != "anonymous";
                    },
                    (Err(e), Err(codes)) => {
                        let Error::Protocol { code, .. } = &e else { fail!("refusal", "{e:?}") };
                        ensure!(codes.contains(&code.as_i32()), "refusal-code", "{code:?}, expected one of {codes:?} for {a:?}");
                        no = true;
                    },
                    (Ok(g), Err(_)) => fail!("admitted", "{a:?} was admitted as {g:?}"),
                    (Err(e), Ok(w)) => fail!("refused", "{a:?} was refused ({e}) instead of {w:?}"),
                }
            }
            Ok(Info::nt(count(t) >= 2 && infos.iter().any(|i| i.is_some())).label(yes, "admitted").label(no, "refused"))
        })
    });
    // the credential description itself
    let cred = || (0u8..5, option::of(text()), option::of((text(), option::of(vec(text(), 0..3)), option::of(any::<bool>()))), vec((ident().prop_map(|k| format!("x{k}")), jval()), 0..3)).boxed();
    c.check(sub("credentials", 10_000, "a token or OAuth details are present"), cred, |(s, t, o, ps): &(u8, Option<String>, Option<(String, Option<Vec<String>>, Option<bool>)>, Vec<(String, Value)>)| {
        let scheme = [AuthScheme::Bearer, AuthScheme::None, AuthScheme::OAuth2, AuthScheme::Custom("bearer".into()), AuthScheme::Custom("X y".into())][*s as usize].clone();
        let mut a = match (s, t) {
            (0, Some(t)) => AuthInfo::bearer(t.clone()),
            (1, _) => AuthInfo::none(),
            _ => AuthInfo { scheme: scheme.clone(), token: t.clone(), oauth: None, params: HashMap::new() },
        };
        let mut want = json!({"scheme": match s { 0 => json!("bearer"), 1 => json!("none"), 2 => json!("oAuth2"), 3 => json!({"custom": "bearer"}), _ => json!({"custom": "X y"}) }});
        if let Some(t) = t.as_ref().filter(|_| *s != 1) {
            want["token"] = json!(t);
        }
        if let Some((u, sc, m)) = o {
            let oi = OAuthInfo { auth_url: u.clone(), token_url: format!("{u}/t"), client_id: "c".into(), scopes: sc.clone(), redirect_uri: None, pkce_method: m.map(|b| if b { PkceMethod::S256 } else { PkceMethod::Plain }) };
            want["oauth"] = json!({"authUrl": u, "tokenUrl": format!("{u}/t"), "clientId": "c"});
            if let Some(s) = sc {
                want["oauth"]["scopes"] = json!(s);
            }
            if let Some(m) = m {
                want["oauth"]["pkceMethod"] = json!(if *m { "S256" } else { "plain" });
            }
            a.oauth = Some(oi);
        }
        for (k, v) in ps {
            a.params.insert(k.clone(), v.clone());
        }
        for (k, v) in &a.params {
            want[k] = v.clone();
        }
        let got = serde_json::to_value(&a).unwrap();
        ensure!(same(&got, &want), "wire", "{got} for {want}");
        let back: AuthInfo = serde_json::from_value(want.clone()).map_err(|e| Fail::new("parse", format!("{e}: {want}")))?;
        ensure!(same(&serde_json::to_value(&back).unwrap(), &want), "parse", "{back:?} for {want}");
        ensure_eq!(a.is_required(), *s != 1, "is-required", "{a:?}");
        let hdr = match (s, t) {
            (0, Some(t)) => Some(format!("Bearer {t}")),
            _ => None,
        };
        ensure_eq!(a.authorization_header(), hdr, "header", "{a:?}");
        Ok(Info::nt(t.is_some() || o.is_some()).label(*s >= 3, "custom scheme"))
    });
}
