use crate::core::Ctx;
mod auth;
mod batching;
mod client;
mod codec;
mod ctx;
mod e2e;
mod hclient;
mod hserver;
mod managers;
mod misc;
mod oidc;
mod resil;
mod server;
mod simd;
mod state;
mod stdio;
mod text;
mod tools;
mod types;
mod watch;
mod ws;
macro_rules! table { ($($id:literal => $f:path),* $(,)?) => {
    pub fn ids() -> Vec<&'static str> { vec![$($id),*] }
    pub fn run(id: &str, c: &mut Ctx) { match id { $($id => $f(c),)* _ => panic!("unknown property {id}") } }
} }
table! {
    "C01" => codec::c01,
    "C02" => codec::c02,
    "C03" => server::c03,
    "C04" => server::c04,
    "C05" => server::c05,
    "C06" => client::c06,
    "C07" => client::c07,
    "C08" => client::c08,
    "C09" => server::c09,
    "C10" => server::c10,
    "C11" => text::c11,
    "C12" => text::c12,
    "C13" => simd::c13,
    "C14" => simd::c14,
    "C15" => state::c15,
    "C16" => hserver::c16,
    "C17" => hserver::c17,
    "C18" => hserver::c18,
    "C19" => hclient::c19,
    "C20" => ws::c20,
    "C21" => stdio::c21,
    "C22" => batching::c22,
    "C23" => batching::c23,
    "C24" => state::c24,
    "C25" => ctx::c25,
    "C26" => resil::c26,
    "C27" => resil::c27,
    "C28" => resil::c28,
    "C29" => auth::c29,
    "C30" => auth::c30,
    "C31" => managers::c31,
    "C32" => managers::c32,
    "C33" => managers::c33,
    "C34" => managers::c34,
    "C35" => managers::c35,
    "C36" => misc::c36,
    "C37" => misc::c37,
    "C38" => oidc::c38,
    "C39" => watch::c39,
    "C40" => e2e::c40,
    "C41" => ctx::c41,
    "C42" => tools::c42,
    "C43" => types::c43,
}
pub fn child(a: &[String]) {
    match a {
        [k, plan] if k == "stdio" => stdio::child(plan),
        _ => std::process::exit(2),
    }
}
