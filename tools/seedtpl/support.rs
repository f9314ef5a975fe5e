#![allow(dead_code)]
use base64::{engine::general_purpose::STANDARD, Engine};
use hmac::{Mac, SimpleHmac};
use rsasl::callback::*;
use rsasl::mechanisms::scram::properties::*;
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::validate::*;
use sha2::{Digest, Sha256};
use std::sync::{Arc, Mutex};

pub fn b64(x: &[u8]) -> String { STANDARD.encode(x) }
pub fn unb64(x: &str) -> Vec<u8> { STANDARD.decode(x).unwrap() }
pub fn hmac256(k: &[u8], m: &[u8]) -> Vec<u8> {
    let mut h = SimpleHmac::<Sha256>::new_from_slice(k).unwrap();
    h.update(m);
    h.finalize().into_bytes().to_vec()
}
pub fn salted(pw: &[u8], salt: &[u8], it: u32) -> Vec<u8> {
    let mut o = [0u8; 32];
    pbkdf2::pbkdf2::<SimpleHmac<Sha256>>(pw, salt, it, &mut o).unwrap();
    o.to_vec()
}
pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(x, y)| x ^ y).collect() }
pub fn client_key(sp: &[u8]) -> Vec<u8> { hmac256(sp, b"Client Key") }
pub fn server_key(sp: &[u8]) -> Vec<u8> { hmac256(sp, b"Server Key") }
pub fn stored_key(sp: &[u8]) -> Vec<u8> { Sha256::digest(client_key(sp)).to_vec() }
pub fn attr<'a>(msg: &'a str, a: &str) -> &'a str {
    msg.split(',').find(|p| p.starts_with(&format!("{a}="))).map(|p| &p[2..]).unwrap_or("")
}
pub fn mn(s: &str) -> &Mechname { Mechname::parse(s.as_bytes()).unwrap() }

/// validation callback counter and what it saw
#[derive(Default)]
pub struct Log { pub validated: Vec<(Option<String>, Option<String>)>, pub lookups: Vec<(Option<String>, Option<String>)>, pub reqs: Vec<&'static str> }

pub struct ScramServerCb { pub user: &'static str, pub pw: &'static str, pub salt: &'static [u8], pub it: u32, pub log: Arc<Mutex<Log>>, pub cb: Option<(&'static str, Vec<u8>)> }
impl SessionCallback for ScramServerCb {
    fn callback(&self, _s: &SessionData, ctx: &Context, req: &mut Request) -> Result<(), SessionError> {
        if req.is::<ChannelBindings>() {
            if let Some((n, d)) = &self.cb {
                if ctx.get_ref::<ChannelBindingName>() == Some(n) { req.satisfy::<ChannelBindings>(d)?; }
            }
            return Ok(());
        }
        self.log.lock().unwrap().lookups.push((ctx.get_ref::<AuthId>().map(Into::into), ctx.get_ref::<AuthzId>().map(Into::into)));
        if ctx.get_ref::<AuthId>() == Some(self.user) {
            let sp = salted(self.pw.as_bytes(), self.salt, self.it);
            req.satisfy::<ScramStoredPassword>(&ScramStoredPassword::new(self.it, self.salt, &stored_key(&sp), &server_key(&sp)))?;
        }
        Ok(())
    }
    fn validate(&self, _s: &SessionData, ctx: &Context, _v: &mut Validate<'_>) -> Result<(), ValidationError> {
        self.log.lock().unwrap().validated.push((ctx.get_ref::<AuthId>().map(Into::into), ctx.get_ref::<AuthzId>().map(Into::into)));
        Ok(())
    }
}
pub fn scram_server(mech: &str, cb: Option<(&'static str, Vec<u8>)>) -> (Session, Arc<Mutex<Log>>) {
    let log = Arc::new(Mutex::new(Log::default()));
    let c = SASLConfig::builder().with_defaults().with_callback(ScramServerCb { user: "user", pw: "pencil", salt: b"0123456789", it: 4096, log: log.clone(), cb }).unwrap();
    (SASLServer::<NoValidation>::new(c).start_suggested(mn(mech)).unwrap(), log)
}
pub fn run<CB: ChannelBindingCallback>(s: &mut Session<NoValidation, CB>, input: Option<&[u8]>) -> (Result<State, SessionError>, Vec<u8>) {
    let mut out = Vec::new();
    let r = s.step(input, &mut out);
    (r, out)
}
/// the SCRAM client signature inputs of a raw client
pub struct Raw { pub auth: String, pub sp: Vec<u8> }
impl Raw {
    pub fn new(pw: &str, cfirst_bare: &str, sfirst: &str, cfinal_noproof: &str) -> Self {
        let it: u32 = attr(sfirst, "i").parse().unwrap();
        Raw { auth: format!("{cfirst_bare},{sfirst},{cfinal_noproof}"), sp: salted(pw.as_bytes(), &unb64(attr(sfirst, "s")), it) }
    }
    pub fn proof(&self) -> String { b64(&xor(&client_key(&self.sp), &hmac256(&stored_key(&self.sp), self.auth.as_bytes()))) }
    pub fn verifier(&self) -> String { b64(&hmac256(&server_key(&self.sp), self.auth.as_bytes())) }
}
pub fn fail(m: &str) -> ! { eprintln!("PROPERTY BROKEN: {m}"); std::process::exit(1) }
