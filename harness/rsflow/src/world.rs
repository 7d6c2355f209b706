//! What surrounds a generated producer (a transport, the author's handlers) and a generated consumer (a transport, the
//! author's handlers), driven by the entries.
use crate::{c, p, sym};
use async_trait::async_trait;
use clibri::{client, server};
use p::implementation::{consumer::identification::{Filter, Identification}, producer, protocol as pp, scope::Scope};
use pp::{PackingStruct, InternalServiceGroup as I};
use std::{any::Any, future::Future, pin::Pin, task::Poll};
use tokio::{rt, sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender}};
use uuid::Uuid;

static mut IDS: [Uuid; 3] = [Uuid::from_u128(0x11111111_1111_1111_1111_111111111111), Uuid::from_u128(0x22222222_2222_2222_2222_222222222222), Uuid::from_u128(0x33333333_3333_3333_3333_333333333333)];
pub fn id(i: usize) -> Uuid { unsafe { IDS[i] } }
/// clients whose ids differ in one byte, which may be any
pub fn alike() {
    let at = sym::pick(&[0, 9, 15]);
    let mut b = [[0x5a; 16]; 3];
    for x in b.iter_mut() { x[at] = sym::any() }
    sym::assume((b[0][at] != b[1][at]) & (b[1][at] != b[2][at]) & (b[0][at] != b[2][at]));
    for i in 0..3 { unsafe { IDS[i] = Uuid::from_bytes(b[i]) } }
}
pub const A: usize = 0;
pub const B: usize = 1;
pub const D: usize = 2;

#[derive(Debug, Clone)]
pub struct Fault;
impl std::fmt::Display for Fault { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("fault") } }
impl std::error::Error for Fault {}
impl server::Error for Fault {}
impl client::Error for Fault {}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Call { Ping(u16), Ask(u8), HPing(u8), Tick(u8), Tock(u8), Alarm(u8), Fire(u8), Connected, Disconnected }
pub struct Rec { pub what: Call, pub uuid: Option<Uuid>, pub all: Vec<Uuid>, pub key: Option<pp::Key>, pub assigned: Option<pp::Grant>, pub at: usize, pub done: bool }
#[derive(Clone)]
pub enum To { Nobody, All, Except, Only(Vec<Uuid>), Exclude(Vec<Uuid>), Keyed }
impl To {
    pub fn get(&self, f: &Filter<'_>, me: &Uuid) -> Vec<Uuid> {
        match self { To::Nobody => vec![], To::All => f.all(), To::Except => f.except(me), To::Only(v) => v.clone(), To::Exclude(v) => f.exclude(v.clone()), To::Keyed => f.filter(|i| i.key.is_some()) }
    }
}
#[derive(Clone)]
pub struct Plan { pub bad: bool, pub way: usize, pub v: u32, pub w: u8, pub opt: bool, pub to: [To; 3], pub s: Vec<u8>, pub key: Option<(pp::Key, bool)>, pub grant: Option<(pp::Grant, bool)> }
impl Plan {
    pub fn none() -> Plan { Plan { bad: false, way: 0, v: 0, w: 0, opt: false, to: [To::Nobody, To::Nobody, To::Nobody], s: vec![], key: None, grant: None } }
    pub fn text(&self) -> String { unsafe { String::from_utf8_unchecked(self.s.clone()) } }
}
#[derive(Clone, PartialEq)]
pub enum Ev { Sent(Uuid, Vec<u8>), Lost(Uuid, Vec<u8>), ToAll(Vec<u8>), Dropped(Uuid), DroppedAll, Down, After(usize) }

/// the producer's side
pub struct Host {
    pub log: Vec<Ev>, pub calls: Vec<Rec>, pub errors: Vec<(&'static str, Option<Uuid>)>, pub error_fails: bool, pub ready: usize, pub down: usize,
    pub plans: Vec<(usize, Plan)>, pub default: Plan, pub control: Option<Box<dyn Any>>, pub hold: bool,
    pub tx: Option<UnboundedSender<server::Events<Fault>>>, pub ended: Option<Result<(), &'static str>>,
    /// which sends and disconnections fail: 0 none, 1 all, 2 any
    pub send_fails: usize, pub drop_fails: usize, pub listen_ends: bool, pub down_fails: bool, pub closed: bool,
}
static mut HOST: Option<Host> = None;
pub fn h() -> &'static mut Host { unsafe { HOST.as_mut().unwrap() } }
impl Host {
    pub fn plan(&self, i: usize) -> Plan { self.plans.iter().find(|p| p.0 == i).map_or_else(|| self.default.clone(), |p| p.1.clone()) }
    pub fn sent_to(&self, u: Uuid) -> Vec<&Vec<u8>> { self.log.iter().filter_map(|e| match e { Ev::Sent(x, b) if *x == u => Some(b), _ => None }).collect() }
    pub fn drops(&self, u: Uuid) -> usize { self.log.iter().filter(|e| matches!(e, Ev::Dropped(x) if *x == u)).count() }
    pub fn calls_of(&self, u: Uuid) -> Vec<&Rec> { self.calls.iter().filter(|c| c.uuid == Some(u) && !matches!(c.what, Call::Connected | Call::Disconnected)).collect() }
    pub fn errors_of(&self, u: Uuid) -> Vec<&'static str> { self.errors.iter().filter(|e| e.1 == Some(u)).map(|e| e.0).collect() }
    pub fn clear(&mut self) { self.log.clear(); self.calls.clear(); self.errors.clear() }
}
pub fn record(what: Call, uuid: Option<Uuid>, all: &[Uuid], key: Option<pp::Key>, assigned: Option<pp::Grant>) -> usize {
    let at = h().log.len();
    h().calls.push(Rec { what, uuid, all: all.to_vec(), key, assigned, at, done: false });
    h().calls.len() - 1
}
pub fn call<E: server::Error, C: server::Control<E>>(what: Call, s: &mut Scope<'_, E, C>) -> usize {
    let i = record(what, Some(s.identification.uuid()), &s.filter.all(), s.identification.key.clone(), s.identification.assigned.clone());
    let a = h().plan(i);
    if let Some((k, o)) = a.key { let _ = s.identification.set_key(k, o); }
    if let Some((g, o)) = a.grant { let _ = s.identification.set_assign(g, o); }
    s.deferred(after(i));
    i
}
/// what a handler asked to be done after it
pub fn after(i: usize) -> Pin<Box<dyn Future<Output = ()>>> { Box::pin(async move { h().log.push(Ev::After(i)) }) }
struct Wait(fn() -> bool);
impl Future for Wait { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<()> { if (self.0)() && rt::take() { Poll::Ready(()) } else { Poll::Pending } } }
/// handlers take their time while the host says so
pub async fn pause() { if h().hold { Wait(|| !h().hold).await } }

#[derive(Clone, Debug)]
pub struct Ctl;
pub fn fails(how: usize) -> bool { match how { 0 => false, 1 => true, _ => sym::choice(2) == 1 } }
#[async_trait]
impl server::Control<Fault> for Ctl {
    async fn shutdown(&self) -> Result<(), Fault> { h().log.push(Ev::Down); h().closed = true; if h().down_fails { Err(Fault) } else { Ok(()) } }
    async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), Fault> {
        match client {
            None => h().log.push(Ev::ToAll(buffer)),
            Some(u) => if fails(h().send_fails) { h().log.push(Ev::Lost(u, buffer)); return Err(Fault) } else { h().log.push(Ev::Sent(u, buffer)) }
        }
        Ok(())
    }
    async fn disconnect(&self, client: Uuid) -> Result<(), Fault> { h().log.push(Ev::Dropped(client)); if fails(h().drop_fails) { Err(Fault) } else { Ok(()) } }
    async fn disconnect_all(&self) -> Result<(), Fault> { h().log.push(Ev::DroppedAll); Ok(()) }
}
pub struct Server(Option<UnboundedReceiver<server::Events<Fault>>>);
#[async_trait]
impl server::Impl<Fault, Ctl> for Server {
    async fn listen(&mut self) -> Result<(), Fault> { Wait(|| h().listen_ends || h().closed).await; if h().listen_ends { Err(Fault) } else { Ok(()) } }
    fn observer(&mut self) -> Result<UnboundedReceiver<server::Events<Fault>>, Fault> { self.0.take().ok_or(Fault) }
    fn control(&self) -> Ctl { Ctl }
}
pub type Options = producer::Options;
pub fn choose(n: usize) -> usize { sym::choice(n) }
/// starts a producer
pub fn start(options: Options) {
    unsafe { rt::CHOOSE = choose; }
    let (tx, rx) = unbounded_channel();
    unsafe { HOST = Some(Host { log: vec![], calls: vec![], errors: vec![], error_fails: false, ready: 0, down: 0, plans: vec![], default: Plan::none(), control: None, hold: false, tx: Some(tx), ended: None, send_fails: 0, drop_fails: 0, listen_ends: false, down_fails: false, closed: false }); }
    rt::spawn(Box::pin(async move {
        let r = p::run::<Server, Ctl, Fault>(Server(Some(rx)), options, p::Context::new()).await;
        h().ended = Some(r.map_err(|_| "error"));
    }));
    event(server::Events::Ready);
    rt::settle();
}
pub fn event(e: server::Events<Fault>) { if let Some(tx) = h().tx.as_ref() { let _ = tx.send(e); } }
pub fn connect(i: usize) { event(server::Events::Connected(id(i))) }
pub fn lose(i: usize) { event(server::Events::Disconnected(id(i))) }
pub fn data(i: usize, b: Vec<u8>) { event(server::Events::Received(id(i), b)) }
pub fn control() -> producer::Control<Fault, Ctl> { h().control.as_ref().unwrap().downcast_ref::<producer::Control<Fault, Ctl>>().unwrap().clone() }
/// a client which completed the handshake
pub fn open(i: usize) {
    connect(i); rt::settle();
    data(i, key(1).pack(1, None).unwrap()); rt::settle();
    data(i, hash().pack(2, None).unwrap()); rt::settle();
    h().clear();
}
pub fn key(id: u16) -> pp::Key { pp::Key { id, name: None, flag: None } }
pub fn hash() -> I::HashRequest { I::HashRequest { protocol: p::implementation::hash::PROTOCOL.to_string(), workflow: p::implementation::hash::WORKFLOW.to_string() } }
pub fn pack<M: PackingStruct>(mut m: M, seq: u32) -> Vec<u8> { m.pack(seq, None).unwrap() }
/// the same package, but for the time stamp
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a.len() >= 26 && sym::same_bytes(&a[..10], &b[..10]) & sym::same_bytes(&a[18..], &b[18..]) }
/// the same message (its id), whatever its sequence and content
pub fn kind(a: &[u8], b: &[u8]) -> bool { a.len() >= 26 && b.len() >= 26 && sym::same_bytes(&a[..6], &b[..6]) }

// ---------------------------------------------------------------- the consumer's side
#[derive(Debug, Clone, PartialEq)]
pub enum Seen { Connected, Disconnected, Shutdown(Option<&'static str>), Error(&'static str), Reconnect(u64), Note(Vec<u8>), Extra(Vec<u8>), GHNote(Vec<u8>), Mail(Vec<u8>) }
pub struct Peer { pub seen: Vec<Seen>, pub reconnect: bool, pub sent: Vec<Vec<u8>>, pub lost: usize, pub send_fails: usize, pub closed: bool, pub ends: Option<bool>, pub tx: Option<UnboundedSender<client::Event<Fault>>>, pub connects: usize, pub downs: usize, pub done: Vec<(usize, Out)> }
#[derive(Debug, Clone, PartialEq)]
pub enum Out { Value(usize, u32), Text(Vec<u8>), Unit, Error(&'static str) }
static mut PEER: Option<Peer> = None;
pub fn k() -> &'static mut Peer { unsafe { PEER.as_mut().unwrap() } }
pub type CError = c::ConsumerError<Fault>;
pub type Remote = c::Consumer<Fault>;
pub fn error_kind<E: client::Error>(e: &c::ConsumerError<E>) -> &'static str {
    use c::ConsumerError::*;
    match e {
        BufferError(_) => "buffer", UnknownMessage(_) => "unknown message", UnexpectedResponse(_) => "unexpected response", Protocol(_) => "protocol", Broadcast(_) => "broadcast",
        Handshake(_) => "handshake", HashCheck(_) => "hash", Pending(_) => "pending", APIChannel(_) => "api", ClientChannel(_) => "client channel", GettingResponse => "no response",
        Uuid => "uuid", Sequence(_) => "sequence", Client(_) => "client", NoClient => "no client", Timeout => "timeout", _ => "other",
    }
}
#[derive(Clone, Debug)]
pub struct Wire;
#[async_trait]
impl client::Control<Fault> for Wire {
    async fn shutdown(&self) -> Result<(), Fault> { k().downs += 1; k().closed = true; Ok(()) }
    async fn send(&self, msg: client::Message) -> Result<(), Fault> {
        if let client::Message::Binary(b) = msg { if fails(k().send_fails) { k().lost += 1; return Err(Fault) } k().sent.push(b) }
        Ok(())
    }
}
pub struct Client;
#[async_trait]
impl client::Impl<Fault, Wire> for Client {
    async fn connect(&mut self) -> Result<(), Fault> {
        k().connects += 1;
        Wait(|| k().closed || k().ends.is_some()).await;
        k().closed = false;
        match k().ends.take() { Some(true) => Err(Fault), _ => Ok(()) }
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<client::Event<Fault>>, Fault> { let (tx, rx) = unbounded_channel(); k().tx = Some(tx); Ok(rx) }
    fn control(&self) -> Wire { Wire }
}
/// starts a consumer and gives the means to talk to it
pub fn join(options: c::Options) -> &'static mut Option<Remote> {
    unsafe { rt::CHOOSE = choose; }
    unsafe { PEER = Some(Peer { seen: vec![], reconnect: true, sent: vec![], lost: 0, send_fails: 0, closed: false, ends: None, tx: None, connects: 0, downs: 0, done: vec![] }); }
    static mut R: Option<Remote> = None;
    rt::spawn(Box::pin(async move {
        if let Ok(g) = c::connect::<Client, Fault, Wire>(Client, c::Context {}, options).await { if let Ok(r) = g.get().await { unsafe { R = Some(r) } } std::mem::forget(g); }
    }));
    rt::settle();
    unsafe { &mut R }
}
pub fn arrive(b: Vec<u8>) { if let Some(tx) = k().tx.as_ref() { let _ = tx.send(client::Event::Message(client::Message::Binary(b))); } }
pub fn occur(e: client::Event<Fault>) { if let Some(tx) = k().tx.as_ref() { let _ = tx.send(e); } }
