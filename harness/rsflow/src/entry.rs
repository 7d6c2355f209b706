//! Entries over the generated Rust producer (P28..) and consumer.
use crate::{sym::*, world::*, p, c};
use p::implementation::{producer::{self, ConsumerErrorHandelingStrategy as Es, ProducerIdentificationStrategy as Is}, protocol as pp};
use pp::{PackingStruct, InternalServiceGroup as I};
use tokio::rt::settle;
use uuid::Uuid;

// ---------------------------------------------------------------- P28: nothing but the handshake before the handshake
#[derive(Clone, Copy, PartialEq)]
enum K { Key, Hash, Bad, Ping, Ask, HPing, Tick, Tock, Other }
const ALL: [K; 9] = [K::Key, K::Hash, K::Bad, K::Ping, K::Ask, K::HPing, K::Tick, K::Tock, K::Other];
struct Msg { k: K, seq: u32, b: Vec<u8>, call: Option<Call> }
fn make(k: K) -> Msg {
    let seq: u32 = any();
    let n: u8 = any();
    let mut call = None;
    let b = match k {
        K::Key => pack(pp::Key { id: any(), name: None, flag: None }, seq),
        K::Hash => pack(hash(), seq),
        K::Bad => { let mut x = hash(); if choice(2) == 0 { x.protocol = String::from("x") } else { x.workflow.pop(); } pack(x, seq) }
        K::Ping => { let n: u16 = any(); call = Some(Call::Ping(n)); pack(pp::Ping { n }, seq) }
        K::Ask => { call = Some(Call::Ask(n)); pack(pp::G::Ask { n }, seq) }
        K::HPing => { call = Some(Call::HPing(n)); pack(pp::G::H::Ping { n }, seq) }
        K::Tick => { call = Some(Call::Tick(n)); pack(pp::Tick { n }, seq) }
        K::Tock => { call = Some(Call::Tock(n)); pack(pp::G::Tock { n }, seq) }
        K::Other => pack(pp::Other { n }, seq),
    };
    Msg { k, seq, b, call }
}
fn same_call(a: Call, b: Call) -> bool {
    match (a, b) {
        (Call::Ping(x), Call::Ping(y)) => x == y,
        (Call::Ask(x), Call::Ask(y)) | (Call::HPing(x), Call::HPing(y)) | (Call::Tick(x), Call::Tick(y)) | (Call::Tock(x), Call::Tock(y)) | (Call::Alarm(x), Call::Alarm(y)) | (Call::Fire(x), Call::Fire(y)) => x == y,
        (Call::Connected, Call::Connected) | (Call::Disconnected, Call::Disconnected) => true,
        _ => false,
    }
}
/// what has to follow from the messages of one client
struct Gate { u: Uuid, key: bool, hash: bool, out: bool, calls: Vec<Call>, answers: Vec<(bool, Vec<u8>)>, drops: usize, errors: Vec<&'static str> }
impl Gate {
    fn new(i: usize) -> Gate { Gate { u: id(i), key: false, hash: false, out: false, calls: vec![], answers: vec![], drops: 0, errors: vec![] } }
    fn refuse(&mut self) { self.out = true; self.drops += 1; self.errors.push("key") }
    fn step(&mut self, m: &Msg) {
        if self.out { return }
        match m.k {
            K::Key if !self.hash => { self.key = true; self.answers.push((true, pack(I::SelfKeyResponse { uuid: self.u.to_string() }, m.seq))) }
            K::Hash => { self.hash = true; self.answers.push((true, pack(I::HashResponse { error: None }, m.seq))) }
            K::Bad => { self.answers.push((false, pack(I::HashResponse { error: None }, m.seq))); self.refuse() }
            _ if !self.hash || !self.key => self.refuse(),
            _ => if let Some(c) = m.call { self.calls.push(c) }
        }
    }
    fn compare(&self) {
        let got = h().calls_of(self.u);
        check(got.len() <= self.calls.len(), "a handler is called for a client which did not complete the handshake");
        check(got.len() >= self.calls.len(), "a handler is not called for a message of a client which completed the handshake");
        for (g, c) in got.iter().zip(self.calls.iter()) { check(same_call(g.what, *c), "a handler is called with another content or for another message"); }
        check(h().drops(self.u) == self.drops, if self.drops == 0 { "a client is disconnected without a reason" } else { "a client which does not follow the handshake is not disconnected" });
        let e = h().errors_of(self.u);
        check(e.len() == self.errors.len() && e.iter().zip(self.errors.iter()).all(|(a, b)| a == b), "rejected traffic is not reported as an error, or an error is reported without a reason");
        let first = [pack(I::SelfKeyResponse { uuid: String::new() }, 0), pack(I::HashResponse { error: None }, 0)];
        let sent: Vec<&Vec<u8>> = h().sent_to(self.u).into_iter().filter(|b| first.iter().any(|f| kind(b, f))).collect();
        check(sent.len() == self.answers.len(), "the number of answers to the handshake is wrong");
        for (s, (exact, b)) in sent.iter().zip(self.answers.iter()) {
            if *exact { check(same(s, b), "an answer to the handshake has another content or sequence") } else { check(kind(s, b) & same_bytes(&s[6..10], &b[6..10]) & (s.len() > b.len()), "a wrong hash is confirmed") }
        }
    }
}
fn opened(i: usize) { connect(i); settle(); let n = h().sent_to(id(i)).len(); check(n == 1 && kind(h().sent_to(id(i))[0], &pack(I::ConnectConfirmationBeacon {}, 0)), "a connection is not confirmed to the client"); h().clear() }
fn alive() { check(h().ended.is_none(), "the producer ends") }
fn gate(n: usize, kinds: &[K], chunk: bool) {
    start(producer::Options::new());
    opened(A);
    let mut g = Gate::new(A);
    let mut all = vec![];
    for _ in 0..n {
        let m = make(pick(kinds));
        g.step(&m);
        if chunk { all.extend_from_slice(&m.b) } else { data(A, m.b); settle(); g.compare() }
    }
    if chunk { data(A, all); settle(); g.compare() }
    alive();
    if !g.calls.is_empty() { reach(2) }
    reach(1);
}


// ---------------------------------------------------------------- what has to follow from a handler's decision
fn to_any() -> To { match choice(6) { 0 => To::Nobody, 1 => To::All, 2 => To::Except, 3 => To::Exclude(vec![id(D), id(A)]), 4 => To::Keyed, _ => To::Only(vec![id(B)]) } }
fn text_any() -> Vec<u8> { let n = choice(3); ascii(n).into_bytes() }
fn plan_any(k: K) -> Plan {
    let mut p = Plan::none();
    p.bad = choice(2) == 1;
    p.v = any(); p.w = any();
    if p.bad { p.s = text_any(); return p }
    match k {
        K::Ask => {
            p.way = choice(3);
            if p.way > 0 { p.to[0] = to_any() }
            if p.way == 2 { p.opt = choice(2) == 1; p.to[2] = to_any(); if p.opt { p.to[1] = to_any(); p.s = ascii(1).into_bytes() } }
        }
        K::HPing => p.to[0] = to_any(),
        _ => {}
    }
    p
}
type Mail = Vec<(Vec<Uuid>, Vec<u8>)>;
fn outcome(c: Call, p: &Plan, me: Uuid, seq: u32, live: &[Uuid]) -> Mail {
    let to = |t: &To| -> Vec<Uuid> { match t { To::Nobody => vec![], To::All => live.to_vec(), To::Except => live.iter().filter(|u| **u != me).cloned().collect(), To::Only(v) => v.clone(), To::Exclude(v) => live.iter().filter(|u| !v.contains(u)).cloned().collect(), To::Keyed => live.iter().filter(|u| **u != id(D)).cloned().collect() } };
    let mut o = vec![];
    match c {
        Call::Ping(_) => o.push((vec![me], if p.bad { pack(pp::Err { text: p.text() }, seq) } else { pack(pp::Pong { n: p.v as u16 }, seq) })),
        Call::HPing(_) => if p.bad { o.push((vec![me], pack(pp::Err { text: p.text() }, seq))) } else { o.push((vec![me], pack(pp::G::H::Pong { n: p.v as u8 }, seq))); o.push((to(&p.to[0]), pack(pp::Mail { n: p.w }, 0))) },
        Call::Ask(_) => if p.bad { o.push((vec![me], pack(pp::G::No { why: p.text() }, seq))) } else { match p.way {
            0 => o.push((vec![me], pack(pp::Pong { n: p.v as u16 }, seq))),
            1 => { o.push((vec![me], pack(pp::G::H::Pong { n: p.v as u8 }, seq))); o.push((to(&p.to[0]), pack(pp::Mail { n: p.w }, 0))) }
            _ => { o.push((vec![me], pack(pp::G::Yes { n: p.v as u8 }, seq))); note(&mut o, p, &to) }
        } },
        Call::Tick(_) | Call::Tock(_) => if !p.bad { o.push((vec![me], pack(I::BeaconConfirmation { error: None }, seq))) },
        Call::Alarm(_) => if !p.bad { note(&mut o, p, &to) },
        Call::Fire(_) => if !p.bad { o.push((to(&p.to[0]), pack(pp::Mail { n: p.w }, 0))) },
        Call::Connected => if !p.bad { o.push((to(&p.to[0]), pack(pp::Extra { s: p.text() }, 0))) },
        Call::Disconnected => if !p.bad { o.push((to(&p.to[0]), pack(pp::Mail { n: p.w }, 0))); if p.opt { o.push((to(&p.to[1]), pack(pp::Note { n: p.w }, 0))) } },
    }
    o
}
fn note(o: &mut Mail, p: &Plan, to: &dyn Fn(&To) -> Vec<Uuid>) {
    o.push((to(&p.to[0]), pack(pp::Note { n: p.w }, 0)));
    if p.opt { o.push((to(&p.to[1]), pack(pp::Extra { s: p.text() }, 0))) }
    o.push((to(&p.to[2]), pack(pp::G::H::Note { n: p.w }, 0)));
}
/// every client got what it had to get, once, in this order
fn delivered(all: &Mail, clients: &[usize]) {
    for c in clients {
        let u = id(*c);
        let want: Vec<&Vec<u8>> = all.iter().flat_map(|m| m.0.iter().filter(|x| **x == u).map(move |_| &m.1)).collect();
        let got = h().sent_to(u);
        check(got.len() <= want.len(), "a client gets a message which is not for it, or gets it twice");
        check(got.len() >= want.len(), "a client does not get a message which is for it");
        for (g, w) in got.iter().zip(want.iter()) { check(same(g, w), "a client gets another content, another sequence or another order of messages") }
    }
    check(h().log.iter().all(|e| match e { Ev::Sent(u, _) | Ev::Lost(u, _) => clients.iter().any(|c| id(*c) == *u), Ev::ToAll(_) => false, _ => true }), "something is sent to somebody else");
}
/// handlers do not overlap, and what they deferred is done after what they decided
fn serial() {
    let mut last = 0;
    for (i, c) in h().calls.iter().enumerate() {
        check(c.at >= last, "a handler is called before the one before it is done with");
        let p = h().plan(i);
        let n = h().log.iter().filter(|e| **e == Ev::After(i)).count();
        check(n == if p.bad && !matches!(c.what, Call::Ping(_) | Call::Ask(_) | Call::HPing(_)) { 0 } else { 1 }, "what a handler deferred is not done once");
        if n == 1 { last = h().log.iter().position(|e| *e == Ev::After(i)).unwrap() }
    }
}
fn quiet(drops: usize, errors: &[&'static str]) {
    check(h().log.iter().filter(|e| matches!(e, Ev::Dropped(_) | Ev::DroppedAll)).count() == drops, "a client is disconnected without a reason");
    check(h().errors.len() == errors.len() && h().errors.iter().zip(errors.iter()).all(|(a, b)| a.0 == *b), "an error is reported without a reason, or is not reported");
}

// ---------------------------------------------------------------- P29: requests, beacons, events
fn req(k: K) {
    start(producer::Options::new());
    open(A); open(B); opened(D);
    let who = choice(2);
    let p = plan_any(k);
    h().default = p.clone();
    let m = make(k);
    data(who, m.b); settle();
    let c = m.call.unwrap();
    check(h().calls.len() == 1 && h().calls[0].uuid == Some(id(who)) && same_call(h().calls[0].what, c), "a message is not given to its handler once, with its content and its client");
    check(is_set(&h().calls[0].all, &[A, B, D]), "a handler sees another set of clients");
    delivered(&outcome(c, &p, id(who), m.seq, &[id(A), id(B), id(D)]), &[A, B, D]);
    quiet(0, if p.bad && matches!(c, Call::Tick(_) | Call::Tock(_)) { &["beacon"] } else { &[] });
    serial(); alive(); reach(1);
}
fn is_set(a: &[Uuid], b: &[usize]) -> bool { a.len() == b.len() && b.iter().all(|i| a.contains(&id(*i))) }
fn plan_small() -> Plan { let mut p = Plan::none(); p.bad = choice(2) == 1; p.v = any(); p.w = any(); p.way = 1; p.to[0] = To::All; p }
/// requests which arrive together, or while a handler takes its time, are answered in turn
fn req_many(n: usize) {
    start(producer::Options::new());
    open(A); open(B);
    let mut mail = vec![];
    let mut chunk = vec![];
    let slow = choice(2) == 1;
    let apart = slow || choice(2) == 1;
    h().hold = slow;
    let mut calls = vec![];
    for i in 0..n {
        let who = if apart { choice(2) } else { A };
        let p = plan_small();
        h().plans.push((i, p.clone()));
        let m = make(pick(&[K::Ping, K::Ask, K::Tick]));
        calls.push((id(who), m.call.unwrap()));
        mail.extend(outcome(m.call.unwrap(), &p, id(who), m.seq, &[id(A), id(B)]));
        if apart { data(who, m.b) } else { chunk.extend(m.b) }
    }
    if !apart { data(A, chunk) }
    settle();
    if slow { check(h().calls.len() == 1 && h().log.is_empty(), "a message is handled while the handler of the one before it is at work"); h().hold = false; tokio::rt::act(); settle(); }
    check(h().calls.len() == n && h().calls.iter().zip(calls.iter()).all(|(g, w)| g.uuid == Some(w.0) && same_call(g.what, w.1)), "messages are not handled once each, in the order of their arrival");
    delivered(&mail, &[A, B]);
    serial(); alive(); reach(1);
}
/// a message which cannot be read does not hold up those around it
fn req_broken() {
    let how = pick(&[Es::Log, Es::EmitError, Es::Disconnect, Es::EmitErrorAndDisconnect]);
    let mut o = producer::Options::new();
    o.consumer_error_handeling_strategy(how.clone());
    start(o);
    open(A); open(B);
    let first = make(K::Ping);
    let last = make(K::Tick);
    let mut bad = make(K::HPing).b;
    match choice(3) { 0 => { let s: u8 = any(); assume(s != bad[4]); bad[4] = s } 1 => { let i: u32 = any(); assume(i > 1000); bad[..4].copy_from_slice(&i.to_le_bytes()) } _ => { bad.truncate(26); for i in 18..26 { bad[i] = 0 } } }
    let mut all = first.b; all.extend(&bad); all.extend(last.b);
    data(A, all); settle();
    let drop = matches!(how, Es::Disconnect | Es::EmitErrorAndDisconnect);
    let mut mail = outcome(first.call.unwrap(), &Plan::none(), id(A), first.seq, &[]);
    if !drop { mail.extend(outcome(last.call.unwrap(), &Plan::none(), id(A), last.seq, &[])) }
    delivered(&mail, &[A, B]);
    check(h().calls.len() == if drop { 1 } else { 2 }, "a message next to one which cannot be read is not handled as its client deserves");
    quiet(drop as usize, if matches!(how, Es::EmitError | Es::EmitErrorAndDisconnect) { &["response"] } else { &[] });
    let m = make(K::Ping);
    h().clear(); data(B, m.b); settle();
    delivered(&outcome(m.call.unwrap(), &Plan::none(), id(B), m.seq, &[]), &[A, B]);
    alive(); reach(1);
}
fn fire(what: Call) {
    let c = control();
    tokio::rt::spawn(Box::pin(async move { let r = match what { Call::Alarm(n) => c.events.alarm(pp::Alarm { n }).await, Call::Fire(n) => c.events.g_fire(pp::G::Fire { n }).await, _ => Ok(()) }; check(r.is_ok(), "an event of the author is refused"); }));
}
fn evt(alarm: bool) {
    start(producer::Options::new());
    open(A); open(B); opened(D);
    let mut p = Plan::none();
    p.bad = choice(2) == 1; p.w = any();
    if !p.bad { p.to[0] = to_any(); if alarm { p.to[2] = to_any(); p.opt = choice(2) == 1; if p.opt { p.to[1] = to_any(); p.s = text_any() } } }
    h().default = p.clone();
    let n: u8 = any();
    let c = if alarm { Call::Alarm(n) } else { Call::Fire(n) };
    fire(c); settle();
    check(h().calls.len() == 1 && same_call(h().calls[0].what, c), "an event of the author is not given to its handler once, with its content");
    check(is_set(&h().calls[0].all, &[A, B, D]), "a handler sees another set of clients");
    delivered(&outcome(c, &p, id(A), 0, &[id(A), id(B), id(D)]), &[A, B, D]);
    quiet(0, &[]); serial(); alive(); reach(1);
}
/// events, messages and losses of connections which come while a handler is at work are all handled, one at a time
fn evt_mix() {
    start(producer::Options::new());
    open(A); open(B);
    h().default.to[0] = To::All;
    h().default.w = any();
    h().hold = true;
    let m = make(K::Ping);
    data(A, m.b.clone()); settle();
    let (x, y): (u8, u8) = (any(), any());
    let t = make(K::Tick);
    fire(Call::Fire(x)); fire(Call::Fire(y)); settle();
    data(B, t.b.clone());
    let gone = choice(2) == 1;
    if gone { lose(A) }
    settle();
    check(h().calls.len() == 1 && h().log.is_empty(), "something is handled while another handler is at work");
    h().hold = false; tokio::rt::act(); settle();
    serial(); quiet(0, &[]); alive();
    let c: Vec<Call> = h().calls.iter().map(|c| c.what).collect();
    check(c.len() == 4 + gone as usize, "something which came while a handler was at work is lost, or is handled twice");
    let fires: Vec<u8> = c.iter().filter_map(|c| if let Call::Fire(n) = c { Some(*n) } else { None }).collect();
    check(fires.len() == 2 && fires[0] == x && fires[1] == y, "events of the author are not handled in order");
    let at = |f: &dyn Fn(&Call) -> bool| c.iter().position(|x| f(x)).unwrap_or(99);
    let (tick, left) = (at(&|c| matches!(c, Call::Tick(_))), at(&|c| matches!(c, Call::Disconnected)));
    check(tick < c.len() && (!gone || tick < left && left < c.len()), "what the transport reports is not handled in order");
    // who is there when each handler decides
    let mut mail: Mail = vec![];
    for (i, c) in c.iter().enumerate() {
        let live: Vec<Uuid> = if gone && i >= left { vec![id(B)] } else { vec![id(A), id(B)] };
        let (me, seq) = match c { Call::Tick(_) => (id(B), t.seq), _ => (id(A), m.seq) };
        mail.extend(outcome(*c, &h().default.clone(), me, seq, &live));
    }
    delivered(&mail, &[A, B]);
    reach(1);
}

// ---------------------------------------------------------------- P30: connections
fn con_history(n: usize) {
    alike();
    start(producer::Options::new());
    h().default.to[0] = To::All; h().default.to[1] = To::All; h().default.to[2] = To::All; h().default.opt = true; h().default.w = any();
    let mut live: Vec<usize> = vec![];
    for _ in 0..n {
        h().clear();
        let who = choice(3);
        let mut mail: Mail = vec![];
        let uu = |l: &[usize]| -> Vec<Uuid> { l.iter().map(|i| id(*i)).collect() };
        let plan = h().default.clone();
        let mut want: Vec<Call> = vec![];
        let before = live.clone();
        match choice(3) {
            0 => {
                if live.contains(&who) { continue }
                connect(who);
                want.push(Call::Connected);
                mail.extend(outcome(Call::Connected, &plan, id(who), 0, &uu(&live)));
                mail.push((vec![id(who)], pack(I::ConnectConfirmationBeacon {}, 0)));
                live.push(who);
            }
            1 => {
                lose(who);
                if live.contains(&who) { live.retain(|x| *x != who); want.push(Call::Disconnected); mail.extend(outcome(Call::Disconnected, &plan, id(who), 0, &uu(&live))) }
            }
            _ => { if who > 0 { continue } let x = any(); fire(Call::Alarm(x)); want.push(Call::Alarm(x)); mail.extend(outcome(Call::Alarm(0), &plan, id(A), 0, &uu(&live))) }
        }
        settle();
        check(h().calls.len() == want.len() && h().calls.iter().zip(want.iter()).all(|(g, w)| same_call(g.what, *w)), "a change of connections is not given to its handler once");
        if let Some(c) = h().calls.get(0) {
            let seen = match want[0] { Call::Connected => &before, _ => &live };
            check(is_set(&c.all, seen), "a handler sees another set of clients than those connected");
            if !matches!(want[0], Call::Alarm(_)) { check(c.uuid == Some(id(who)), "a change of connections is given with another client") }
        }
        delivered(&mail, &[A, B, D]);
        quiet(0, &[]); serial(); alive();
    }
    reach(1);
}
/// a handler which fails does not cost the connection
fn con_failing() {
    alike();
    start(producer::Options::new());
    opened(B); 
    h().default.bad = true;
    connect(A); settle();
    check(h().calls.len() == 1, "a new connection is not given to its handler once");
    delivered(&vec![(vec![id(A)], pack(I::ConnectConfirmationBeacon {}, 0))], &[A, B]);
    h().default.bad = false; h().clear();
    shake(A); served(A);
    h().default.bad = true;
    lose(A); settle();
    check(h().calls.len() == 1 && is_set(&h().calls[0].all, &[B]), "a lost connection is not given to its handler once");
    check(h().log.is_empty(), "something is sent after the connection is lost");
    h().default.bad = false; h().clear();
    shake(B); served(B);
    quiet(0, &[]); alive(); reach(1);
}
fn shake(i: usize) {
    h().clear();
    data(i, pack(key(1), 1)); data(i, pack(hash(), 2)); settle();
    delivered(&vec![(vec![id(i)], pack(I::SelfKeyResponse { uuid: id(i).to_string() }, 1)), (vec![id(i)], pack(I::HashResponse { error: None }, 2))], &[A, B, D]);
    h().clear();
}
fn served(i: usize) {
    let m = make(K::Ping);
    h().clear(); data(i, m.b); settle();
    check(h().calls.len() == 1 && same_call(h().calls[0].what, m.call.unwrap()), "a client which completed the handshake is not served");
    delivered(&outcome(m.call.unwrap(), &h().default.clone(), id(i), m.seq, &[]), &[A, B, D]);
    h().clear();
}
/// a client which comes back starts from scratch
fn con_again() {
    alike();
    start(producer::Options::new());
    open(A); opened(B);
    let half = make(K::Ping).b;
    let n = choice(half.len());
    data(A, half[..n].to_vec()); settle();
    lose(A); settle(); h().clear();
    connect(A); settle();
    delivered(&vec![(vec![id(A)], pack(I::ConnectConfirmationBeacon {}, 0))], &[A, B]);
    if choice(2) == 0 {
        let k = pick(&[K::Ping, K::Tick, K::Ask]);
        h().clear(); data(A, make(k).b); settle();
        check(h().calls.is_empty(), "a client which comes back is served before it completes the handshake again");
        quiet(1, &["key"]);
    } else { shake(A); served(A); quiet(0, &[]) }
    alive(); reach(1);
}
/// what a client sends right after it connected is served
fn con_hasty() {
    start(producer::Options::new());
    opened(B);
    if choice(2) == 1 { h().plans.push((0, { let mut p = Plan::none(); p.grant = Some((pp::Grant { name: None, level: None }, true)); p })) }
    let m = make(K::Ping);
    connect(A);
    if choice(2) == 1 { let mut all = pack(key(1), 1); all.extend(pack(hash(), 2)); all.extend(m.b); data(A, all) }
    else { data(A, pack(key(1), 1)); data(A, pack(hash(), 2)); data(A, m.b) }
    settle();
    let mut mail = vec![(vec![id(A)], pack(I::ConnectConfirmationBeacon {}, 0)), (vec![id(A)], pack(I::SelfKeyResponse { uuid: id(A).to_string() }, 1)), (vec![id(A)], pack(I::HashResponse { error: None }, 2))];
    mail.extend(outcome(m.call.unwrap(), &Plan::none(), id(A), m.seq, &[]));
    delivered(&mail, &[A, B]);
    quiet(0, &[]); alive(); reach(1);
}
/// data of a client which is not connected
fn con_absent() {
    let how = pick(&[Es::Log, Es::EmitError, Es::Disconnect, Es::EmitErrorAndDisconnect]);
    let mut o = producer::Options::new();
    o.consumer_error_handeling_strategy(how.clone());
    start(o);
    open(B);
    if choice(2) == 1 { open(A); lose(A); settle(); h().clear() }
    let m = make(pick(&ALL));
    data(A, m.b); settle();
    check(h().calls.is_empty() && h().log.is_empty(), "data of a client which is not connected is handled");
    check(h().errors.len() == matches!(how, Es::EmitError | Es::EmitErrorAndDisconnect) as usize && h().errors.iter().all(|e| *e == ("response", Some(id(A)))), "data of a client which is not connected is not reported as the author asked");
    h().clear(); served(B);
    alive(); reach(1);
}

// ---------------------------------------------------------------- P31: keys
fn flag_any() -> Option<bool> { match choice(2) { 0 => None, _ => Some(any_bool()) } }
fn name_any() -> Option<String> { match choice(3) { 0 => None, n => Some(ascii(n - 1)) } }
fn key_any() -> pp::Key { pp::Key { id: any(), name: name_any(), flag: flag_any() } }
/// a key which comes over the wire, where an empty optional text is the same as none (see P01)
fn key_wire() -> pp::Key { let mut k = key_any(); if let Some(n) = k.name.as_ref() { assume(!n.is_empty()) } k }
fn grant_any() -> pp::Grant { pp::Grant { name: name_any(), level: match choice(2) { 0 => None, _ => Some(any()) } } }
fn same_str(a: &Option<String>, b: &Option<String>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => same_bytes(a.as_bytes(), b.as_bytes()), _ => false } }
fn same_key(a: &Option<pp::Key>, b: &Option<pp::Key>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => (a.id == b.id) & same_str(&a.name, &b.name) & (a.flag == b.flag), _ => false } }
fn same_grant(a: &Option<pp::Grant>, b: &Option<pp::Grant>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => same_str(&a.name, &b.name) & (a.level == b.level), _ => false } }
fn mix_key(a: &mut Option<pp::Key>, b: &pp::Key, over: bool) { match a { Some(a) if !over => { a.id = b.id; if b.name.is_some() { a.name = b.name.clone() } if b.flag.is_some() { a.flag = b.flag } } _ => *a = Some(b.clone()) } }
fn mix_grant(a: &mut Option<pp::Grant>, b: &pp::Grant, over: bool) { match a { Some(a) if !over => { if b.name.is_some() { a.name = b.name.clone() } if b.level.is_some() { a.level = b.level } } _ => *a = Some(b.clone()) } }
fn keyed(i: usize, key: &Option<pp::Key>, grant: &Option<pp::Grant>) {
    let n = h().calls.len();
    data(i, make(K::Ping).b); settle();
    check(h().calls.len() == n + 1, "a client which completed the handshake is not served");
    check(same_key(&h().calls[n].key, key), "a handler sees another key than the client gave or the author set");
    check(same_grant(&h().calls[n].assigned, grant), "a handler sees another assigned key than the author set");
}
/// the key a client gives is the key its handlers see, and the last one given counts
fn key_given() {
    start(producer::Options::new());
    opened(A); open(B);
    let mut k = None;
    for _ in 0..1 + choice(2) { let x = key_wire(); data(A, pack(x.clone(), any())); settle(); k = Some(x) }
    data(A, pack(hash(), 2)); settle(); h().clear();
    keyed(A, &k, &None);
    keyed(B, &Some(key(1)), &None);
    alive(); reach(1);
}
/// a key the author sets replaces or completes the one before it, for this client alone
fn key_set() {
    start(producer::Options::new());
    opened(A); open(B);
    let x = key_wire();
    data(A, pack(x.clone(), 1)); data(A, pack(hash(), 2)); settle(); h().clear();
    let mut k = Some(x);
    for i in 0..bound(1, 2) { let y = key_any(); let over = choice(2) == 1; let mut p = Plan::none(); p.key = Some((y.clone(), over)); h().plans.push((i, p)); keyed(A, &k, &None); mix_key(&mut k, &y, over) }
    keyed(A, &k, &None);
    keyed(B, &Some(key(1)), &None);
    alive(); reach(1);
}
fn key_assigned() {
    start(producer::Options::new());
    open(A); open(B);
    let mut g = None;
    for i in 0..2 { let y = grant_any(); let over = choice(2) == 1; let mut p = Plan::none(); p.grant = Some((y.clone(), over)); h().plans.push((i, p)); keyed(A, &Some(key(1)), &g); mix_grant(&mut g, &y, over) }
    keyed(A, &Some(key(1)), &g);
    keyed(B, &Some(key(1)), &None);
    alive(); reach(1);
}

// ---------------------------------------------------------------- P28 again: the assigned key, the hash, cut streams, two clients
fn gate_assigned() {
    let how = pick(&[Is::Log, Is::EmitError, Is::Disconnect, Is::EmitErrorAndDisconnect, Is::Ignore]);
    let mut o = producer::Options::new();
    o.producer_indentification_strategy(how.clone());
    start(o);
    let given = choice(2) == 1;
    if given { let mut p = Plan::none(); p.grant = Some((grant_any(), choice(2) == 1)); h().plans.push((0, p)) }
    connect(A); settle(); shake(A);
    h().plans.clear();
    let pass = given || matches!(how, Is::Log | Is::Ignore);
    let drop = !pass && matches!(how, Is::Disconnect | Is::EmitErrorAndDisconnect);
    for i in 0..2 {
        h().clear();
        let m = make(pick(&[K::Ping, K::Tick, K::Ask]));
        data(A, m.b); settle();
        check(h().calls.len() == pass as usize, if pass { "a client is not served though it has an assigned key or none is needed" } else { "a client without an assigned key is served" });
        let still = i == 0 || !drop;
        quiet((drop && still) as usize, if !pass && still && matches!(how, Is::EmitError | Is::EmitErrorAndDisconnect) { &["assigned"] } else { &[] });
        if !pass { check(h().sent_to(id(A)).is_empty(), "a client without an assigned key is answered") }
    }
    alive(); reach(1); if pass { reach(2) }
}
/// no text but the right hashes is accepted
fn gate_hash() {
    start(producer::Options::new());
    opened(A);
    data(A, pack(key(1), 1)); settle(); h().clear();
    let mut r = hash();
    let right = (r.protocol.clone(), r.workflow.clone());
    {
        let s = if choice(2) == 0 { &mut r.protocol } else { &mut r.workflow };
        let n = s.len();
        match choice(5) {
            0 => { let at = pick(&[0, 1, n / 2, n - 2, n - 1]); let b: u8 = any(); assume(b < 0x80); unsafe { s.as_bytes_mut()[at] = b } }
            1 => { let b: u8 = any(); assume(b < 0x80); s.push(b as char) }
            2 => { s.pop(); }
            3 => { let cut = choice(n); s.truncate(cut) }
            _ => *s = s.to_lowercase(),
        }
    }
    let ok = same_bytes(r.protocol.as_bytes(), right.0.as_bytes()) & same_bytes(r.workflow.as_bytes(), right.1.as_bytes());
    let seq: u32 = any();
    data(A, pack(r, seq)); settle();
    let drops = h().drops(id(A));
    check(drops == !ok as usize, if ok { "a client with the right hashes is disconnected" } else { "a client with a wrong hash is not disconnected" });
    let sent = h().sent_to(id(A));
    let good = pack(I::HashResponse { error: None }, seq);
    check(sent.len() == 1 && kind(sent[0], &good) && same_bytes(&sent[0][6..10], &good[6..10]), "a hash check is not answered once");
    check(same(sent[0], &good) == ok, "the answer to a hash check does not tell its result");
    h().clear();
    data(A, make(K::Ping).b); settle();
    check(h().calls.len() == ok as usize, "a client with a wrong hash is served, or one with the right hashes is not");
    alive(); reach(1); if ok { reach(2) }
}
/// however its stream is cut, a client is served alike
fn gate_cut() {
    start(producer::Options::new());
    opened(A);
    let (seq, m) = (any(), make(pick(&[K::Ping, K::Tick])));
    let mut all = pack(key(1), seq); let e1 = all.len(); all.extend(pack(hash(), seq)); let e2 = all.len(); all.extend(&m.b);
    let cut = if bound(0, 1) == 0 { pick(&[1, 25, 26, e1 - 1, e1, e1 + 1, e2 - 1, e2, e2 + 1, e2 + 26, all.len() - 1]) } else { choice(all.len()) };
    data(A, all[..cut].to_vec());
    if choice(2) == 1 { settle() }
    data(A, all[cut..].to_vec()); settle();
    let mut mail = vec![(vec![id(A)], pack(I::SelfKeyResponse { uuid: id(A).to_string() }, seq)), (vec![id(A)], pack(I::HashResponse { error: None }, seq))];
    mail.extend(outcome(m.call.unwrap(), &Plan::none(), id(A), m.seq, &[]));
    delivered(&mail, &[A]);
    quiet(0, &[]); alive(); reach(1);
}
/// each client passes the handshake for itself
fn gate_two(n: usize) {
    alike();
    start(producer::Options::new());
    opened(A); opened(B);
    let mut g = [Gate::new(A), Gate::new(B)];
    for _ in 0..n {
        let who = choice(2);
        let m = make(pick(&[K::Key, K::Hash, K::Bad, K::Ping, K::Tick]));
        g[who].step(&m);
        data(who, m.b); settle();
        g[A].compare(); g[B].compare();
    }
    alive(); reach(1);
    if !g[A].calls.is_empty() || !g[B].calls.is_empty() { reach(2) }
}

// ---------------------------------------------------------------- P32: nothing one client does stops the producer
fn life_bytes(lens: &[usize]) {
    let mut o = producer::Options::new();
    o.consumer_error_handeling_strategy(pick(&[Es::Log, Es::EmitErrorAndDisconnect]));
    start(o);
    open(B);
    if choice(2) == 1 { open(A) } else { opened(A) }
    let n = pick(lens);
    data(A, bytes(n)); settle();
    check(h().sent_to(id(B)).is_empty() && h().drops(id(B)) == 0, "what one client sends is felt by another");
    served(B);
    lose(A); settle();
    h().clear(); connect(A); settle(); shake(A); served(A);
    alive(); reach(1);
}
/// whatever the transport refuses for one client, the others are served
fn life_faults(k: usize) {
    let mut o = producer::Options::new();
    o.consumer_error_handeling_strategy(pick(&[Es::Log, Es::EmitError, Es::Disconnect, Es::EmitErrorAndDisconnect]));
    start(o);
    open(B);
    if k > 0 { open(A) }
    h().default.to[0] = To::All; h().default.way = 1;
    h().send_fails = 2; h().drop_fails = 2;
    match k {
        0 => { connect(A); settle(); data(A, pack(key(1), 1)); settle(); data(A, pack(hash(), 2)); settle() }
        1 => { data(A, make(pick(&[K::Ping, K::Ask, K::Tick])).b); settle(); lose(A); settle() }
        2 => { fire(Call::Alarm(1)); settle(); data(A, { let mut b = make(K::Ping).b; b[4] ^= 1; b }); settle() }
        _ => { data(A, make(K::Bad).b); settle(); data(A, make(K::Ping).b); settle() }
    }
    let failed = h().log.iter().any(|e| matches!(e, Ev::Lost(_, _)));
    h().send_fails = 0; h().drop_fails = 0;
    h().default.to[0] = To::Nobody; h().default.way = 0;
    check(h().drops(id(B)) == 0, "a client is disconnected for the failures of another");
    served(B);
    connect(D); settle(); shake(D); served(D);
    alive(); reach(1); if failed { reach(2) }
}

// ---------------------------------------------------------------- P33: the end
static mut ANSWER: Option<bool> = None;
fn stop(wait: bool) {
    unsafe { ANSWER = None }
    let c = control();
    tokio::rt::spawn(Box::pin(async move { let r = c.shutdown(wait).await.is_ok(); unsafe { ANSWER = Some(r) } }));
}
fn ended(ok: bool) {
    check(h().ended.is_some(), "the producer does not end");
    check(h().ended == Some(if ok { Ok(()) } else { Err("error") }), "the producer ends with another result");
    check(h().down == 1, "the handler of the end is not called once");
    check(h().log.iter().filter(|e| **e == Ev::Down).count() == 1, "the transport is not shut down once");
}
fn down_asked() {
    start(producer::Options::new());
    open(A);
    let wait = choice(2) == 1;
    let busy = choice(2) == 1;
    h().hold = busy;
    let m = make(K::Ping);
    if busy { data(A, m.b.clone()); settle() }
    stop(wait);
    settle();
    if busy {
        check(h().down == 0 && h().ended.is_none(), "the end is reported while a handler is at work");
        if wait { check(unsafe { ANSWER.is_none() }, "a shutdown is confirmed while a handler is at work") }
        h().hold = false; tokio::rt::act(); settle();
        delivered(&outcome(m.call.unwrap(), &Plan::none(), id(A), m.seq, &[]), &[A]);
    }
    check(unsafe { ANSWER == Some(true) }, "a shutdown is not confirmed");
    ended(true);
    let n = h().calls.len();
    data(A, make(K::Ping).b); connect(B); settle();
    check(h().calls.len() == n, "something is handled after the end");
    check(h().drops(id(A)) == 0 && h().errors.is_empty(), "the end is reported as an error");
    reach(1);
}
/// messages which are already there, or come while the producer ends, do no harm
fn down_late() {
    start(producer::Options::new());
    open(A);
    let m = make(K::Ping);
    if choice(2) == 0 { data(A, m.b.clone()); stop(true) } else { stop(true); data(A, m.b.clone()); }
    if choice(2) == 0 { fire_late() }
    settle();
    check(h().calls.len() <= 2, "a message is handled twice");
    check(h().sent_to(id(A)).len() == h().calls.iter().filter(|c| matches!(c.what, Call::Ping(_))).count(), "a message which is handled is not answered");
    check(unsafe { ANSWER == Some(true) }, "a shutdown is not confirmed");
    ended(true); reach(1);
}
fn fire_late() { let c = control(); tokio::rt::spawn(Box::pin(async move { let _ = c.events.alarm(pp::Alarm { n: 1 }).await; })); }
/// the transport ends
fn down_transport() {
    start(producer::Options::new());
    open(A);
    h().down_fails = choice(2) == 1;
    let how = choice(3);
    match how { 0 => event(clibri::server::Events::Shutdown), 1 => { h().listen_ends = true; tokio::rt::act() } _ => { h().closed = true; tokio::rt::act() } }
    settle();
    ended(how != 1);
    reach(1);
}


/// what the author sends past the handlers goes where it is told, whatever happens to one of the addressees
fn evt_control() {
    start(producer::Options::new());
    open(A); open(B);
    let b = bytes(3);
    h().send_fails = choice(3);
    let how = choice(4);
    static mut DONE: Option<bool> = None;
    unsafe { DONE = None }
    let (c, x) = (control(), b.clone());
    tokio::rt::spawn(Box::pin(async move {
        let r = match how { 0 => c.send(x, Some(id(B))).await, 1 => c.send(x, None).await, 2 => c.broadcast(vec![id(B), id(A)], x).await, _ => c.disconnect(id(B)).await };
        unsafe { DONE = Some(r.is_ok()) }
    }));
    settle();
    let to = |u: Uuid| h().log.iter().filter(|e| match e { Ev::Sent(v, d) | Ev::Lost(v, d) => *v == u && same_bytes(d, &b), _ => false }).count();
    let lost = h().log.iter().filter(|e| matches!(e, Ev::Lost(_, _))).count();
    match how {
        0 => { check(h().log.len() == 1 && to(id(B)) == 1, "what the author sends to a client is not sent to it once, as it is"); check(unsafe { DONE == Some(lost == 0) }, "the author is not told whether a message was sent") }
        1 => check(h().log.len() == 1 && matches!(&h().log[0], Ev::ToAll(d) if same_bytes(d, &b)), "what the author sends to everybody is not sent once, as it is"),
        2 => check(h().log.len() == 2 && to(id(A)) == 1 && to(id(B)) == 1, "what the author broadcasts is not sent once to each addressee"),
        _ => { check(h().log.len() == 1 && h().drops(id(B)) == 1, "a client the author disconnects is not disconnected once"); check(unsafe { DONE == Some(true) }, "the author is told that a client cannot be disconnected") }
    }
    h().send_fails = 0;
    h().errors.clear(); served(A);
    alive(); reach(1);
}

// ---------------------------------------------------------------- P34: the consumer's handshake
type R = &'static mut Option<Remote>;
fn options(reconnect: bool) -> c::Options { c::Options { reconnection: if reconnect { c::ReconnectionStrategy::Reconnect(2000) } else { c::ReconnectionStrategy::DoNotReconnect }, request_timeout: 500, key: c::protocol::Key { id: 7, name: None, flag: None } } }
fn confirm() { arrive(pack(I::ConnectConfirmationBeacon {}, 0)) }
fn seq_of(b: &[u8]) -> u32 { u32::from_le_bytes([b[6], b[7], b[8], b[9]]) }
fn uid() -> String { id(A).to_string() }
fn seen(want: &[Seen]) { check(k().seen.len() <= want.len() || k().seen.iter().zip(want.iter()).any(|(a, b)| a != b), "the author is told something without a reason"); check(k().seen.len() >= want.len(), "the author is not told what happened"); check(k().seen.iter().zip(want.iter()).all(|(a, b)| a == b), "the author is told something else than what happened, or in another order") }
fn sent(n: usize) { check(k().sent.len() <= n, "the consumer sends something it should not"); check(k().sent.len() >= n, "the consumer does not send what it should") }
/// completes the handshake
fn ready(o: c::Options) -> R {
    let r = join(o);
    shake_back();
    k().sent.clear(); k().seen.clear();
    r
}
fn shake_back() {
    let n = k().sent.len();
    confirm(); settle(); sent(n + 1);
    let s = seq_of(&k().sent[n]);
    arrive(pack(I::SelfKeyResponse { uuid: uid() }, s)); settle(); sent(n + 2);
    let s = seq_of(&k().sent[n + 1]);
    arrive(pack(I::HashResponse { error: None }, s)); settle(); sent(n + 2);
    check(k().seen.iter().filter(|s| **s == Seen::Connected).count() == 1, "the author is not told once that the consumer is connected");
}
#[derive(Clone, Copy, PartialEq)]
enum Odd { Note, Extra, Stray }
/// something which may come at any time
fn aside(want: &mut Vec<Seen>) {
    match choice(4) {
        0 => {}
        1 => { let n: u8 = any(); arrive(pack(pp::Note { n }, 0)); want.push(Seen::Note(vec![n])) }
        2 => { let s = ascii(1); arrive(pack(pp::Extra { s: s.clone() }, 0)); want.push(Seen::Extra(s.into_bytes())) }
        _ => { arrive(pack(pp::Pong { n: any() }, 5)); want.push(Seen::Error("unknown message")) }
    }
}
fn chs_full() {
    let mut o = options(true);
    let (n, name) = (any(), match choice(2) { 0 => None, _ => Some(ascii(1)) });
    o.key = c::protocol::Key { id: n, name: name.clone(), flag: flag_any() };
    let flag = o.key.flag;
    let r = join(o);
    let mut want = vec![];
    occur(clibri::client::Event::Connected(std::net::SocketAddr::from(([127, 0, 0, 1], 80)))); aside(&mut want); settle();
    check(r.is_some(), "the author does not get the consumer");
    sent(0);
    confirm(); if choice(2) == 1 { aside(&mut want) } settle();
    sent(1);
    let s = seq_of(&k().sent[0]);
    check(same(&k().sent[0], &pack(pp::Key { id: n, name, flag }, s)), "the consumer sends another key than the author gave");
    aside(&mut want); settle(); sent(1); seen(&want);
    arrive(pack(I::SelfKeyResponse { uuid: uid() }, s)); if choice(2) == 1 { aside(&mut want) } settle();
    sent(2);
    let t = seq_of(&k().sent[1]);
    check(same(&k().sent[1], &pack(hash(), t)) && t != s, "the consumer does not send its hashes");
    seen(&want);
    arrive(pack(I::HashResponse { error: None }, t)); settle();
    want.push(Seen::Connected);
    sent(2); seen(&want);
    aside(&mut want); settle(); sent(2); seen(&want); reach(1);
}
/// a handshake which goes wrong never makes the consumer ready, and is reported
fn chs_wrong() {
    let _r = join(options(choice(2) == 1));
    confirm(); settle(); sent(1);
    let s = seq_of(&k().sent[0]);
    let late = choice(2) == 1;
    let err;
    if late {
        arrive(pack(I::SelfKeyResponse { uuid: uid() }, s)); settle(); sent(2);
        let t = seq_of(&k().sent[1]);
        err = "hash";
        match choice(3) { 0 => arrive(pack(I::HashResponse { error: Some(ascii(1)) }, t)), 1 => arrive(pack(I::SelfKeyResponse { uuid: uid() }, t)), _ => arrive(pack(pp::Pong { n: any() }, t)) }
    } else {
        err = "handshake";
        match choice(3) { 0 => arrive(pack(I::HashResponse { error: None }, s)), 1 => arrive(pack(pp::Note { n: any() }, s)), _ => arrive(pack(I::BeaconConfirmation { error: None }, s)) }
    }
    settle();
    check(!k().seen.contains(&Seen::Connected), "the author is told that the consumer is connected after a failed handshake");
    check(k().seen.contains(&Seen::Error(err)) && k().seen.contains(&Seen::Shutdown(Some(err))), "a failed handshake is not reported");
    sent(1 + late as usize); reach(1);
}
/// a producer which gives no valid id
fn chs_uuid() {
    let _r = join(options(false));
    confirm(); settle(); sent(1);
    let s = seq_of(&k().sent[0]);
    let mut u = uid().into_bytes();
    match choice(3) { 0 => { u.pop(); } 1 => u.clear(), _ => { let at = pick(&[0, 14, 35]); let b: u8 = any(); assume(b < 0x80); u[at] = b } }
    let good = uid().len() == u.len() && u.iter().all(|b| b.is_ascii_hexdigit() | (*b == b'-'));
    let at_dash = u.len() == 36 && u[0] != b'-' && u[14] != b'-' && u[35] != b'-';
    arrive(pack(I::SelfKeyResponse { uuid: unsafe { String::from_utf8_unchecked(u) } }, s)); settle(); sent(2);
    let t = seq_of(&k().sent[1]);
    arrive(pack(I::HashResponse { error: None }, t)); settle();
    let ok = good && at_dash;
    check(k().seen.contains(&Seen::Connected) == ok, "the author is told that the consumer is connected without a valid id, or not told with one");
    if !ok { check(k().seen.contains(&Seen::Shutdown(Some("uuid"))), "an invalid id is not reported") }
    reach(1); if ok { reach(2) }
}

// ---------------------------------------------------------------- P35: requests of the consumer, broadcasts
#[derive(Clone, Copy, PartialEq)]
enum Q { Ping, Ask, HPing, Tick, Tock }
const QS: [Q; 5] = [Q::Ping, Q::Ask, Q::HPing, Q::Tick, Q::Tock];
fn ask(r: &Remote, tag: usize, q: Q, n: u8) {
    let mut r = r.clone();
    use c::implementation::consumer::controller::*;
    use c::protocol as cp;
    tokio::rt::spawn(Box::pin(async move {
        let o = match q {
            Q::Ping => match r.ping(cp::Ping { n: n as u16 }).await { Ok(PingResponse::Response(m)) => Out::Value(0, m.n as u32), Ok(PingResponse::Err(e)) => Out::Text(e.text.into_bytes()), Err(e) => Out::Error(error_kind(&e)) },
            Q::Ask => match r.g_ask(cp::G::Ask { n }).await { Ok(GAskResponse::Yes(m)) => Out::Value(0, m.n as u32), Ok(GAskResponse::Pong(m)) => Out::Value(1, m.n as u32), Ok(GAskResponse::Later(m)) => Out::Value(2, m.n as u32), Ok(GAskResponse::Err(e)) => Out::Text(e.why.into_bytes()), Err(e) => Out::Error(error_kind(&e)) },
            Q::HPing => match r.g_h_ping(cp::G::H::Ping { n }).await { Ok(GHPingResponse::Done(m)) => Out::Value(0, m.n as u32), Ok(GHPingResponse::Err(e)) => Out::Text(e.text.into_bytes()), Err(e) => Out::Error(error_kind(&e)) },
            Q::Tick => match r.beacon_tick(cp::Tick { n }).await { Ok(()) => Out::Unit, Err(e) => Out::Error(error_kind(&e)) },
            Q::Tock => match r.beacon_g_tock(cp::G::Tock { n }).await { Ok(()) => Out::Unit, Err(e) => Out::Error(error_kind(&e)) },
        };
        k().done.push((tag, o));
    }));
}
fn asked(q: Q, n: u8, seq: u32) -> Vec<u8> { match q { Q::Ping => pack(pp::Ping { n: n as u16 }, seq), Q::Ask => pack(pp::G::Ask { n }, seq), Q::HPing => pack(pp::G::H::Ping { n }, seq), Q::Tick => pack(pp::Tick { n }, seq), Q::Tock => pack(pp::G::Tock { n }, seq) } }
/// any answer and what the caller has to get for it
fn answer(q: Q, seq: u32) -> (Vec<u8>, Out) {
    let n: u8 = any();
    let s = ascii(choice(2));
    let t = s.clone().into_bytes();
    let (v, w) = (n as u32, Out::Error("unexpected response"));
    match choice(8) {
        0 => (pack(pp::Pong { n: n as u16 }, seq), match q { Q::Ping => Out::Value(0, v), Q::Ask => Out::Value(1, v), _ => w }),
        1 => (pack(pp::G::Yes { n }, seq), match q { Q::Ask => Out::Value(0, v), _ => w }),
        2 => (pack(pp::G::H::Pong { n }, seq), match q { Q::Ask => Out::Value(2, v), Q::HPing => Out::Value(0, v), _ => w }),
        3 => (pack(pp::Err { text: s }, seq), match q { Q::Ping | Q::HPing => Out::Text(t), _ => w }),
        4 => (pack(pp::G::No { why: s }, seq), match q { Q::Ask => Out::Text(t), _ => w }),
        5 => (pack(I::BeaconConfirmation { error: None }, seq), match q { Q::Tick | Q::Tock => Out::Unit, _ => w }),
        6 => (pack(I::BeaconConfirmation { error: Some(String::from("x")) }, seq), match q { Q::Tick | Q::Tock => Out::Error("broadcast"), _ => w }),
        _ => (pack(pp::Mail { n }, seq), w),
    }
}
fn same_out(a: &Out, b: &Out) -> bool { match (a, b) { (Out::Value(i, x), Out::Value(j, y)) => i == j && x == y, (Out::Text(x), Out::Text(y)) => same_bytes(x, y), _ => a == b } }
fn done(tag: usize, want: &Out) { let d: Vec<&Out> = k().done.iter().filter(|d| d.0 == tag).map(|d| &d.1).collect(); check(d.len() == 1, "a request is not settled once"); check(same_out(d[0], want), "a request is settled with something else than its answer") }
/// each request is settled by the answer with its sequence, whatever the order
fn creq_pair(qs: &[Q]) {
    let r = ready(options(true));
    let r = r.as_ref().unwrap();
    let (p, q) = (pick(qs), pick(&[Q::Ping, Q::Tick]));
    let (x, y): (u8, u8) = (any(), any());
    ask(r, 0, p, x); settle(); ask(r, 1, q, y); settle();
    sent(2);
    let (s, t) = (seq_of(&k().sent[0]), seq_of(&k().sent[1]));
    check(s != t && s != 0 && t != 0, "two requests have the same sequence, or the one of broadcasts");
    check(same(&k().sent[0], &asked(p, x, s)) && same(&k().sent[1], &asked(q, y, t)), "a request is sent with another content");
    let mut want = vec![];
    let (a, b) = (answer(p, s), (match q { Q::Ping => pack(pp::Pong { n: 9 }, t), _ => pack(I::BeaconConfirmation { error: None }, t) }, match q { Q::Ping => Out::Value(0, 9), _ => Out::Unit }));
    let swap = choice(2) == 1;
    let (f, l) = if swap { (&b, &a) } else { (&a, &b) };
    if choice(2) == 1 {
        arrive(f.0.clone()); settle();
        done(swap as usize, &f.1);
        check(k().done.len() == 1, "a request is settled by the answer to another");
        aside(&mut want);
        arrive(l.0.clone());
    } else { let mut all = f.0.clone(); all.extend(&l.0); arrive(all) }
    settle();
    done(0, &a.1); done(1, &b.1); seen(&want); sent(2); reach(1);
}
/// broadcasts reach their handlers once, in order, however the stream is cut
fn creq_broadcasts(n: usize) {
    let _r = ready(options(true));
    let mut want = vec![];
    let mut all = vec![];
    let mut ends = vec![0];
    for _ in 0..n {
        let v: u8 = any();
        let seq: u32 = pick(&[0, 0, 77]);
        match choice(5) {
            0 => { all.extend(pack(pp::Note { n: v }, seq)); want.push(Seen::Note(vec![v])) }
            1 => { let s = ascii(choice(2)); all.extend(pack(pp::Extra { s: s.clone() }, seq)); want.push(Seen::Extra(s.into_bytes())) }
            2 => { all.extend(pack(pp::G::H::Note { n: v }, seq)); want.push(Seen::GHNote(vec![v])) }
            3 => { all.extend(pack(pp::Mail { n: v }, seq)); want.push(Seen::Mail(vec![v])) }
            _ => { all.extend(pack(pp::Other { n: v }, seq)); want.push(Seen::Error("unknown message")) }
        }
        ends.push(all.len());
    }
    let cut = if bound(0, 1) == 0 { pick(&[0, 1, 26, ends[1] - 1, ends[1], ends[1] + 1, all.len() - 1]) } else { choice(all.len()) };
    arrive(all[..cut].to_vec()); settle();
    let whole = ends.iter().filter(|e| **e > 0 && **e <= cut).count();
    seen(&want[..whole].to_vec());
    arrive(all[cut..].to_vec()); settle();
    seen(&want); sent(0); reach(1);
}

// ---------------------------------------------------------------- P36: what a consumer survives, and how it ends
fn works(r: &Remote, want: &[Seen]) {
    let n = k().sent.len();
    k().done.clear();
    ask(r, 50, Q::Ping, 3); settle();
    check(k().sent.len() == n + 1, "the consumer stops serving");
    let s = seq_of(&k().sent[n]);
    arrive(pack(pp::Pong { n: 8 }, s)); settle();
    done(50, &Out::Value(0, 8));
    seen(want);
}
/// a request nobody waits for any more
fn clife_late() {
    let r = ready(options(true));
    let r = r.as_ref().unwrap();
    let q = pick(&[Q::Ping, Q::Ask, Q::HPing]);
    ask(r, 0, q, any()); settle(); sent(1);
    let s = seq_of(&k().sent[0]);
    tokio::rt::advance(499); settle();
    check(k().done.is_empty(), "a request is given up before its time");
    tokio::rt::advance(1); settle();
    done(0, &Out::Error("timeout"));
    let a = answer(q, s);
    arrive(a.0); settle();
    check(k().done.len() == 1, "a request is settled twice");
    works(r, &[]); reach(1);
}
/// a caller which goes away at any moment
fn clife_dropped() {
    let r = ready(options(true));
    let r = r.as_ref().unwrap();
    let q = pick(&QS);
    ask(r, 0, q, any());
    let t = tokio::rt::count() - 1;
    let when = choice(4);
    for _ in 0..when { let mut i = 0; while i < tokio::rt::count() { tokio::rt::poll(i); i += 1 } }
    tokio::rt::abort(t);
    settle();
    if k().sent.len() == 1 { let s = seq_of(&k().sent[0]); arrive(answer(q, s).0); settle(); reach(2) }
    check(k().done.is_empty() || when > 0, "a request which was dropped is settled");
    works(r, &[]); reach(1);
}
/// bytes which are no messages
fn clife_broken() {
    let r = ready(options(true));
    let r = r.as_ref().unwrap();
    let (x, y): (u8, u8) = (any(), any());
    let mut bad = pack(pp::Mail { n: 1 }, 0);
    match choice(3) { 0 => { let s: u8 = any(); assume(s != bad[4]); bad[4] = s } 1 => { let i: u32 = any(); assume(i > 1000); bad[..4].copy_from_slice(&i.to_le_bytes()) } _ => { bad.truncate(26); for i in 18..26 { bad[i] = 0 } } }
    let twice = choice(2) == 1;
    let mut all = pack(pp::Note { n: x }, 0); all.extend(&bad); if twice { all.extend(&bad) } all.extend(pack(pp::Mail { n: y }, 0));
    arrive(all); settle();
    let mut want = vec![Seen::Note(vec![x]), Seen::Error("buffer")];
    if twice { want.push(Seen::Error("buffer")) }
    want.push(Seen::Mail(vec![y]));
    works(r, &want); reach(1);
}
fn clife_bytes(n: usize) {
    let r = ready(options(true));
    let r = r.as_ref().unwrap();
    // anything but a second confirmation of the connection
    let b = bytes(n);
    if n >= 4 { let first = pack(I::ConnectConfirmationBeacon {}, 0); assume(!same_bytes(&b[..4], &first[..4])) }
    arrive(b); settle();
    check(!k().seen.iter().any(|s| matches!(s, Seen::Shutdown(_) | Seen::Disconnected | Seen::Connected)), "what comes from the producer ends the consumer");
    ask(r, 0, Q::Ping, 3); settle();
    sent(1); reach(1);
}
/// other events of the transport
fn clife_events() {
    let r = ready(options(true));
    let r = r.as_ref().unwrap();
    let mut want = vec![];
    match choice(3) { 0 => { occur(clibri::client::Event::Error(Fault)); want.push(Seen::Error("client")) } 1 => { occur(clibri::client::Event::Message(clibri::client::Message::Text(String::from("x")))); want.push(Seen::Error("unknown message")) } _ => occur(clibri::client::Event::Connected(std::net::SocketAddr::from(([127, 0, 0, 1], 80)))) }
    settle();
    works(r, &want); reach(1);
}
/// the connection ends: whatever waits is told, and the consumer comes back as the author asked
fn clife_back() {
    let re = choice(2) == 1;
    let r = ready(options(re));
    k().reconnect = choice(2) == 1;
    let yes = re && k().reconnect;
    let half = choice(2) == 1;
    let old = r.as_ref().unwrap().clone();
    let waits = choice(2) == 1;
    if waits { ask(&old, 0, pick(&QS), 1); settle(); sent(1) }
    if half { let b = pack(pp::Note { n: 1 }, 0); arrive(b[..20].to_vec()); settle() }
    k().sent.clear();
    k().closed = true; tokio::rt::act(); settle();
    if waits { check(k().done.len() == 1 && matches!(k().done[0].1, Out::Error(_)), "a request which waits is not told that the connection ended") }
    let mut want = vec![Seen::Disconnected, Seen::Shutdown(None)];
    if re { want.push(Seen::Reconnect(2000)) }
    seen(&want);
    tokio::rt::advance(1999); settle();
    check(k().connects == 1, "the consumer comes back before its time");
    tokio::rt::advance(1); settle();
    check(k().connects == 1 + yes as usize, if yes { "the consumer does not come back" } else { "the consumer comes back though the author does not want it" });
    sent(0); seen(&want);
    k().done.clear();
    ask(&old, 9, Q::Ping, 1); settle();
    check(k().done.len() == 1 && matches!(k().done[0].1, Out::Error(_)), "a request over a connection which ended is not refused");
    if yes {
        k().seen.clear();
        shake_back();
        let n: u8 = any();
        arrive(pack(pp::Note { n }, 0)); settle();
        seen(&[Seen::Connected, Seen::Note(vec![n])]);
        reach(2)
    }
    reach(1);
}
/// the transport refuses to send
fn clife_sends() {
    let r = ready(options(choice(2) == 1));
    let old = r.as_ref().unwrap().clone();
    k().send_fails = 1;
    ask(&old, 0, pick(&QS), 1); settle();
    check(k().done.len() == 1 && matches!(k().done[0].1, Out::Error(_)), "a request which cannot be sent is not told so");
    check(k().seen.iter().any(|s| matches!(s, Seen::Shutdown(Some(_)))), "a failing transport is not reported");
    reach(1);
}
fn cdown() {
    let r = ready(options(true));
    let old = r.as_ref().unwrap().clone();
    let waits = choice(2) == 1;
    if waits { ask(&old, 0, pick(&QS), 1); settle() }
    static mut ANSWERED: Option<bool> = None;
    unsafe { ANSWERED = None }
    let o = old.clone();
    tokio::rt::spawn(Box::pin(async move { let x = o.shutdown().await.is_ok(); unsafe { ANSWERED = Some(x) } }));
    settle();
    check(unsafe { ANSWERED == Some(true) }, "a shutdown is not confirmed");
    check(k().downs == 1, "the transport is not shut down once");
    if waits { check(k().done.len() == 1 && matches!(k().done[0].1, Out::Error(_)), "a request which waits is not told that the consumer ended") }
    seen(&[Seen::Disconnected, Seen::Shutdown(None)]);
    tokio::rt::advance(10_000); settle();
    check(k().connects == 1, "the consumer comes back after a shutdown");
    seen(&[Seen::Disconnected, Seen::Shutdown(None)]);
    reach(1);
}

// ---------------------------------------------------------------- P37: both ends together
static mut AT: usize = 0;
/// carries what one end sent to the other, until nothing is under way
fn pump() {
    settle();
    for _ in 0..20 {
        let out: Vec<Vec<u8>> = std::mem::take(&mut k().sent);
        let back: Vec<Vec<u8>> = unsafe { let v = h().log[AT..].iter().filter_map(|e| match e { Ev::Sent(u, b) if *u == id(A) => Some(b.clone()), _ => None }).collect(); AT = h().log.len(); v };
        if out.is_empty() && back.is_empty() { return }
        for b in out { data(A, b) }
        for b in back { arrive(b) }
        settle();
    }
    fail("the two ends never come to rest")
}
fn together() -> R {
    unsafe { AT = 0 }
    start(producer::Options::new());
    let r = join(options(true));
    connect(A); pump();
    check(k().seen == vec![Seen::Connected], "a consumer and a producer of the same protocol do not complete the handshake");
    quiet(0, &[]);
    k().seen.clear(); h().clear(); unsafe { AT = 0 }
    r
}
fn e2e_request(q: Q) {
    let r = together();
    let r = r.as_ref().unwrap();
    opened(B);
    unsafe { AT = 0 }
    let n: u8 = any();
    let (kk, c) = match q { Q::Ping => (K::Ping, Call::Ping(n as u16)), Q::Ask => (K::Ask, Call::Ask(n)), Q::HPing => (K::HPing, Call::HPing(n)), Q::Tick => (K::Tick, Call::Tick(n)), Q::Tock => (K::Tock, Call::Tock(n)) };
    let p = { let mut p = Plan::none(); p.bad = choice(2) == 1 && !matches!(q, Q::Tick | Q::Tock); p.v = any(); p.w = any(); if p.bad { p.s = text_any() } else { p.way = choice(if q == Q::Ask { 3 } else { 1 }); for i in 0..3 { p.to[i] = pick(&[To::All, To::Except, To::Nobody]) } p.opt = choice(2) == 1; if p.opt { p.s = text_any() } } p };
    h().default = p.clone();
    ask(r, 0, q, n); pump();
    check(h().calls.len() == 1 && h().calls[0].uuid == Some(id(A)) && same_call(h().calls[0].what, c), "a request is not given to the producer's handler once, with its content");
    let _ = kk;
    done(0, &match q {
        Q::Tick | Q::Tock => Out::Unit,
        _ if p.bad => Out::Text(p.s.clone()),
        Q::Ping => Out::Value(0, p.v as u16 as u32),
        Q::HPing => Out::Value(0, p.v as u8 as u32),
        Q::Ask => match p.way { 0 => Out::Value(1, p.v as u16 as u32), 1 => Out::Value(2, p.v as u8 as u32), _ => Out::Value(0, p.v as u8 as u32) },
    });
    let mut want = vec![];
    let all = |t: &To| matches!(t, To::All);
    if !p.bad { match q {
        Q::HPing => if all(&p.to[0]) { want.push(Seen::Mail(vec![p.w])) },
        Q::Ask if p.way == 1 => if all(&p.to[0]) { want.push(Seen::Mail(vec![p.w])) },
        Q::Ask if p.way == 2 => { if all(&p.to[0]) { want.push(Seen::Note(vec![p.w])) } if p.opt && all(&p.to[1]) { want.push(Seen::Extra(p.s.clone())) } if all(&p.to[2]) { want.push(Seen::GHNote(vec![p.w])) } }
        _ => {}
    } }
    seen(&want); quiet(0, &[]); alive(); reach(1);
}
/// the producer's events reach the consumer, and its losses the producer
fn e2e_events() {
    let r = together();
    let r = r.as_ref().unwrap();
    let w: u8 = any();
    h().default.w = w; h().default.to = [To::All, To::All, To::All]; h().default.opt = choice(2) == 1; h().default.s = text_any();
    let opt = h().default.opt;
    let s = h().default.s.clone();
    let mut want = vec![];
    fire(Call::Alarm(any())); pump();
    want.push(Seen::Note(vec![w])); if opt { want.push(Seen::Extra(s.clone())) } want.push(Seen::GHNote(vec![w]));
    seen(&want);
    connect(B); pump(); want.push(Seen::Extra(s.clone())); seen(&want);
    fire(Call::Fire(any())); pump(); want.push(Seen::Mail(vec![w])); seen(&want);
    lose(B); pump(); want.push(Seen::Mail(vec![w])); if opt { want.push(Seen::Note(vec![w])) } seen(&want);
    h().default = Plan::none();
    ask(r, 1, Q::Ping, 1); pump(); done(1, &Out::Value(0, 0));
    alive(); reach(1);
}
/// the connection breaks and comes back
fn e2e_back() {
    let r = together();
    let old = r.as_ref().unwrap().clone();
    if choice(2) == 1 { h().hold = true; ask(&old, 0, Q::Ping, 1); settle(); let out: Vec<Vec<u8>> = std::mem::take(&mut k().sent); for b in out { data(A, b) } settle(); check(k().done.is_empty(), "a request is settled without an answer"); }
    k().closed = true; lose(A); tokio::rt::act(); settle();
    h().hold = false; tokio::rt::act(); settle();
    k().sent.clear(); unsafe { AT = h().log.len() }
    check(k().seen == vec![Seen::Disconnected, Seen::Shutdown(None), Seen::Reconnect(2000)], "the end of a connection is not reported");
    k().seen.clear(); k().done.clear();
    tokio::rt::advance(2000); settle();
    check(k().connects == 2, "the consumer does not come back");
    connect(A); pump();
    check(k().seen == vec![Seen::Connected], "a consumer which comes back does not complete the handshake");
    let n: u8 = any();
    h().default.to[0] = To::All; h().default.w = n;
    fire(Call::Fire(1)); pump();
    seen(&[Seen::Connected, Seen::Mail(vec![n])]);
    quiet(0, &[]); alive(); reach(1);
}

entries! {
    fn gate_steps() { gate(bound(3, 4), &ALL, false) }
    fn gate_chunk() { gate(bound(3, 4), &ALL, true) }
    fn gate_assigned_() { gate_assigned() }
    fn gate_hash_() { gate_hash() }
    fn gate_cut_() { gate_cut() }
    fn gate_both() { gate_two(bound(3, 4)) }
    fn req_ping() { req(K::Ping) }
    fn req_ask() { req(K::Ask) }
    fn req_hping() { req(K::HPing) }
    fn req_tick() { req(K::Tick) }
    fn req_tock() { req(K::Tock) }
    fn req_turn() { req_many(bound(2, 3)) }
    fn req_broken_() { req_broken() }
    fn evt_alarm() { evt(true) }
    fn evt_fire() { evt(false) }
    fn evt_mix_() { evt_mix() }
    fn evt_control_() { evt_control() }
    fn con_history_() { con_history(bound(3, 4)) }
    fn con_failing_() { con_failing() }
    fn con_again_() { con_again() }
    fn con_hasty_() { con_hasty() }
    fn con_absent_() { con_absent() }
    fn key_given_() { key_given() }
    fn key_set_() { key_set() }
    fn key_assigned_() { key_assigned() }
    fn life_short() { life_bytes(&[0, 1, 25]) }
    fn life_header() { life_bytes(&[26]) }
    fn life_body() { if bound(0, 1) == 0 { life_bytes(&[27]) } else { life_bytes(&[27, 28, 29]) } }
    fn life_handshake() { life_faults(0) }
    fn life_request() { life_faults(1) }
    fn life_event() { life_faults(2) }
    fn life_refused() { life_faults(3) }
    fn down_asked_() { down_asked() }
    fn down_late_() { down_late() }
    fn down_transport_() { down_transport() }
    fn chs_full_() { chs_full() }
    fn chs_wrong_() { chs_wrong() }
    fn chs_uuid_() { chs_uuid() }
    fn creq_ping() { creq_pair(&[Q::Ping]) }
    fn creq_ask() { creq_pair(&[Q::Ask]) }
    fn creq_hping() { creq_pair(&[Q::HPing]) }
    fn creq_tick() { creq_pair(&[Q::Tick, Q::Tock]) }
    fn creq_broadcasts_() { creq_broadcasts(bound(2, 3)) }
    fn clife_late_() { clife_late() }
    fn clife_dropped_() { clife_dropped() }
    fn clife_broken_() { clife_broken() }
    fn clife_short() { clife_bytes(choice(26)) }
    fn clife_header() { clife_bytes(26) }
    fn clife_body() { clife_bytes(27 + choice(bound(1, 3))) }
    fn clife_events_() { clife_events() }
    fn clife_back_() { clife_back() }
    fn clife_sends_() { clife_sends() }
    fn cdown_() { cdown() }
    fn e2e_ping() { e2e_request(Q::Ping) }
    fn e2e_ask() { e2e_request(Q::Ask) }
    fn e2e_hping() { e2e_request(Q::HPing) }
    fn e2e_beacons() { e2e_request(pick(&[Q::Tick, Q::Tock])) }
    fn e2e_events_() { e2e_events() }
    fn e2e_back_() { e2e_back() }
}
