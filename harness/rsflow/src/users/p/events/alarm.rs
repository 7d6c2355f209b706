use super::{identification, producer::Control, protocol, Context, scope::AnonymousScope};
use clibri::server;
use uuid::Uuid;
use crate::world::{self, h, Call};

type BroadcastNote = (Vec<Uuid>, protocol::Note);
type BroadcastExtra = Option<(Vec<Uuid>, protocol::Extra)>;
type BroadcastGHNote = (Vec<Uuid>, protocol::G::H::Note);

pub async fn emit<E: server::Error, C: server::Control<E>>(
    event: protocol::Alarm,
    scope: &mut AnonymousScope<'_, E, C>,
) -> Result<(BroadcastNote, BroadcastExtra, BroadcastGHNote), String> {
    let i = world::record(Call::Alarm(event.n), None, &scope.filter.all(), None, None);
    scope.deferred(world::after(i));
    world::pause().await;
    let a = h().plan(i);
    let me = world::id(0);
    if a.bad { return Err(String::from("no")) }
    Ok(((a.to[0].get(scope.filter, &me), protocol::Note { n: a.w }), if a.opt { Some((a.to[1].get(scope.filter, &me), protocol::Extra { s: a.text() })) } else { None }, (a.to[2].get(scope.filter, &me), protocol::G::H::Note { n: a.w })))
}
