use super::{identification, producer::Control, protocol, Context, scope::AnonymousScope};
use clibri::server;
use uuid::Uuid;
use crate::world::{self, h, Call};

type BroadcastMail = (Vec<Uuid>, protocol::Mail);

pub async fn emit<E: server::Error, C: server::Control<E>>(
    event: protocol::G::Fire,
    scope: &mut AnonymousScope<'_, E, C>,
) -> Result<BroadcastMail, String> {
    let i = world::record(Call::Fire(event.n), None, &scope.filter.all(), None, None);
    scope.deferred(world::after(i));
    world::pause().await;
    let a = h().plan(i);
    if a.bad { Err(String::from("no")) } else { Ok((a.to[0].get(scope.filter, &world::id(0)), protocol::Mail { n: a.w })) }
}
