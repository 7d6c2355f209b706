use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
use crate::world::{self, h, Call};

type BroadcastExtra = (Vec<Uuid>, protocol::Extra);

pub async fn emit<E: server::Error, C: server::Control<E>>(
    scope: &mut Scope<'_, E, C>,
) -> Result<BroadcastExtra, String> {
    let i = world::call(Call::Connected, scope);
    world::pause().await;
    let a = h().plan(i);
    if a.bad { Err(String::from("no")) } else { Ok((a.to[0].get(scope.filter, &scope.identification.uuid()), protocol::Extra { s: a.text() })) }
}
