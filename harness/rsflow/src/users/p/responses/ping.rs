use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use crate::world::{self, h, Call};

pub async fn response<E: server::Error, C: server::Control<E>>(
    request: &protocol::Ping,
    scope: &mut Scope<'_, E, C>,
) -> Result<protocol::Pong, protocol::Err> {
    let i = world::call(Call::Ping(request.n), scope);
    world::pause().await;
    let a = h().plan(i);
    if a.bad { Err(protocol::Err { text: a.text() }) } else { Ok(protocol::Pong { n: a.v as u16 }) }
}
