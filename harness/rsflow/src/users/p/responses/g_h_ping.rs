use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
use crate::world::{self, h, Call};

type BroadcastMail = (Vec<Uuid>, protocol::Mail);

pub enum Response {
    Done((protocol::G::H::Pong, BroadcastMail)),
}

pub async fn response<E: server::Error, C: server::Control<E>>(
    request: &protocol::G::H::Ping,
    scope: &mut Scope<'_, E, C>,
) -> Result<Response, protocol::Err> {
    let i = world::call(Call::HPing(request.n), scope);
    world::pause().await;
    let a = h().plan(i);
    if a.bad { return Err(protocol::Err { text: a.text() }) }
    Ok(Response::Done((protocol::G::H::Pong { n: a.v as u8 }, (a.to[0].get(scope.filter, &scope.identification.uuid()), protocol::Mail { n: a.w }))))
}
