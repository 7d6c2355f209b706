use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
use crate::world::{self, h, Call};

type BroadcastMail = (Vec<Uuid>, protocol::Mail);
type BroadcastNote = Option<(Vec<Uuid>, protocol::Note)>;

pub async fn emit<E: server::Error, C: server::Control<E>>(
    scope: &mut Scope<'_, E, C>,
) -> Result<(BroadcastMail, BroadcastNote), String> {
    let i = world::call(Call::Disconnected, scope);
    world::pause().await;
    let a = h().plan(i);
    let me = scope.identification.uuid();
    if a.bad { Err(String::from("no")) } else { Ok(((a.to[0].get(scope.filter, &me), protocol::Mail { n: a.w }), if a.opt { Some((a.to[1].get(scope.filter, &me), protocol::Note { n: a.w })) } else { None })) }
}
