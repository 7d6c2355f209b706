use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
use crate::world::{self, h, Call};

type BroadcastNote = (Vec<Uuid>, protocol::Note);
type BroadcastExtra = Option<(Vec<Uuid>, protocol::Extra)>;
type BroadcastGHNote = (Vec<Uuid>, protocol::G::H::Note);
type BroadcastMail = (Vec<Uuid>, protocol::Mail);

pub enum Response {
    Yes((protocol::G::Yes, BroadcastNote, BroadcastExtra, BroadcastGHNote)),
    Pong(protocol::Pong),
    Later((protocol::G::H::Pong, BroadcastMail)),
}

pub async fn response<E: server::Error, C: server::Control<E>>(
    request: &protocol::G::Ask,
    scope: &mut Scope<'_, E, C>,
) -> Result<Response, protocol::G::No> {
    let i = world::call(Call::Ask(request.n), scope);
    world::pause().await;
    let a = h().plan(i);
    if a.bad { return Err(protocol::G::No { why: a.text() }) }
    Ok(match a.way {
        0 => Response::Pong(protocol::Pong { n: a.v as u16 }),
        1 => Response::Later((protocol::G::H::Pong { n: a.v as u8 }, (a.to[0].get(scope.filter, &scope.identification.uuid()), protocol::Mail { n: a.w }))),
        _ => Response::Yes((protocol::G::Yes { n: a.v as u8 }, (a.to[0].get(scope.filter, &scope.identification.uuid()), protocol::Note { n: a.w }), if a.opt { Some((a.to[1].get(scope.filter, &scope.identification.uuid()), protocol::Extra { s: a.text() })) } else { None }, (a.to[2].get(scope.filter, &scope.identification.uuid()), protocol::G::H::Note { n: a.w }))),
    })
}
