use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use crate::world::{self, h, Call};

pub async fn emit<E: server::Error, C: server::Control<E>>(
    beacon: &protocol::G::Tock,
    scope: &mut Scope<'_, E, C>,
) -> Result<(), String> {
    let i = world::call(Call::Tock(beacon.n), scope);
    world::pause().await;
    if h().plan(i).bad { Err(String::from("no")) } else { Ok(()) }
}
