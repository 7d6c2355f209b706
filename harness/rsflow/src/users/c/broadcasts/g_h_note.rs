use super::{protocol, Consumer, Context};
use clibri::client;
use crate::world::{k, Seen};

pub async fn handler<E: client::Error>(
    event: protocol::G::H::Note,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    k().seen.push(Seen::GHNote(vec![event.n]));
}
