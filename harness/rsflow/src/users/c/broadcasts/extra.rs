use super::{protocol, Consumer, Context};
use clibri::client;
use crate::world::{k, Seen};

pub async fn handler<E: client::Error>(
    event: protocol::Extra,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    k().seen.push(Seen::Extra(event.s.as_bytes().to_vec()));
}
