use super::{protocol, Consumer, Context};
use clibri::client;
use crate::world::{k, Seen};

pub async fn handler<E: client::Error>(
    event: protocol::Mail,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    k().seen.push(Seen::Mail(vec![event.n]));
}
