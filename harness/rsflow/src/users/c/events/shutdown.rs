use super::{Consumer, ConsumerError, Context};
use clibri::client;
use crate::world::{k, Seen};

pub async fn handler<E: client::Error>(
    error: Option<ConsumerError<E>>,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    k().seen.push(Seen::Shutdown(error.map(|e| crate::world::error_kind(&e))));
}
