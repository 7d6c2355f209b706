use super::{Consumer, ConsumerError, Context};
use clibri::client;
use crate::world::{k, Seen};

pub async fn handler<E: client::Error>(
    error: ConsumerError<E>,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    k().seen.push(Seen::Error(crate::world::error_kind(&error)));
}
