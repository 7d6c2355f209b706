use super::{Consumer, Context};
use clibri::client;
use crate::world::{k, Seen};

pub async fn handler<E: client::Error>(context: &mut Context, consumer: Consumer<E>) {
    k().seen.push(Seen::Disconnected);
}
