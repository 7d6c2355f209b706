use super::{controller, protocol, Consumer, Context};
use clibri::client;
use crate::world::{k, Seen};

pub async fn handler<E: client::Error>(context: &mut Context, mut consumer: Consumer<E>) {
    k().seen.push(Seen::Connected);
}
