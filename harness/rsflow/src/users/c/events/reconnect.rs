use super::Context;
use crate::world::{k, Seen};

pub async fn handler(timeout: u64, context: &mut Context) -> bool {
    k().seen.push(Seen::Reconnect(timeout));
    k().reconnect
}
