use super::{producer::Control, Context};
use clibri::server;
use crate::world::h;

pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(
    context: &mut Context,
    control: &Control<E, C>,
) -> Result<(), String> {
    h().ready += 1;
    h().control = Some(Box::new(control.clone()));
    Ok(())
}
