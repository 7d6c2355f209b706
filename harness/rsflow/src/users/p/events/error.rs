use super::{identification, producer::Control, Context, ProducerError};
use clibri::server;
use uuid::Uuid;
use crate::world::h;

pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(
    error: ProducerError<E>,
    uuid: Option<Uuid>,
    context: &mut Context,
    identification: Option<&identification::Identification>,
    control: &Control<E, C>,
) -> Result<(), String> {
    let k = match error {
        ProducerError::NotConfirmedConnection => "unconfirmed",
        ProducerError::NoConsumerKey(_) => "key",
        ProducerError::NoAssignedConsumer(_) => "assigned",
        ProducerError::ResponsingError(_) => "response",
        ProducerError::ConsumerError(_) => "consumer",
        ProducerError::ConnectionError(_) => "connection",
        ProducerError::ServerError(_) => "server",
        ProducerError::BeaconEmitterError(_) => "beacon",
        _ => "other",
    };
    h().errors.push((k, uuid));
    if h().error_fails { Err(String::from("no")) } else { Ok(()) }
}
