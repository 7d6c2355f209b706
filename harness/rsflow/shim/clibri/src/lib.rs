//! The interfaces of the crate clibri 0.1.7 (Apache-2.0) without its logger
#[path = "./transport/server.rs"]
pub mod server;
#[path = "./transport/client.rs"]
pub mod client;
pub mod env {
    pub mod logs {
        pub mod targets {
            pub static SERVER: &str = "clibri::wsserver";
            pub static CLIENT: &str = "clibri::wsclient";
            pub static PRODUCER: &str = "clibri::producer";
            pub static CONSUMER: &str = "clibri::consumer";
        }
        pub fn init() {}
    }
}
