pub mod ciphers;
pub mod codec;
pub mod hashes;
pub mod messages;
pub mod numbers;
pub mod rsa;
pub mod system;

use crate::engine::Prop;
pub fn all() -> Vec<&'static Prop> {
    vec![
        &ciphers::C01, &ciphers::C02, &ciphers::C03, &ciphers::C04,
        &messages::C05, &messages::C06, &messages::C07, &messages::C08,
        &hashes::C09, &hashes::C10, &hashes::C11, &hashes::C12,
        &numbers::C13, &numbers::C14,
        &rsa::C15, &rsa::C16, &rsa::C17, &rsa::C18,
        &codec::C19, &codec::C20, &codec::C21, &codec::C22,
        &system::C23, &system::C24, &rsa::C25,
    ]
}
