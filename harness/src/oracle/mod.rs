//! Independent reference models, written from the specifications.
pub mod aes;
pub mod big;
pub mod der;
pub mod hash;
pub mod oaep;
pub mod pem;
pub mod rc;
pub mod solve;
pub mod zeros;
