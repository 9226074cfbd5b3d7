use crate::Property;
mod assets;
mod cbor;
mod hostile;
mod chain;
mod rbtree;
mod hashing;
pub mod http;
pub mod http2;
mod js;
mod trees;
mod wasm;

pub static ALL: &[Property] = &[
    trees::C04, trees::C05, rbtree::C06, rbtree::C07, rbtree::C08, cbor::C09, http::C01, http::C02, chain::C03, chain::C21, http2::C13, http2::C14, http2::C15, http2::C16, http2::C23, hashing::C11, hashing::C12, hashing::C22, hashing::C25, hashing::C27, assets::C17, assets::C18, assets::C19, assets::C20, hostile::C10, wasm::C24, js::C26, assets::C29,
];
pub fn find(id: &str) -> Option<&'static Property> {
    ALL.iter().find(|p| p.id == id)
}
