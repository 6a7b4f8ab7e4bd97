//! The calls of the system contracts, with their selectors and layouts.
pub mod ckb_light_client_abi;
pub mod image_cell_abi;
pub mod metadata_abi;
