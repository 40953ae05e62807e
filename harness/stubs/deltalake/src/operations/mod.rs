pub mod convert_to_delta;
pub mod create;
pub mod transaction;
pub mod vacuum;
