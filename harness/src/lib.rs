pub mod core;
pub mod cx;
pub mod guided;
pub mod model;
pub mod net;
pub mod props;
