use crate::core::Prop;

pub mod scalar;
pub mod matrix;
pub mod layers;
pub mod network;
pub mod data;
pub mod programs;
pub mod relations;

/// Registers a generic sub-check for both precisions.
#[macro_export]
macro_rules! both {
  ($v:expr, $name:literal, $f:ident, $q:expr, $t:expr) => {
    $v.push($crate::core::Sub { name: concat!($name, "_32"), f: $f::<renplex::math::cfloat::Cf32>, quick: $q, thorough: $t });
    $v.push($crate::core::Sub { name: concat!($name, "_64"), f: $f::<renplex::math::cfloat::Cf64>, quick: $q, thorough: $t });
  };
}

/// Registers a generic sub-check for all four element types.
#[macro_export]
macro_rules! four {
  ($v:expr, $name:literal, $f:ident, $q:expr, $t:expr) => {
    $v.push($crate::core::Sub { name: concat!($name, "_f32"), f: $f::<f32>, quick: $q, thorough: $t });
    $v.push($crate::core::Sub { name: concat!($name, "_f64"), f: $f::<f64>, quick: $q, thorough: $t });
    $crate::both!($v, $name, $f, $q, $t);
  };
}

/// Registers a plain sub-check.
#[macro_export]
macro_rules! sub {
  ($v:expr, $name:literal, $f:expr, $q:expr, $t:expr) => {
    $v.push($crate::core::Sub { name: $name, f: $f, quick: $q, thorough: $t });
  };
}

/// Fails the case with a message.
#[macro_export]
macro_rules! ensure {
  ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}

pub fn all() -> Vec<Prop> {
  let mut v = Vec::new();
  v.extend(scalar::props());
  v.extend(matrix::props());
  v.extend(layers::props());
  v.extend(network::props());
  v.extend(data::props());
  v.extend(programs::props());
  v.extend(relations::props());
  v.sort_by_key(|p| p.id);
  v
}
