pub mod access;
pub mod big;
pub mod cli;
pub mod cprops;
pub mod curve;
pub mod engine;
pub mod field;
pub mod fprops;
pub mod oracle;
pub mod params;
pub mod literals;
