pub mod gen;
pub mod lib_ops;
pub mod props;
pub mod refmodel;
pub mod runner;
pub mod shrink;
