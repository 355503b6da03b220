pub mod cpp;
pub mod trace;
pub mod report;
