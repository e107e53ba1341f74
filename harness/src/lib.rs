pub mod alloc;
pub mod announce;
pub mod checks;
pub mod cli;
pub mod clients;
pub mod codecgen;
pub mod disco;
pub mod interpose;
pub mod net;
pub mod real;
pub mod redisd;
pub mod run;
pub mod sig;
pub mod station;
pub mod world;
