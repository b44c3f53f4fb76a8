pub mod client;
pub mod logs;
pub mod pool;
pub mod server;
pub mod serving;
pub mod web;
