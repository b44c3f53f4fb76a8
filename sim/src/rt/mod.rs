pub mod choices;
pub mod fs;
pub mod interpose;
pub mod kernel;
pub mod mem;
pub mod net;
pub mod shm;
pub mod sys;
