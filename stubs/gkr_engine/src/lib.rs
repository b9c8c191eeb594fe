pub use xcore::engine::{FieldEngine, GKREngine, MPIConfig, MPISharedMemory};
