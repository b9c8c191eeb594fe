pub use xcore::crosslayer::*;
