pub mod bounded;
pub mod converge;
pub mod courier;
pub mod damage;
pub mod drift;
pub mod guard;
pub mod isolate;
pub mod journal;
pub mod longevity;
pub mod mergesync;
pub mod peers;
pub mod scarce;
pub mod sink;
pub mod stack;
pub mod torn;
