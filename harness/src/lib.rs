pub mod ops;
pub mod refm;
pub mod util;
pub mod world;
pub mod work;
pub mod ledger;
pub mod gen;
pub mod check;
pub mod prog;
pub mod interp;
pub mod own;
pub mod optm;
pub mod stat;
pub mod single;
pub mod devfn;
