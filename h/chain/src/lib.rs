pub mod ids;
pub mod builders;
pub mod qmodel;
pub mod crypto;
pub mod cast;
pub mod crowds;
pub mod gen;
pub mod profiles;
pub mod svm;
pub mod view;
pub mod world;
