pub use shim_macros::IntoStaticStr;
