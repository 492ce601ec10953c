//! T02, T03: the Zed extension, compiled from /repo against a scripted host

#[allow(dead_code, unused_imports)]
#[path = "/repo/editors/zed/src/lib.rs"]
mod extension;

mod starts;

fn main() {
    mc::run(&[&starts::Starts, &starts::Assets])
}
