#![allow(dead_code, unused_imports, unused_mut, unused_macros)]
//! Exits with 0 if the property holds in the demonstrated situation
mod codec;
#[macro_use]
mod core;
mod demo;
mod fix;
mod rng;
mod sim;
use std::future::Future;
use std::time::Duration;

/// Runs with virtual time
pub fn sim_run<F: Future<Output = core::R>>(f: F) -> core::R {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    match rt.block_on(async move { tokio::time::timeout(Duration::from_secs(3 * 3600), f).await }) {
        Ok(r) => r,
        Err(_) => core::viol("hang", "an operation never completed (3 h of virtual time)"),
    }
}
/// Runs with real threads and time
pub fn multi_run<F: Future<Output = core::R> + Send + 'static>(f: F) -> core::R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
    let r = rt.block_on(async move { tokio::time::timeout(Duration::from_secs(100), tokio::spawn(f)).await });
    rt.shutdown_timeout(Duration::from_secs(1));
    match r {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => core::viol("panic", format!("{}", e)),
        Err(_) => core::viol("hang", "no completion within 100 s"),
    }
}

fn main() {
    match demo::demo() {
        Ok(()) => println!("the property held"),
        Err(e) => {
            println!("VIOLATED: {:?}", e);
            std::process::exit(1)
        }
    }
}
