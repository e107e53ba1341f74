//! Runs a demonstration: exit code 0 if it returns, 1 if it panics.
use std::future::Future;

fn finish(r: std::thread::Result<()>) -> ! {
    std::process::exit(match r {
        Ok(()) => {
            println!("as the property says");
            0
        }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            println!("VIOLATED: {}", m.unwrap_or_default());
            1
        }
    })
}

/// On one thread, in virtual time.
pub fn virt<F: Future<Output = ()>>(seed: u64, f: impl FnOnce() -> F + Send + 'static) -> ! {
    let r = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            crate::interpose::seed_thread(seed);
            let rt = tokio::runtime::Builder::new_current_thread()
                .enable_time()
                .start_paused(true)
                .build()
                .expect("runtime");
            rt.block_on(f());
            std::mem::forget(rt);
        })
        .expect("thread")
        .join();
    finish(r)
}

/// On several threads, in real time.
pub fn real<F: Future<Output = ()>>(threads: usize, f: impl FnOnce() -> F + Send + 'static) -> ! {
    let r = std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(threads)
            .enable_all()
            .build()
            .expect("runtime");
        rt.block_on(f());
        std::mem::forget(rt);
    })
    .join();
    finish(r)
}
