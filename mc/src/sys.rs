//! What the engine needs of the machine it runs on: threads, files and clocks natively; the
//! functions node lends it when it runs as 32-bit WebAssembly.

#[cfg(not(target_family = "wasm"))]
mod imp {
    use std::os::unix::fs::FileExt;

    pub struct File(std::fs::File);
    impl File {
        pub fn create(path: &str) -> File {
            File(std::fs::File::create(path).expect("file"))
        }
        pub fn set_len(&self, n: u64) {
            let _ = self.0.set_len(n);
        }
        pub fn write_at(&self, bytes: &[u8], at: u64) {
            let _ = self.0.write_at(bytes, at);
        }
    }

    #[derive(Clone, Copy)]
    pub struct Clock(std::time::Instant);
    impl Clock {
        pub fn now() -> Clock {
            Clock(std::time::Instant::now())
        }
        pub fn ms(&self) -> u64 {
            self.0.elapsed().as_millis() as u64
        }
        pub fn secs(&self) -> f64 {
            self.0.elapsed().as_secs_f64()
        }
    }

    pub fn args() -> Vec<String> {
        std::env::args().skip(1).collect()
    }
    pub fn threads() -> usize {
        std::thread::available_parallelism().map_or(8, |n| n.get()).min(64)
    }
    pub fn progress() -> bool {
        std::env::var_os("MC_PROGRESS").is_some()
    }
    /// Runs `f` four times a second for as long as the process lives.
    pub fn watch(f: impl Fn() + Send + 'static) {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            f();
        });
    }
    pub fn on_threads(n: usize, worker: &(impl Fn(usize) + Sync)) {
        std::thread::scope(|sc| {
            for t in 0..n {
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || worker(t)).unwrap();
            }
        });
    }
    pub fn write_out(path: &str, text: &str) {
        std::fs::write(path, text).expect("output file");
    }
    pub fn say(text: &str) {
        eprintln!("{text}");
    }
    extern "C" {
        pub fn _exit(code: i32) -> !;
    }
}

#[cfg(target_family = "wasm")]
mod imp {
    #[link(wasm_import_module = "mc")]
    extern "C" {
        /// Copies the arguments (separated by newlines) to `buf` and returns their length.
        fn host_args(buf: *mut u8, cap: usize) -> usize;
        fn host_out(text: *const u8, len: usize);
        fn host_say(text: *const u8, len: usize);
        fn host_ms() -> f64;
        fn host_exit(code: i32);
    }

    pub struct File;
    impl File {
        pub fn create(_: &str) -> File {
            File
        }
        pub fn set_len(&self, _: u64) {}
        pub fn write_at(&self, bytes: &[u8], _: u64) {
            unsafe { host_say(bytes.as_ptr(), bytes.len()) }
        }
    }

    #[derive(Clone, Copy)]
    pub struct Clock(f64);
    impl Clock {
        pub fn now() -> Clock {
            Clock(unsafe { host_ms() })
        }
        pub fn ms(&self) -> u64 {
            unsafe { (host_ms() - self.0) as u64 }
        }
        pub fn secs(&self) -> f64 {
            unsafe { (host_ms() - self.0) / 1000.0 }
        }
    }

    pub fn args() -> Vec<String> {
        let mut buf = vec![0; 1 << 16];
        let n = unsafe { host_args(buf.as_mut_ptr(), buf.len()) };
        let text = String::from_utf8(buf[..n].to_vec()).unwrap();
        text.lines().map(String::from).collect()
    }
    pub fn threads() -> usize {
        1
    }
    pub fn progress() -> bool {
        false
    }
    /// The runner has to stop a run that hangs.
    pub fn watch(_: impl Fn() + Send + 'static) {}
    pub fn on_threads(_: usize, worker: &(impl Fn(usize) + Sync)) {
        worker(0)
    }
    pub fn write_out(_: &str, text: &str) {
        unsafe { host_out(text.as_ptr(), text.len()) }
    }
    pub fn say(text: &str) {
        unsafe { host_say(text.as_ptr(), text.len()) }
    }
    pub unsafe fn _exit(code: i32) -> ! {
        host_exit(code);
        unreachable!()
    }
}

pub use imp::*;
