//! tokio's runtime, single-threaded: `block_on` polls until the future is ready.
pub mod runtime {
    use std::future::Future;
    use std::io;
    use std::pin::pin;
    use std::task::{Context, Poll, Waker};

    #[derive(Debug)]
    pub struct Runtime(());
    impl Runtime {
        pub fn new() -> io::Result<Runtime> {
            Ok(Runtime(()))
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let mut f = pin!(f);
            let mut cx = Context::from_waker(Waker::noop());
            loop {
                if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                    return v;
                }
            }
        }
    }
    #[derive(Debug)]
    pub struct Builder(());
    impl Builder {
        pub fn new_current_thread() -> Builder {
            Builder(())
        }
        pub fn new_multi_thread() -> Builder {
            Builder(())
        }
        pub fn worker_threads(&mut self, _n: usize) -> &mut Self {
            self
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> io::Result<Runtime> {
            Runtime::new()
        }
    }
}
