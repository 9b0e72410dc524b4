//! Environment stand-in for tokio: a runtime that polls one future to completion.
pub mod runtime {
    use std::future::Future;
    use std::pin::pin;
    use std::task::{Context, Poll, Waker};
    pub struct Runtime;
    impl Runtime {
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let mut f = pin!(f);
            let mut cx = Context::from_waker(Waker::noop());
            loop {
                if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                    return x;
                }
            }
        }
    }
    pub struct Builder;
    impl Builder {
        pub fn new_current_thread() -> Self {
            Self
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            Ok(Runtime)
        }
    }
}
