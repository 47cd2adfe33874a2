pub use ::std::thread::*;

use ::std::io;
use ::std::sync::Arc;
use ::std::time::Duration;

pub enum JoinHandle<T> {
    Real(::std::thread::JoinHandle<T>),
    Sim(simrt::JoinState<T>),
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        match self {
            JoinHandle::Real(h) => h.join(),
            JoinHandle::Sim(h) => h.join(),
        }
    }
    pub fn is_finished(&self) -> bool {
        match self {
            JoinHandle::Real(h) => h.is_finished(),
            JoinHandle::Sim(h) => h.is_finished(),
        }
    }
    pub fn thread(&self) -> &Thread {
        match self {
            JoinHandle::Real(h) => h.thread(),
            JoinHandle::Sim(h) => &h.thread,
        }
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if simrt::in_sim() {
        let name = ::std::any::type_name::<F>();
        JoinHandle::Sim(simrt::spawn(name, f))
    } else {
        JoinHandle::Real(::std::thread::spawn(f))
    }
}

pub fn sleep(d: Duration) {
    simrt::sleep(d)
}

pub fn yield_now() {
    if simrt::in_sim() {
        simrt::sleep(Duration::from_micros(1));
    } else {
        ::std::thread::yield_now()
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}

impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack = Some(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if simrt::in_sim() {
            let name = self
                .name
                .unwrap_or_else(|| ::std::any::type_name::<F>().to_string());
            Ok(JoinHandle::Sim(simrt::spawn(&name, f)))
        } else {
            let mut b = ::std::thread::Builder::new();
            if let Some(n) = self.name {
                b = b.name(n);
            }
            if let Some(s) = self.stack {
                b = b.stack_size(s);
            }
            b.spawn(f).map(JoinHandle::Real)
        }
    }
}

#[allow(dead_code)]
fn _assert(_: Arc<()>) {}
