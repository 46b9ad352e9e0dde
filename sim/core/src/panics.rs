//! Telling the library's own panics from the ones the simulator injects.
use std::any::Any;
use std::cell::RefCell;
use std::panic;

thread_local!(static LAST: RefCell<String> = RefCell::new(String::new()));

/// The payload of every injected source failure.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct SimPanic(pub u64);

pub enum Caught {
    Injected(SimPanic),
    Foreign(String),
}

pub fn install() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".to_string());
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{} ({})", msg, at));
    }));
}

/// Raise an injected failure without running the panic hook.
pub fn inject(id: u64) -> ! {
    panic::resume_unwind(Box::new(SimPanic(id)))
}

pub fn classify(p: Box<dyn Any + Send>) -> Caught {
    match p.downcast::<SimPanic>() {
        Ok(s) => Caught::Injected(*s),
        Err(_) => Caught::Foreign(LAST.with(|l| l.borrow().clone())),
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).map_err(classify)
}
