//! Running one operation of the library and classifying how it ended.
use crate::entropy::{Injected, Runaway};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// The call returned an error.
    Rejected(String),
    /// The simulator made the entropy source fail inside the call.
    Injected,
    /// The call drew entropy without end.
    Runaway,
    /// The call panicked by itself.
    Panic(String),
}

impl Fail {
    pub fn is_reject(&self) -> bool { if let Fail::Rejected(_) = self { true } else { false } }
    pub fn is_bad(&self) -> bool { match self { Fail::Panic(_) | Fail::Runaway => true, _ => false } }
}

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| if let Ok(mut x) = x.try_borrow_mut() { *x = format!("{} at {}", m, l) });
    }));
}

pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            if e.is::<Injected>() {
                Err(Fail::Injected)
            } else if e.is::<Runaway>() {
                Err(Fail::Runaway)
            } else {
                Err(Fail::Panic(LAST.with(|x| x.borrow().clone())))
            }
        }
    }
}

/// As `guarded`, for operations that return a `Result`.
pub fn attempt<T, E: std::fmt::Debug, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, Fail> {
    match guarded(f) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(Fail::Rejected(format!("{:?}", e))),
        Err(x) => Err(x),
    }
}
