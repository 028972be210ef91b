//! Stand-in for wasm-bindgen: the JavaScript host is a small model living in the same module.
//! It has a clock, a list of pending timeouts and function values holding Rust closures.

use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Object,
    Num(f64),
    Func(Rc<FnCell>),
}

pub struct FnCell {
    f: RefCell<Option<Call>>,
}
enum Call {
    Once(Box<dyn FnOnce()>),
    Mut(Box<dyn FnMut()>),
}

impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JsValue")
    }
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Undefined;
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Num(x) => Some(*x),
            _ => None,
        }
    }
    pub fn from_f64(x: f64) -> JsValue {
        JsValue::Num(x)
    }
    /// call a function value the way the host does
    pub fn host_invoke(&self) {
        if let JsValue::Func(c) = self {
            let taken = c.f.borrow_mut().take();
            match taken {
                Some(Call::Once(f)) => f(),
                Some(Call::Mut(mut f)) => {
                    f();
                    *c.f.borrow_mut() = Some(Call::Mut(f));
                }
                None => panic!("host: callback invoked twice or recursively"),
            }
        }
    }
}

/// Types that are a transparent wrapper around `JsValue`.
pub unsafe trait Transparent {}
unsafe impl Transparent for JsValue {}

pub trait JsCast: Transparent + Sized {
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        unsafe { &*(self as *const Self as *const T) }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        unsafe {
            let v = std::mem::ManuallyDrop::new(self);
            std::ptr::read(&*v as *const Self as *const T)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        Some(self.unchecked_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        Ok(self.unchecked_into())
    }
}
impl JsCast for JsValue {}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

pub trait UnwrapThrowExt<T> {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}

pub mod closure {
    use super::*;
    use std::marker::PhantomData;

    pub struct Closure<T: ?Sized> {
        js: JsValue,
        _t: PhantomData<T>,
    }
    fn func(c: Call) -> JsValue {
        JsValue::Func(Rc::new(FnCell { f: RefCell::new(Some(c)) }))
    }
    pub trait IntoCb {
        fn into_cb(self: Box<Self>) -> Box<dyn FnMut()>;
    }
    impl IntoCb for dyn FnMut() {
        fn into_cb(self: Box<Self>) -> Box<dyn FnMut()> {
            self
        }
    }
    impl IntoCb for dyn Fn() {
        fn into_cb(self: Box<Self>) -> Box<dyn FnMut()> {
            Box::new(move || self())
        }
    }
    impl Closure<dyn FnOnce()> {
        pub fn once_into_js<F: FnOnce() + 'static>(f: F) -> JsValue {
            func(Call::Once(Box::new(f)))
        }
    }
    impl<T: ?Sized> Closure<T> {
        pub fn once<F: FnOnce() + 'static>(f: F) -> Closure<T> {
            Closure { js: func(Call::Once(Box::new(f))), _t: PhantomData }
        }
        pub fn wrap(b: Box<T>) -> Closure<T>
        where
            T: IntoCb + 'static,
        {
            Closure { js: func(Call::Mut(b.into_cb())), _t: PhantomData }
        }
        pub fn new<F: FnMut() + 'static>(f: F) -> Closure<T> {
            Closure { js: func(Call::Mut(Box::new(f))), _t: PhantomData }
        }
        pub fn forget(self) {
            std::mem::forget(self)
        }
        pub fn into_js_value(self) -> JsValue {
            self.js
        }
    }
    impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
        fn as_ref(&self) -> &JsValue {
            &self.js
        }
    }
}

pub mod prelude {
    pub use crate::closure::Closure;
    pub use crate::wasm_bindgen;
    pub use crate::{JsCast, JsValue, UnwrapThrowExt};
}
pub use wsym_bindgen_macro::wasm_bindgen;

pub mod __host {
    use super::*;

    pub trait FromHost {
        fn from_host(v: JsValue) -> Self;
    }
    impl FromHost for JsValue {
        fn from_host(v: JsValue) -> Self {
            v
        }
    }
    impl FromHost for () {
        fn from_host(_: JsValue) -> Self {}
    }
    impl FromHost for f64 {
        fn from_host(v: JsValue) -> Self {
            match v {
                JsValue::Num(x) => x,
                _ => f64::NAN,
            }
        }
    }
    impl FromHost for i32 {
        fn from_host(v: JsValue) -> Self {
            f64::from_host(v) as i32
        }
    }
    impl<T: FromHost> FromHost for Result<T, JsValue> {
        fn from_host(v: JsValue) -> Self {
            Ok(T::from_host(v))
        }
    }

    pub enum Arg {
        Val(JsValue),
        Int(i64),
        Num(f64),
    }
    pub trait ToHost {
        fn to_host(&self) -> Arg;
    }
    impl<T: AsRef<JsValue>> ToHost for &T {
        fn to_host(&self) -> Arg {
            Arg::Val(self.as_ref().clone())
        }
    }
    impl ToHost for JsValue {
        fn to_host(&self) -> Arg {
            Arg::Val(self.clone())
        }
    }
    impl ToHost for i32 {
        fn to_host(&self) -> Arg {
            Arg::Int(*self as i64)
        }
    }
    impl ToHost for u32 {
        fn to_host(&self) -> Arg {
            Arg::Int(*self as i64)
        }
    }
    impl ToHost for f64 {
        fn to_host(&self) -> Arg {
            Arg::Num(*self)
        }
    }

    /// a pending timeout of the simulated host
    pub struct Pending {
        pub id: u64,
        /// requested delay in milliseconds, as passed
        pub delay: i64,
        /// host time (units of 125 microseconds) of the request
        pub at: u64,
        /// host time at which it may fire
        pub due: u64,
        pub cb: JsValue,
    }

    pub struct Host {
        /// host clock in units of 125 microseconds
        pub now: u64,
        /// when set, returned by performance.now() instead of `now`
        pub raw: Option<f64>,
        /// the next readings of performance.now(), before any of the above
        pub reads: Vec<f64>,
        /// by how much the clock moves on before each of its next readings, the last one first
        pub drift: Vec<u64>,
        pub date: f64,
        pub pending: Vec<Pending>,
        pub next_id: u64,
        pub requests: u64,
        /// the last requested delay
        pub last_delay: i64,
    }

    struct Cell(std::cell::UnsafeCell<Host>);
    unsafe impl Sync for Cell {}
    static HOST: Cell = Cell(std::cell::UnsafeCell::new(Host {
        now: 0,
        raw: None,
        reads: Vec::new(),
        drift: Vec::new(),
        date: 0.0,
        pending: Vec::new(),
        next_id: 0,
        requests: 0,
        last_delay: -1,
    }));

    pub fn host() -> &'static mut Host {
        unsafe { &mut *HOST.0.get() }
    }

    fn num(a: &Arg) -> i64 {
        match a {
            Arg::Int(i) => *i,
            Arg::Num(f) => *f as i64,
            _ => 0,
        }
    }

    pub fn call(name: &str, args: &[Arg]) -> JsValue {
        match name {
            "performance" | "window" | "self" | "globalThis" | "global" => JsValue::Object,
            "now" => {
                let h = host();
                if !h.reads.is_empty() {
                    return JsValue::Num(h.reads.remove(0));
                }
                if let Some(d) = h.drift.pop() {
                    h.now += d;
                }
                match h.raw {
                    Some(r) => JsValue::Num(r),
                    None => JsValue::Num(h.now as f64 * 0.125),
                }
            }
            "setTimeout" => {
                let h = host();
                let cb = match &args[0] {
                    Arg::Val(v) => v.clone(),
                    _ => panic!("host: setTimeout without a function"),
                };
                let delay = if args.len() > 1 { num(&args[1]) } else { 0 };
                let id = h.next_id;
                h.next_id += 1;
                h.requests += 1;
                h.last_delay = delay;
                // the delay is a 32-bit integer; a negative one counts as zero
                let d = delay as i32;
                let d = if d < 0 { 0u64 } else { (d as u64) & 0x7fff_ffff };
                h.pending.push(Pending { id, delay, at: h.now, due: h.now + d * 8, cb });
                JsValue::Num(id as f64)
            }
            "clearTimeout" => {
                let h = host();
                let id = match &args[0] {
                    Arg::Val(JsValue::Num(f)) => *f as u64,
                    a => num(a) as u64,
                };
                if let Some(i) = h.pending.iter().position(|p| p.id == id) {
                    h.pending.remove(i);
                }
                JsValue::Undefined
            }
            "queueMicrotask" => {
                let h = host();
                if let Arg::Val(v) = &args[0] {
                    let id = h.next_id;
                    h.next_id += 1;
                    h.pending.push(Pending { id, delay: 0, at: h.now, due: h.now, cb: v.clone() });
                }
                JsValue::Undefined
            }
            _ => panic!("host: unmodelled host function"),
        }
    }
}
