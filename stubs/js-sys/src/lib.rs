//! Stand-in for js-sys on top of the simulated host.
use wasm_bindgen::{JsCast, JsValue, Transparent};

macro_rules! ty {
    ($n:ident) => {
        #[repr(transparent)]
        #[derive(Clone, Debug)]
        pub struct $n {
            obj: JsValue,
        }
        unsafe impl Transparent for $n {}
        impl JsCast for $n {}
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                &self.obj
            }
        }
        impl From<$n> for JsValue {
            fn from(v: $n) -> JsValue {
                v.obj
            }
        }
        impl wasm_bindgen::__host::FromHost for $n {
            fn from_host(v: JsValue) -> Self {
                $n { obj: v }
            }
        }
    };
}
ty!(Object);
ty!(Function);

impl Function {
    pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> {
        self.obj.host_invoke();
        Ok(JsValue::Undefined)
    }
}

pub fn global() -> Object {
    Object { obj: JsValue::Object }
}

pub struct Date;
impl Date {
    pub fn now() -> f64 {
        wasm_bindgen::__host::host().date
    }
}
