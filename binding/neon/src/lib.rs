//! A stand-in for neon 0.3: values, calls with arguments, exceptions, and the registration of
//! exports.  There is no JavaScript engine; a value is what a call is given or answers.

use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::ops::Deref;

/// A JavaScript value, as far as calls are given or answer it
#[derive(Clone, Debug, PartialEq)]
pub enum Any {
    Undefined,
    Null,
    Boolean(bool),
    Number(f64),
    String(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Exception {
    pub kind: &'static str,
    pub message: String,
}

/// Lives as long as one call
#[derive(Default)]
pub struct Heap {
    values: RefCell<Vec<Box<Any>>>,
    thrown: RefCell<Option<Exception>>,
    calls: Cell<usize>,
}

impl Heap {
    fn alloc<'a>(&'a self, value: Any) -> &'a Any {
        let value = Box::new(value);
        let ptr: *const Any = &*value;
        self.values.borrow_mut().push(value);
        // boxes do not move, and are kept as long as the heap
        unsafe { &*ptr }
    }
}

pub mod result {
    use super::*;

    #[derive(Debug)]
    pub struct Throw(pub(crate) PhantomData<*mut ()>);

    impl std::fmt::Display for Throw {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("JavaScript Error")
        }
    }

    impl std::error::Error for Throw {}

    pub type NeonResult<T> = Result<T, Throw>;
    pub type JsResult<'a, T> = NeonResult<handle::Handle<'a, T>>;

    pub trait JsResultExt<'a, V: types::Value> {
        fn or_throw<'b, C: context::Context<'b>>(self, cx: &mut C) -> JsResult<'a, V>;
    }
}

pub mod handle {
    use super::*;
    use types::Value;

    pub struct Handle<'a, T: 'a> {
        pub(crate) value: T,
        pub(crate) any: &'a Any,
    }

    impl<'a, T: Copy> Clone for Handle<'a, T> {
        fn clone(&self) -> Self { *self }
    }

    impl<'a, T: Copy> Copy for Handle<'a, T> {}

    impl<'a, T> Deref for Handle<'a, T> {
        type Target = T;
        fn deref(&self) -> &T { &self.value }
    }

    #[derive(Debug)]
    pub struct DowncastError<T>(pub(crate) PhantomData<T>, pub(crate) &'static str);

    impl<T> std::fmt::Display for DowncastError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "failed to downcast to {}", self.1) }
    }

    pub type DowncastResult<'a, T> = Result<Handle<'a, T>, DowncastError<T>>;

    impl<'a, T: Value> Handle<'a, T> {
        pub fn upcast<U: Value>(&self) -> Handle<'a, U> { U::of(self.any).expect("not an upcast") }
        pub fn is_a<U: Value>(&self) -> bool { U::of(self.any).is_some() }
        pub fn downcast<U: Value>(&self) -> DowncastResult<'a, U> {
            U::of(self.any).ok_or(DowncastError(PhantomData, U::NAME))
        }
        pub fn downcast_or_throw<'b, U: Value, C: context::Context<'b>>(&self, cx: &mut C) -> result::JsResult<'a, U> {
            match self.downcast::<U>() {
                Ok(handle) => Ok(handle),
                Err(e) => cx.throw_type_error(e.to_string()),
            }
        }
    }

    impl<'a, V: Value> result::JsResultExt<'a, V> for DowncastResult<'a, V> {
        fn or_throw<'b, C: context::Context<'b>>(self, cx: &mut C) -> result::JsResult<'a, V> {
            match self {
                Ok(handle) => Ok(handle),
                Err(e) => cx.throw_type_error(e.to_string()),
            }
        }
    }
}

pub mod types {
    use super::*;
    use handle::Handle;

    pub trait Value: Copy + Sized {
        const NAME: &'static str;
        fn of<'a>(any: &'a Any) -> Option<Handle<'a, Self>>;
    }

    macro_rules! types {
        ($( $name:ident $text:expr, $pattern:pat, )*) => {
            $(
                #[derive(Clone, Copy)]
                pub struct $name(pub(crate) *const Any);

                impl Value for $name {
                    const NAME: &'static str = $text;
                    fn of<'a>(any: &'a Any) -> Option<Handle<'a, Self>> {
                        match *any {
                            $pattern => Some(Handle { value: $name(any), any }),
                            _ => None,
                        }
                    }
                }
            )*
        }
    }

    types! {
        JsValue "value", _,
        JsUndefined "undefined", Any::Undefined,
        JsNull "null", Any::Null,
        JsBoolean "boolean", Any::Boolean(_),
        JsNumber "number", Any::Number(_),
        JsString "string", Any::String(_),
    }

    impl JsBoolean {
        pub fn value(self) -> bool {
            match unsafe { &*self.0 } { Any::Boolean(b) => *b, _ => unreachable!() }
        }
    }

    impl JsNumber {
        pub fn value(self) -> f64 {
            match unsafe { &*self.0 } { Any::Number(n) => *n, _ => unreachable!() }
        }
    }

    impl JsString {
        pub fn size(self) -> isize { self.value().len() as isize }
        pub fn value(self) -> String {
            match unsafe { &*self.0 } { Any::String(s) => s.clone(), _ => unreachable!() }
        }
    }
}

pub mod context {
    use super::*;
    use handle::Handle;
    use result::{JsResult, NeonResult, Throw};
    use types::*;

    pub struct FunctionContext<'a> {
        pub(crate) heap: &'a Heap,
        pub(crate) arguments: &'a [Any],
    }

    pub type CallContext<'a> = FunctionContext<'a>;

    pub trait Context<'a>: Sized {
        fn heap(&self) -> &'a Heap;

        fn throw_with<T>(&mut self, kind: &'static str, message: &str) -> NeonResult<T> {
            *self.heap().thrown.borrow_mut() = Some(Exception { kind, message: message.to_string() });
            Err(Throw(PhantomData))
        }

        fn throw_error<S: AsRef<str>, T>(&mut self, message: S) -> NeonResult<T> { self.throw_with("Error", message.as_ref()) }
        fn throw_type_error<S: AsRef<str>, T>(&mut self, message: S) -> NeonResult<T> { self.throw_with("TypeError", message.as_ref()) }
        fn throw_range_error<S: AsRef<str>, T>(&mut self, message: S) -> NeonResult<T> { self.throw_with("RangeError", message.as_ref()) }

        fn throw<'b, T: Value, U>(&mut self, value: Handle<'b, T>) -> NeonResult<U> {
            let text = format!("{:?}", value.any);
            self.throw_with("a value", &text)
        }

        fn make<T: Value>(&mut self, any: Any) -> Handle<'a, T> { T::of(self.heap().alloc(any)).unwrap() }

        fn string<S: AsRef<str>>(&mut self, s: S) -> Handle<'a, JsString> { self.make(Any::String(s.as_ref().to_string())) }
        fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> { self.make(Any::Boolean(b)) }
        fn number<N: Into<f64>>(&mut self, n: N) -> Handle<'a, JsNumber> { self.make(Any::Number(n.into())) }
        fn undefined(&mut self) -> Handle<'a, JsUndefined> { self.make(Any::Undefined) }
        fn null(&mut self) -> Handle<'a, JsNull> { self.make(Any::Null) }
    }

    impl<'a> Context<'a> for FunctionContext<'a> {
        fn heap(&self) -> &'a Heap { self.heap }
    }

    impl<'a> FunctionContext<'a> {
        pub fn len(&self) -> i32 { self.arguments.len() as i32 }

        pub fn argument_opt(&mut self, i: i32) -> Option<Handle<'a, JsValue>> {
            self.arguments.get(i as usize).and_then(|any| JsValue::of(any))
        }

        pub fn argument<V: Value>(&mut self, i: i32) -> JsResult<'a, V> {
            match self.argument_opt(i) {
                Some(value) => value.downcast_or_throw(self),
                None => self.throw_type_error("not enough arguments"),
            }
        }
    }

    pub type Function<'f> = Box<dyn Fn(&Heap, &[Any]) -> Result<Any, Exception> + 'f>;

    #[derive(Default)]
    pub struct ModuleContext {
        pub functions: Vec<(String, Function<'static>)>,
    }

    impl ModuleContext {
        pub fn export_function<T: Value + 'static>(&mut self, key: &str, f: fn(FunctionContext) -> JsResult<T>) -> NeonResult<()> {
            self.functions.push((key.to_string(), Box::new(move |heap, arguments| {
                // arguments and what the call makes live as long as the heap
                let arguments: Vec<Any> = arguments.to_vec();
                heap.calls.set(heap.calls.get() + 1);
                let answer = match f(FunctionContext { heap, arguments: &arguments }) {
                    Ok(value) => Ok(value.any.clone()),
                    Err(_) => Err(heap.thrown.borrow_mut().take().expect("an exception is thrown")),
                };
                answer
            })));
            Ok(())
        }
    }
}

pub mod prelude {
    pub use crate::context::{CallContext, Context, FunctionContext, ModuleContext};
    pub use crate::handle::Handle;
    pub use crate::result::{JsResult, JsResultExt, NeonResult};
    pub use crate::types::{JsBoolean, JsNull, JsNumber, JsString, JsUndefined, JsValue, Value};
    pub use crate::register_module;
}

/// Makes the exports of the module known under the name `exports`
#[macro_export]
macro_rules! register_module {
    ($module:pat, $init:block) => {
        pub fn exports() -> $crate::context::ModuleContext {
            fn fill($module: &mut $crate::context::ModuleContext) -> $crate::result::NeonResult<()> { $init }
            let mut module = $crate::context::ModuleContext::default();
            let _ = fill(&mut module);
            module
        }
    };
    ($module:ident, $init:block) => { $crate::register_module!($module, $init); };
    (|$module:pat| $init:block) => { $crate::register_module!($module, $init); };
}
