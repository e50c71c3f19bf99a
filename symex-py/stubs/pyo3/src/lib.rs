//! as much of pyo3 as the bindings need, with Python's calling convention on Rust values (numbers may be symbolic)
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::marker::PhantomData;

pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};
pub mod prelude {
    pub use crate::{pyclass, pyfunction, pymethods, pymodule, Py, PyErr, PyModule, PyResult, Python};
}
pub mod types {
    pub use crate::PyModule;
}
pub mod exceptions {
    macro_rules! exc {
        ($($n:ident),*) => { $( pub struct $n; impl $n { pub fn new_err<T: std::fmt::Debug>(t: T) -> crate::PyErr { crate::PyErr(format!("{}: {:?}", stringify!($n), t)) } } )* };
    }
    exc!(PyValueError, PyTypeError, PyRuntimeError, PyException, PyIndexError, PyOverflowError, PyNotImplementedError, PyArithmeticError);
}

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn token() -> Python<'static> {
        Python(PhantomData)
    }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R {
        f()
    }
}
#[derive(Debug)]
pub struct PyErr(pub String);
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for PyErr {}
pub type PyResult<T> = Result<T, PyErr>;

/// arguments of a call: positional ones and keywords
#[derive(Default)]
pub struct Args {
    pos: VecDeque<Box<dyn Any>>,
    kw: BTreeMap<String, Box<dyn Any>>,
}
impl Args {
    pub fn new() -> Args {
        Args::default()
    }
    pub fn push<T: 'static>(mut self, v: T) -> Args {
        self.pos.push_back(Box::new(v));
        self
    }
    pub fn kw<T: 'static>(mut self, n: &str, v: T) -> Args {
        self.kw.insert(n.to_string(), Box::new(v));
        self
    }
    pub fn get<T: 'static>(&mut self, name: &str) -> T {
        let v = self.pos.pop_front().or_else(|| self.kw.remove(name)).unwrap_or_else(|| panic!("TypeError: missing argument {}", name));
        *v.downcast::<T>().unwrap_or_else(|_| panic!("TypeError: argument {} has another type", name))
    }
    pub fn finish(&self) -> PyResult<()> {
        if self.pos.is_empty() && self.kw.is_empty() {
            Ok(())
        } else {
            Err(PyErr(format!("TypeError: unexpected arguments {:?}", self.kw.keys())))
        }
    }
}
pub trait FromArg: Sized {
    fn take(a: &mut Args, name: &str) -> Self;
}
macro_rules! plain {
    ($($t:ty),*) => { $( impl FromArg for $t { fn take(a: &mut Args, name: &str) -> Self { a.get(name) } } )* };
}
plain!(f64, bool, usize, symex::sym::Sym);
macro_rules! int {
    ($($t:ty),*) => { $( impl FromArg for $t { fn take(a: &mut Args, name: &str) -> Self { a.get::<usize>(name).try_into().expect("OverflowError") } } )* };
}
int!(u64, u32, u16, u8, i64, i32);
impl<'py> FromArg for Python<'py> {
    fn take(_: &mut Args, _: &str) -> Self {
        Python(PhantomData)
    }
}
/// what a call returned: the shape and the elements of an array
pub struct Out {
    pub shape: Vec<usize>,
    pub data: Box<dyn Any>,
}
pub trait IntoOut {
    fn out(self) -> Out;
}
impl IntoOut for () {
    fn out(self) -> Out {
        Out { shape: vec![], data: Box::new(()) }
    }
}
pub struct Py<T>(pub T);
impl<T: IntoOut> IntoOut for Py<T> {
    fn out(self) -> Out {
        self.0.out()
    }
}

pub trait PyClass {
    const NAME: &'static str;
}
pub trait PyMethods: Sized {
    fn py_new(args: Args) -> PyResult<Self>;
    fn py_call(&mut self, name: &str, args: Args) -> PyResult<Out>;
}
pub trait Obj {
    fn call(&mut self, name: &str, args: Args) -> PyResult<Out>;
}
impl<T: PyMethods> Obj for T {
    fn call(&mut self, name: &str, args: Args) -> PyResult<Out> {
        self.py_call(name, args)
    }
}
type Make = fn(Args) -> PyResult<Box<dyn Obj>>;
#[derive(Default)]
pub struct PyModule {
    classes: RefCell<BTreeMap<String, Make>>,
}
impl PyModule {
    pub fn add_class<T: PyClass + PyMethods + 'static>(&self) -> PyResult<()> {
        let make: Make = |a| T::py_new(a).map(|t| Box::new(t) as Box<dyn Obj>);
        self.classes.borrow_mut().insert(T::NAME.to_string(), make);
        Ok(())
    }
    pub fn add<T>(&self, _name: &str, _v: T) -> PyResult<()> {
        Ok(())
    }
    pub fn make(&self, class: &str, args: Args) -> PyResult<Box<dyn Obj>> {
        let m = self.classes.borrow().get(class).cloned();
        match m {
            Some(m) => m(args),
            None => Err(PyErr(format!("AttributeError: {}", class))),
        }
    }
}
