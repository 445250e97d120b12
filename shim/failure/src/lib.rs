//! Stand-in for the `failure` crate (0.1): the part the integrator uses.
use std::any::Any;
use std::fmt::{self, Debug, Display};
pub use failure_derive::Fail;

pub trait Fail: Display + Debug + Any + Send + Sync {
    fn cause(&self) -> Option<&dyn Fail> {
        None
    }
    fn name(&self) -> Option<&str> {
        None
    }
    #[doc(hidden)]
    fn __any(&self) -> &dyn Any;
    #[doc(hidden)]
    fn __into_any(self: Box<Self>) -> Box<dyn Any>;
}
impl dyn Fail {
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> {
        self.__any().downcast_ref()
    }
}
pub struct Error(Box<dyn Fail>);
pub type Fallible<T> = Result<T, Error>;
impl Error {
    pub fn as_fail(&self) -> &dyn Fail {
        &*self.0
    }
    pub fn cause(&self) -> &dyn Fail {
        &*self.0
    }
    pub fn downcast<T: Fail>(self) -> Result<T, Error> {
        if self.0.__any().is::<T>() {
            Ok(*self.0.__into_any().downcast::<T>().unwrap())
        } else {
            Err(self)
        }
    }
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> {
        self.0.__any().downcast_ref()
    }
    pub fn downcast_mut<T: Fail>(&mut self) -> Option<&mut T> {
        None
    }
    pub fn find_root_cause(&self) -> &dyn Fail {
        &*self.0
    }
}
impl<F: Fail> From<F> for Error {
    fn from(f: F) -> Error {
        Error(Box::new(f))
    }
}
impl Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Debug::fmt(&self.0, f)
    }
}
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
}
/// what `format_err!` and `err_msg` make
pub struct ErrorMessage(String);
impl Debug for ErrorMessage {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "ErrorMessage {{ msg: {:?} }}", self.0)
    }
}
impl Display for ErrorMessage {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Fail for ErrorMessage {
    fn __any(&self) -> &dyn Any {
        self
    }
    fn __into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}
pub fn err_msg<D: Display + Debug + Sync + Send + 'static>(m: D) -> Error {
    Error::from(ErrorMessage(m.to_string()))
}
#[macro_export]
macro_rules! format_err { ($($a:tt)+) => { $crate::err_msg(format!($($a)+)) }; }
#[macro_export]
macro_rules! bail { ($($a:tt)+) => { return Err($crate::format_err!($($a)+)) }; }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)+) => { if !$c { return Err($crate::format_err!($($a)+)); } }; }
