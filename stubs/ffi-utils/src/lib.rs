//! Stand-in for ffi-utils (snips-utils-rs 4292ad9): C strings, boxed objects behind raw pointers,
//! result codes and the thread's last error.  Counts what it hands out, so that leaks show.
#![allow(non_camel_case_types)]
use failure::{format_err, Error};
use std::cell::RefCell;
use std::ffi::{CStr, CString};
use std::sync::atomic::{AtomicIsize, Ordering};

#[repr(C)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SNIPS_RESULT {
    SNIPS_RESULT_OK = 0,
    SNIPS_RESULT_KO = 1,
}
#[repr(C)]
#[derive(Debug)]
pub struct CStringArray {
    pub data: *const *const libc::c_char,
    pub size: libc::c_int,
}
/// strings and boxed objects handed out and not taken back
pub static STRINGS: AtomicIsize = AtomicIsize::new(0);
pub static BOXES: AtomicIsize = AtomicIsize::new(0);

pub trait RawPointerConverter<T>: Sized {
    fn into_raw_pointer(self) -> *const T;
    unsafe fn from_raw_pointer(input: *const T) -> Result<Self, Error>;
    unsafe fn drop_raw_pointer(input: *const T) -> Result<(), Error> { Self::from_raw_pointer(input).map(|_| ()) }
}
impl<T> RawPointerConverter<T> for T {
    fn into_raw_pointer(self) -> *const T { BOXES.fetch_add(1, Ordering::SeqCst); Box::into_raw(Box::new(self)) as *const T }
    unsafe fn from_raw_pointer(input: *const T) -> Result<T, Error> {
        if input.is_null() { return Err(format_err!("could not take a raw pointer: unexpected null pointer")); }
        BOXES.fetch_sub(1, Ordering::SeqCst);
        Ok(*Box::from_raw(input as *mut T))
    }
}
impl RawPointerConverter<libc::c_char> for CString {
    fn into_raw_pointer(self) -> *const libc::c_char { STRINGS.fetch_add(1, Ordering::SeqCst); self.into_raw() }
    unsafe fn from_raw_pointer(input: *const libc::c_char) -> Result<Self, Error> {
        if input.is_null() { return Err(format_err!("could not take a raw pointer: unexpected null pointer")); }
        STRINGS.fetch_sub(1, Ordering::SeqCst);
        Ok(CString::from_raw(input as *mut libc::c_char))
    }
}
pub trait RawBorrow<T> {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a Self, Error>;
}
impl<T> RawBorrow<T> for T {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a Self, Error> { input.as_ref().ok_or_else(|| format_err!("could not borrow, unexpected null pointer")) }
}
impl RawBorrow<libc::c_char> for CStr {
    unsafe fn raw_borrow<'a>(input: *const libc::c_char) -> Result<&'a Self, Error> { if input.is_null() { Err(format_err!("could not borrow, unexpected null pointer")) } else { Ok(CStr::from_ptr(input)) } }
}
pub fn point_to_string(pointer: *mut *const libc::c_char, string: String) -> Result<(), Error> {
    let s = CString::new(string)?;
    unsafe { *pointer = s.into_raw_pointer() };
    Ok(())
}
thread_local! { pub static LAST_ERROR: RefCell<Option<String>> = RefCell::new(None); }
#[macro_export]
macro_rules! wrap {
    ($e:expr) => {
        match $e {
            Ok(_) => $crate::SNIPS_RESULT::SNIPS_RESULT_OK,
            Err(e) => {
                let m = e.to_string();
                $crate::LAST_ERROR.with(|l| *l.borrow_mut() = Some(m));
                $crate::SNIPS_RESULT::SNIPS_RESULT_KO
            }
        }
    };
}
#[macro_export]
macro_rules! create_rust_string_from {
    ($pointer:expr) => {{
        #[allow(unused_unsafe)]
        let s = unsafe { <std::ffi::CStr as $crate::RawBorrow<libc::c_char>>::raw_borrow($pointer) }?;
        s.to_str()?.to_string()
    }};
}
#[macro_export]
macro_rules! generate_error_handling {
    ($name:ident) => {
        #[no_mangle]
        pub extern "C" fn $name(error: *mut *const libc::c_char) -> $crate::SNIPS_RESULT {
            let m = $crate::LAST_ERROR.with(|l| l.borrow_mut().take()).unwrap_or_else(|| "no last error".to_string());
            $crate::wrap!($crate::point_to_string(error, m))
        }
    };
}
