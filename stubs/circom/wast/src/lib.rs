//! WebAssembly text to WebAssembly, as far as the stand-in compiler's own text goes.
use std::fmt;
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
pub struct Wat<'a> {
    pub module: Module<'a>,
}
pub struct Module<'a>(&'a str);
impl Module<'_> {
    pub fn encode(&mut self) -> Result<Vec<u8>, Error> {
        Ok(format!("\0asm{}", self.0).into_bytes())
    }
}
pub mod parser {
    use super::*;
    pub struct ParseBuffer<'a>(pub(crate) &'a str);
    impl<'a> ParseBuffer<'a> {
        pub fn new(s: &'a str) -> Result<ParseBuffer<'a>, Error> {
            Ok(ParseBuffer(s))
        }
    }
    pub trait Parse<'a>: Sized {
        fn of(b: &'a ParseBuffer<'a>) -> Result<Self, Error>;
    }
    impl<'a> Parse<'a> for Wat<'a> {
        fn of(b: &'a ParseBuffer<'a>) -> Result<Self, Error> {
            if b.0.starts_with("wasm ") {
                Ok(Wat { module: Module(b.0) })
            } else {
                Err(Error("not WebAssembly text".into()))
            }
        }
    }
    pub fn parse<'a, T: Parse<'a>>(b: &'a ParseBuffer<'a>) -> Result<T, Error> {
        T::of(b)
    }
}
