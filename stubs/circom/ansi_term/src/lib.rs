//! Colours of messages, without the colours.
#[derive(Clone, Copy, Debug)]
pub enum Colour {
    Black,
    Red,
    Green,
    Yellow,
    Blue,
    Purple,
    Cyan,
    White,
}
pub use Colour as Color;
impl Colour {
    pub fn paint<S: Into<String>>(self, s: S) -> String {
        s.into()
    }
    pub fn bold(self) -> Self {
        self
    }
}
