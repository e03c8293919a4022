pub trait Instrument: Sized {
    fn instrument<S>(self, _span: S) -> Self { self }
    fn in_current_span(self) -> Self { self }
}
impl<T: Sized> Instrument for T {}
