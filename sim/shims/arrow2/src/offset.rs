pub trait Offset: Send + Sync + Copy + Default + std::fmt::Debug + PartialEq + 'static {
    const IS_LARGE: bool;
    fn to_usize(&self) -> usize;
    fn from_usize_(v: usize) -> Self;
}
impl Offset for i32 {
    const IS_LARGE: bool = false;
    fn to_usize(&self) -> usize {
        *self as usize
    }
    fn from_usize_(v: usize) -> Self {
        i32::try_from(v).expect("offset overflow")
    }
}
impl Offset for i64 {
    const IS_LARGE: bool = true;
    fn to_usize(&self) -> usize {
        *self as usize
    }
    fn from_usize_(v: usize) -> Self {
        v as i64
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct OffsetsBuffer<O: Offset>(pub Vec<O>);
impl<O: Offset> OffsetsBuffer<O> {
    pub fn start_end(&self, i: usize) -> (usize, usize) {
        (self.0[i].to_usize(), self.0[i + 1].to_usize())
    }
    pub fn len_proxy(&self) -> usize {
        self.0.len() - 1
    }
}
