#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Bitmap(pub std::sync::Arc<Vec<bool>>);
impl Bitmap {
    pub fn get_bit(&self, i: usize) -> bool {
        self.0[i]
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn unset_bits(&self) -> usize {
        self.0.iter().filter(|b| !**b).count()
    }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ {
        self.0.iter().copied()
    }
}
impl From<Vec<bool>> for Bitmap {
    fn from(v: Vec<bool>) -> Self {
        Bitmap(std::sync::Arc::new(v))
    }
}
impl FromIterator<bool> for Bitmap {
    fn from_iter<I: IntoIterator<Item = bool>>(i: I) -> Self {
        i.into_iter().collect::<Vec<_>>().into()
    }
}
