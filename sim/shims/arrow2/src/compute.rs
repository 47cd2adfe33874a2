pub mod merge_sort {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct SortOptions {
        pub descending: bool,
        pub nulls_first: bool,
    }
}
pub mod sort {
    use std::cmp::Ordering;

    pub use super::merge_sort::SortOptions;
    use crate::array::*;
    use crate::datatypes::PhysicalType;
    use crate::error::Result;
    use crate::types::NativeType;
    use crate::types::PrimitiveType;
    pub struct SortColumn<'a> {
        pub values: &'a dyn Array,
        pub options: Option<SortOptions>,
    }
    pub trait Index: NativeType {
        fn from_idx(v: usize) -> Self;
        fn to_idx(&self) -> usize;
    }
    impl Index for i32 {
        fn from_idx(v: usize) -> Self {
            v as i32
        }
        fn to_idx(&self) -> usize {
            *self as usize
        }
    }
    impl Index for i64 {
        fn from_idx(v: usize) -> Self {
            v as i64
        }
        fn to_idx(&self) -> usize {
            *self as usize
        }
    }
    fn cmp(a: &dyn Array, o: &SortOptions, i: usize, j: usize) -> Ordering {
        match (a.is_valid(i), a.is_valid(j)) {
            (false, false) => return Ordering::Equal,
            (true, false) => {
                return if o.nulls_first { Ordering::Greater } else { Ordering::Less }
            }
            (false, true) => {
                return if o.nulls_first { Ordering::Less } else { Ordering::Greater }
            }
            _ => {}
        }
        let c = match a.data_type().to_physical_type() {
            PhysicalType::Boolean => {
                let a = a.as_any().downcast_ref::<BooleanArray>().unwrap();
                a.value(i).cmp(&a.value(j))
            }
            PhysicalType::Primitive(p) => with_prim!(p, T => {
                let a = a.as_any().downcast_ref::<PrimitiveArray<T>>().unwrap();
                a.value(i).cmp_total(&a.value(j))
            }),
            PhysicalType::Utf8 => {
                let a = a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap();
                a.value(i).cmp(a.value(j))
            }
            p => unimplemented!("{p:?}"),
        };
        if o.descending {
            c.reverse()
        } else {
            c
        }
    }
    pub fn lexsort_to_indices<I: Index>(
        cols: &[SortColumn],
        limit: Option<usize>,
    ) -> Result<PrimitiveArray<I>> {
        if cols.is_empty() {
            return Err(err("Sort requires at least one column"));
        }
        let n = cols[0].values.len();
        let mut v = (0..n).collect::<Vec<usize>>();
        // unstable, as in arrow2
        v.sort_unstable_by(|a, b| {
            for c in cols {
                let r = cmp(c.values, &c.options.unwrap_or_default(), *a, *b);
                if r != Ordering::Equal {
                    return r;
                }
            }
            Ordering::Equal
        });
        v.truncate(limit.unwrap_or(n));
        Ok(PrimitiveArray::from_vec(v.into_iter().map(I::from_idx).collect()))
    }
}
pub mod take {
    use super::sort::Index;
    use crate::array::*;
    use crate::error::Result;
    pub fn take<I: Index>(values: &dyn Array, idx: &PrimitiveArray<I>) -> Result<Box<dyn Array>> {
        let r = idx
            .values_iter()
            .map(|i| (0, i.to_idx(), 1))
            .collect::<Vec<_>>();
        Ok(concat_ranges(&[values], &r))
    }
}
pub mod concatenate {
    use crate::array::*;
    use crate::error::Result;
    pub fn concatenate(arrs: &[&dyn Array]) -> Result<Box<dyn Array>> {
        if arrs.is_empty() {
            return Err(err("concat requires input of at least one array"));
        }
        let r = arrs
            .iter()
            .enumerate()
            .map(|(i, a)| (i, 0, a.len()))
            .collect::<Vec<_>>();
        Ok(concat_ranges(arrs, &r))
    }
}
