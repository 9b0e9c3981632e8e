pub mod take {
    use crate::array::Array;
    use crate::array::PrimitiveArray;
    use crate::error::Result;
    use crate::types::Index;
    pub fn take<O: Index>(values: &dyn Array, indices: &PrimitiveArray<O>) -> Result<Box<dyn Array>> {
        let rows: Vec<Option<(usize, usize)>> = indices.iter().map(|x| x.map(|i| (0, i.to_usize()))).collect();
        Ok(values.__gather(&[values], &rows))
    }
    pub fn can_take(_: &crate::datatypes::DataType) -> bool {
        true
    }
}
pub mod merge_sort {
    pub use super::sort::SortOptions;
}
pub mod sort {
    use std::cmp::Ordering;

    use crate::array::Array;
    use crate::array::PrimitiveArray;
    use crate::error::Error;
    use crate::error::Result;
    use crate::types::Index;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct SortOptions {
        pub descending: bool,
        pub nulls_first: bool,
    }
    impl Default for SortOptions {
        fn default() -> Self {
            SortOptions { descending: false, nulls_first: true }
        }
    }
    #[derive(Clone, Debug)]
    pub struct SortColumn<'a> {
        pub values: &'a dyn Array,
        pub options: Option<SortOptions>,
    }
    fn cmp(c: &SortColumn, i: usize, j: usize) -> Ordering {
        let o = c.options.unwrap_or_default();
        match (c.values.is_valid(i), c.values.is_valid(j)) {
            (true, true) => {
                let r = c.values.__cmp(i, j);
                if o.descending {
                    r.reverse()
                } else {
                    r
                }
            }
            (false, false) => Ordering::Equal,
            (false, true) => {
                if o.nulls_first {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            }
            (true, false) => {
                if o.nulls_first {
                    Ordering::Greater
                } else {
                    Ordering::Less
                }
            }
        }
    }
    pub fn lexsort_to_indices<I: Index>(columns: &[SortColumn], limit: Option<usize>) -> Result<PrimitiveArray<I>> {
        if columns.is_empty() {
            return Err(Error::InvalidArgumentError("Sort requires at least one column".to_string()));
        }
        let n = columns[0].values.len();
        if columns.iter().any(|c| c.values.len() != n) {
            return Err(Error::InvalidArgumentError("lexical sort columns have different row counts".to_string()));
        }
        let mut ix: Vec<usize> = (0..n).collect();
        ix.sort_by(|a, b| columns.iter().map(|c| cmp(c, *a, *b)).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal));
        if let Some(l) = limit {
            ix.truncate(l);
        }
        Ok(PrimitiveArray::from_vec(ix.into_iter().map(|i| I::from_usize(i).unwrap()).collect()))
    }
    pub fn sort_to_indices<I: Index>(values: &dyn Array, options: &SortOptions, limit: Option<usize>) -> Result<PrimitiveArray<I>> {
        lexsort_to_indices(&[SortColumn { values, options: Some(*options) }], limit)
    }
}
pub mod concatenate {
    use crate::array::Array;
    use crate::error::Error;
    use crate::error::Result;
    pub fn concatenate(arrays: &[&dyn Array]) -> Result<Box<dyn Array>> {
        if arrays.is_empty() {
            return Err(Error::InvalidArgumentError("concat requires input of at least one array".to_string()));
        }
        if arrays.iter().any(|a| a.data_type() != arrays[0].data_type()) {
            return Err(Error::InvalidArgumentError("It is not possible to concatenate arrays of different data types.".to_string()));
        }
        let rows: Vec<Option<(usize, usize)>> =
            arrays.iter().enumerate().flat_map(|(a, x)| (0..x.len()).map(move |i| Some((a, i)))).collect();
        Ok(arrays[0].__gather(arrays, &rows))
    }
}
pub mod cast {
    use num_traits::AsPrimitive;

    use crate::array::PrimitiveArray;
    use crate::datatypes::DataType;
    use crate::types::NativeType;
    pub fn integer_to_decimal<T: NativeType + AsPrimitive<i128>>(
        from: &PrimitiveArray<T>,
        to_precision: usize,
        to_scale: usize,
    ) -> PrimitiveArray<i128> {
        let mult = 10i128.pow(to_scale as u32);
        let max = 9i128.saturating_mul((0..to_precision as u32).fold(0i128, |a, _| a.saturating_mul(10).saturating_add(1)));
        let v: Vec<Option<i128>> = from
            .iter()
            .map(|x| x.and_then(|x| x.as_().checked_mul(mult)).and_then(|x| if x.abs() > max { None } else { Some(x) }))
            .collect();
        PrimitiveArray::<i128>::from(v).to(DataType::Decimal(to_precision, to_scale))
    }
}
