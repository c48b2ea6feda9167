//! Component groups over the zoo, of every arity.

use crate::kinds::*;
use crate::vt::{returned, Col, Obs};
use shard_ecs::component_group::ComponentGroup;

pub trait ZooGroup: ComponentGroup {
    const KINDS: &'static [u8];
    fn from_tokens(t: &[u64]) -> Self;
    fn into_obs(self) -> Vec<Obs>;
    fn ref_cols(r: Self::RefTuple<'_>) -> Vec<Col>;
    fn mut_ref_cols(r: Self::MutRefTuple<'_>) -> Vec<Col>;
    fn slice_cols(s: Self::SliceRefTuple<'_>) -> Vec<Col>;
    fn slice_mut_cols(s: Self::SliceMutRefTuple<'_>) -> Vec<Col>;
}

fn col<K: Kind>(s: &[K]) -> Col {
    Col { kind: K::IDX as u8, ptr: s.as_ptr() as *mut u8, len: s.len() }
}
fn col_mut<K: Kind>(s: &mut [K]) -> Col {
    Col { kind: K::IDX as u8, ptr: s.as_mut_ptr() as *mut u8, len: s.len() }
}
fn col1<K: Kind>(s: &K) -> Col {
    Col { kind: K::IDX as u8, ptr: s as *const K as *mut u8, len: 1 }
}
fn col1_mut<K: Kind>(s: &mut K) -> Col {
    Col { kind: K::IDX as u8, ptr: s as *mut K as *mut u8, len: 1 }
}

impl<K: Kind> ZooGroup for K {
    const KINDS: &'static [u8] = &[K::IDX as u8];
    fn from_tokens(t: &[u64]) -> Self {
        K::make(t[0])
    }
    fn into_obs(self) -> Vec<Obs> {
        vec![returned(self)]
    }
    fn ref_cols(r: &K) -> Vec<Col> {
        vec![col1(r)]
    }
    fn mut_ref_cols(r: &mut K) -> Vec<Col> {
        vec![col1_mut(r)]
    }
    fn slice_cols(s: &[K]) -> Vec<Col> {
        vec![col(s)]
    }
    fn slice_mut_cols(s: &mut [K]) -> Vec<Col> {
        vec![col_mut(s)]
    }
}

macro_rules! tuple_group {
    ($(($t:ident, $v:ident, $i:tt)),*) => {
        impl<$($t: Kind),*> ZooGroup for ($($t),*) {
            const KINDS: &'static [u8] = &[$($t::IDX as u8),*];
            fn from_tokens(t: &[u64]) -> Self {
                ($($t::make(t[$i])),*)
            }
            fn into_obs(self) -> Vec<Obs> {
                let ($($v),*) = self;
                vec![$(returned($v)),*]
            }
            fn ref_cols(r: Self::RefTuple<'_>) -> Vec<Col> {
                let ($($v),*) = r;
                vec![$(col1($v)),*]
            }
            fn mut_ref_cols(r: Self::MutRefTuple<'_>) -> Vec<Col> {
                let ($($v),*) = r;
                vec![$(col1_mut($v)),*]
            }
            fn slice_cols(s: Self::SliceRefTuple<'_>) -> Vec<Col> {
                let ($($v),*) = s;
                vec![$(col($v)),*]
            }
            fn slice_mut_cols(s: Self::SliceMutRefTuple<'_>) -> Vec<Col> {
                let ($($v),*) = s;
                vec![$(col_mut($v)),*]
            }
        }
    };
}

tuple_group!((A, a, 0), (B, b, 1));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3), (E, e, 4));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3), (E, e, 4), (F, f, 5));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3), (E, e, 4), (F, f, 5), (G, g, 6));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3), (E, e, 4), (F, f, 5), (G, g, 6), (H, h, 7));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3), (E, e, 4), (F, f, 5), (G, g, 6), (H, h, 7), (I, i, 8));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3), (E, e, 4), (F, f, 5), (G, g, 6), (H, h, 7), (I, i, 8), (J, j, 9));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3), (E, e, 4), (F, f, 5), (G, g, 6), (H, h, 7), (I, i, 8), (J, j, 9), (K, k, 10));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3), (E, e, 4), (F, f, 5), (G, g, 6), (H, h, 7), (I, i, 8), (J, j, 9), (K, k, 10), (L, l, 11));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3), (E, e, 4), (F, f, 5), (G, g, 6), (H, h, 7), (I, i, 8), (J, j, 9), (K, k, 10), (L, l, 11), (M, m, 12));
tuple_group!((A, a, 0), (B, b, 1), (C, c, 2), (D, d, 3), (E, e, 4), (F, f, 5), (G, g, 6), (H, h, 7), (I, i, 8), (J, j, 9), (K, k, 10), (L, l, 11), (M, m, 12), (N, n, 13));
