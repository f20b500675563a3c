//! Helpers shared by the contracts.
#![allow(clippy::needless_range_loop)]
pub use multicalc::linear_algebra::{Matrix, Vector};
pub use multicalc::scalar::Numeric;
pub use vcengine::*;

pub fn mat<T: Scal, const R: usize, const C: usize>(n: &str) -> Matrix<R, C, T> {
    Matrix::new(T::vars2::<R, C>(n))
}
pub fn vecv<T: Scal, const N: usize>(n: &str) -> Vector<N, T> {
    Vector::new(T::vars::<N>(n))
}
/// symmetric matrix of fresh variables
pub fn sym<T: Scal, const N: usize>(n: &str) -> Matrix<N, N, T> {
    let a = T::vars2::<N, N>(n);
    Matrix::from_fn(|i, j| if i <= j { a[i][j] } else { a[j][i] })
}
/// `L Lᵀ` with free lower-triangular `L` of positive diagonal: every positive definite matrix
pub fn spd<T: Scal, const N: usize>(n: &str) -> (Matrix<N, N, T>, Matrix<N, N, T>) {
    let mut l = Matrix::zeros();
    for i in 0..N {
        for j in 0..=i {
            l[(i, j)] = if i == j { T::pos(&format!("{n}L{i}{j}")) } else { T::var(&format!("{n}L{i}{j}")) };
        }
    }
    (mm(&l, &tr(&l)), l)
}
/// `L Lᵀ` with free lower-triangular `L`: positive semidefinite matrices
pub fn psd<T: Scal, const N: usize>(n: &str) -> (Matrix<N, N, T>, Matrix<N, N, T>) {
    let mut l = Matrix::zeros();
    for i in 0..N {
        for j in 0..=i {
            l[(i, j)] = T::var(&format!("{n}L{i}{j}"));
        }
    }
    (mm(&l, &tr(&l)), l)
}
// Specification-side linear algebra, written independently of the library.
pub fn mm<T: Scal, const R: usize, const K: usize, const C: usize>(a: &Matrix<R, K, T>, b: &Matrix<K, C, T>) -> Matrix<R, C, T> {
    Matrix::from_fn(|i, j| {
        let mut s = T::ZERO;
        for k in 0..K {
            s = s + a[(i, k)] * b[(k, j)];
        }
        s
    })
}
pub fn mv<T: Scal, const R: usize, const C: usize>(a: &Matrix<R, C, T>, x: &[T; C]) -> [T; R] {
    std::array::from_fn(|i| {
        let mut s = T::ZERO;
        for k in 0..C {
            s = s + a[(i, k)] * x[k];
        }
        s
    })
}
pub fn tr<T: Scal, const R: usize, const C: usize>(a: &Matrix<R, C, T>) -> Matrix<C, R, T> {
    Matrix::from_fn(|i, j| a[(j, i)])
}
pub fn madd<T: Scal, const R: usize, const C: usize>(a: &Matrix<R, C, T>, b: &Matrix<R, C, T>) -> Matrix<R, C, T> {
    Matrix::from_fn(|i, j| a[(i, j)] + b[(i, j)])
}
pub fn msub<T: Scal, const R: usize, const C: usize>(a: &Matrix<R, C, T>, b: &Matrix<R, C, T>) -> Matrix<R, C, T> {
    Matrix::from_fn(|i, j| a[(i, j)] - b[(i, j)])
}
pub fn mscale<T: Scal, const R: usize, const C: usize>(a: &Matrix<R, C, T>, k: T) -> Matrix<R, C, T> {
    Matrix::from_fn(|i, j| a[(i, j)] * k)
}
pub fn ident<T: Scal, const N: usize>() -> Matrix<N, N, T> {
    Matrix::from_fn(|i, j| if i == j { T::ONE } else { T::ZERO })
}
pub fn meq<T: Scal, const R: usize, const C: usize>(a: &Matrix<R, C, T>, b: &Matrix<R, C, T>) -> P<T> {
    let mut v = vec![];
    for i in 0..R {
        for j in 0..C {
            v.push(eq(a[(i, j)], b[(i, j)]));
        }
    }
    and(v)
}
pub fn msame<T: Scal, const R: usize, const C: usize>(a: &Matrix<R, C, T>, b: &Matrix<R, C, T>) -> P<T> {
    let mut v = vec![];
    for i in 0..R {
        for j in 0..C {
            v.push(same(a[(i, j)], b[(i, j)]));
        }
    }
    and(v)
}
pub fn veq<T: Scal, const N: usize>(a: &Vector<N, T>, b: &[T]) -> P<T> {
    eqs(a.as_slice(), b)
}
/// determinant by Leibniz expansion along the first row
pub fn det<T: Scal>(a: &[Vec<T>]) -> T {
    let n = a.len();
    if n == 0 {
        return T::ONE;
    }
    let mut s = T::ZERO;
    for j in 0..n {
        let minor: Vec<Vec<T>> = (1..n).map(|i| (0..n).filter(|k| *k != j).map(|k| a[i][k]).collect()).collect();
        let t = a[0][j] * det(&minor);
        s = if j % 2 == 0 { s + t } else { s - t };
    }
    s
}
pub fn rows<T: Scal, const R: usize, const C: usize>(a: &Matrix<R, C, T>) -> Vec<Vec<T>> {
    (0..R).map(|i| (0..C).map(|j| a[(i, j)]).collect()).collect()
}
pub fn sum<T: Scal>(v: &[T]) -> T {
    v.iter().fold(T::ZERO, |a, b| a + *b)
}
pub fn dot<T: Scal>(a: &[T], b: &[T]) -> T {
    a.iter().zip(b).fold(T::ZERO, |s, (x, y)| s + *x * *y)
}
pub fn cross<T: Scal>(a: &[T; 3], b: &[T; 3]) -> [T; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
/// equality relative to the largest entry (for f64 evaluations)
pub fn mclose<T: Scal, const R: usize, const C: usize>(name: &str, a: &Matrix<R, C, T>, b: &Matrix<R, C, T>) {
    let s = rows(b).into_iter().flatten().fold(T::ONE, |m, x| m.max(x.abs()));
    T::prove(name, meq(&mscale(a, T::ONE / s), &mscale(b, T::ONE / s)));
}
