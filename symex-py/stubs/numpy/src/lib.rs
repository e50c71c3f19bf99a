//! as much of rust-numpy as the bindings need: arrays that live forever
use ndarray::{Array, ArrayBase, ArrayView, Data, Dimension, Ix1, Ix2};
use pyo3::{Args, FromArg, IntoOut, Out, Python};

pub struct PyArray<T, D: Dimension>(Array<T, D>);
pub type PyArray1<T> = PyArray<T, Ix1>;
pub type PyArray2<T> = PyArray<T, Ix2>;
pub struct PyReadonlyArray<'py, T, D: Dimension>(&'py PyArray<T, D>);
pub type PyReadonlyArray1<'py, T> = PyReadonlyArray<'py, T, Ix1>;
pub type PyReadonlyArray2<'py, T> = PyReadonlyArray<'py, T, Ix2>;

impl<T: Clone, D: Dimension> PyArray<T, D> {
    pub fn leak(a: Array<T, D>) -> &'static PyArray<T, D>
    where
        T: 'static,
        D: 'static,
    {
        Box::leak(Box::new(PyArray(a)))
    }
    /// # Safety
    /// as in rust-numpy; here always fine
    pub unsafe fn as_array(&self) -> ArrayView<'_, T, D> {
        self.0.view()
    }
    pub fn readonly(&self) -> PyReadonlyArray<'_, T, D> {
        PyReadonlyArray(self)
    }
    pub fn to_owned_array(&self) -> Array<T, D> {
        self.0.clone()
    }
    pub fn shape(&self) -> &[usize] {
        self.0.shape()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn dims(&self) -> D {
        self.0.raw_dim()
    }
    pub fn ndim(&self) -> usize {
        self.0.ndim()
    }
    pub fn strides(&self) -> &[isize] {
        self.0.strides()
    }
    pub fn is_contiguous(&self) -> bool {
        self.0.is_standard_layout()
    }
    pub fn to_vec(&self) -> Result<Vec<T>, pyo3::PyErr> {
        Ok(self.0.iter().cloned().collect())
    }
    pub fn from_array<'py, S: Data<Elem = T>>(_py: Python<'py>, a: &ArrayBase<S, D>) -> &'py Self
    where
        T: 'static,
        D: 'static,
    {
        Self::leak(a.to_owned())
    }
    pub fn from_owned_array<'py>(_py: Python<'py>, a: Array<T, D>) -> &'py Self
    where
        T: 'static,
        D: 'static,
    {
        Self::leak(a)
    }
}
impl<T: Clone + 'static> PyArray<T, Ix1> {
    pub fn from_vec<'py>(_py: Python<'py>, v: Vec<T>) -> &'py Self {
        Self::leak(Array::from_vec(v))
    }
    pub fn from_slice<'py>(_py: Python<'py>, v: &[T]) -> &'py Self {
        Self::leak(Array::from_vec(v.to_vec()))
    }
    pub fn from_iter<'py, I: IntoIterator<Item = T>>(_py: Python<'py>, v: I) -> &'py Self {
        Self::leak(v.into_iter().collect())
    }
}
impl<'py, T: Clone, D: Dimension> PyReadonlyArray<'py, T, D> {
    pub fn len(&self) -> usize {
        self.0 .0.len()
    }
    pub fn as_slice(&self) -> Result<&[T], pyo3::PyErr> {
        self.0 .0.as_slice().ok_or(pyo3::PyErr("not contiguous".into()))
    }
    pub fn as_array(&self) -> ArrayView<'_, T, D> {
        self.0 .0.view()
    }
    pub fn shape(&self) -> &[usize] {
        self.0 .0.shape()
    }
}
pub trait ToPyArray {
    type T;
    type D: Dimension;
    fn to_pyarray<'py>(&self, py: Python<'py>) -> &'py PyArray<Self::T, Self::D>;
}
impl<S: Data, D: Dimension + 'static> ToPyArray for ArrayBase<S, D>
where
    S::Elem: Clone + 'static,
{
    type T = S::Elem;
    type D = D;
    fn to_pyarray<'py>(&self, py: Python<'py>) -> &'py PyArray<S::Elem, D> {
        PyArray::from_array(py, self)
    }
}
pub trait IntoPyArray {
    type T;
    type D: Dimension;
    fn into_pyarray<'py>(self, py: Python<'py>) -> &'py PyArray<Self::T, Self::D>;
}
impl<T: Clone + 'static, D: Dimension + 'static> IntoPyArray for Array<T, D> {
    type T = T;
    type D = D;
    fn into_pyarray<'py>(self, _py: Python<'py>) -> &'py PyArray<T, D> {
        PyArray::leak(self)
    }
}
impl<'py, T: 'static, D: Dimension + 'static> FromArg for &'py PyArray<T, D> {
    fn take(a: &mut Args, name: &str) -> Self {
        a.get::<&'static PyArray<T, D>>(name)
    }
}
impl<'py, T: 'static, D: Dimension + 'static> FromArg for PyReadonlyArray<'py, T, D> {
    fn take(a: &mut Args, name: &str) -> Self {
        PyReadonlyArray(a.get::<&'static PyArray<T, D>>(name))
    }
}
impl<'py, T: Clone + 'static, D: Dimension> IntoOut for &'py PyArray<T, D> {
    fn out(self) -> Out {
        Out { shape: self.0.shape().to_vec(), data: Box::new(self.0.iter().cloned().collect::<Vec<T>>()) }
    }
}
