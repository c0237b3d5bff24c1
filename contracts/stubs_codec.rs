/// `Borrow<dyn DataFrame>`: hands out the frame that is to be sent
pub trait VxBorrowFrame {
    type Fr: DataFrameTrait;
    spec fn fr(&self) -> Self::Fr;
    fn borrow(&self) -> (r: &Self::Fr) ensures *r == self.fr(), self.fr().v_wf();
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxPhantom<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body]
pub fn vx_phantom<T>() -> VxPhantom<T> { unimplemented!() }
