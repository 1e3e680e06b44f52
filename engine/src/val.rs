use crate::expr::E;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    /// concrete, at most 64 bits, zero-extended
    I(u64),
    /// concrete, 65 to 128 bits
    W(Rc<u128>),
    /// symbolic
    S(E),
    /// aggregate or vector
    A(Rc<[V]>),
}

impl V {
    pub fn w(x: u128) -> V { V::W(Rc::new(x)) }
    pub fn int(x: u128, w: u32) -> V { if w <= 64 { V::I(x as u64) } else { V::w(x) } }
    pub fn i(&self) -> u64 {
        match self { V::I(x) => *x, V::W(x) => **x as u64, _ => panic!("concrete integer expected, got {self:?}") }
    }
    pub fn u128(&self) -> u128 {
        match self { V::I(x) => *x as u128, V::W(x) => **x, _ => panic!("concrete integer expected, got {self:?}") }
    }
    pub fn is_sym(&self) -> bool { matches!(self, V::S(_)) }
}
