use crate::sx;
use backpak::hashing::ObjectId;
use std::str::FromStr;
pub fn k_smoke() {
    let mut b = [0u8; 4];
    sx::bytes("b", &mut b);
    let i = ObjectId::hash(&b);
    sx::assert(ObjectId::from_str(&i.to_string()).is_ok_and(|j| j == i), "an ID does not read back");
    sx::reached("end");
}
