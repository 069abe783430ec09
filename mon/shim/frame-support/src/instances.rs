use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
macro_rules! inst {
    ($($n:ident)*) => {$(
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
        pub struct $n;
    )*};
}
inst!(Instance1 Instance2 Instance3 Instance4);
