//! Small types to build bigger ones from; the L and R ones differ only in their names.

use instant_xml::{FromXml, ToXml};
use model_derive::Model;

macro_rules! leaves {
    ($s:ident, $t:ident, $u:ident, $e:ident, $f:ident, $tr:ident, $w:ident) => {
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        pub struct $s {
            #[xml(attribute)]
            pub at: Option<u8>,
            pub x: String,
        }

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(ns("urn:n", n = "urn:n"))]
        pub struct $t {
            pub y: Vec<u8>,
        }

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(ns("urn:o"))]
        pub struct $u;

        #[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(scalar, rename_all = "kebab-case")]
        pub enum $e {
            One,
            OneTwo,
            #[xml(rename = "ONE")]
            Loud,
        }

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(forward)]
        pub enum $f {
            S($s),
            T($t),
            U($u),
        }

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(transparent)]
        pub struct $tr {
            pub s: $s,
            pub u: Option<$u>,
            pub $w: Option<u16>,
        }
    };
}

leaves!(SL, TL, UL, EL, FL, XL, lw);
leaves!(SR, TR, UR, ER, FR, XR, rw);
