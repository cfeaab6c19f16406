//! Scalar types with implementations written by hand, from the documented helper functions.

use std::net::IpAddr;

use instant_xml::{display_to_xml, from_xml_str, Deserializer, Error, FromXml, Id, Kind, Serializer, ToXml};
use mcore::model::{Model, Sc, Ty, Val};

macro_rules! by_hand {
    ($name:ident, $inner:ty, $sc:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name(pub $inner);

        impl<'xml> FromXml<'xml> for $name {
            fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
                Some(id) == field
            }

            fn deserialize<'cx>(
                into: &mut Self::Accumulator,
                field: &'static str,
                deserializer: &mut Deserializer<'cx, 'xml>,
            ) -> Result<(), Error> {
                let mut value = into.take().map(|v| v.0);
                let result = from_xml_str(&mut value, field, deserializer);
                *into = value.map($name);
                result
            }

            type Accumulator = Option<Self>;
            const KIND: Kind = Kind::Scalar;
        }

        impl ToXml for $name {
            fn serialize<W: std::fmt::Write + ?Sized>(
                &self,
                field: Option<Id<'_>>,
                serializer: &mut Serializer<'_, W>,
            ) -> Result<(), Error> {
                display_to_xml(&self.0, field, serializer)
            }
        }

        impl Model for $name {
            fn ty() -> &'static Ty {
                static T: Ty = Ty::Scalar($sc);
                &T
            }
            fn to_val(&self) -> Val {
                Val::S(self.0.to_string())
            }
            fn from_val(val: &Val) -> Self {
                match val {
                    Val::S(s) => $name(s.parse().unwrap()),
                    _ => panic!("bad val"),
                }
            }
        }
    };
}

by_hand!(Addr, IpAddr, Sc::Ip);
by_hand!(Letter, char, Sc::Char);
