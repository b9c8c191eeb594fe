//! Stand-in for Expander's `serdes` crate: little-endian fixed-width integers,
//! u64 length prefixes.
use ethnum::U256;
use std::io::{Read, Write};

pub use serdes_derive::ExpSerde;

#[derive(Debug)]
pub enum SerdeError {
    IOError(std::io::Error),
    DeserializeError,
}
impl std::fmt::Display for SerdeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for SerdeError {}
impl From<std::io::Error> for SerdeError {
    fn from(e: std::io::Error) -> Self {
        SerdeError::IOError(e)
    }
}
pub type SerdeResult<T> = Result<T, SerdeError>;

pub trait ExpSerde: Sized {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()>;
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self>;
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl ExpSerde for $t {
            fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
                writer.write_all(&self.to_le_bytes())?;
                Ok(())
            }
            fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                reader.read_exact(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, i32, i64, f64);

impl ExpSerde for usize {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()> {
        (*self as u64).serialize_into(writer)
    }
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self> {
        Ok(u64::deserialize_from(reader)? as usize)
    }
}
impl ExpSerde for bool {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()> {
        (*self as u8).serialize_into(writer)
    }
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self> {
        match u8::deserialize_from(reader)? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(SerdeError::DeserializeError),
        }
    }
}
impl ExpSerde for U256 {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        writer.write_all(&self.to_le_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        reader.read_exact(&mut b)?;
        Ok(U256::from_le_bytes(b))
    }
}
impl ExpSerde for String {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.as_bytes().to_vec().serialize_into(&mut writer)
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        String::from_utf8(Vec::<u8>::deserialize_from(&mut reader)?)
            .map_err(|_| SerdeError::DeserializeError)
    }
}
impl ExpSerde for () {
    fn serialize_into<W: Write>(&self, _: W) -> SerdeResult<()> {
        Ok(())
    }
    fn deserialize_from<R: Read>(_: R) -> SerdeResult<Self> {
        Ok(())
    }
}
impl<T: ExpSerde> ExpSerde for Vec<T> {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut writer)?;
        for x in self {
            x.serialize_into(&mut writer)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut reader)?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::deserialize_from(&mut reader)?);
        }
        Ok(v)
    }
}
impl<T: ExpSerde> ExpSerde for Option<T> {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        match self {
            None => false.serialize_into(&mut writer),
            Some(x) => {
                true.serialize_into(&mut writer)?;
                x.serialize_into(&mut writer)
            }
        }
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        Ok(if bool::deserialize_from(&mut reader)? {
            Some(T::deserialize_from(&mut reader)?)
        } else {
            None
        })
    }
}
impl<A: ExpSerde, B: ExpSerde> ExpSerde for (A, B) {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.0.serialize_into(&mut writer)?;
        self.1.serialize_into(&mut writer)
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        Ok((
            A::deserialize_from(&mut reader)?,
            B::deserialize_from(&mut reader)?,
        ))
    }
}
impl<K: ExpSerde + std::hash::Hash + Eq + Ord, V: ExpSerde> ExpSerde
    for std::collections::HashMap<K, V>
{
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut writer)?;
        let mut keys: Vec<&K> = self.keys().collect();
        keys.sort();
        for k in keys {
            k.serialize_into(&mut writer)?;
            self[k].serialize_into(&mut writer)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut reader)?;
        let mut m = std::collections::HashMap::new();
        for _ in 0..n {
            let k = K::deserialize_from(&mut reader)?;
            if m.keys().any(|x| *x >= k) {
                return Err(SerdeError::DeserializeError);
            }
            m.insert(k, V::deserialize_from(&mut reader)?);
        }
        Ok(m)
    }
}
impl<T: ExpSerde, const N: usize> ExpSerde for [T; N] {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        for x in self {
            x.serialize_into(&mut writer)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let mut v = Vec::new();
        for _ in 0..N {
            v.push(T::deserialize_from(&mut reader)?);
        }
        v.try_into().map_err(|_| SerdeError::DeserializeError)
    }
}
