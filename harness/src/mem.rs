//! Metadata and data behind an external memory that counts and can fail accesses.
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use scale_info::{form::PortableForm, interner::UntrackedSymbol, PortableRegistry, Type};
use std::any::TypeId;
use std::rc::Rc;
use substrate_parser::error::{RegistryError, RegistryInternalError};
use substrate_parser::traits::*;

#[derive(Debug, Default)]
pub struct Mem {
    pub n: usize,
    pub fail_at: usize, // 1-based, 0 never
    pub always: bool,
}
#[derive(Debug, Eq, PartialEq)]
pub struct MemErr;
impl std::fmt::Display for MemErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bus error")
    }
}
impl ExternalMemory for Mem {
    type ExternalMemoryError = MemErr;
}
impl Mem {
    pub fn failing(fail_at: usize, always: bool) -> Self {
        Mem { n: 0, fail_at, always }
    }
    fn touch(&mut self) -> bool {
        self.n += 1;
        self.fail_at != 0 && (self.n == self.fail_at || (self.always && self.n > self.fail_at))
    }
}

/// Buffer in external memory: address and length only.
#[derive(Clone, Debug)]
pub struct ExtBuf {
    pub data: Rc<Vec<u8>>,
    pub len: usize,
}
impl AddressableBuffer<Mem> for ExtBuf {
    type ReadBuffer = Vec<u8>;
    fn total_len(&self) -> usize {
        self.len
    }
    fn read_slice(&self, m: &mut Mem, position: usize, slice_len: usize) -> Result<Vec<u8>, BufferError<Mem>> {
        if m.touch() {
            return Err(BufferError::External(MemErr));
        }
        if position > self.len {
            return Err(BufferError::OutOfRange { position, total_length: self.len });
        }
        match position.checked_add(slice_len) {
            Some(end) if end <= self.len => Ok(self.data[position..end].to_vec()),
            _ => Err(BufferError::DataTooShort { position, minimal_length: slice_len }),
        }
    }
    fn limit_length(&self, new_len: usize) -> Result<Self, BufferError<Mem>> {
        if new_len > self.len {
            return Err(BufferError::DataTooShort { position: 0, minimal_length: new_len });
        }
        Ok(ExtBuf { data: self.data.clone(), len: new_len })
    }
}

#[derive(Clone, Debug)]
pub struct ExtReg(pub Rc<PortableRegistry>);
impl ResolveType<Mem> for ExtReg {
    fn resolve_ty(&self, id: u32, m: &mut Mem) -> Result<Type<PortableForm>, RegistryError<Mem>> {
        if m.touch() {
            return Err(RegistryError::External(MemErr));
        }
        match self.0.resolve(id) {
            Some(t) => Ok(t.to_owned()),
            None => Err(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id })),
        }
    }
}

/// Metadata whose type registry lives in the external memory.
#[derive(Debug)]
pub struct ExtMeta<'a, M> {
    pub inner: &'a M,
    pub reg: ExtReg,
}
impl<M: AsMetadata<()>> AsMetadata<Mem> for ExtMeta<'_, M> {
    type TypeRegistry = ExtReg;
    type MetaStructureError = <M as AsMetadata<()>>::MetaStructureError;
    fn types(&self) -> ExtReg {
        self.reg.clone()
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, Self::MetaStructureError> {
        self.inner.spec_name_version()
    }
    fn call_ty(&self) -> Result<UntrackedSymbol<TypeId>, Self::MetaStructureError> {
        self.inner.call_ty()
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, Self::MetaStructureError> {
        self.inner.signed_extensions()
    }
}
impl<M: AsCompleteMetadata<()>> AsCompleteMetadata<Mem> for ExtMeta<'_, M> {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, Self::MetaStructureError> {
        self.inner.extrinsic_type_params()
    }
    fn extrinsic_version(&self) -> Result<u8, Self::MetaStructureError> {
        self.inner.extrinsic_version()
    }
}
