//! A stand-in for the `inkwell` crate, which is not available offline: the part of its interface
//! that yul2wasm uses, as a thin layer over LLVM's C interface. Nothing here knows about Yul.
#![allow(dead_code, clippy::all)]
mod ffi;
use ffi::Ref;
use std::ffi::{CStr, CString};
use std::marker::PhantomData;

fn c(s: &str) -> CString {
    CString::new(s.replace('\0', "_")).unwrap()
}
fn owned(p: *mut std::ffi::c_char) -> String {
    unsafe {
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        ffi::LLVMDisposeMessage(p);
        s
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct AddressSpace(u16);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OptimizationLevel { None = 0, Less = 1, Default = 2, Aggressive = 3 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IntPredicate { EQ = 32, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE }

macro_rules! handle {
    ($($n:ident)*) => { $(
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub struct $n<'ctx>(pub(crate) Ref, pub(crate) PhantomData<&'ctx ()>);
        impl<'ctx> $n<'ctx> {
            pub(crate) fn new(r: Ref) -> Self { assert!(!r.is_null()); $n(r, PhantomData) }
        }
    )* };
}

pub mod basic_block {
    use super::*;
    handle!(BasicBlock);
    impl<'ctx> BasicBlock<'ctx> {
        pub fn get_terminator(self) -> Option<values::InstructionValue<'ctx>> {
            let t = unsafe { ffi::LLVMGetBasicBlockTerminator(self.0) };
            if t.is_null() { None } else { Some(values::InstructionValue::new(t)) }
        }
        pub fn get_parent(self) -> Option<values::FunctionValue<'ctx>> {
            let t = unsafe { ffi::LLVMGetBasicBlockParent(self.0) };
            if t.is_null() { None } else { Some(values::FunctionValue::new(t)) }
        }
        pub fn get_first_instruction(self) -> Option<values::InstructionValue<'ctx>> {
            let t = unsafe { ffi::LLVMGetFirstInstruction(self.0) };
            if t.is_null() { None } else { Some(values::InstructionValue::new(t)) }
        }
        pub fn get_last_instruction(self) -> Option<values::InstructionValue<'ctx>> {
            let t = unsafe { ffi::LLVMGetLastInstruction(self.0) };
            if t.is_null() { None } else { Some(values::InstructionValue::new(t)) }
        }
        pub fn get_next_basic_block(self) -> Option<BasicBlock<'ctx>> {
            let t = unsafe { ffi::LLVMGetNextBasicBlock(self.0) };
            if t.is_null() { None } else { Some(BasicBlock::new(t)) }
        }
        pub fn get_previous_basic_block(self) -> Option<BasicBlock<'ctx>> {
            let t = unsafe { ffi::LLVMGetPreviousBasicBlock(self.0) };
            if t.is_null() { None } else { Some(BasicBlock::new(t)) }
        }
    }
}

pub mod memory_buffer {
    use super::*;
    pub struct MemoryBuffer(pub(crate) Ref);
    impl MemoryBuffer {
        pub fn create_from_memory_range(b: &[u8], name: &str) -> Self {
            MemoryBuffer(unsafe {
                ffi::LLVMCreateMemoryBufferWithMemoryRangeCopy(b.as_ptr() as *const _, b.len(), c(name).as_ptr())
            })
        }
        pub fn create_from_memory_range_copy(b: &[u8], name: &str) -> Self {
            Self::create_from_memory_range(b, name)
        }
        pub fn as_slice(&self) -> &[u8] {
            unsafe {
                std::slice::from_raw_parts(ffi::LLVMGetBufferStart(self.0) as *const u8, ffi::LLVMGetBufferSize(self.0))
            }
        }
    }
}

pub mod context {
    use super::*;
    #[derive(Debug)]
    pub struct Context(pub(crate) Ref);
    impl Context {
        pub fn create() -> Self { Context(unsafe { ffi::LLVMContextCreate() }) }
        pub fn create_module<'ctx>(&'ctx self, name: &str) -> module::Module<'ctx> {
            module::Module(unsafe { ffi::LLVMModuleCreateWithNameInContext(c(name).as_ptr(), self.0) }, PhantomData)
        }
        pub fn create_builder<'ctx>(&'ctx self) -> builder::Builder<'ctx> {
            builder::Builder(unsafe { ffi::LLVMCreateBuilderInContext(self.0) }, PhantomData)
        }
        pub fn void_type(&self) -> types::VoidType<'_> {
            types::VoidType::new(unsafe { ffi::LLVMVoidTypeInContext(self.0) })
        }
        pub fn custom_width_int_type(&self, w: u32) -> types::IntType<'_> {
            types::IntType::new(unsafe { ffi::LLVMIntTypeInContext(self.0, w) })
        }
        pub fn bool_type(&self) -> types::IntType<'_> { self.custom_width_int_type(1) }
        pub fn i8_type(&self) -> types::IntType<'_> { self.custom_width_int_type(8) }
        pub fn i16_type(&self) -> types::IntType<'_> { self.custom_width_int_type(16) }
        pub fn i32_type(&self) -> types::IntType<'_> { self.custom_width_int_type(32) }
        pub fn i64_type(&self) -> types::IntType<'_> { self.custom_width_int_type(64) }
        pub fn i128_type(&self) -> types::IntType<'_> { self.custom_width_int_type(128) }
        pub fn ptr_type(&self, a: AddressSpace) -> types::PointerType<'_> {
            types::PointerType::new(unsafe { ffi::LLVMPointerTypeInContext(self.0, a.0 as u32) })
        }
        pub fn struct_type<'ctx>(&'ctx self, f: &[types::BasicTypeEnum<'ctx>], packed: bool) -> types::StructType<'ctx> {
            let f: Vec<Ref> = f.iter().map(|t| crate::types::BasicType::raw(t)).collect();
            types::StructType::new(unsafe {
                ffi::LLVMStructTypeInContext(self.0, f.as_ptr(), f.len() as u32, packed as i32)
            })
        }
        pub fn append_basic_block<'ctx>(&'ctx self, f: values::FunctionValue<'ctx>, name: &str) -> basic_block::BasicBlock<'ctx> {
            basic_block::BasicBlock::new(unsafe { ffi::LLVMAppendBasicBlockInContext(self.0, f.0, c(name).as_ptr()) })
        }
        pub fn const_string<'ctx>(&'ctx self, s: &[u8], null_terminated: bool) -> values::ArrayValue<'ctx> {
            values::ArrayValue::new(unsafe {
                ffi::LLVMConstStringInContext(self.0, s.as_ptr() as *const _, s.len() as u32, !null_terminated as i32)
            })
        }
    }
}

pub mod support {
    /// A message of LLVM.
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct LLVMString(pub(crate) String);
    impl std::fmt::Display for LLVMString {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
    }
    impl std::error::Error for LLVMString {}
}

pub mod module {
    use super::support::LLVMString;
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Linkage { External = 0, AvailableExternally, LinkOnceAny, LinkOnceODR, LinkOnceODRAuto, WeakAny, WeakODR, Appending, Internal, Private }
    #[derive(Debug)]
    pub struct Module<'ctx>(pub(crate) Ref, pub(crate) PhantomData<&'ctx ()>);
    impl<'ctx> Module<'ctx> {
        pub fn parse_bitcode_from_buffer(b: &memory_buffer::MemoryBuffer, ctx: &'ctx context::Context) -> Result<Self, LLVMString> {
            let mut m = std::ptr::null_mut();
            if unsafe { ffi::LLVMParseBitcodeInContext2(ctx.0, b.0, &mut m) } != 0 {
                return Err(LLVMString("invalid bitcode".into()));
            }
            Ok(Module(m, PhantomData))
        }
        pub fn link_in_module(&self, other: Self) -> Result<(), LLVMString> {
            if unsafe { ffi::LLVMLinkModules2(self.0, other.0) } != 0 {
                return Err(LLVMString("link error".into()));
            }
            Ok(())
        }
        pub fn add_function(&self, name: &str, ty: types::FunctionType<'ctx>, linkage: Option<Linkage>) -> values::FunctionValue<'ctx> {
            let f = unsafe { ffi::LLVMAddFunction(self.0, c(name).as_ptr(), ty.0) };
            if let Some(l) = linkage { unsafe { ffi::LLVMSetLinkage(f, l as i32) } }
            values::FunctionValue::new(f)
        }
        pub fn get_function(&self, name: &str) -> Option<values::FunctionValue<'ctx>> {
            let f = unsafe { ffi::LLVMGetNamedFunction(self.0, c(name).as_ptr()) };
            if f.is_null() { None } else { Some(values::FunctionValue::new(f)) }
        }
        pub fn add_global<T: types::BasicType<'ctx>>(&self, ty: T, _a: Option<AddressSpace>, name: &str) -> values::GlobalValue<'ctx> {
            values::GlobalValue::new(unsafe { ffi::LLVMAddGlobal(self.0, ty.raw(), c(name).as_ptr()) })
        }
        pub fn get_global(&self, name: &str) -> Option<values::GlobalValue<'ctx>> {
            let g = unsafe { ffi::LLVMGetNamedGlobal(self.0, c(name).as_ptr()) };
            if g.is_null() { None } else { Some(values::GlobalValue::new(g)) }
        }
        pub fn print_to_string(&self) -> LLVMString { LLVMString(owned(unsafe { ffi::LLVMPrintModuleToString(self.0) })) }
        pub fn print_to_file<P: AsRef<std::path::Path>>(&self, p: P) -> Result<(), LLVMString> {
            std::fs::write(p, self.print_to_string().0).map_err(|e| LLVMString(e.to_string()))
        }
        pub fn verify(&self) -> Result<(), LLVMString> {
            let mut msg = std::ptr::null_mut();
            let bad = unsafe { ffi::LLVMVerifyModule(self.0, 2, &mut msg) } != 0;
            let text = if msg.is_null() { String::new() } else { owned(msg) };
            if bad { Err(LLVMString(text)) } else { Ok(()) }
        }
    }
}

pub mod types {
    use super::*;
    handle!(IntType PointerType ArrayType StructType VoidType FunctionType FloatType);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum StringRadix { Binary = 2, Octal = 8, Decimal = 10, Hexadecimal = 16, Alphanumeric = 36 }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum BasicTypeEnum<'ctx> {
        ArrayType(ArrayType<'ctx>), IntType(IntType<'ctx>), PointerType(PointerType<'ctx>), StructType(StructType<'ctx>),
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum BasicMetadataTypeEnum<'ctx> {
        ArrayType(ArrayType<'ctx>), IntType(IntType<'ctx>), PointerType(PointerType<'ctx>), StructType(StructType<'ctx>),
    }
    pub(crate) fn basic<'ctx>(t: Ref) -> BasicTypeEnum<'ctx> {
        match unsafe { ffi::LLVMGetTypeKind(t) } {
            8 => BasicTypeEnum::IntType(IntType::new(t)),
            10 => BasicTypeEnum::StructType(StructType::new(t)),
            11 => BasicTypeEnum::ArrayType(ArrayType::new(t)),
            12 => BasicTypeEnum::PointerType(PointerType::new(t)),
            k => panic!("type kind {k}"),
        }
    }
    fn fn_type_of<'ctx>(ret: Ref, p: &[BasicMetadataTypeEnum<'ctx>], va: bool) -> FunctionType<'ctx> {
        let p: Vec<Ref> = p.iter().map(|t| t.raw()).collect();
        FunctionType::new(unsafe { ffi::LLVMFunctionType(ret, p.as_ptr(), p.len() as u32, va as i32) })
    }
    pub trait BasicType<'ctx> {
        fn raw(&self) -> Ref;
        fn as_basic_type_enum(&self) -> BasicTypeEnum<'ctx> { basic(self.raw()) }
        fn fn_type(&self, p: &[BasicMetadataTypeEnum<'ctx>], va: bool) -> FunctionType<'ctx> { fn_type_of(self.raw(), p, va) }
        fn array_type(&self, n: u32) -> ArrayType<'ctx> { ArrayType::new(unsafe { ffi::LLVMArrayType(self.raw(), n) }) }
    }
    macro_rules! basic_type { ($($n:ident $is:ident $into:ident)*) => {
        $(
        impl<'ctx> BasicType<'ctx> for $n<'ctx> { fn raw(&self) -> Ref { self.0 } }
        impl<'ctx> From<$n<'ctx>> for BasicTypeEnum<'ctx> { fn from(t: $n<'ctx>) -> Self { BasicTypeEnum::$n(t) } }
        impl<'ctx> From<$n<'ctx>> for BasicMetadataTypeEnum<'ctx> { fn from(t: $n<'ctx>) -> Self { BasicMetadataTypeEnum::$n(t) } }
        impl<'ctx> std::fmt::Display for $n<'ctx> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&owned(unsafe { ffi::LLVMPrintTypeToString(self.0) })) }
        }
        )*
        impl<'ctx> BasicTypeEnum<'ctx> { $(
            pub fn $is(self) -> bool { matches!(self, BasicTypeEnum::$n(_)) }
            pub fn $into(self) -> $n<'ctx> { match self { BasicTypeEnum::$n(t) => t, t => panic!("Found {t:?} but expected {}", stringify!($n)) } }
        )* }
        impl<'ctx> BasicType<'ctx> for BasicTypeEnum<'ctx> { fn raw(&self) -> Ref { match self { $(BasicTypeEnum::$n(t) => t.0),* } } }
        impl<'ctx> BasicMetadataTypeEnum<'ctx> { pub(crate) fn raw(&self) -> Ref { match self { $(BasicMetadataTypeEnum::$n(t) => t.0),* } } }
        impl<'ctx> From<BasicTypeEnum<'ctx>> for BasicMetadataTypeEnum<'ctx> {
            fn from(t: BasicTypeEnum<'ctx>) -> Self { match t { $(BasicTypeEnum::$n(t) => BasicMetadataTypeEnum::$n(t)),* } }
        }
        impl<'ctx> std::fmt::Display for BasicTypeEnum<'ctx> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { $(BasicTypeEnum::$n(t) => t.fmt(f)),* } }
        }
    } }
    basic_type!(ArrayType is_array_type into_array_type  IntType is_int_type into_int_type
                PointerType is_pointer_type into_pointer_type  StructType is_struct_type into_struct_type);
    impl<'ctx> BasicTypeEnum<'ctx> {
        pub fn const_zero(self) -> values::BasicValueEnum<'ctx> { values::basic(unsafe { ffi::LLVMConstNull(self.raw()) }) }
    }
    impl<'ctx> VoidType<'ctx> {
        pub fn fn_type(self, p: &[BasicMetadataTypeEnum<'ctx>], va: bool) -> FunctionType<'ctx> { fn_type_of(self.0, p, va) }
    }
    impl<'ctx> FunctionType<'ctx> {
        pub fn get_return_type(self) -> Option<BasicTypeEnum<'ctx>> {
            let r = unsafe { ffi::LLVMGetReturnType(self.0) };
            if unsafe { ffi::LLVMGetTypeKind(r) } == 0 { None } else { Some(basic(r)) }
        }
    }
    impl<'ctx> ArrayType<'ctx> {
        pub fn len(self) -> u32 { unsafe { ffi::LLVMGetArrayLength(self.0) as u32 } }
        pub fn get_element_type(self) -> BasicTypeEnum<'ctx> { basic(unsafe { ffi::LLVMGetElementType(self.0) }) }
        pub fn is_sized(self) -> bool { unsafe { ffi::LLVMTypeIsSized(self.0) != 0 } }
        pub fn const_zero(self) -> values::ArrayValue<'ctx> { values::ArrayValue::new(unsafe { ffi::LLVMConstNull(self.0) }) }
    }
    impl<'ctx> StructType<'ctx> {
        pub fn count_fields(self) -> u32 { unsafe { ffi::LLVMCountStructElementTypes(self.0) } }
        pub fn get_field_type_at_index(self, i: u32) -> Option<BasicTypeEnum<'ctx>> {
            if i < self.count_fields() { Some(basic(unsafe { ffi::LLVMStructGetTypeAtIndex(self.0, i) })) } else { None }
        }
    }
    impl<'ctx> PointerType<'ctx> {
        pub fn const_null(self) -> values::PointerValue<'ctx> { values::PointerValue::new(unsafe { ffi::LLVMConstNull(self.0) }) }
        pub fn const_zero(self) -> values::PointerValue<'ctx> { self.const_null() }
    }
    impl<'ctx> IntType<'ctx> {
        pub fn get_bit_width(self) -> u32 { unsafe { ffi::LLVMGetIntTypeWidth(self.0) } }
        pub fn const_zero(self) -> values::IntValue<'ctx> { values::IntValue::new(unsafe { ffi::LLVMConstNull(self.0) }) }
        pub fn const_int(self, v: u64, sext: bool) -> values::IntValue<'ctx> {
            values::IntValue::new(unsafe { ffi::LLVMConstInt(self.0, v, sext as i32) })
        }
        pub fn const_all_ones(self) -> values::IntValue<'ctx> { self.const_int(u64::MAX, true) }
        pub fn const_int_from_string(self, s: &str, radix: StringRadix) -> Option<values::IntValue<'ctx>> {
            let digits = s.strip_prefix(['-', '+']).unwrap_or(s);
            if digits.is_empty() || !digits.chars().all(|d| d.is_digit(radix as u32)) { return None; }
            Some(values::IntValue::new(unsafe {
                ffi::LLVMConstIntOfStringAndSize(self.0, s.as_ptr() as *const _, s.len() as u32, radix as u8)
            }))
        }
    }
}

pub mod values {
    use super::types::*;
    use super::*;
    handle!(IntValue PointerValue ArrayValue StructValue FunctionValue GlobalValue InstructionValue CallSiteValue);
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum BasicValueEnum<'ctx> {
        ArrayValue(ArrayValue<'ctx>), IntValue(IntValue<'ctx>), PointerValue(PointerValue<'ctx>), StructValue(StructValue<'ctx>),
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum BasicMetadataValueEnum<'ctx> {
        ArrayValue(ArrayValue<'ctx>), IntValue(IntValue<'ctx>), PointerValue(PointerValue<'ctx>), StructValue(StructValue<'ctx>),
    }
    pub(crate) fn basic<'ctx>(v: Ref) -> BasicValueEnum<'ctx> {
        match unsafe { ffi::LLVMGetTypeKind(ffi::LLVMTypeOf(v)) } {
            8 => BasicValueEnum::IntValue(IntValue::new(v)),
            10 => BasicValueEnum::StructValue(StructValue::new(v)),
            11 => BasicValueEnum::ArrayValue(ArrayValue::new(v)),
            12 => BasicValueEnum::PointerValue(PointerValue::new(v)),
            k => panic!("type kind {k}"),
        }
    }
    pub trait BasicValue<'ctx> {
        fn raw(&self) -> Ref;
        fn as_basic_value_enum(&self) -> BasicValueEnum<'ctx> { basic(self.raw()) }
    }
    macro_rules! basic_value { ($($n:ident $t:ident $is:ident $into:ident)*) => {
        $(
        impl<'ctx> BasicValue<'ctx> for $n<'ctx> { fn raw(&self) -> Ref { self.0 } }
        impl<'ctx> From<$n<'ctx>> for BasicValueEnum<'ctx> { fn from(t: $n<'ctx>) -> Self { BasicValueEnum::$n(t) } }
        impl<'ctx> From<$n<'ctx>> for BasicMetadataValueEnum<'ctx> { fn from(t: $n<'ctx>) -> Self { BasicMetadataValueEnum::$n(t) } }
        impl<'ctx> $n<'ctx> {
            pub fn get_type(self) -> $t<'ctx> { $t::new(unsafe { ffi::LLVMTypeOf(self.0) }) }
            pub fn is_const(self) -> bool { unsafe { ffi::LLVMIsConstant(self.0) != 0 } }
        }
        )*
        impl<'ctx> BasicValueEnum<'ctx> { $(
            pub fn $is(self) -> bool { matches!(self, BasicValueEnum::$n(_)) }
            pub fn $into(self) -> $n<'ctx> { match self { BasicValueEnum::$n(t) => t, t => panic!("Found {t:?} but expected {}", stringify!($n)) } }
        )*
            pub fn get_type(&self) -> BasicTypeEnum<'ctx> { types::basic(unsafe { ffi::LLVMTypeOf(self.raw()) }) }
        }
        impl<'ctx> BasicValue<'ctx> for BasicValueEnum<'ctx> { fn raw(&self) -> Ref { match self { $(BasicValueEnum::$n(t) => t.0),* } } }
        impl<'ctx> BasicMetadataValueEnum<'ctx> { pub(crate) fn raw(&self) -> Ref { match self { $(BasicMetadataValueEnum::$n(t) => t.0),* } } }
        impl<'ctx> From<BasicValueEnum<'ctx>> for BasicMetadataValueEnum<'ctx> {
            fn from(t: BasicValueEnum<'ctx>) -> Self { match t { $(BasicValueEnum::$n(t) => BasicMetadataValueEnum::$n(t)),* } }
        }
    } }
    basic_value!(ArrayValue ArrayType is_array_value into_array_value  IntValue IntType is_int_value into_int_value
                 PointerValue PointerType is_pointer_value into_pointer_value  StructValue StructType is_struct_value into_struct_value);
    impl<'ctx> GlobalValue<'ctx> {
        pub fn set_initializer(self, v: &dyn BasicValue<'ctx>) { unsafe { ffi::LLVMSetInitializer(self.0, v.raw()) } }
        pub fn set_linkage(self, l: module::Linkage) { unsafe { ffi::LLVMSetLinkage(self.0, l as i32) } }
        pub fn as_pointer_value(self) -> PointerValue<'ctx> { PointerValue::new(self.0) }
    }
    impl<'ctx> FunctionValue<'ctx> {
        pub fn get_type(self) -> FunctionType<'ctx> { FunctionType::new(unsafe { ffi::LLVMGlobalGetValueType(self.0) }) }
        pub fn get_nth_param(self, i: u32) -> Option<BasicValueEnum<'ctx>> {
            if i < self.count_params() { Some(basic(unsafe { ffi::LLVMGetParam(self.0, i) })) } else { None }
        }
        pub fn count_params(self) -> u32 { unsafe { ffi::LLVMCountParams(self.0) } }
        pub fn get_first_basic_block(self) -> Option<super::basic_block::BasicBlock<'ctx>> {
            let t = unsafe { ffi::LLVMGetFirstBasicBlock(self.0) };
            if t.is_null() { None } else { Some(super::basic_block::BasicBlock::new(t)) }
        }
        pub fn get_last_basic_block(self) -> Option<super::basic_block::BasicBlock<'ctx>> {
            let t = unsafe { ffi::LLVMGetLastBasicBlock(self.0) };
            if t.is_null() { None } else { Some(super::basic_block::BasicBlock::new(t)) }
        }
        pub fn count_basic_blocks(self) -> u32 { unsafe { ffi::LLVMCountBasicBlocks(self.0) } }
    }
    /// `try_as_basic_value`'s answer.
    pub struct Either<'ctx>(Option<BasicValueEnum<'ctx>>);
    impl<'ctx> Either<'ctx> {
        pub fn left(self) -> Option<BasicValueEnum<'ctx>> { self.0 }
    }
    impl<'ctx> CallSiteValue<'ctx> {
        pub fn try_as_basic_value(self) -> Either<'ctx> {
            let void = unsafe { ffi::LLVMGetTypeKind(ffi::LLVMTypeOf(self.0)) } == 0;
            Either(if void { None } else { Some(basic(self.0)) })
        }
    }
}

pub mod builder {
    use super::basic_block::BasicBlock;
    use super::types::*;
    use super::values::*;
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum BuilderError { UnsetPosition, ValueTypeMismatch(&'static str), GEPIndex }
    impl std::fmt::Display for BuilderError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") }
    }
    impl std::error::Error for BuilderError {}
    type R<T> = Result<T, BuilderError>;
    #[derive(Debug)]
    pub struct Builder<'ctx>(pub(crate) Ref, pub(crate) PhantomData<&'ctx ()>);
    macro_rules! binop { ($($n:ident $f:ident)*) => { $(
        pub fn $n(&self, l: IntValue<'ctx>, r: IntValue<'ctx>, name: &str) -> R<IntValue<'ctx>> {
            self.positioned()?;
            self.same(l, r)?;
            Ok(IntValue::new(unsafe { ffi::$f(self.0, l.0, r.0, c(name).as_ptr()) }))
        }
    )* } }
    macro_rules! castop { ($($n:ident $f:ident)*) => { $(
        pub fn $n(&self, v: IntValue<'ctx>, t: IntType<'ctx>, name: &str) -> R<IntValue<'ctx>> {
            self.positioned()?;
            Ok(IntValue::new(unsafe { ffi::$f(self.0, v.0, t.0, c(name).as_ptr()) }))
        }
    )* } }
    impl<'ctx> Builder<'ctx> {
        fn positioned(&self) -> R<()> {
            if unsafe { ffi::LLVMGetInsertBlock(self.0) }.is_null() { Err(BuilderError::UnsetPosition) } else { Ok(()) }
        }
        fn same(&self, l: IntValue<'ctx>, r: IntValue<'ctx>) -> R<()> {
            if l.get_type() != r.get_type() { panic!("operands of different types: {} and {}", l.get_type(), r.get_type()) }
            Ok(())
        }
        pub fn position_before(&self, i: &InstructionValue<'ctx>) { unsafe { ffi::LLVMPositionBuilderBefore(self.0, i.0) } }
        pub fn position_at(&self, bb: BasicBlock<'ctx>, i: &InstructionValue<'ctx>) { unsafe { ffi::LLVMPositionBuilder(self.0, bb.0, i.0) } }
        pub fn clear_insertion_position(&self) { unsafe { ffi::LLVMClearInsertionPosition(self.0) } }
        pub fn position_at_end(&self, bb: BasicBlock<'ctx>) { unsafe { ffi::LLVMPositionBuilderAtEnd(self.0, bb.0) } }
        pub fn get_insert_block(&self) -> Option<BasicBlock<'ctx>> {
            let b = unsafe { ffi::LLVMGetInsertBlock(self.0) };
            if b.is_null() { None } else { Some(BasicBlock::new(b)) }
        }
        binop!(build_int_add LLVMBuildAdd build_int_sub LLVMBuildSub build_int_mul LLVMBuildMul
               build_int_unsigned_div LLVMBuildUDiv build_int_signed_div LLVMBuildSDiv
               build_int_unsigned_rem LLVMBuildURem build_int_signed_rem LLVMBuildSRem
               build_and LLVMBuildAnd build_or LLVMBuildOr build_xor LLVMBuildXor build_left_shift LLVMBuildShl);
        castop!(build_int_z_extend LLVMBuildZExt build_int_s_extend LLVMBuildSExt build_int_truncate LLVMBuildTrunc);
        pub fn build_right_shift(&self, l: IntValue<'ctx>, r: IntValue<'ctx>, sign: bool, name: &str) -> R<IntValue<'ctx>> {
            self.positioned()?;
            self.same(l, r)?;
            Ok(IntValue::new(unsafe {
                if sign { ffi::LLVMBuildAShr(self.0, l.0, r.0, c(name).as_ptr()) } else { ffi::LLVMBuildLShr(self.0, l.0, r.0, c(name).as_ptr()) }
            }))
        }
        pub fn build_not(&self, v: IntValue<'ctx>, name: &str) -> R<IntValue<'ctx>> {
            self.positioned()?;
            Ok(IntValue::new(unsafe { ffi::LLVMBuildNot(self.0, v.0, c(name).as_ptr()) }))
        }
        pub fn build_int_neg(&self, v: IntValue<'ctx>, name: &str) -> R<IntValue<'ctx>> {
            self.positioned()?;
            Ok(IntValue::new(unsafe { ffi::LLVMBuildNeg(self.0, v.0, c(name).as_ptr()) }))
        }
        pub fn build_int_cast(&self, v: IntValue<'ctx>, t: IntType<'ctx>, name: &str) -> R<IntValue<'ctx>> {
            self.positioned()?;
            Ok(IntValue::new(unsafe { ffi::LLVMBuildIntCast2(self.0, v.0, t.0, 1, c(name).as_ptr()) }))
        }
        pub fn build_int_compare(&self, p: IntPredicate, l: IntValue<'ctx>, r: IntValue<'ctx>, name: &str) -> R<IntValue<'ctx>> {
            self.positioned()?;
            self.same(l, r)?;
            Ok(IntValue::new(unsafe { ffi::LLVMBuildICmp(self.0, p as i32, l.0, r.0, c(name).as_ptr()) }))
        }
        pub fn build_select<T: BasicValue<'ctx>>(&self, cond: IntValue<'ctx>, t: T, e: T, name: &str) -> R<BasicValueEnum<'ctx>> {
            self.positioned()?;
            Ok(values::basic(unsafe { ffi::LLVMBuildSelect(self.0, cond.0, t.raw(), e.raw(), c(name).as_ptr()) }))
        }
        pub fn build_ptr_to_int(&self, v: PointerValue<'ctx>, t: IntType<'ctx>, name: &str) -> R<IntValue<'ctx>> {
            self.positioned()?;
            Ok(IntValue::new(unsafe { ffi::LLVMBuildPtrToInt(self.0, v.0, t.0, c(name).as_ptr()) }))
        }
        pub fn build_int_to_ptr(&self, v: IntValue<'ctx>, t: PointerType<'ctx>, name: &str) -> R<PointerValue<'ctx>> {
            self.positioned()?;
            Ok(PointerValue::new(unsafe { ffi::LLVMBuildIntToPtr(self.0, v.0, t.0, c(name).as_ptr()) }))
        }
        pub fn build_alloca<T: BasicType<'ctx>>(&self, t: T, name: &str) -> R<PointerValue<'ctx>> {
            self.positioned()?;
            Ok(PointerValue::new(unsafe { ffi::LLVMBuildAlloca(self.0, t.raw(), c(name).as_ptr()) }))
        }
        pub fn build_load<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, name: &str) -> R<BasicValueEnum<'ctx>> {
            self.positioned()?;
            Ok(values::basic(unsafe { ffi::LLVMBuildLoad2(self.0, t.raw(), p.0, c(name).as_ptr()) }))
        }
        pub fn build_store<V: BasicValue<'ctx>>(&self, p: PointerValue<'ctx>, v: V) -> R<InstructionValue<'ctx>> {
            self.positioned()?;
            Ok(InstructionValue::new(unsafe { ffi::LLVMBuildStore(self.0, v.raw(), p.0) }))
        }
        pub fn build_struct_gep<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, i: u32, name: &str) -> R<PointerValue<'ctx>> {
            self.positioned()?;
            let n = t.as_basic_type_enum();
            if !n.is_struct_type() || i >= n.into_struct_type().count_fields() { return Err(BuilderError::GEPIndex); }
            Ok(PointerValue::new(unsafe { ffi::LLVMBuildStructGEP2(self.0, t.raw(), p.0, i, c(name).as_ptr()) }))
        }
        pub fn build_call(&self, f: FunctionValue<'ctx>, args: &[BasicMetadataValueEnum<'ctx>], name: &str) -> R<CallSiteValue<'ctx>> {
            self.positioned()?;
            let a: Vec<Ref> = args.iter().map(|v| v.raw()).collect();
            let void = f.get_type().get_return_type().is_none();
            Ok(CallSiteValue::new(unsafe {
                ffi::LLVMBuildCall2(self.0, f.get_type().0, f.0, a.as_ptr(), a.len() as u32, c(if void { "" } else { name }).as_ptr())
            }))
        }
        pub fn build_return(&self, v: Option<&dyn BasicValue<'ctx>>) -> R<InstructionValue<'ctx>> {
            self.positioned()?;
            Ok(InstructionValue::new(unsafe {
                match v { Some(v) => ffi::LLVMBuildRet(self.0, v.raw()), None => ffi::LLVMBuildRetVoid(self.0) }
            }))
        }
        pub fn build_unconditional_branch(&self, bb: BasicBlock<'ctx>) -> R<InstructionValue<'ctx>> {
            self.positioned()?;
            Ok(InstructionValue::new(unsafe { ffi::LLVMBuildBr(self.0, bb.0) }))
        }
        pub fn build_conditional_branch(&self, cond: IntValue<'ctx>, t: BasicBlock<'ctx>, e: BasicBlock<'ctx>) -> R<InstructionValue<'ctx>> {
            self.positioned()?;
            Ok(InstructionValue::new(unsafe { ffi::LLVMBuildCondBr(self.0, cond.0, t.0, e.0) }))
        }
        pub fn build_switch(&self, v: IntValue<'ctx>, e: BasicBlock<'ctx>, cases: &[(IntValue<'ctx>, BasicBlock<'ctx>)]) -> R<InstructionValue<'ctx>> {
            self.positioned()?;
            unsafe {
                let s = ffi::LLVMBuildSwitch(self.0, v.0, e.0, cases.len() as u32);
                for (k, bb) in cases { ffi::LLVMAddCase(s, k.0, bb.0); }
                Ok(InstructionValue::new(s))
            }
        }
        pub fn build_unreachable(&self) -> R<InstructionValue<'ctx>> {
            self.positioned()?;
            Ok(InstructionValue::new(unsafe { ffi::LLVMBuildUnreachable(self.0) }))
        }
    }
}

pub mod passes {
    use super::*;
    pub struct PassManagerBuilder(Ref);
    impl PassManagerBuilder {
        pub fn create() -> Self { PassManagerBuilder(unsafe { ffi::LLVMPassManagerBuilderCreate() }) }
        pub fn set_optimization_level(&self, l: OptimizationLevel) { unsafe { ffi::LLVMPassManagerBuilderSetOptLevel(self.0, l as u32) } }
        pub fn set_size_level(&self, l: u32) { unsafe { ffi::LLVMPassManagerBuilderSetSizeLevel(self.0, l) } }
        pub fn set_inliner_with_threshold(&self, t: u32) { unsafe { ffi::LLVMPassManagerBuilderUseInlinerWithThreshold(self.0, t) } }
        pub fn set_disable_unit_at_a_time(&self, d: bool) { unsafe { ffi::LLVMPassManagerBuilderSetDisableUnitAtATime(self.0, d as i32) } }
        pub fn set_disable_unroll_loops(&self, d: bool) { unsafe { ffi::LLVMPassManagerBuilderSetDisableUnrollLoops(self.0, d as i32) } }
        pub fn set_disable_simplify_lib_calls(&self, d: bool) { unsafe { ffi::LLVMPassManagerBuilderSetDisableSimplifyLibCalls(self.0, d as i32) } }
        pub fn populate_module_pass_manager(&self, pm: &PassManager) { unsafe { ffi::LLVMPassManagerBuilderPopulateModulePassManager(self.0, pm.0) } }
    }
    impl Drop for PassManagerBuilder {
        fn drop(&mut self) { unsafe { ffi::LLVMPassManagerBuilderDispose(self.0) } }
    }
    pub struct PassManager(Ref);
    macro_rules! passes { ($($n:ident $f:ident)*) => { $( pub fn $n(&self) { unsafe { ffi::$f(self.0) } } )* } }
    impl PassManager {
        pub fn create(_: ()) -> Self { PassManager(unsafe { ffi::LLVMCreatePassManager() }) }
        passes!(
            add_always_inliner_pass LLVMAddAlwaysInlinerPass
            add_loop_unroll_and_jam_pass LLVMAddLoopUnrollAndJamPass
            add_loop_unroll_pass LLVMAddLoopUnrollPass
            add_loop_rotate_pass LLVMAddLoopRotatePass
            add_loop_vectorize_pass LLVMAddLoopVectorizePass
            add_loop_idiom_pass LLVMAddLoopIdiomPass
            add_loop_deletion_pass LLVMAddLoopDeletionPass
            add_loop_reroll_pass LLVMAddLoopRerollPass
            add_aggressive_dce_pass LLVMAddAggressiveDCEPass
            add_promote_memory_to_register_pass LLVMAddPromoteMemoryToRegisterPass
            add_merged_load_store_motion_pass LLVMAddMergedLoadStoreMotionPass
            add_demote_memory_to_register_pass LLVMAddDemoteMemoryToRegisterPass
            add_memcpy_optimize_pass LLVMAddMemCpyOptPass
            add_licm_pass LLVMAddLICMPass
            add_gvn_pass LLVMAddGVNPass
            add_new_gvn_pass LLVMAddNewGVNPass
            add_sccp_pass LLVMAddSCCPPass
            add_instruction_combining_pass LLVMAddInstructionCombiningPass
            add_instruction_simplify_pass LLVMAddInstructionSimplifyPass
            add_jump_threading_pass LLVMAddJumpThreadingPass
            add_cfg_simplification_pass LLVMAddCFGSimplificationPass
            add_tail_call_elimination_pass LLVMAddTailCallEliminationPass
            add_reassociate_pass LLVMAddReassociatePass
            add_early_cse_pass LLVMAddEarlyCSEPass
            add_early_cse_mem_ssa_pass LLVMAddEarlyCSEMemSSAPass
            add_correlated_value_propagation_pass LLVMAddCorrelatedValuePropagationPass
            add_dead_store_elimination_pass LLVMAddDeadStoreEliminationPass
            add_ind_var_simplify_pass LLVMAddIndVarSimplifyPass
            add_lower_expect_intrinsic_pass LLVMAddLowerExpectIntrinsicPass
            add_merge_functions_pass LLVMAddMergeFunctionsPass
            add_strip_dead_prototypes_pass LLVMAddStripDeadPrototypesPass
            add_scalarizer_pass LLVMAddScalarizerPass
            add_function_inlining_pass LLVMAddFunctionInliningPass
            add_global_dce_pass LLVMAddGlobalDCEPass
            add_constant_merge_pass LLVMAddConstantMergePass
            add_dead_arg_elimination_pass LLVMAddDeadArgEliminationPass
            add_function_attrs_pass LLVMAddFunctionAttrsPass
            add_global_optimizer_pass LLVMAddGlobalOptimizerPass
            add_ipsccp_pass LLVMAddIPSCCPPass
            add_verifier_pass LLVMAddVerifierPass
            add_slp_vectorize_pass LLVMAddSLPVectorizePass
            add_bit_tracking_dce_pass LLVMAddBitTrackingDCEPass
            add_scalar_repl_aggregates_pass LLVMAddScalarReplAggregatesPass
            add_lower_switch_pass LLVMAddLowerSwitchPass
            add_alignment_from_assumptions_pass LLVMAddAlignmentFromAssumptionsPass
            add_basic_alias_analysis_pass LLVMAddBasicAliasAnalysisPass
            add_type_based_alias_analysis_pass LLVMAddTypeBasedAliasAnalysisPass
            add_scoped_no_alias_aa_pass LLVMAddScopedNoAliasAAPass
            add_partially_inline_lib_calls_pass LLVMAddPartiallyInlineLibCallsPass
            add_simplify_lib_calls_pass LLVMAddSimplifyLibCallsPass
            add_strip_symbol_pass LLVMAddStripSymbolsPass
        );
        pub fn run_on(&self, m: &module::Module<'_>) -> bool { unsafe { ffi::LLVMRunPassManager(self.0, m.0) != 0 } }
    }
    impl Drop for PassManager {
        fn drop(&mut self) { unsafe { ffi::LLVMDisposePassManager(self.0) } }
    }
}

pub mod targets {
    use super::memory_buffer::MemoryBuffer;
    use super::support::LLVMString;
    use super::*;
    #[derive(Default)]
    pub struct InitializationConfig;
    #[derive(Clone, Copy)]
    pub enum CodeModel { Default = 0, JITDefault, Tiny, Small, Kernel, Medium, Large }
    #[derive(Clone, Copy)]
    pub enum RelocMode { Default = 0, Static, PIC, DynamicNoPic }
    #[derive(Clone, Copy)]
    pub enum FileType { Assembly = 0, Object = 1 }
    pub struct TargetTriple(String);
    impl TargetTriple { pub fn create(s: &str) -> Self { TargetTriple(s.into()) } }
    pub struct Target(Ref);
    pub struct TargetMachine(Ref);
    impl Target {
        pub fn initialize_webassembly(_: &InitializationConfig) {
            unsafe {
                ffi::LLVMInitializeWebAssemblyTargetInfo();
                ffi::LLVMInitializeWebAssemblyTarget();
                ffi::LLVMInitializeWebAssemblyTargetMC();
                ffi::LLVMInitializeWebAssemblyAsmPrinter();
                ffi::LLVMInitializeWebAssemblyAsmParser();
            }
        }
        pub fn from_name(n: &str) -> Option<Target> {
            let t = unsafe { ffi::LLVMGetTargetFromName(c(n).as_ptr()) };
            if t.is_null() { None } else { Some(Target(t)) }
        }
        pub fn create_target_machine(&self, t: &TargetTriple, cpu: &str, f: &str, l: OptimizationLevel, r: RelocMode, m: CodeModel) -> Option<TargetMachine> {
            let t = unsafe {
                ffi::LLVMCreateTargetMachine(self.0, c(&t.0).as_ptr(), c(cpu).as_ptr(), c(f).as_ptr(), l as i32, r as i32, m as i32)
            };
            if t.is_null() { None } else { Some(TargetMachine(t)) }
        }
    }
    impl TargetMachine {
        pub fn write_to_memory_buffer(&self, m: &module::Module<'_>, ft: FileType) -> Result<MemoryBuffer, LLVMString> {
            let (mut err, mut out) = (std::ptr::null_mut(), std::ptr::null_mut());
            if unsafe { ffi::LLVMTargetMachineEmitToMemoryBuffer(self.0, m.0, ft as i32, &mut err, &mut out) } != 0 {
                return Err(LLVMString(owned(err)));
            }
            Ok(MemoryBuffer(out))
        }
    }
}
