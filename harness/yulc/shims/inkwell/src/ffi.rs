//! The part of LLVM's C interface that the compiler needs.
#![allow(non_snake_case)]
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void};
pub type Ref = *mut c_void;
extern "C" {
    pub fn LLVMGetBasicBlockParent(b: Ref) -> Ref;
    pub fn LLVMGetFirstInstruction(b: Ref) -> Ref;
    pub fn LLVMGetLastInstruction(b: Ref) -> Ref;
    pub fn LLVMGetNextBasicBlock(b: Ref) -> Ref;
    pub fn LLVMGetPreviousBasicBlock(b: Ref) -> Ref;
    pub fn LLVMGetFirstBasicBlock(b: Ref) -> Ref;
    pub fn LLVMGetLastBasicBlock(b: Ref) -> Ref;
    pub fn LLVMCountBasicBlocks(b: Ref) -> c_uint;
    pub fn LLVMPositionBuilderBefore(b: Ref, i: Ref);
    pub fn LLVMPositionBuilder(b: Ref, bb: Ref, i: Ref);
    pub fn LLVMClearInsertionPosition(b: Ref);
    pub fn LLVMPassManagerBuilderCreate() -> Ref;
    pub fn LLVMPassManagerBuilderDispose(b: Ref);
    pub fn LLVMPassManagerBuilderSetOptLevel(b: Ref, l: c_uint);
    pub fn LLVMPassManagerBuilderSetSizeLevel(b: Ref, l: c_uint);
    pub fn LLVMPassManagerBuilderUseInlinerWithThreshold(b: Ref, t: c_uint);
    pub fn LLVMPassManagerBuilderSetDisableUnitAtATime(b: Ref, d: c_int);
    pub fn LLVMPassManagerBuilderSetDisableUnrollLoops(b: Ref, d: c_int);
    pub fn LLVMPassManagerBuilderSetDisableSimplifyLibCalls(b: Ref, d: c_int);
    pub fn LLVMPassManagerBuilderPopulateModulePassManager(b: Ref, p: Ref);
    pub fn LLVMCreatePassManager() -> Ref;
    pub fn LLVMRunPassManager(p: Ref, m: Ref) -> c_int;
    pub fn LLVMDisposePassManager(p: Ref);
    pub fn LLVMAddAlwaysInlinerPass(p: Ref);
    pub fn LLVMAddLoopUnrollAndJamPass(p: Ref);
    pub fn LLVMAddLoopUnrollPass(p: Ref);
    pub fn LLVMAddLoopRotatePass(p: Ref);
    pub fn LLVMAddLoopVectorizePass(p: Ref);
    pub fn LLVMAddLoopIdiomPass(p: Ref);
    pub fn LLVMAddLoopDeletionPass(p: Ref);
    pub fn LLVMAddLoopRerollPass(p: Ref);
    pub fn LLVMAddAggressiveDCEPass(p: Ref);
    pub fn LLVMAddPromoteMemoryToRegisterPass(p: Ref);
    pub fn LLVMAddMergedLoadStoreMotionPass(p: Ref);
    pub fn LLVMAddDemoteMemoryToRegisterPass(p: Ref);
    pub fn LLVMAddMemCpyOptPass(p: Ref);
    pub fn LLVMAddLICMPass(p: Ref);
    pub fn LLVMAddGVNPass(p: Ref);
    pub fn LLVMAddNewGVNPass(p: Ref);
    pub fn LLVMAddSCCPPass(p: Ref);
    pub fn LLVMAddInstructionCombiningPass(p: Ref);
    pub fn LLVMAddInstructionSimplifyPass(p: Ref);
    pub fn LLVMAddJumpThreadingPass(p: Ref);
    pub fn LLVMAddCFGSimplificationPass(p: Ref);
    pub fn LLVMAddTailCallEliminationPass(p: Ref);
    pub fn LLVMAddReassociatePass(p: Ref);
    pub fn LLVMAddEarlyCSEPass(p: Ref);
    pub fn LLVMAddEarlyCSEMemSSAPass(p: Ref);
    pub fn LLVMAddCorrelatedValuePropagationPass(p: Ref);
    pub fn LLVMAddDeadStoreEliminationPass(p: Ref);
    pub fn LLVMAddIndVarSimplifyPass(p: Ref);
    pub fn LLVMAddLowerExpectIntrinsicPass(p: Ref);
    pub fn LLVMAddMergeFunctionsPass(p: Ref);
    pub fn LLVMAddStripDeadPrototypesPass(p: Ref);
    pub fn LLVMAddScalarizerPass(p: Ref);
    pub fn LLVMAddFunctionInliningPass(p: Ref);
    pub fn LLVMAddGlobalDCEPass(p: Ref);
    pub fn LLVMAddConstantMergePass(p: Ref);
    pub fn LLVMAddDeadArgEliminationPass(p: Ref);
    pub fn LLVMAddFunctionAttrsPass(p: Ref);
    pub fn LLVMAddGlobalOptimizerPass(p: Ref);
    pub fn LLVMAddIPSCCPPass(p: Ref);
    pub fn LLVMAddVerifierPass(p: Ref);
    pub fn LLVMAddSLPVectorizePass(p: Ref);
    pub fn LLVMAddBitTrackingDCEPass(p: Ref);
    pub fn LLVMAddScalarReplAggregatesPass(p: Ref);
    pub fn LLVMAddLowerSwitchPass(p: Ref);
    pub fn LLVMAddAlignmentFromAssumptionsPass(p: Ref);
    pub fn LLVMAddBasicAliasAnalysisPass(p: Ref);
    pub fn LLVMAddTypeBasedAliasAnalysisPass(p: Ref);
    pub fn LLVMAddScopedNoAliasAAPass(p: Ref);
    pub fn LLVMAddPartiallyInlineLibCallsPass(p: Ref);
    pub fn LLVMAddSimplifyLibCallsPass(p: Ref);
    pub fn LLVMAddStripSymbolsPass(p: Ref);
    pub fn LLVMContextCreate() -> Ref;
    pub fn LLVMModuleCreateWithNameInContext(n: *const c_char, c: Ref) -> Ref;
    pub fn LLVMCreateBuilderInContext(c: Ref) -> Ref;
    pub fn LLVMVoidTypeInContext(c: Ref) -> Ref;
    pub fn LLVMIntTypeInContext(c: Ref, w: c_uint) -> Ref;
    pub fn LLVMPointerTypeInContext(c: Ref, a: c_uint) -> Ref;
    pub fn LLVMStructTypeInContext(c: Ref, e: *const Ref, n: c_uint, packed: c_int) -> Ref;
    pub fn LLVMArrayType(e: Ref, n: c_uint) -> Ref;
    pub fn LLVMFunctionType(r: Ref, p: *const Ref, n: c_uint, va: c_int) -> Ref;
    pub fn LLVMGetTypeKind(t: Ref) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Ref) -> c_uint;
    pub fn LLVMGetArrayLength(t: Ref) -> c_uint;
    pub fn LLVMGetElementType(t: Ref) -> Ref;
    pub fn LLVMTypeIsSized(t: Ref) -> c_int;
    pub fn LLVMCountStructElementTypes(t: Ref) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetReturnType(t: Ref) -> Ref;
    pub fn LLVMPrintTypeToString(t: Ref) -> *mut c_char;
    pub fn LLVMPrintValueToString(t: Ref) -> *mut c_char;
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMTypeOf(v: Ref) -> Ref;
    pub fn LLVMGlobalGetValueType(v: Ref) -> Ref;
    pub fn LLVMIsConstant(v: Ref) -> c_int;
    pub fn LLVMConstNull(t: Ref) -> Ref;
    pub fn LLVMConstInt(t: Ref, n: c_ulonglong, s: c_int) -> Ref;
    pub fn LLVMConstIntOfStringAndSize(t: Ref, s: *const c_char, n: c_uint, radix: u8) -> Ref;
    pub fn LLVMConstStringInContext(c: Ref, s: *const c_char, n: c_uint, dont_null: c_int) -> Ref;
    pub fn LLVMAppendBasicBlockInContext(c: Ref, f: Ref, n: *const c_char) -> Ref;
    pub fn LLVMAddFunction(m: Ref, n: *const c_char, t: Ref) -> Ref;
    pub fn LLVMGetNamedFunction(m: Ref, n: *const c_char) -> Ref;
    pub fn LLVMAddGlobal(m: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMGetNamedGlobal(m: Ref, n: *const c_char) -> Ref;
    pub fn LLVMSetInitializer(g: Ref, v: Ref);
    pub fn LLVMSetLinkage(g: Ref, l: c_int);
    pub fn LLVMGetParam(f: Ref, i: c_uint) -> Ref;
    pub fn LLVMCountParams(f: Ref) -> c_uint;
    pub fn LLVMLinkModules2(d: Ref, s: Ref) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ref, b: Ref, m: *mut Ref) -> c_int;
    pub fn LLVMCreateMemoryBufferWithMemoryRangeCopy(d: *const c_char, n: usize, name: *const c_char) -> Ref;
    pub fn LLVMGetBufferStart(b: Ref) -> *const c_char;
    pub fn LLVMGetBufferSize(b: Ref) -> usize;
    pub fn LLVMPrintModuleToString(m: Ref) -> *mut c_char;
    pub fn LLVMVerifyModule(m: Ref, action: c_int, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMPositionBuilderAtEnd(b: Ref, bb: Ref);
    pub fn LLVMGetInsertBlock(b: Ref) -> Ref;
    pub fn LLVMGetBasicBlockTerminator(bb: Ref) -> Ref;
    pub fn LLVMBuildAlloca(b: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildLoad2(b: Ref, t: Ref, p: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildStore(b: Ref, v: Ref, p: Ref) -> Ref;
    pub fn LLVMBuildStructGEP2(b: Ref, t: Ref, p: Ref, i: c_uint, n: *const c_char) -> Ref;
    pub fn LLVMBuildCall2(b: Ref, t: Ref, f: Ref, a: *const Ref, n: c_uint, name: *const c_char) -> Ref;
    pub fn LLVMBuildRet(b: Ref, v: Ref) -> Ref;
    pub fn LLVMBuildRetVoid(b: Ref) -> Ref;
    pub fn LLVMBuildBr(b: Ref, bb: Ref) -> Ref;
    pub fn LLVMBuildCondBr(b: Ref, c: Ref, t: Ref, e: Ref) -> Ref;
    pub fn LLVMBuildSwitch(b: Ref, v: Ref, e: Ref, n: c_uint) -> Ref;
    pub fn LLVMAddCase(s: Ref, v: Ref, d: Ref);
    pub fn LLVMBuildUnreachable(b: Ref) -> Ref;
    pub fn LLVMBuildAdd(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSub(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildMul(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildUDiv(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSDiv(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildURem(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSRem(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildAnd(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildOr(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildXor(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildShl(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildLShr(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildAShr(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNot(b: Ref, v: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNeg(b: Ref, v: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildICmp(b: Ref, p: c_int, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSelect(b: Ref, c: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildZExt(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSExt(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildTrunc(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildIntCast2(b: Ref, v: Ref, t: Ref, s: c_int, n: *const c_char) -> Ref;
    pub fn LLVMBuildPtrToInt(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildIntToPtr(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMInitializeWebAssemblyTargetInfo();
    pub fn LLVMInitializeWebAssemblyTarget();
    pub fn LLVMInitializeWebAssemblyTargetMC();
    pub fn LLVMInitializeWebAssemblyAsmPrinter();
    pub fn LLVMInitializeWebAssemblyAsmParser();
    pub fn LLVMGetTargetFromName(n: *const c_char) -> Ref;
    pub fn LLVMCreateTargetMachine(t: Ref, triple: *const c_char, cpu: *const c_char, f: *const c_char, l: c_int, r: c_int, c: c_int) -> Ref;
    pub fn LLVMTargetMachineEmitToMemoryBuffer(t: Ref, m: Ref, ft: c_int, err: *mut *mut c_char, out: *mut Ref) -> c_int;
    pub fn LLVMGetErrorMessage(e: Ref) -> *mut c_char;
}
