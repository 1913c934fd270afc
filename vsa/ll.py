"""Thin ctypes binding of the LLVM C API: just enough to read bitcode."""
import ctypes as C
import ctypes.util, os

_p = C.c_void_p
_PATHS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"]
for _f in _PATHS:
    if os.path.exists(_f):
        L = C.CDLL(_f)
        break
else:
    raise RuntimeError("libLLVM-18 not found")

def _d(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f

ctx_create = _d("LLVMContextCreate", _p)
membuf = _d("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(_p), C.POINTER(C.c_char_p))
parse_bc = _d("LLVMParseBitcodeInContext2", C.c_int, _p, _p, C.POINTER(_p))
data_layout = _d("LLVMGetModuleDataLayout", _p, _p)
abi_size = _d("LLVMABISizeOfType", C.c_ulonglong, _p, _p)
store_size = _d("LLVMStoreSizeOfType", C.c_ulonglong, _p, _p)
size_bits = _d("LLVMSizeOfTypeInBits", C.c_ulonglong, _p, _p)
abi_align = _d("LLVMABIAlignmentOfType", C.c_uint, _p, _p)
offset_of = _d("LLVMOffsetOfElement", C.c_ulonglong, _p, _p, C.c_uint)

first_fn = _d("LLVMGetFirstFunction", _p, _p)
next_fn = _d("LLVMGetNextFunction", _p, _p)
first_gv = _d("LLVMGetFirstGlobal", _p, _p)
next_gv = _d("LLVMGetNextGlobal", _p, _p)
first_alias = _d("LLVMGetFirstGlobalAlias", _p, _p)
next_alias = _d("LLVMGetNextGlobalAlias", _p, _p)
aliasee = _d("LLVMAliasGetAliasee", _p, _p)
named_fn = _d("LLVMGetNamedFunction", _p, _p, C.c_char_p)
named_gv = _d("LLVMGetNamedGlobal", _p, _p, C.c_char_p)
is_decl = _d("LLVMIsDeclaration", C.c_int, _p)
num_clauses = _d("LLVMGetNumClauses", C.c_uint, _p)
clause = _d("LLVMGetClause", _p, _p, C.c_uint)
linkage = _d("LLVMGetLinkage", C.c_int, _p)
gv_init = _d("LLVMGetInitializer", _p, _p)
gv_valtype = _d("LLVMGlobalGetValueType", _p, _p)
gv_const = _d("LLVMIsGlobalConstant", C.c_int, _p)
gv_tls = _d("LLVMIsThreadLocal", C.c_int, _p)
_name2 = _d("LLVMGetValueName2", C.c_void_p, _p, C.POINTER(C.c_size_t))
def vname(v):
    n = C.c_size_t()
    s = _name2(v, C.byref(n))
    return C.string_at(s, n.value).decode() if n.value else ""

param_count = _d("LLVMCountParams", C.c_uint, _p)
get_param = _d("LLVMGetParam", _p, _p, C.c_uint)
first_bb = _d("LLVMGetFirstBasicBlock", _p, _p)
next_bb = _d("LLVMGetNextBasicBlock", _p, _p)
bb_as_value = _d("LLVMBasicBlockAsValue", _p, _p)
value_as_bb = _d("LLVMValueAsBasicBlock", _p, _p)
first_inst = _d("LLVMGetFirstInstruction", _p, _p)
next_inst = _d("LLVMGetNextInstruction", _p, _p)
bb_term = _d("LLVMGetBasicBlockTerminator", _p, _p)
inst_parent = _d("LLVMGetInstructionParent", _p, _p)
opcode = _d("LLVMGetInstructionOpcode", C.c_int, _p)
const_opcode = _d("LLVMGetConstOpcode", C.c_int, _p)
icmp_pred = _d("LLVMGetICmpPredicate", C.c_int, _p)
fcmp_pred = _d("LLVMGetFCmpPredicate", C.c_int, _p)
num_ops = _d("LLVMGetNumOperands", C.c_int, _p)
operand = _d("LLVMGetOperand", _p, _p, C.c_uint)
type_of = _d("LLVMTypeOf", _p, _p)
value_kind = _d("LLVMGetValueKind", C.c_int, _p)
zext_val = _d("LLVMConstIntGetZExtValue", C.c_ulonglong, _p)
print_val = _d("LLVMPrintValueToString", C.c_void_p, _p)
print_type = _d("LLVMPrintTypeToString", C.c_void_p, _p)
dispose_msg = _d("LLVMDisposeMessage", None, C.c_void_p)
def pv(v):
    s = print_val(v)
    r = C.string_at(s).decode(errors="replace")
    dispose_msg(s)
    return r
def pt(t):
    s = print_type(t)
    r = C.string_at(s).decode(errors="replace")
    dispose_msg(s)
    return r

type_kind = _d("LLVMGetTypeKind", C.c_int, _p)
int_width = _d("LLVMGetIntTypeWidth", C.c_uint, _p)
elem_type = _d("LLVMGetElementType", _p, _p)
array_len = _d("LLVMGetArrayLength", C.c_uint, _p)
vec_len = _d("LLVMGetVectorSize", C.c_uint, _p)
struct_n = _d("LLVMCountStructElementTypes", C.c_uint, _p)
struct_at = _d("LLVMStructGetTypeAtIndex", _p, _p, C.c_uint)
ret_type = _d("LLVMGetReturnType", _p, _p)
is_vararg = _d("LLVMIsFunctionVarArg", C.c_int, _p)

gep_src = _d("LLVMGetGEPSourceElementType", _p, _p)
alloca_type = _d("LLVMGetAllocatedType", _p, _p)
num_incoming = _d("LLVMCountIncoming", C.c_uint, _p)
incoming_v = _d("LLVMGetIncomingValue", _p, _p, C.c_uint)
incoming_b = _d("LLVMGetIncomingBlock", _p, _p, C.c_uint)
num_succ = _d("LLVMGetNumSuccessors", C.c_uint, _p)
succ = _d("LLVMGetSuccessor", _p, _p, C.c_uint)
is_cond = _d("LLVMIsConditional", C.c_int, _p)
called_value = _d("LLVMGetCalledValue", _p, _p)
called_fty = _d("LLVMGetCalledFunctionType", _p, _p)
num_args = _d("LLVMGetNumArgOperands", C.c_uint, _p)
num_indices = _d("LLVMGetNumIndices", C.c_uint, _p)
indices = _d("LLVMGetIndices", C.POINTER(C.c_uint), _p)
shuf_n = _d("LLVMGetNumMaskElements", C.c_uint, _p)
shuf_m = _d("LLVMGetMaskValue", C.c_int, _p, C.c_uint)
ordering = _d("LLVMGetOrdering", C.c_int, _p)
rmw_op = _d("LLVMGetAtomicRMWBinOp", C.c_int, _p)
is_undef = _d("LLVMIsUndef", C.c_int, _p)
is_null = _d("LLVMIsNull", C.c_int, _p)
elem_const = _d("LLVMGetElementAsConstant", _p, _p, C.c_uint)
agg_elem = _d("LLVMGetAggregateElement", _p, _p, C.c_uint)
is_cstring = _d("LLVMIsConstantString", C.c_int, _p)
get_string = _d("LLVMGetAsString", C.c_void_p, _p, C.POINTER(C.c_size_t))
real_val = _d("LLVMConstRealGetDouble", C.c_double, _p, C.POINTER(C.c_int))
dbg_line = _d("LLVMGetDebugLocLine", C.c_uint, _p)
_dbg_file = _d("LLVMGetDebugLocFilename", C.c_void_p, _p, C.POINTER(C.c_uint))
_dbg_dir = _d("LLVMGetDebugLocDirectory", C.c_void_p, _p, C.POINTER(C.c_uint))
def dbg_file(v):
    n = C.c_uint()
    s = _dbg_file(v, C.byref(n))
    return C.string_at(s, n.value).decode() if s else ""
attr_count = _d("LLVMGetAttributeCountAtIndex", C.c_uint, _p, C.c_uint)
enum_attr = _d("LLVMGetEnumAttributeAtIndex", _p, _p, C.c_uint, C.c_uint)
attr_kind = _d("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
attr_type = _d("LLVMGetTypeAttributeValue", _p, _p)
cs_enum_attr = _d("LLVMGetCallSiteEnumAttribute", _p, _p, C.c_uint, C.c_uint)
gv_align = _d("LLVMGetAlignment", C.c_uint, _p)

# value kinds (llvm-c/Core.h)
(VK_ARG, VK_BB, VK_MEMUSE, VK_MEMDEF, VK_MEMPHI, VK_FN, VK_ALIAS, VK_IFUNC, VK_GV, VK_BLOCKADDR,
 VK_CE, VK_CARRAY, VK_CSTRUCT, VK_CVEC, VK_UNDEF, VK_CAZ, VK_CDA, VK_CDV, VK_CINT, VK_CFP, VK_CNULL,
 VK_CTOKNONE, VK_MD, VK_ASM, VK_INST, VK_POISON, VK_TTN) = range(27)
# type kinds
(TK_VOID, TK_HALF, TK_FLOAT, TK_DOUBLE, TK_X86F80, TK_FP128, TK_PPC, TK_LABEL, TK_INT, TK_FUNC,
 TK_STRUCT, TK_ARRAY, TK_PTR, TK_VEC, TK_MD, TK_MMX, TK_TOKEN) = range(17)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem',
       18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume',
       59: 'landingpad', 60: 'addrspacecast', 66: 'fneg', 67: 'callbr', 68: 'freeze'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
