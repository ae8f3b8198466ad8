// LLVM 18 module pass: dynamic symbolic execution instrumentation.
//
// Every scalar SSA value gets a shadow i32 "expression id" (0 = concrete). Operations on
// values with a non-zero shadow call into the runtime (rt.cpp), which builds bit-vector
// expressions; conditional branches on symbolic conditions call __sym_branch.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "ops.h"
#include <map>
#include <set>
using namespace llvm;

namespace
{

static const std::set<std::string> wrapped = {
    "memcmp", "bcmp", "strlen", "memchr", "strcmp", "tolower", "toupper", "exit", "_exit", "abort", 
    "memcpy", "memmove", "memset", "strchr", "strncmp", "__ctype_b_loc_unused"};

struct Instr
{
    Module & M;
    const DataLayout & DL;
    LLVMContext & C;
    Type *I1, *I8, *I32, *I64, *Void;
    PointerType * Ptr;
    GlobalVariable *gArgs, *gArgPtrs, *gArgsTag, *gRet, *gRetTag, *gExtVals;
    FunctionCallee fBin, fCast, fSelect, fBranch, fLoad, fLoadSym, fStore, fMemcpy, fMemset, fConc, fOvf, fExt, fIndir, fGep,
        fFn, fUnsup, fUn, fFshl, fSelBr;
    Constant * zero;
    Value * pagemap{};
    unsigned fnCount{0};
    std::vector<std::string> fnNames;

    Instr(Module & M) : M(M), DL(M.getDataLayout()), C(M.getContext())
    {
        I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        Void = Type::getVoidTy(C);
        Ptr = PointerType::getUnqual(C);
        zero = ConstantInt::get(I32, 0);
        auto G = [&](char const * n, Type * T)
        {
            return cast<GlobalVariable>(M.getOrInsertGlobal(n, T));
        };
        gArgs = G("__sym_args", ArrayType::get(I32, 128));
        gArgPtrs = G("__sym_arg_ptrs", ArrayType::get(Ptr, 128));
        gArgsTag = G("__sym_args_tag", Ptr);
        gRet = G("__sym_ret", ArrayType::get(I32, 16));
        gRetTag = G("__sym_ret_tag", Ptr);
        gExtVals = G("__sym_ext_vals", ArrayType::get(I64, 128));
        fBin = M.getOrInsertFunction("__sym_bin", I32, I32, I32, I64, I32, I64);
        fCast = M.getOrInsertFunction("__sym_cast", I32, I32, I32, I32, I32);
        fUn = M.getOrInsertFunction("__sym_un", I32, I32, I32, I32);
        fSelect = M.getOrInsertFunction("__sym_select", I32, I32, I32, I32, I64, I32, I64, I32);
        fSelBr = M.getOrInsertFunction("__sym_select_br", I32, I32, I32, I32, I32);
        fBranch = M.getOrInsertFunction("__sym_branch", Void, I32, I32, I32);
        fLoad = M.getOrInsertFunction("__sym_load", I32, Ptr, I32);
        fLoadSym = M.getOrInsertFunction("__sym_load_sym", I32, Ptr, I32, I32);
        fStore = M.getOrInsertFunction("__sym_store", Void, Ptr, I32, I32, I64);
        fMemcpy = M.getOrInsertFunction("__sym_memcpy", Void, Ptr, Ptr, I64);
        fMemset = M.getOrInsertFunction("__sym_memset", Void, Ptr, I32, I64);
        fConc = M.getOrInsertFunction("__sym_concretize", Void, I32, I64);
        fOvf = M.getOrInsertFunction("__sym_ovf", I32, I32, I32, I64, I32, I64);
        fFshl = M.getOrInsertFunction("__sym_fsh", I32, I32, I32, I64, I32, I64, I32, I64);
        fExt = M.getOrInsertFunction("__sym_ext", Void, Ptr, I32);
        fIndir = M.getOrInsertFunction("__sym_indirect_ext", Void, Ptr, I32);
        fFn = M.getOrInsertFunction("__sym_fn", Void, I32);
        fUnsup = M.getOrInsertFunction("__sym_unsup", Void, Ptr, I32);
        for (auto f : {fBin, fCast, fUn, fSelect, fSelBr, fBranch, fLoad, fLoadSym, fStore, fMemcpy, fMemset, fConc, fOvf,
                       fFshl, fExt, fIndir, fFn, fUnsup})
            cast<Function>(f.getCallee())->setDoesNotThrow();
    }

    // ---------------------------------------------------------------- types
    static void leaves(Type * T, SmallVectorImpl<Type *> & out)
    {
        if (auto * S = dyn_cast<StructType>(T))
            for (auto * E : S->elements())
                leaves(E, out);
        else if (auto * A = dyn_cast<ArrayType>(T))
            for (unsigned i = 0; i < A->getNumElements(); ++i)
                leaves(A->getElementType(), out);
        else
            out.push_back(T);
    }
    void leafOffsets(Type * T, uint64_t base, SmallVectorImpl<std::pair<Type *, uint64_t>> & out)
    {
        if (auto * S = dyn_cast<StructType>(T))
        {
            auto * L = DL.getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); ++i)
                leafOffsets(S->getElementType(i), base + L->getElementOffset(i), out);
        }
        else if (auto * A = dyn_cast<ArrayType>(T))
            for (unsigned i = 0; i < A->getNumElements(); ++i)
                leafOffsets(A->getElementType(), base + i * DL.getTypeAllocSize(A->getElementType()), out);
        else
            out.push_back({T, base});
    }
    bool simple(Type * T)
    {
        if (T->isIntegerTy())
            return T->getIntegerBitWidth() <= 64;
        return T->isPointerTy() || T->isFloatTy() || T->isDoubleTy();
    }
    unsigned width(Type * T)
    {
        if (T->isIntegerTy())
            return T->getIntegerBitWidth();
        if (T->isPointerTy())
            return 64;
        if (T->isFloatTy())
            return 32;
        return 64;
    }

    // ---------------------------------------------------------------- per function
    using Sh = SmallVector<Value *, 2>;
    DenseMap<Value *, Sh> sh;
    Function * F{};

    Sh shadow(Value * V)
    {
        auto it = sh.find(V);
        if (it != sh.end())
            return it->second;
        SmallVector<Type *, 4> L;
        leaves(V->getType(), L);
        return Sh(L.size(), zero);
    }
    Value * s0(Value * V)
    {
        auto s = shadow(V);
        return s.empty() ? zero : s[0];
    }
    void set(Value * V, Value * s)
    {
        if (s != zero)
            sh[V] = Sh{s};
    }
    bool isZ(Value * s)
    {
        return s == zero;
    }

    Value * asI64(IRBuilder<> & B, Value * V)
    {
        Type * T = V->getType();
        if (T->isPointerTy())
            return B.CreatePtrToInt(V, I64);
        if (T->isFloatTy())
            return B.CreateZExt(B.CreateBitCast(V, I32), I64);
        if (T->isDoubleTy())
            return B.CreateBitCast(V, I64);
        return B.CreateZExtOrTrunc(V, I64);
    }
    Value * c32(unsigned v)
    {
        return ConstantInt::get(I32, v);
    }

    // Insert before `At`: if any of ids is non-zero, run `body` (returning i32 shadow), else 0.
    template <typename Fn>
    Value * slow(Instruction * At, ArrayRef<Value *> ids, bool wantResult, Fn body)
    {
        IRBuilder<> B(At);
        Value * any = nullptr;
        for (auto * v : ids)
            if (!isZ(v))
                any = any ? B.CreateOr(any, v) : v;
        if (!any)
            return zero;
        Value * cond = B.CreateICmpNE(any, zero);
        auto * W = MDNode::get(C,
                               {MDString::get(C, "branch_weights"),
                                ConstantAsMetadata::get(c32(1)->getType() ? cast<ConstantInt>(c32(1)) : nullptr),
                                ConstantAsMetadata::get(cast<ConstantInt>(c32(1000)))});
        BasicBlock * head = At->getParent();
        Instruction * thenT = SplitBlockAndInsertIfThen(cond, At, false, W);
        IRBuilder<> TB(thenT);
        Value * r = body(TB);
        if (!wantResult)
            return zero;
        IRBuilder<> PB(At->getParent(), At->getParent()->begin());
        auto * phi = PB.CreatePHI(I32, 2);
        phi->addIncoming(zero, head);
        phi->addIncoming(r, thenT->getParent());
        return phi;
    }

    Value * pageFlag(IRBuilder<> & B, Value * P)
    {
        // PAGEMAP_BASE + (addr >> 12), addr < 2^47
        Value * a = B.CreateLShr(B.CreatePtrToInt(P, I64), 12);
        Value * q = B.CreateIntToPtr(B.CreateAdd(a, ConstantInt::get(I64, PAGEMAP_BASE)), Ptr);
        return B.CreateZExt(B.CreateLoad(I8, q), I32);
    }

    Instruction * next(Instruction * I)
    {
        return I->getNextNode();
    }

    void concretizeAll(Instruction * At, ArrayRef<Value *> vals)
    {
        for (auto * v : vals)
        {
            if (!simple(v->getType()))
                continue;
            Value * s = s0(v);
            if (isZ(s))
                continue;
            slow(At,
                 {s},
                 false,
                 [&](IRBuilder<> & B)
                 {
                     return B.CreateCall(fConc, {s, asI64(B, v)});
                 });
        }
    }

    GlobalVariable * strConst(StringRef s)
    {
        auto * init = ConstantDataArray::getString(C, s);
        return new GlobalVariable(M, init->getType(), true, GlobalValue::PrivateLinkage, init, "__symstr");
    }

    void unsupported(Instruction * I)
    {
        SmallVector<Value *, 4> ids, ops;
        for (auto & U : I->operands())
        {
            Value * v = U.get();
            if (isa<BasicBlock>(v))
                continue;
            for (auto * s : shadow(v))
                if (!isZ(s))
                    ids.push_back(s);
        }
        if (ids.empty())
            return;
        std::string d = std::string(I->getOpcodeName());
        if (auto * CB = dyn_cast<CallBase>(I))
            if (CB->getCalledFunction())
                d += " " + CB->getCalledFunction()->getName().str();
        std::string ty;
        raw_string_ostream os(ty);
        I->getType()->print(os);
        d += " " + os.str() + " in " + F->getName().str();
        auto * S = strConst(d);
        slow(I,
             ids,
             false,
             [&](IRBuilder<> & B)
             {
                 return B.CreateCall(fUnsup, {S, c32(0)});
             });
    }

    // ---------------------------------------------------------------- calls
    static bool isRuntime(StringRef n)
    {
        return n.starts_with("sym_") || n.starts_with("__symw_");
    }

    void call(CallBase * CB)
    {
        if (auto * II = dyn_cast<IntrinsicInst>(CB))
        {
            intrinsic(II);
            return;
        }
        if (CB->isInlineAsm())
            return;
        Value * callee = CB->getCalledOperand();
        Function * CF = dyn_cast<Function>(callee->stripPointerCasts());
        bool rtfn = CF && isRuntime(CF->getName());
        bool external = CF && CF->isDeclaration() && !rtfn;
        SmallVector<Value *, 8> ids;
        SmallVector<Value *, 8> vals;
        bool anyByval = false;
        for (unsigned i = 0; i < CB->arg_size(); ++i)
        {
            Value * a = CB->getArgOperand(i);
            for (auto * s : shadow(a))
            {
                ids.push_back(s);
                vals.push_back(a);
            }
            if (CB->isByValArgument(i))
                anyByval = true;
        }
        bool anyId = false;
        for (auto * s : ids)
            anyId |= !isZ(s);

        if (external)
        {
            StringRef n = CF->getName();
            static const std::set<std::string> skip = {"__cxa_begin_catch", "__cxa_end_catch", "__cxa_rethrow",
                                                       "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_atexit",
                                                       "__clang_call_terminate", "_ZSt9terminatev", "__cxa_throw",
                                                       "__cxa_free_exception", "__cxa_allocate_exception", "_Unwind_Resume",
                                                       "_ZdlPvm", "_ZdlPv", "__dynamic_cast", "__cxa_guard_abort"};
            if (skip.count(n.str()))
                return;
            IRBuilder<> B(CB);
            // symbolic scalars are concretised by forking, memory reached by pointers is checked for leaks
            concretizeAll(CB, SmallVector<Value *, 8>(CB->arg_begin(), CB->arg_end()));
            B.SetInsertPoint(CB);
            static const std::set<std::string> noleak = {"__arena_Znwm", "__arena_ZnwmRKSt9nothrow_t", "malloc", "__arena_Znam",
                                                         "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
                                                         "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
                                                         "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
                                                         "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base",
                                                         "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base",
                                                         "_ZNSt8__detail15_List_node_base7_M_hookEPS0_"};
            if (noleak.count(n.str()))
                return;
            unsigned k = 0;
            for (unsigned i = 0; i < CB->arg_size() && k < 16; ++i)
            {
                Value * a = CB->getArgOperand(i);
                if (!a->getType()->isPointerTy())
                    continue;
                if (isa<Constant>(a))
                    continue;
                B.CreateStore(B.CreatePtrToInt(a, I64), B.CreateConstInBoundsGEP2_64(gExtVals->getValueType(), gExtVals, 0, k));
                ++k;
            }
            if (k)
                B.CreateCall(fExt, {strConst(n), c32(k)});
            return;
        }

        IRBuilder<> B(CB);
        if (anyId || rtfn || anyByval)
        {
            unsigned k = 0;
            for (auto * s : ids)
            {
                if (k >= 128)
                    break;
                B.CreateStore(s, B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, k++));
            }
            if (anyByval)
                for (unsigned i = 0; i < CB->arg_size(); ++i)
                    if (CB->isByValArgument(i))
                        B.CreateStore(CB->getArgOperand(i),
                                      B.CreateConstInBoundsGEP2_64(gArgPtrs->getValueType(), gArgPtrs, 0, i));
            if (!rtfn)
                B.CreateStore(callee, gArgsTag);
        }
        if (CB->isMustTailCall())
            return;
        // after the call
        Instruction * after;
        if (auto * IV = dyn_cast<InvokeInst>(CB))
            after = &*IV->getNormalDest()->getFirstInsertionPt();
        else
            after = CB->getNextNode();
        if (CB->doesNotReturn())
            return;
        IRBuilder<> A(after);
        SmallVector<Type *, 4> L;
        if (!CB->getType()->isVoidTy())
            leaves(CB->getType(), L);
        if (!L.empty())
        {
            Sh out;
            if (rtfn)
            {
                for (unsigned i = 0; i < L.size(); ++i)
                    out.push_back(A.CreateLoad(I32, A.CreateConstInBoundsGEP2_64(gRet->getValueType(), gRet, 0, i)));
            }
            else if (L.size() <= 16)
            {
                Value * m = A.CreateICmpEQ(A.CreateLoad(Ptr, gRetTag), callee);
                for (unsigned i = 0; i < L.size(); ++i)
                    out.push_back(A.CreateSelect(m,
                                                 A.CreateLoad(I32,
                                                              A.CreateConstInBoundsGEP2_64(gRet->getValueType(), gRet, 0, i)),
                                                 zero));
            }
            if (!out.empty())
                sh[CB] = out;
            if (!rtfn)
                A.CreateStore(ConstantPointerNull::get(Ptr), gRetTag);
        }
        if (!CF && anyId)
        {
            A.CreateCall(fIndir, {callee, c32(ids.size())});
        }
    }

    void intrinsic(IntrinsicInst * I)
    {
        auto bin = [&](unsigned op)
        {
            set(I, binop(I, op, I->getArgOperand(0), I->getArgOperand(1)));
        };
        if (I->getType()->isVectorTy())
            return unsupported(I);
        switch (I->getIntrinsicID())
        {
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove:
        {
            concretizeAll(I, {I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2)});
            IRBuilder<> B(I); // shadow first: the source may be overwritten by memmove
            B.CreateCall(fMemcpy,
                         {I->getArgOperand(0), I->getArgOperand(1), B.CreateZExtOrTrunc(I->getArgOperand(2), I64)});
            return;
        }
        case Intrinsic::memset:
        case Intrinsic::memset_inline:
        {
            concretizeAll(I, {I->getArgOperand(0), I->getArgOperand(2)});
            IRBuilder<> B(I);
            B.CreateCall(fMemset,
                         {I->getArgOperand(0), s0(I->getArgOperand(1)), B.CreateZExtOrTrunc(I->getArgOperand(2), I64)});
            return;
        }
        case Intrinsic::umin: return bin(OP_UMIN);
        case Intrinsic::umax: return bin(OP_UMAX);
        case Intrinsic::smin: return bin(OP_SMIN);
        case Intrinsic::smax: return bin(OP_SMAX);
        case Intrinsic::usub_sat: return bin(OP_USUBSAT);
        case Intrinsic::uadd_sat: return bin(OP_UADDSAT);
        case Intrinsic::uadd_with_overflow: return ovf(I, OP_ADD, OP_UADDO);
        case Intrinsic::sadd_with_overflow: return ovf(I, OP_ADD, OP_SADDO);
        case Intrinsic::usub_with_overflow: return ovf(I, OP_SUB, OP_USUBO);
        case Intrinsic::ssub_with_overflow: return ovf(I, OP_SUB, OP_SSUBO);
        case Intrinsic::umul_with_overflow: return ovf(I, OP_MUL, OP_UMULO);
        case Intrinsic::smul_with_overflow: return ovf(I, OP_MUL, OP_SMULO);
        case Intrinsic::abs: return un(I, OP_ABS);
        case Intrinsic::bswap: return un(I, OP_BSWAP);
        case Intrinsic::ctpop: return un(I, OP_CTPOP);
        case Intrinsic::ctlz: return un(I, OP_CTLZ);
        case Intrinsic::cttz: return un(I, OP_CTTZ);
        case Intrinsic::fshl: return fsh(I, OP_FSHL);
        case Intrinsic::fshr: return fsh(I, OP_FSHR);
        case Intrinsic::expect:
        case Intrinsic::expect_with_probability:
        {
            auto s = shadow(I->getArgOperand(0));
            if (!isZ(s[0]))
                sh[I] = s;
            return;
        }
        case Intrinsic::assume:
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::invariant_start:
        case Intrinsic::invariant_end:
        case Intrinsic::stacksave:
        case Intrinsic::stackrestore:
        case Intrinsic::eh_typeid_for:
        case Intrinsic::trap:
        case Intrinsic::ubsantrap: return;
        default: return unsupported(I);
        }
    }
    void un(Instruction * I, unsigned op)
    {
        Value * s = s0(I->getOperand(0));
        unsigned w = width(I->getType());
        set(I,
            slow(next(I),
                 {s},
                 true,
                 [&](IRBuilder<> & B)
                 {
                     return B.CreateCall(fUn, {c32(op), s, c32(w)});
                 }));
    }
    void fsh(Instruction * I, unsigned op)
    {
        Value *a = I->getOperand(0), *b = I->getOperand(1), *c = I->getOperand(2);
        if (!simple(I->getType()))
            return unsupported(I);
        Value *sa = s0(a), *sb = s0(b), *sc = s0(c);
        unsigned w = width(I->getType());
        set(I,
            slow(next(I),
                 {sa, sb, sc},
                 true,
                 [&](IRBuilder<> & B)
                 {
                     return B.CreateCall(fFshl,
                                         {c32(op | (w << 8)), sa, asI64(B, a), sb, asI64(B, b), sc, asI64(B, c)});
                 }));
    }
    void ovf(IntrinsicInst * I, unsigned op, unsigned oop)
    {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
        if (!simple(a->getType()))
            return unsupported(I);
        Value * r = binopAt(next(I), op, a, b);
        Value *sa = s0(a), *sb = s0(b);
        unsigned w = width(a->getType());
        Value * o = slow(next(I),
                         {sa, sb},
                         true,
                         [&](IRBuilder<> & B)
                         {
                             return B.CreateCall(fOvf, {c32(oop | (w << 8)), sa, asI64(B, a), sb, asI64(B, b)});
                         });
        if (!isZ(r) || !isZ(o))
            sh[I] = Sh{r, o};
    }

    Value * binopAt(Instruction * At, unsigned op, Value * a, Value * b)
    {
        Value *sa = s0(a), *sb = s0(b);
        if (isZ(sa) && isZ(sb))
            return zero;
        unsigned w = width(a->getType());
        return slow(At,
                    {sa, sb},
                    true,
                    [&](IRBuilder<> & B)
                    {
                        return B.CreateCall(fBin, {c32(op | (w << 8)), sa, asI64(B, a), sb, asI64(B, b)});
                    });
    }
    Value * binop(Instruction * I, unsigned op, Value * a, Value * b)
    {
        if (!simple(a->getType()))
        {
            unsupported(I);
            return zero;
        }
        return binopAt(next(I), op, a, b);
    }

    void visit(Instruction * I)
    {
        if (auto * CB = dyn_cast<CallBase>(I))
            return call(CB);
        switch (I->getOpcode())
        {
        case Instruction::PHI: return;
        case Instruction::Alloca:
        {
            concretizeAll(I, {cast<AllocaInst>(I)->getArraySize()});
            return;
        }
        case Instruction::Load:
        {
            auto * L = cast<LoadInst>(I);
            Value * P = L->getPointerOperand();
            Value * sp = s0(P);
            SmallVector<std::pair<Type *, uint64_t>, 4> lo;
            leafOffsets(L->getType(), 0, lo);
            if (!isZ(sp) && (lo.size() != 1 || !simple(L->getType())))
            {
                concretizeAll(I, {P});
                sp = zero;
            }
            if (lo.size() == 1 && !simple(L->getType()))
            {
                // wide or vector load: report if the memory is symbolic
                auto * S = strConst("wide load in " + F->getName().str());
                IRBuilder<> B(I);
                Value * pf = pageFlag(B, P);
                slow(I,
                     {pf},
                     false,
                     [&](IRBuilder<> & B2)
                     {
                         B2.CreateStore(B2.CreatePtrToInt(P, I64),
                                        B2.CreateConstInBoundsGEP2_64(gExtVals->getValueType(), gExtVals, 0, 0));
                         return B2.CreateCall(fExt, {S, c32(1)});
                     });
                return;
            }
            Sh out;
            Instruction * At = next(I);
            for (auto & [T, off] : lo)
            {
                IRBuilder<> B(At);
                Value * q = off ? B.CreateConstGEP1_64(I8, P, off) : P;
                unsigned sz = DL.getTypeStoreSize(T);
                if (!isZ(sp))
                {
                    // symbolic pointer
                    Value * pf = pageFlag(B, q);
                    Value * any = B.CreateOr(pf, sp);
                    out.push_back(slow(At,
                                       {any},
                                       true,
                                       [&](IRBuilder<> & B2)
                                       {
                                           return B2.CreateCall(fLoadSym, {q, c32(sz), sp});
                                       }));
                }
                else
                {
                    Value * pf = pageFlag(B, q);
                    out.push_back(slow(At,
                                       {pf},
                                       true,
                                       [&](IRBuilder<> & B2)
                                       {
                                           return B2.CreateCall(fLoad, {q, c32(sz)});
                                       }));
                }
                // i1 / odd width loads: truncate
                if (T->isIntegerTy() && T->getIntegerBitWidth() != sz * 8)
                {
                    Value * o = out.back();
                    unsigned w = T->getIntegerBitWidth();
                    out.back() = slow(At,
                                      {o},
                                      true,
                                      [&](IRBuilder<> & B2)
                                      {
                                          return B2.CreateCall(fCast, {c32(OP_TRUNC), o, c32(sz * 8), c32(w)});
                                      });
                }
            }
            sh[I] = out;
            return;
        }
        case Instruction::Store:
        {
            auto * S = cast<StoreInst>(I);
            Value *P = S->getPointerOperand(), *V = S->getValueOperand();
            concretizeAll(I, {P});
            SmallVector<std::pair<Type *, uint64_t>, 4> lo;
            leafOffsets(V->getType(), 0, lo);
            auto sv = shadow(V);
            unsigned k = 0;
            for (auto & [T, off] : lo)
            {
                IRBuilder<> B(I);
                Value * q = off ? B.CreateConstGEP1_64(I8, P, off) : P;
                unsigned sz = DL.getTypeStoreSize(T);
                Value * s = sv[k++];
                if (!simple(T))
                    s = zero;
                if (T->isIntegerTy() && !isZ(s) && T->getIntegerBitWidth() != sz * 8)
                {
                    unsigned w = T->getIntegerBitWidth();
                    s = slow(I,
                             {s},
                             true,
                             [&](IRBuilder<> & B2)
                             {
                                 return B2.CreateCall(fCast, {c32(OP_ZEXT), s, c32(w), c32(sz * 8)});
                             });
                }
                IRBuilder<> B3(I);
                Value * pf = pageFlag(B3, q);
                Value * any = isZ(s) ? pf : B3.CreateOr(pf, s);
                slow(I,
                     {any},
                     false,
                     [&](IRBuilder<> & B2)
                     {
                         return B2.CreateCall(fStore, {q, c32(sz), s, ConstantInt::get(I64, 0)});
                     });
            }
            return;
        }
        case Instruction::Br:
        {
            auto * BI = cast<BranchInst>(I);
            if (!BI->isConditional())
                return;
            Value * c = BI->getCondition();
            Value * s = s0(c);
            if (isZ(s))
                return;
            slow(I,
                 {s},
                 false,
                 [&](IRBuilder<> & B)
                 {
                     return B.CreateCall(fBranch, {s, B.CreateZExt(c, I32), c32(fnCount)});
                 });
            return;
        }
        case Instruction::Switch:
        {
            concretizeAll(I, {cast<SwitchInst>(I)->getCondition()});
            return;
        }
        case Instruction::Ret:
        {
            auto * R = cast<ReturnInst>(I);
            Value * V = R->getReturnValue();
            if (!V)
                return;
            if (auto * CI = dyn_cast_or_null<CallInst>(R->getPrevNode()))
                if (CI->isMustTailCall())
                    return;
            auto sv = shadow(V);
            if (sv.size() > 16)
                return;
            bool any = false;
            for (auto * s : sv)
                any |= !isZ(s);
            if (!any)
                return; // tag stays null / not ours
            IRBuilder<> B(I);
            for (unsigned i = 0; i < sv.size(); ++i)
                B.CreateStore(sv[i], B.CreateConstInBoundsGEP2_64(gRet->getValueType(), gRet, 0, i));
            B.CreateStore(F, gRetTag);
            return;
        }
        case Instruction::Select:
        {
            auto * S = cast<SelectInst>(I);
            Value *c = S->getCondition(), *a = S->getTrueValue(), *b = S->getFalseValue();
            if (c->getType()->isVectorTy())
                return unsupported(I);
            auto sa = shadow(a), sb = shadow(b);
            Value * sc = s0(c);
            if (sa.size() == 1 && simple(I->getType()) && !I->getType()->isPointerTy())
            {
                unsigned w = width(I->getType());
                set(I,
                    slow(next(I),
                         {sc, sa[0], sb[0]},
                         true,
                         [&](IRBuilder<> & B)
                         {
                             return B.CreateCall(
                                 fSelect,
                                 {sc, B.CreateZExt(c, I32), sa[0], asI64(B, a), sb[0], asI64(B, b), c32(w)});
                         }));
                return;
            }
            if (!isZ(sc))
                slow(I,
                     {sc},
                     false,
                     [&](IRBuilder<> & B)
                     {
                         return B.CreateCall(fBranch, {sc, B.CreateZExt(c, I32), c32(fnCount)});
                     });
            Sh out;
            bool any = false;
            for (unsigned i = 0; i < sa.size(); ++i)
            {
                if (isZ(sa[i]) && isZ(sb[i]))
                    out.push_back(zero);
                else
                {
                    IRBuilder<> B(next(I));
                    out.push_back(B.CreateSelect(c, sa[i], sb[i]));
                    any = true;
                }
            }
            if (any)
                sh[I] = out;
            return;
        }
        case Instruction::ICmp:
        {
            auto * IC = cast<ICmpInst>(I);
            if (!simple(IC->getOperand(0)->getType()))
                return unsupported(I);
            unsigned op = 0;
            switch (IC->getPredicate())
            {
            case CmpInst::ICMP_EQ: op = OP_EQ; break;
            case CmpInst::ICMP_NE: op = OP_NE; break;
            case CmpInst::ICMP_ULT: op = OP_ULT; break;
            case CmpInst::ICMP_ULE: op = OP_ULE; break;
            case CmpInst::ICMP_UGT: op = OP_UGT; break;
            case CmpInst::ICMP_UGE: op = OP_UGE; break;
            case CmpInst::ICMP_SLT: op = OP_SLT; break;
            case CmpInst::ICMP_SLE: op = OP_SLE; break;
            case CmpInst::ICMP_SGT: op = OP_SGT; break;
            case CmpInst::ICMP_SGE: op = OP_SGE; break;
            default: break;
            }
            set(I, binop(I, op, IC->getOperand(0), IC->getOperand(1)));
            return;
        }
        case Instruction::FCmp:
        {
            auto * FC = cast<FCmpInst>(I);
            if (!simple(FC->getOperand(0)->getType()))
                return unsupported(I);
            set(I, binop(I, OP_FCMP_BASE + FC->getPredicate(), FC->getOperand(0), FC->getOperand(1)));
            return;
        }
        case Instruction::Add: return set(I, binop(I, OP_ADD, I->getOperand(0), I->getOperand(1)));
        case Instruction::Sub: return set(I, binop(I, OP_SUB, I->getOperand(0), I->getOperand(1)));
        case Instruction::Mul: return set(I, binop(I, OP_MUL, I->getOperand(0), I->getOperand(1)));
        case Instruction::UDiv: return set(I, binop(I, OP_UDIV, I->getOperand(0), I->getOperand(1)));
        case Instruction::SDiv: return set(I, binop(I, OP_SDIV, I->getOperand(0), I->getOperand(1)));
        case Instruction::URem: return set(I, binop(I, OP_UREM, I->getOperand(0), I->getOperand(1)));
        case Instruction::SRem: return set(I, binop(I, OP_SREM, I->getOperand(0), I->getOperand(1)));
        case Instruction::Shl: return set(I, binop(I, OP_SHL, I->getOperand(0), I->getOperand(1)));
        case Instruction::LShr: return set(I, binop(I, OP_LSHR, I->getOperand(0), I->getOperand(1)));
        case Instruction::AShr: return set(I, binop(I, OP_ASHR, I->getOperand(0), I->getOperand(1)));
        case Instruction::And: return set(I, binop(I, OP_AND, I->getOperand(0), I->getOperand(1)));
        case Instruction::Or: return set(I, binop(I, OP_OR, I->getOperand(0), I->getOperand(1)));
        case Instruction::Xor: return set(I, binop(I, OP_XOR, I->getOperand(0), I->getOperand(1)));
        case Instruction::ZExt:
        case Instruction::SExt:
        case Instruction::Trunc:
        {
            Value * a = I->getOperand(0);
            if (!simple(a->getType()) || !simple(I->getType()))
                return unsupported(I);
            Value * s = s0(a);
            unsigned op = I->getOpcode() == Instruction::ZExt ? OP_ZEXT
                        : I->getOpcode() == Instruction::SExt ? OP_SEXT
                                                              : OP_TRUNC;
            unsigned fw = width(a->getType()), tw = width(I->getType());
            set(I,
                slow(next(I),
                     {s},
                     true,
                     [&](IRBuilder<> & B)
                     {
                         return B.CreateCall(fCast, {c32(op), s, c32(fw), c32(tw)});
                     }));
            return;
        }
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::BitCast:
        case Instruction::Freeze:
        {
            Value * a = I->getOperand(0);
            if (!simple(a->getType()) || !simple(I->getType()) || width(a->getType()) != width(I->getType()))
                return unsupported(I);
            auto s = shadow(a);
            if (!isZ(s[0]))
                sh[I] = s;
            return;
        }
        case Instruction::GetElementPtr:
        {
            auto * G = cast<GetElementPtrInst>(I);
            if (G->getType()->isVectorTy())
                return unsupported(I);
            SmallVector<Value *, 4> ids{s0(G->getPointerOperand())};
            for (auto & x : G->indices())
                ids.push_back(s0(x.get()));
            bool any = false;
            for (auto * s : ids)
                any |= !isZ(s);
            if (!any)
                return;
            MapVector<Value *, APInt> vo;
            APInt co(64, 0);
            if (!cast<GEPOperator>(G)->collectOffset(DL, 64, vo, co))
                return unsupported(I);
            Value * base = G->getPointerOperand();
            set(I,
                slow(next(I),
                     ids,
                     true,
                     [&](IRBuilder<> & B) -> Value *
                     {
                         Value * acc = s0(base);
                         Value * accv = B.CreatePtrToInt(base, I64);
                         for (auto & [v, scale] : vo)
                         {
                             Value * sv = s0(v);
                             Value * vv = B.CreateSExtOrTrunc(v, I64);
                             if (!isZ(sv) && width(v->getType()) != 64)
                                 sv = B.CreateCall(fCast, {c32(OP_SEXT), sv, c32(width(v->getType())), c32(64)});
                             Value * sc = ConstantInt::get(I64, scale);
                             Value * ms = B.CreateCall(fBin, {c32(OP_MUL | (64 << 8)), sv, vv, zero, sc});
                             Value * mv = B.CreateMul(vv, sc);
                             acc = B.CreateCall(fBin, {c32(OP_ADD | (64 << 8)), acc, accv, ms, mv});
                             accv = B.CreateAdd(accv, mv);
                         }
                         if (co != 0)
                             acc = B.CreateCall(fBin,
                                                {c32(OP_ADD | (64 << 8)), acc, accv, zero, ConstantInt::get(I64, co)});
                         return acc;
                     }));
            return;
        }
        case Instruction::ExtractValue:
        case Instruction::InsertValue:
        {
            auto idxLeaf = [&](Type * T, ArrayRef<unsigned> idx)
            {
                unsigned off = 0;
                for (unsigned i : idx)
                {
                    for (unsigned j = 0; j < i; ++j)
                    {
                        SmallVector<Type *, 4> l;
                        leaves(isa<StructType>(T) ? T->getStructElementType(j) : T->getArrayElementType(), l);
                        off += l.size();
                    }
                    T = isa<StructType>(T) ? T->getStructElementType(i) : T->getArrayElementType();
                }
                SmallVector<Type *, 4> l;
                leaves(T, l);
                return std::pair<unsigned, unsigned>(off, l.size());
            };
            if (auto * E = dyn_cast<ExtractValueInst>(I))
            {
                auto s = shadow(E->getAggregateOperand());
                auto [o, n] = idxLeaf(E->getAggregateOperand()->getType(), E->getIndices());
                sh[I] = Sh(s.begin() + o, s.begin() + o + n);
            }
            else
            {
                auto * V = cast<InsertValueInst>(I);
                auto s = shadow(V->getAggregateOperand());
                auto sv = shadow(V->getInsertedValueOperand());
                auto [o, n] = idxLeaf(V->getAggregateOperand()->getType(), V->getIndices());
                for (unsigned i = 0; i < n; ++i)
                    s[o + i] = sv[i];
                sh[I] = s;
            }
            return;
        }
        case Instruction::FAdd: return set(I, binop(I, OP_FADD, I->getOperand(0), I->getOperand(1)));
        case Instruction::FSub: return set(I, binop(I, OP_FSUB, I->getOperand(0), I->getOperand(1)));
        case Instruction::FMul: return set(I, binop(I, OP_FMUL, I->getOperand(0), I->getOperand(1)));
        case Instruction::FDiv: return set(I, binop(I, OP_FDIV, I->getOperand(0), I->getOperand(1)));
        case Instruction::FNeg: return un(I, OP_FNEG);
        case Instruction::SIToFP:
        case Instruction::UIToFP:
        case Instruction::FPToSI:
        case Instruction::FPToUI:
        case Instruction::FPExt:
        case Instruction::FPTrunc:
        {
            Value * a = I->getOperand(0);
            if (!simple(a->getType()) || !simple(I->getType()))
                return unsupported(I);
            unsigned op = I->getOpcode() == Instruction::SIToFP ? OP_SITOFP
                        : I->getOpcode() == Instruction::UIToFP ? OP_UITOFP
                        : I->getOpcode() == Instruction::FPToSI ? OP_FPTOSI
                        : I->getOpcode() == Instruction::FPToUI ? OP_FPTOUI
                                                                : OP_FPCONV;
            Value * s = s0(a);
            unsigned fw = width(a->getType()), tw = width(I->getType());
            set(I,
                slow(next(I),
                     {s},
                     true,
                     [&](IRBuilder<> & B)
                     {
                         return B.CreateCall(fCast, {c32(op), s, c32(fw), c32(tw)});
                     }));
            return;
        }
        case Instruction::AtomicRMW:
        case Instruction::AtomicCmpXchg:
        case Instruction::Fence:
        case Instruction::LandingPad:
        case Instruction::Resume:
        case Instruction::Unreachable: return;
        default: return unsupported(I);
        }
    }

    void run(Function & Fn, FunctionAnalysisManager & FAM)
    {
        F = &Fn;
        sh.clear();
        LowerSwitchPass().run(Fn, FAM);
        FAM.invalidate(Fn, PreservedAnalyses::none());
        removeUnreachableBlocks(Fn);
        // split normal edges of invokes
        {
            SmallVector<InvokeInst *, 16> inv;
            for (auto & BB : Fn)
                if (auto * I = dyn_cast<InvokeInst>(BB.getTerminator()))
                    inv.push_back(I);
            for (auto * I : inv)
                SplitEdge(I->getParent(), I->getNormalDest());
        }
        // drop musttail/tail so that code may follow the call
        for (auto & I : instructions(Fn))
            if (auto * CI = dyn_cast<CallInst>(&I))
                if (!Fn.isVarArg())
                    CI->setTailCallKind(CallInst::TCK_None);

        SmallVector<Instruction *, 256> order;
        SmallVector<PHINode *, 32> phis;
        ReversePostOrderTraversal<Function *> RPOT(&Fn);
        for (auto * BB : RPOT)
            for (auto & I : *BB)
            {
                if (auto * P = dyn_cast<PHINode>(&I))
                    phis.push_back(P);
                order.push_back(&I);
            }
        // entry: argument shadows
        Instruction * entry = &*Fn.getEntryBlock().getFirstInsertionPt();
        while (isa<AllocaInst>(entry) && isa<ConstantInt>(cast<AllocaInst>(entry)->getArraySize()))
            entry = entry->getNextNode();
        {
            IRBuilder<> B(entry);
            B.CreateCall(fFn, {c32(fnCount)});
            Value * m = nullptr;
            unsigned k = 0;
            for (auto & A : Fn.args())
            {
                SmallVector<Type *, 4> L;
                leaves(A.getType(), L);
                if (!m)
                    m = B.CreateICmpEQ(B.CreateLoad(Ptr, gArgsTag), &Fn);
                Sh out;
                for (unsigned i = 0; i < L.size(); ++i, ++k)
                {
                    if (k >= 128)
                    {
                        out.push_back(zero);
                        continue;
                    }
                    out.push_back(
                        B.CreateSelect(m,
                                       B.CreateLoad(I32, B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, k)),
                                       zero));
                }
                sh[&A] = out;
            }
            if (m)
            {
                B.CreateStore(ConstantPointerNull::get(Ptr), gArgsTag);
                for (auto & A : Fn.args())
                    if (A.hasByValAttr())
                    {
                        Value * src = B.CreateLoad(
                            Ptr,
                            B.CreateConstInBoundsGEP2_64(gArgPtrs->getValueType(), gArgPtrs, 0, A.getArgNo()));
                        // if not called by instrumented code copy from itself (no-op)
                        src = B.CreateSelect(m, src, &A);
                        B.CreateCall(fMemcpy,
                                     {&A, src, ConstantInt::get(I64, DL.getTypeAllocSize(A.getParamByValType()))});
                    }
            }
        }
        // phi shadows
        DenseMap<PHINode *, SmallVector<PHINode *, 2>> ph;
        for (auto * P : phis)
        {
            SmallVector<Type *, 4> L;
            leaves(P->getType(), L);
            Sh out;
            SmallVector<PHINode *, 2> ps;
            for (auto * T : L)
            {
                if (!simple(T))
                {
                    out.push_back(zero);
                    ps.push_back(nullptr);
                    continue;
                }
                IRBuilder<> B(P);
                auto * q = B.CreatePHI(I32, P->getNumIncomingValues());
                out.push_back(q);
                ps.push_back(q);
            }
            sh[P] = out;
            ph[P] = ps;
        }
        for (auto * I : order)
            visit(I);
        for (auto * P : phis)
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            {
                auto s = shadow(P->getIncomingValue(i));
                for (unsigned k = 0; k < s.size(); ++k)
                    if (ph[P][k])
                        ph[P][k]->addIncoming(s[k], P->getIncomingBlock(i));
            }
        fnNames.push_back(Fn.getName().str());
        ++fnCount;
    }
};

struct ConcolicPass : PassInfoMixin<ConcolicPass>
{
    PreservedAnalyses run(Module & M, ModuleAnalysisManager & MAM)
    {
        auto & FAM = MAM.getResult<FunctionAnalysisManagerModuleProxy>(M).getManager();
        for (auto & F : M)
            if (F.hasAvailableExternallyLinkage())
                F.setLinkage(GlobalValue::LinkOnceODRLinkage);
        for (auto & F : M)
            if (F.isDeclaration() && wrapped.count(F.getName().str()))
                F.setName("__symw_" + F.getName().str());
        // the code under test allocates from an arena of its own: addresses are the same on every run
        for (char const * n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_Znam"})
            if (auto * F = M.getFunction(n))
                if (F->isDeclaration())
                    F->setName("__arena" + std::string(n));
        Instr in(M);
        SmallVector<Function *, 64> fns;
        for (auto & F : M)
            if (!F.isDeclaration() && !F.getName().starts_with("__sym"))
                fns.push_back(&F);
        for (auto * F : fns)
        {
            F->removeFnAttr(Attribute::Memory);
            F->setMemoryEffects(MemoryEffects::unknown());
            for (auto & A : F->args())
            {
                A.removeAttr(Attribute::ReadNone);
                A.removeAttr(Attribute::ReadOnly);
            }
        }
        for (auto * F : fns)
            for (auto & I : instructions(*F))
                if (auto * CB = dyn_cast<CallBase>(&I))
                    CB->removeFnAttr(Attribute::Memory);
        for (auto * F : fns)
            in.run(*F, FAM);
        // function name table
        LLVMContext & C = M.getContext();
        std::vector<Constant *> names;
        for (auto & n : in.fnNames)
            names.push_back(in.strConst(n));
        auto * AT = ArrayType::get(PointerType::getUnqual(C), names.size() + 1);
        names.push_back(ConstantPointerNull::get(PointerType::getUnqual(C)));
        new GlobalVariable(M, AT, true, GlobalValue::ExternalLinkage, ConstantArray::get(AT, names), "__sym_fn_names");
        return PreservedAnalyses::none();
    }
    static bool isRequired()
    {
        return true;
    }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION,
            "concolic",
            "1",
            [](PassBuilder & PB)
            {
                PB.registerPipelineParsingCallback(
                    [](StringRef N, ModulePassManager & MPM, ArrayRef<PassBuilder::PipelineElement>)
                    {
                        if (N == "concolic")
                        {
                            MPM.addPass(ConcolicPass());
                            return true;
                        }
                        return false;
                    });
                PB.registerOptimizerLastEPCallback(
                    [](ModulePassManager & MPM, OptimizationLevel)
                    {
                        MPM.addPass(ConcolicPass());
                    });
            }};
}
