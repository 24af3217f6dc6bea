// sxinst: rewrites the LLVM IR of the code under test so that every integer
// and floating point operation, comparison, conversion, address computation
// and call into un-instrumented libraries goes through the symbolic runtime
// (sxrt.cpp).  A symbolic value travels through memory, registers, files and
// libraries as a "handle": an ordinary 64/32/8 bit value or double with a
// reserved bit pattern, so loads, stores and copies need no instrumentation.
#include <llvm/ADT/SmallVector.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static Module * M;
static LLVMContext * C;
static Type *I1, *I8, *I32, *I64, *D, *L, *V, *P; // L: x87 long double, which carries the same handles as D

static bool okInt( Type * t )
{
    return t == I8 || t == I32 || t == I64;
}
static FunctionCallee rt( const std::string & n, Type * r, std::vector<Type *> a )
{
    return M->getOrInsertFunction( n, FunctionType::get( r, a, false ) );
}
static std::string W( Type * t )
{
    return std::to_string( t->getIntegerBitWidth() );
}
// external functions that have a symbolic counterpart sx_w_<name> in the runtime
static const std::set<std::string> wrapped = {
    "tanh", "exp", "log", "log1p", "expm1", "pow", "sqrt", "erf", "erfc", "cos", "sin", "tan", "cosh", "sinh", "atan",
    "acos", "asin", "atan2", "log2", "log10", "exp2", "cbrt", "hypot", "floor", "ceil", "trunc", "round", "rint",
    "nearbyint", "fmod", "fabs", "fmin", "fmax", "fma", "nextafter", "copysign", "ldexp", "lround", "llround", "lrint",
    "strtod", "strtol", "strtoul", "strtoll", "strtoull", "memcmp", "bcmp", "memchr", "strlen", "strcmp", "strncmp",
    "sqrtl", "powl", "logl", "expl", "fabsl", "tanhl", "erfl", "isspace", "isdigit", "isalpha", "isalnum", "tolower", "toupper", "atoi", "atof", "atol" };
// external functions to which handles may be passed unchanged
static bool passThrough( StringRef n )
{
    return n.starts_with( "sx_" ) || n.starts_with( "_ZSt2" ) /* std::__throw_* */ || n.starts_with( "_ZN3fmt" )
           || n.starts_with( "_ZSt19__throw" ) || n.starts_with( "_ZSt24__throw" ) || n.starts_with( "_ZSt20__throw" )
           || n.starts_with( "_ZSt28__throw" ) || n.starts_with( "__cxa" ) || n.starts_with( "__asan" );
}

static Value * conc( IRBuilder<> & b, Value * v )
{
    if( isa<Constant>( v ) )
        return v;
    Type * t = v->getType();
    if( okInt( t ) )
        return b.CreateCall( rt( "sx_conc" + W( t ), t, { t } ), { v } );
    if( t == D )
        return b.CreateCall( rt( "sx_fconc", D, { D } ), { v } );
    if( t == L )
        return b.CreateCall( rt( "sx_lconc", L, { L } ), { v } );
    return v;
}

static int predNo( CmpInst::Predicate p )
{
    return (int)p;
}

static void doCall( CallBase * cb )
{
    IRBuilder<> b( cb );
    Function * f = cb->getCalledFunction();
    if( cb->isInlineAsm() )
        return;
    if( !f )
        return;
    if( auto * ii = dyn_cast<IntrinsicInst>( cb ) )
    {
        Type * t = ii->getType();
        auto rep = [&]( Value * v ) {
            ii->replaceAllUsesWith( v );
            ii->eraseFromParent();
        };
        auto un = [&]( const char * n ) {
            if( t == D )
                rep( b.CreateCall( rt( std::string( "sx_w_" ) + n, D, { D } ), { ii->getArgOperand( 0 ) } ) );
            else if( t == L && ( ii->getIntrinsicID() == Intrinsic::fabs || ii->getIntrinsicID() == Intrinsic::sqrt ) )
                rep( b.CreateCall( rt( std::string( "sx_w_" ) + n + "l", L, { L } ), { ii->getArgOperand( 0 ) } ) );
        };
        auto bi = [&]( const char * n ) {
            if( t == D )
                rep( b.CreateCall(
                    rt( std::string( "sx_w_" ) + n, D, { D, D } ),
                    { ii->getArgOperand( 0 ), ii->getArgOperand( 1 ) } ) );
        };
        switch( ii->getIntrinsicID() )
        {
            case Intrinsic::fabs:
                return un( "fabs" );
            case Intrinsic::sqrt:
                return un( "sqrt" );
            case Intrinsic::floor:
                return un( "floor" );
            case Intrinsic::ceil:
                return un( "ceil" );
            case Intrinsic::trunc:
                return un( "trunc" );
            case Intrinsic::round:
                return un( "round" );
            case Intrinsic::rint:
                return un( "rint" );
            case Intrinsic::nearbyint:
                return un( "rint" );
            case Intrinsic::exp:
                return un( "exp" );
            case Intrinsic::exp2:
                return un( "exp2" );
            case Intrinsic::log:
                return un( "log" );
            case Intrinsic::log2:
                return un( "log2" );
            case Intrinsic::log10:
                return un( "log10" );
            case Intrinsic::sin:
                return un( "sin" );
            case Intrinsic::cos:
                return un( "cos" );
            case Intrinsic::pow:
                return bi( "pow" );
            case Intrinsic::minnum:
                return bi( "fmin" );
            case Intrinsic::maxnum:
                return bi( "fmax" );
            case Intrinsic::copysign:
                return bi( "copysign" );
            case Intrinsic::fma:
            case Intrinsic::fmuladd:
                if( t == D )
                    rep( b.CreateCall(
                        rt( "sx_w_fma", D, { D, D, D } ),
                        { ii->getArgOperand( 0 ), ii->getArgOperand( 1 ), ii->getArgOperand( 2 ) } ) );
                return;
            case Intrinsic::is_fpclass:
                if( ii->getArgOperand( 0 )->getType() == D )
                    rep( b.CreateCall(
                        rt( "sx_fpclass", I1, { D, I32 } ), { ii->getArgOperand( 0 ), ii->getArgOperand( 1 ) } ) );
                return;
            case Intrinsic::umin:
            case Intrinsic::umax:
            case Intrinsic::smin:
            case Intrinsic::smax:
            {
                if( !okInt( t ) )
                    return;
                auto id = ii->getIntrinsicID();
                int p   = id == Intrinsic::umin   ? CmpInst::ICMP_ULT
                          : id == Intrinsic::umax ? CmpInst::ICMP_UGT
                          : id == Intrinsic::smin ? CmpInst::ICMP_SLT
                                                  : CmpInst::ICMP_SGT;
                Value *x = ii->getArgOperand( 0 ), *y = ii->getArgOperand( 1 );
                Value * c
                    = b.CreateCall( rt( "sx_icmp" + W( t ), I1, { I32, t, t } ), { b.getInt32( p ), x, y } );
                rep( b.CreateSelect( c, x, y ) );
                return;
            }
            case Intrinsic::memcpy:
            case Intrinsic::memmove:
            case Intrinsic::memset:
            case Intrinsic::memcpy_inline:
                ii->setArgOperand( 2, conc( b, ii->getArgOperand( 2 ) ) );
                return;
            case Intrinsic::lifetime_start:
            case Intrinsic::lifetime_end:
            case Intrinsic::assume:
            case Intrinsic::expect:
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value:
            case Intrinsic::dbg_label:
            case Intrinsic::eh_typeid_for:
            case Intrinsic::is_constant:
            case Intrinsic::objectsize:
                return;
            default:
                break;
        }
        for( unsigned i = 0; i < ii->arg_size(); i++ )
            if( !ii->paramHasAttr( i, Attribute::ImmArg ) )
                ii->setArgOperand( i, conc( b, ii->getArgOperand( i ) ) );
        return;
    }
    if( f->isDeclaration() && !passThrough( f->getName() ) )
    {
        for( unsigned i = 0; i < cb->arg_size(); i++ )
        {
            Value * a = cb->getArgOperand( i );
            if( isa<MetadataAsValue>( a ) )
                continue;
            cb->setArgOperand( i, conc( b, a ) );
        }
    }
}

int main( int argc, char ** argv )
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile( argv[1], err, ctx );
    if( !mod )
    {
        err.print( "sxinst", errs() );
        return 1;
    }
    M   = mod.get();
    C   = &ctx;
    I1  = Type::getInt1Ty( ctx );
    I8  = Type::getInt8Ty( ctx );
    I32 = Type::getInt32Ty( ctx );
    I64 = Type::getInt64Ty( ctx );
    D   = Type::getDoubleTy( ctx );
    L   = Type::getX86_FP80Ty( ctx );
    V   = Type::getVoidTy( ctx );
    P   = PointerType::getUnqual( ctx );

    for( auto & f : *M )
    {
        std::string name = f.getName().str();
        if( name.rfind( "__isoc23_", 0 ) == 0 ) // newer C libraries' strtol and the like
            name = name.substr( 9 );
        if( name == "time" || name == "_ZNSt6chrono3_V212system_clock3nowEv"
            || name == "_ZNSt6chrono3_V212steady_clock3nowEv" ) // the solver needs the real ones
        {
            f.setName( "sx_c_" + name );
            continue;
        }
        if( f.isDeclaration() && wrapped.count( name ) )
        {
            f.setName( "sx_w_" + name );
            f.setAttributes( {} );
        }
    }
    std::vector<Function *> fs;
    for( auto & f : *M )
        if( !f.isDeclaration() )
            fs.push_back( &f );
    auto ends = []( Type * t ) { return okInt( t ); };
    unsigned nfn = 0;
    for( auto * f : fs )
    {
        std::vector<Instruction *> ins;
        for( auto & i : instructions( *f ) )
            ins.push_back( &i );
        // never let the optimiser reorder around the runtime calls
        f->removeFnAttr( Attribute::Memory );
        f->removeFnAttr( Attribute::WillReturn );
        for( auto * i : ins )
        {
            IRBuilder<> b( i );
            Type * t = i->getType();
            if( t->isVectorTy() && !isa<LoadInst>( i ) && !isa<PHINode>( i ) )
            {
                errs() << "sxinst: warning: vector operation in " << f->getName() << ": " << *i << "\n";
            }
            auto rep = [&]( Value * v ) {
                i->replaceAllUsesWith( v );
                i->eraseFromParent();
            };
            if( auto * bo = dyn_cast<BinaryOperator>( i ) )
            {
                Value *x = bo->getOperand( 0 ), *y = bo->getOperand( 1 );
                if( okInt( t ) )
                    rep( b.CreateCall(
                        rt( "sx_bin" + W( t ), t, { I32, t, t } ), { b.getInt32( bo->getOpcode() ), x, y } ) );
                else if( t == D )
                    rep( b.CreateCall( rt( "sx_fbin", D, { I32, D, D } ), { b.getInt32( bo->getOpcode() ), x, y } ) );
                else if( t == L )
                    rep( b.CreateCall( rt( "sx_lbin", L, { I32, L, L } ), { b.getInt32( bo->getOpcode() ), x, y } ) );
            }
            else if( auto * uo = dyn_cast<UnaryOperator>( i ) )
            {
                if( t == D && uo->getOpcode() == Instruction::FNeg )
                    rep( b.CreateCall( rt( "sx_fneg", D, { D } ), { uo->getOperand( 0 ) } ) );
                else if( t == L && uo->getOpcode() == Instruction::FNeg )
                    rep( b.CreateCall( rt( "sx_lneg", L, { L } ), { uo->getOperand( 0 ) } ) );
            }
            else if( auto * ic = dyn_cast<ICmpInst>( i ) )
            {
                Type * ot = ic->getOperand( 0 )->getType();
                if( okInt( ot ) )
                    rep( b.CreateCall(
                        rt( "sx_icmp" + W( ot ), I1, { I32, ot, ot } ),
                        { b.getInt32( predNo( ic->getPredicate() ) ), ic->getOperand( 0 ), ic->getOperand( 1 ) } ) );
            }
            else if( auto * fc = dyn_cast<FCmpInst>( i ) )
            {
                if( fc->getOperand( 0 )->getType() == D )
                    rep( b.CreateCall(
                        rt( "sx_fcmp", I1, { I32, D, D } ),
                        { b.getInt32( predNo( fc->getPredicate() ) ), fc->getOperand( 0 ), fc->getOperand( 1 ) } ) );
                else if( fc->getOperand( 0 )->getType() == L )
                    rep( b.CreateCall(
                        rt( "sx_lcmp", I1, { I32, L, L } ),
                        { b.getInt32( predNo( fc->getPredicate() ) ), fc->getOperand( 0 ), fc->getOperand( 1 ) } ) );
            }
            else if( auto * ci = dyn_cast<CastInst>( i ) )
            {
                Value * x = ci->getOperand( 0 );
                Type * st = x->getType();
                switch( ci->getOpcode() )
                {
                    case Instruction::Trunc:
                        if( okInt( st ) && okInt( t ) )
                            rep( b.CreateCall( rt( "sx_trunc" + W( st ) + "_" + W( t ), t, { st } ), { x } ) );
                        else if( okInt( st ) && t == I1 && st != I8 )
                            rep( b.CreateTrunc(
                                conc( b, b.CreateCall(
                                    rt( "sx_bin" + W( st ), st, { I32, st, st } ),
                                    { b.getInt32( Instruction::And ), x, ConstantInt::get( st, 1 ) } ) ),
                                t ) );
                        else if( okInt( st ) && t != I1 )
                            ci->setOperand( 0, conc( b, x ) );
                        break;
                    case Instruction::ZExt:
                    case Instruction::SExt:
                        if( okInt( st ) && okInt( t ) )
                            rep( b.CreateCall(
                                rt( ( ci->getOpcode() == Instruction::ZExt ? "sx_zext" : "sx_sext" ) + W( st ) + "_"
                                        + W( t ),
                                    t, { st } ),
                                { x } ) );
                        else if( okInt( st ) )
                            ci->setOperand( 0, conc( b, x ) );
                        break;
                    case Instruction::UIToFP:
                    case Instruction::SIToFP:
                        if( okInt( st ) )
                            ci->setOperand( 0, conc( b, x ) );
                        break;
                    case Instruction::FPToUI:
                    case Instruction::FPToSI:
                        if( st == D )
                        {
                            Value * v = b.CreateCall(
                                rt( "sx_fptoi", D, { D, I32, I32 } ),
                                { x, b.getInt32( t->getIntegerBitWidth() ),
                                  b.getInt32( ci->getOpcode() == Instruction::FPToSI ) } );
                            ci->setOperand( 0, v );
                        }
                        else if( st == L )
                            ci->setOperand( 0, conc( b, x ) );
                        break;
                    case Instruction::FPTrunc:
                    case Instruction::FPExt:
                        if( ( st == D || st == L ) && t != D && t != L )
                            ci->setOperand( 0, conc( b, x ) );
                        break;
                    default:
                        break;
                }
            }
            else if( auto * ge = dyn_cast<GetElementPtrInst>( i ) )
            {
                for( unsigned k = 1; k < ge->getNumOperands(); k++ )
                    ge->setOperand( k, conc( b, ge->getOperand( k ) ) );
            }
            else if( auto * al = dyn_cast<AllocaInst>( i ) )
            {
                al->setOperand( 0, conc( b, al->getArraySize() ) );
            }
            else if( auto * sw = dyn_cast<SwitchInst>( i ) )
            {
                Value * x = sw->getCondition();
                Type * ot = x->getType();
                if( okInt( ot ) && !isa<Constant>( x ) )
                {
                    std::vector<Constant *> cs;
                    for( auto & c : sw->cases() )
                        cs.push_back( ConstantInt::get( I64, c.getCaseValue()->getZExtValue() ) );
                    if( !cs.empty() )
                    {
                        auto * at = ArrayType::get( I64, cs.size() );
                        auto * g  = new GlobalVariable(
                            *M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get( at, cs ), "sx_cases" );
                        sw->setCondition( b.CreateCall(
                            rt( "sx_switch" + W( ot ), ot, { ot, I32, P } ),
                            { x, b.getInt32( cs.size() ), g } ) );
                    }
                }
            }
            else if( auto * cb = dyn_cast<CallBase>( i ) )
            {
                doCall( cb );
            }
        }
        // coverage and step counting
        std::string dn = demangle( f->getName().str() );
        StringRef mn( f->getName() );
        bool isRepo = mn.starts_with( "_ZN6Seldon" ) || mn.starts_with( "_ZNK6Seldon" ) || mn.starts_with( "_ZZN6Seldon" )
                      || mn.starts_with( "_ZZNK6Seldon" );
        for( auto & bb : *f )
        {
            IRBuilder<> b( &*bb.getFirstInsertionPt() );
            if( isa<CatchSwitchInst>( bb.getTerminator() ) )
                continue;
            b.CreateCall( rt( "sx_step", V, {} ), {} );
        }
        if( isRepo )
        {
            IRBuilder<> b( &*f->getEntryBlock().getFirstInsertionPt() );
            auto * s  = ConstantDataArray::getString( ctx, dn );
            auto * g  = new GlobalVariable( *M, s->getType(), true, GlobalValue::PrivateLinkage, s, "sx_fname" );
            auto * fl = new GlobalVariable(
                *M, I8, false, GlobalValue::PrivateLinkage, ConstantInt::get( I8, 0 ), "sx_fflag" );
            b.CreateCall( rt( "sx_fn", V, { P, P } ), { g, fl } );
            nfn++;
        }
    }
    (void)ends;
    if( verifyModule( *M, &errs() ) )
        return 1;
    std::error_code ec;
    raw_fd_ostream os( argv[2], ec, sys::fs::OF_None );
    WriteBitcodeToFile( *M, os );
    return 0;
}
