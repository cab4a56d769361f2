// irdump: links LLVM bitcode modules, removes the bodies of functions the analysis models,
// runs a small canonicalisation pipeline, and writes the program as JSON for the analyser.
// usage: irdump OUT.json STRIPLIST PIPELINE in1.bc in2.bc ...
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object;
typedef json::Value J;

static const DataLayout* DL;
static std::map<Type*, int> typeIds;
static Array typeTable;
static std::map<std::string, int> fileIds;
static Array fileTable;

static int typeId( Type* t ) {
	auto it = typeIds.find( t );
	if ( it != typeIds.end() ) return it->second;
	Object o;
	uint64_t size = t->isSized() ? (uint64_t)DL->getTypeAllocSize( t ) : 0;
	if ( t->isIntegerTy() ) { o["k"] = "i"; o["bits"] = (int64_t)t->getIntegerBitWidth(); }
	else if ( t->isFloatTy() ) { o["k"] = "f"; o["bits"] = 32; }
	else if ( t->isDoubleTy() ) { o["k"] = "f"; o["bits"] = 64; }
	else if ( t->isX86_FP80Ty() ) { o["k"] = "f"; o["bits"] = 80; }
	else if ( t->isPointerTy() ) o["k"] = "p";
	else if ( t->isVoidTy() ) o["k"] = "v";
	else if ( auto st = dyn_cast<StructType>( t ) ) {
		o["k"] = "s"; Array e;
		if ( !st->isOpaque() ) { auto sl = DL->getStructLayout( st );
			for ( unsigned i = 0; i < st->getNumElements(); ++i ) { Array x; x.push_back( (int64_t)(uint64_t)sl->getElementOffset( i ) ); x.push_back( typeId( st->getElementType( i ) ) ); e.push_back( std::move( x ) ); } }
		o["e"] = std::move( e );
		if ( st->hasName() ) o["name"] = st->getName();
	}
	else if ( auto at = dyn_cast<ArrayType>( t ) ) { o["k"] = "a"; o["n"] = (int64_t)at->getNumElements(); o["et"] = typeId( at->getElementType() ); o["es"] = (int64_t)(uint64_t)DL->getTypeAllocSize( at->getElementType() ); }
	else if ( auto vt = dyn_cast<FixedVectorType>( t ) ) { o["k"] = "a"; o["vec"] = true; o["n"] = (int64_t)vt->getNumElements(); o["et"] = typeId( vt->getElementType() ); o["es"] = (int64_t)(uint64_t)DL->getTypeAllocSize( vt->getElementType() ); }
	else o["k"] = "?";
	o["size"] = (int64_t)size;
	int id = (int)typeTable.size();
	typeTable.push_back( std::move( o ) );
	typeIds[ t ] = id;
	return id;
}

struct FnCtx { std::map<const Value*, int> slots; std::map<const BasicBlock*, int> blocks; };

static J constant( const Constant* c );
static J operand( const Value* v, FnCtx* fc ) {
	if ( fc ) { auto it = fc->slots.find( v ); if ( it != fc->slots.end() ) return Array{ "r", it->second }; }
	if ( auto c = dyn_cast<Constant>( v ) ) return constant( c );
	if ( isa<InlineAsm>( v ) ) return Array{ "asm" };
	if ( isa<MetadataAsValue>( v ) ) return Array{ "md" };
	return Array{ "?" };
}
static J constant( const Constant* c ) {
	if ( auto ci = dyn_cast<ConstantInt>( c ) ) {
		SmallString<40> s; ci->getValue().toString( s, 10, true );
		if ( ci->getBitWidth() <= 64 ) return Array{ "i", ci->getSExtValue(), (int64_t)ci->getBitWidth() };
		return Array{ "I", s.str().str(), (int64_t)ci->getBitWidth() };
	}
	if ( auto cf = dyn_cast<ConstantFP>( c ) ) {
		APFloat f = cf->getValueAPF(); bool li; 
		f.convert( APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li );
		uint64_t b = f.bitcastToAPInt().getZExtValue();
		return Array{ "f", std::to_string( b ) };
	}
	if ( isa<ConstantPointerNull>( c ) ) return Array{ "n" };
	if ( isa<UndefValue>( c ) ) return Array{ "u", typeId( c->getType() ) };
	if ( isa<ConstantAggregateZero>( c ) ) return Array{ "z", typeId( c->getType() ) };
	if ( auto f = dyn_cast<Function>( c ) ) return Array{ "fn", f->getName().str() };
	if ( auto g = dyn_cast<GlobalVariable>( c ) ) return Array{ "g", g->getName().str(), 0 };
	if ( auto a = dyn_cast<GlobalAlias>( c ) ) return constant( a->getAliasee() );
	if ( auto cd = dyn_cast<ConstantDataSequential>( c ) ) { Array e; for ( unsigned i = 0; i < cd->getNumElements(); ++i ) e.push_back( constant( cd->getElementAsConstant( i ) ) ); return Array{ "A", typeId( c->getType() ), std::move( e ) }; }
	if ( auto ca = dyn_cast<ConstantAggregate>( c ) ) { Array e; for ( unsigned i = 0; i < ca->getNumOperands(); ++i ) e.push_back( constant( ca->getOperand( i ) ) ); return Array{ "A", typeId( c->getType() ), std::move( e ) }; }
	if ( auto ce = dyn_cast<ConstantExpr>( c ) ) {
		if ( auto gep = dyn_cast<GEPOperator>( ce ) ) {
			APInt off( 64, 0 );
			if ( gep->accumulateConstantOffset( *DL, off ) ) return Array{ "ge", constant( cast<Constant>( gep->getPointerOperand() ) ), off.getSExtValue() };
			return Array{ "?" };
		}
		Array e; for ( unsigned i = 0; i < ce->getNumOperands(); ++i ) e.push_back( constant( ce->getOperand( i ) ) );
		return Array{ "ce", ce->getOpcodeName(), typeId( ce->getType() ), std::move( e ) };
	}
	return Array{ "?" };
}

static void flatten( const Constant* c, int64_t off, Array& out ) {
	if ( c->isNullValue() && !c->getType()->isPointerTy() ) { out.push_back( Array{ "zero", off, (int64_t)(uint64_t)DL->getTypeAllocSize( c->getType() ) } ); return; }
	if ( isa<UndefValue>( c ) ) return;
	if ( auto cd = dyn_cast<ConstantDataSequential>( c ) ) {
		if ( cd->getElementType()->isIntegerTy( 8 ) ) {
			std::string h; const char* d = "0123456789abcdef";
			for ( unsigned char ch : cd->getRawDataValues() ) { h += d[ ch >> 4 ]; h += d[ ch & 15 ]; }
			out.push_back( Array{ "bytes", off, h } ); return;
		}
		for ( unsigned i = 0; i < cd->getNumElements(); ++i ) flatten( cd->getElementAsConstant( i ), off + i * cd->getElementByteSize(), out );
		return;
	}
	if ( auto cs = dyn_cast<ConstantStruct>( c ) ) { auto sl = DL->getStructLayout( cs->getType() );
		for ( unsigned i = 0; i < cs->getNumOperands(); ++i ) flatten( cs->getOperand( i ), off + (int64_t)(uint64_t)sl->getElementOffset( i ), out ); return; }
	if ( auto ca = dyn_cast<ConstantAggregate>( c ) ) { uint64_t es = DL->getTypeAllocSize( ca->getOperand( 0 )->getType() );
		for ( unsigned i = 0; i < ca->getNumOperands(); ++i ) flatten( ca->getOperand( i ), off + i * es, out ); return; }
	out.push_back( Array{ "val", off, typeId( c->getType() ), constant( c ) } );
}

static J loc( const Instruction& I ) {
	const DILocation* d = I.getDebugLoc().get();
	if ( !d ) return 0;
	std::string f = d->getFilename().str(); if ( !f.empty() && f[ 0 ] != '/' ) f = d->getDirectory().str() + "/" + f;
	auto it = fileIds.find( f ); int id;
	if ( it == fileIds.end() ) { id = (int)fileTable.size(); fileTable.push_back( f ); fileIds[ f ] = id; } else id = it->second;
	return (int64_t)id * 1000000 + d->getLine();
}

static J inst( Instruction& I, FnCtx& fc ) {
	Object o;
	o["op"] = I.getOpcodeName();
	if ( !I.getType()->isVoidTy() ) o["d"] = fc.slots[ &I ];
	o["t"] = typeId( I.getType() );
	o["l"] = loc( I );
	auto ops = [&]() { Array a; for ( auto& u : I.operands() ) a.push_back( operand( u.get(), &fc ) ); return a; };
	auto bb = [&]( BasicBlock* b ) { return fc.blocks[ b ]; };
	if ( auto g = dyn_cast<GetElementPtrInst>( &I ) ) {
		MapVector<Value*, APInt> vo; APInt co( 64, 0 );
		if ( !g->getType()->isVectorTy() && g->collectOffset( *DL, 64, vo, co ) ) {
			Array v; for ( auto& p : vo ) v.push_back( Array{ operand( p.first, &fc ), p.second.getSExtValue(), (int64_t)p.first->getType()->getIntegerBitWidth() } );
			o["b"] = operand( g->getPointerOperand(), &fc ); o["c"] = co.getSExtValue(); o["v"] = std::move( v );
		} else o["op"] = "?gep";
	}
	else if ( auto c = dyn_cast<CallBase>( &I ) ) {
		Array a; Array byv;
		for ( unsigned i = 0; i < c->arg_size(); ++i ) { a.push_back( operand( c->getArgOperand( i ), &fc ) );
			byv.push_back( c->isByValArgument( i ) ? (int64_t)(uint64_t)DL->getTypeAllocSize( c->getParamByValType( i ) ) : (int64_t)-1 ); }
		Array at; for ( unsigned i = 0; i < c->arg_size(); ++i ) at.push_back( typeId( c->getArgOperand( i )->getType() ) );
		o["a"] = std::move( a ); o["at"] = std::move( at );
		bool any = false; for ( unsigned i = 0; i < c->arg_size(); ++i ) any |= c->isByValArgument( i );
		if ( any ) o["bv"] = std::move( byv );
		o["f"] = operand( c->getCalledOperand(), &fc );
		if ( auto iv = dyn_cast<InvokeInst>( &I ) ) { o["n"] = bb( iv->getNormalDest() ); o["u"] = bb( iv->getUnwindDest() ); }
	}
	else if ( auto b = dyn_cast<BranchInst>( &I ) ) {
		if ( b->isConditional() ) { o["c"] = operand( b->getCondition(), &fc ); o["bt"] = bb( b->getSuccessor( 0 ) ); o["bf"] = bb( b->getSuccessor( 1 ) ); }
		else o["bt"] = bb( b->getSuccessor( 0 ) );
	}
	else if ( auto s = dyn_cast<SwitchInst>( &I ) ) {
		o["c"] = operand( s->getCondition(), &fc ); o["def"] = bb( s->getDefaultDest() );
		Array cs; for ( auto& k : s->cases() ) cs.push_back( Array{ k.getCaseValue()->getSExtValue(), bb( k.getCaseSuccessor() ) } );
		o["cs"] = std::move( cs ); o["bits"] = (int64_t)s->getCondition()->getType()->getIntegerBitWidth();
	}
	else if ( auto p = dyn_cast<PHINode>( &I ) ) {
		Array in; for ( unsigned i = 0; i < p->getNumIncomingValues(); ++i ) in.push_back( Array{ bb( p->getIncomingBlock( i ) ), operand( p->getIncomingValue( i ), &fc ) } );
		o["in"] = std::move( in );
	}
	else if ( auto al = dyn_cast<AllocaInst>( &I ) ) { o["sz"] = (int64_t)(uint64_t)DL->getTypeAllocSize( al->getAllocatedType() ); o["n"] = operand( al->getArraySize(), &fc ); }
	else if ( auto st = dyn_cast<StoreInst>( &I ) ) { o["vt"] = typeId( st->getValueOperand()->getType() ); o["o"] = ops(); }
	else if ( auto lp = dyn_cast<LandingPadInst>( &I ) ) {
		o["cleanup"] = lp->isCleanup(); Array cl;
		for ( unsigned i = 0; i < lp->getNumClauses(); ++i ) cl.push_back( Array{ lp->isCatch( i ) ? "catch" : "filter", constant( lp->getClause( i ) ) } );
		o["cl"] = std::move( cl );
	}
	else if ( auto cm = dyn_cast<CmpInst>( &I ) ) { o["p"] = CmpInst::getPredicateName( cm->getPredicate() ); o["ot"] = typeId( cm->getOperand( 0 )->getType() ); o["o"] = ops(); }
	else if ( auto ev = dyn_cast<ExtractValueInst>( &I ) ) { o["o"] = ops(); Array x; for ( auto i : ev->indices() ) x.push_back( (int64_t)i ); o["x"] = std::move( x ); }
	else if ( auto iv = dyn_cast<InsertValueInst>( &I ) ) { o["o"] = ops(); Array x; for ( auto i : iv->indices() ) x.push_back( (int64_t)i ); o["x"] = std::move( x ); }
	else if ( auto sv = dyn_cast<ShuffleVectorInst>( &I ) ) { o["o"] = ops(); Array x; for ( auto i : sv->getShuffleMask() ) x.push_back( (int64_t)i ); o["x"] = std::move( x ); }
	else if ( auto rm = dyn_cast<AtomicRMWInst>( &I ) ) { o["o"] = ops(); o["rmw"] = AtomicRMWInst::getOperationName( rm->getOperation() ).str(); }
	else {
		o["o"] = ops();
		if ( isa<CastInst>( &I ) ) o["ot"] = typeId( I.getOperand( 0 )->getType() );
	}
	return std::move( o );
}

int main( int argc, char** argv ) {
	if ( argc < 5 ) return 2;
	LLVMContext ctx; SMDiagnostic err;
	auto M = std::make_unique<Module>( "prog", ctx );
	Linker L( *M );
	for ( int i = 4; i < argc; ++i ) {
		auto m = parseIRFile( argv[ i ], err, ctx );
		if ( !m ) { err.print( "irdump", errs() ); return 2; }
		if ( L.linkInModule( std::move( m ), Linker::OverrideFromSrc * 0 ) ) { errs() << "link failed: " << argv[ i ] << "\n"; return 2; }
	}
	// strip modelled functions
	std::vector<Regex> rx;
	auto mb = MemoryBuffer::getFile( argv[ 2 ] );
	if ( mb ) { SmallVector<StringRef, 64> lines; ( *mb )->getBuffer().split( lines, '\n' );
		for ( auto l : lines ) { l = l.trim(); if ( !l.empty() && !l.starts_with( "#" ) ) rx.emplace_back( l ); } }
	std::map<std::string, std::string> dem;
	for ( auto& f : *M ) {
		std::string d = demangle( f.getName().str() ); dem[ f.getName().str() ] = d;
		if ( f.isDeclaration() ) continue;
		f.removeFnAttr( Attribute::OptimizeNone ); 
		if ( f.hasFnAttribute( Attribute::NoInline ) && !f.getName().starts_with( "drv_" ) ) f.removeFnAttr( Attribute::NoInline );
		for ( auto& r : rx ) if ( r.match( d ) || r.match( f.getName() ) ) { f.deleteBody(); f.setComdat( nullptr ); f.addFnAttr( Attribute::NoInline ); break; }
	}
	std::string pipe = argv[ 3 ];
	if ( !pipe.empty() && pipe != "none" ) {
		PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
		PB.registerModuleAnalyses( MAM ); PB.registerCGSCCAnalyses( CGAM ); PB.registerFunctionAnalyses( FAM ); PB.registerLoopAnalyses( LAM );
		PB.crossRegisterProxies( LAM, FAM, CGAM, MAM );
		ModulePassManager MPM;
		if ( auto e = PB.parsePassPipeline( MPM, pipe ) ) { errs() << "bad pipeline: " << toString( std::move( e ) ) << "\n"; return 2; }
		MPM.run( *M, MAM );
	}
	DL = &M->getDataLayout();
	Object root; Object fns;
	for ( auto& f : *M ) {
		Object fo; fo["dem"] = demangle( f.getName().str() ); fo["ret"] = typeId( f.getReturnType() ); fo["va"] = f.isVarArg();
		if ( f.isIntrinsic() ) fo["intr"] = true;
		if ( !f.isDeclaration() ) {
			FnCtx fc; int n = 0; Array args;
			for ( auto& a : f.args() ) { fc.slots[ &a ] = n++; args.push_back( typeId( a.getType() ) ); }
			int b = 0; for ( auto& bbk : f ) { fc.blocks[ &bbk ] = b++; for ( auto& I : bbk ) if ( !I.getType()->isVoidTy() ) fc.slots[ &I ] = n++; }
			Array blocks;
			for ( auto& bbk : f ) { Array is; for ( auto& I : bbk ) { if ( isa<DbgInfoIntrinsic>( &I ) ) continue; is.push_back( inst( I, fc ) ); } blocks.push_back( std::move( is ) ); }
			fo["args"] = std::move( args ); fo["n"] = n; fo["b"] = std::move( blocks );
			if ( auto sp = f.getSubprogram() ) { std::string n = sp->getFilename().str(); if ( !n.empty() && n[ 0 ] != '/' ) n = sp->getDirectory().str() + "/" + n; fo["file"] = n; fo["line"] = (int64_t)sp->getLine(); }
			if ( f.getAddressSpace() == 0 && f.hasInternalLinkage() ) fo["int"] = true;
		}
		fns[ f.getName() ] = std::move( fo );
	}
	Object gl;
	for ( auto& g : M->globals() ) {
		Object go; go["size"] = (int64_t)(uint64_t)DL->getTypeAllocSize( g.getValueType() ); go["const"] = g.isConstant();
		if ( g.hasInitializer() ) { Array in; if ( g.getName() == "llvm.global_ctors" ) go["ctors"] = constant( g.getInitializer() ); else flatten( g.getInitializer(), 0, in ); go["init"] = std::move( in ); }
		gl[ g.getName() ] = std::move( go );
	}
	root["fns"] = std::move( fns ); root["globals"] = std::move( gl ); root["types"] = std::move( typeTable ); root["files"] = std::move( fileTable );
	std::error_code ec; raw_fd_ostream out( argv[ 1 ], ec ); out << J( std::move( root ) );
	return ec ? 2 : 0;
}
