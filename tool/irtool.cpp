// irtool: normalise the linked bitcode of /repo (+ entry points) and export it as JSON.
//   irtool <in.bc> <config> <out.json>
// The config is a text file with lines
//   opaque <regex on demangled name>    body dropped: calls stay as events
//   inline <regex>                      exception to opaque (first matching line wins)
//   keep <regex>                        repository function that is not inlined (event, and exported)
//   entry <regex on the symbol name>    exported entry point
// Nothing is executed; the passes used are always-inline, sroa, early-cse, instsimplify.
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/UnifyFunctionExitNodes.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
using namespace llvm;

struct Rule { char kind; std::regex re; };
static std::vector<Rule> rules;
static std::vector<std::regex> entries;
static std::map<std::string,std::string> dem;
static std::string D(StringRef n){
  auto it=dem.find(n.str()); if(it!=dem.end()) return it->second;
  std::string s=demangle(n.str()); dem[n.str()]=s; return s;
}
// qualified function name (no return type) + "|" + parameters
static std::string qual(StringRef n){
  std::string nn=n.str(); ItaniumPartialDemangler P; if(P.partialDemangle(nn.c_str())||!P.isFunction()) return n.str()+"|";
  size_t N=0; char*a=P.getFunctionName(nullptr,&N); N=0; char*b=P.getFunctionParameters(nullptr,&N);
  std::string r=std::string(a?a:"")+"|"+(b?b:""); free(a); free(b); return r;
}
static char classify(Function&F){
  std::string n=F.getName().str();
  std::string d=qual(n);
  for(auto&r:rules) if((r.kind=='k'||r.kind=='o')&&std::regex_search(d,r.re)){ if(r.kind=='k') return 'k'; break; }
  for(auto&e:entries) if(std::regex_match(n,e)) return 'e';
  for(auto&r:rules) if(std::regex_search(d,r.re)) return r.kind;
  return 'i';
}

static json::OStream *J;
static const DataLayout *DL;
static std::map<const Value*,int> ids;
static std::map<const BasicBlock*,int> bids;

static void typeStr(Type*T){ std::string s; raw_string_ostream o(s); T->print(o); J->value(o.str()); }

static void op(const Value*V);
static void gepParts(const GEPOperator*G){
  unsigned bw=DL->getIndexTypeSizeInBits(G->getType());
  MapVector<Value*,APInt> var; APInt c(bw,0);
  if(!G->collectOffset(*DL,bw,var,c)){ J->attribute("bad",true); return; }
  J->attributeBegin("base"); op(G->getPointerOperand()); J->attributeEnd();
  J->attribute("off",c.getSExtValue());
  J->attributeArray("var",[&]{ for(auto&p:var){ J->array([&]{ op(p.first); J->value(p.second.getSExtValue()); }); } });
}
static void op(const Value*V){
  if(auto*C=dyn_cast<ConstantInt>(V)){
    J->object([&]{ J->attribute("k","c"); J->attribute("w",(int64_t)C->getBitWidth());
      SmallString<40> s; C->getValue().toStringUnsigned(s); J->attribute("v",s.str()); }); return; }
  if(isa<ConstantPointerNull>(V)){ J->object([&]{ J->attribute("k","null"); }); return; }
  if(isa<UndefValue>(V)){ J->object([&]{ J->attribute("k","undef"); }); return; }
  if(auto*CF=dyn_cast<ConstantFP>(V)){ SmallString<40> s; CF->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
    J->object([&]{ J->attribute("k","fp"); J->attribute("v",s.str()); J->attribute("w",(int64_t)CF->getType()->getPrimitiveSizeInBits().getFixedValue());}); return; }
  if(auto*G=dyn_cast<GlobalValue>(V)){ J->object([&]{ J->attribute("k","g"); J->attribute("n",G->getName()); }); return; }
  if(auto*A=dyn_cast<Argument>(V)){ J->object([&]{ J->attribute("k","a"); J->attribute("i",(int64_t)A->getArgNo()); }); return; }
  if(auto*G=dyn_cast<GEPOperator>(V)) if(isa<ConstantExpr>(V)){ J->object([&]{ J->attribute("k","gep"); gepParts(G); }); return; }
  if(auto*CE=dyn_cast<ConstantExpr>(V)){ J->object([&]{ J->attribute("k","ce"); J->attribute("o",CE->getOpcodeName());
      J->attributeArray("ops",[&]{ for(auto&u:CE->operands()) op(u.get()); }); }); return; }
  if(isa<ConstantAggregateZero>(V)){ J->object([&]{ J->attribute("k","zero"); }); return; }
  if(auto*B=dyn_cast<BasicBlock>(V)){ J->object([&]{ J->attribute("k","b"); J->attribute("i",(int64_t)bids[B]); }); return; }
  auto it=ids.find(V);
  if(it!=ids.end()){ J->object([&]{ J->attribute("k","v"); J->attribute("i",(int64_t)it->second); }); return; }
  J->object([&]{ J->attribute("k","other"); std::string s; raw_string_ostream o(s); V->printAsOperand(o,false); J->attribute("s",o.str()); });
}
static std::string file(const DILocation*L){
  std::string f=L->getFilename().str(); return f;
}
static void exportFn(Function&F,const char*kind){
  ids.clear(); bids.clear(); int n=0,b=0;
  for(auto&B:F){ bids[&B]=b++; for(auto&I:B) ids[&I]=n++; }
  J->object([&]{
    J->attribute("name",F.getName()); J->attribute("dem",D(F.getName())); J->attribute("kind",kind);
    if(auto*SP=F.getSubprogram()){ J->attribute("file",SP->getFilename()); J->attribute("line",(int64_t)SP->getLine()); }
    J->attributeBegin("ret"); typeStr(F.getReturnType()); J->attributeEnd();
    J->attributeArray("args",[&]{ for(auto&A:F.args()) J->object([&]{
        J->attributeBegin("t"); typeStr(A.getType()); J->attributeEnd();
        if(A.hasStructRetAttr()) J->attribute("sret",(int64_t)DL->getTypeAllocSize(A.getParamStructRetType()));
        if(A.hasByValAttr()) J->attribute("byval",(int64_t)DL->getTypeAllocSize(A.getParamByValType()));
    }); });
    J->attributeArray("blocks",[&]{ for(auto&B:F) J->array([&]{ for(auto&I:B){
      if(isa<DbgInfoIntrinsic>(I)) continue;
      J->object([&]{
        J->attribute("i",(int64_t)ids[&I]); J->attribute("o",I.getOpcodeName());
        if(!I.getType()->isVoidTy()){ J->attributeBegin("t"); typeStr(I.getType()); J->attributeEnd(); }
        if(auto L=I.getDebugLoc()){ J->attribute("l",file(L.get())+":"+std::to_string(L.getLine()));
          if(L.getInlinedAt()){ J->attributeArray("ia",[&]{ for(const DILocation*X=L.getInlinedAt();X;X=X->getInlinedAt()) J->value(file(X)+":"+std::to_string(X->getLine())); }); }
        }
        if(auto*G=dyn_cast<GEPOperator>(&I)){ gepParts(G); return; }
        if(auto*A=dyn_cast<AllocaInst>(&I)){ auto s=A->getAllocationSize(*DL); if(s) J->attribute("size",(int64_t)s->getFixedValue()); J->attributeBegin("at"); typeStr(A->getAllocatedType()); J->attributeEnd();
          J->attribute("vn",A->getName()); }
        if(auto*C=dyn_cast<ICmpInst>(&I)) J->attribute("p",CmpInst::getPredicateName(C->getPredicate()));
        if(auto*C=dyn_cast<FCmpInst>(&I)) J->attribute("p",CmpInst::getPredicateName(C->getPredicate()));
        if(isa<LoadInst>(I)){ J->attribute("sz",(int64_t)DL->getTypeStoreSize(I.getType())); if(cast<LoadInst>(I).isAtomic()) J->attribute("atomic",true);}
        if(auto*S=dyn_cast<StoreInst>(&I)){ J->attribute("sz",(int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType())); if(S->isAtomic()) J->attribute("atomic",true);}
        if(auto*P=dyn_cast<PHINode>(&I)){
          J->attributeArray("in",[&]{ for(unsigned k=0;k<P->getNumIncomingValues();k++) J->array([&]{ op(P->getIncomingValue(k)); J->value((int64_t)bids[P->getIncomingBlock(k)]); }); });
          return; }
        if(auto*S=dyn_cast<SwitchInst>(&I)){
          J->attributeBegin("c"); op(S->getCondition()); J->attributeEnd();
          J->attribute("d",(int64_t)bids[S->getDefaultDest()]);
          J->attributeArray("cases",[&]{ for(auto&c:S->cases()) J->array([&]{ op(c.getCaseValue()); J->value((int64_t)bids[c.getCaseSuccessor()]); }); });
          return; }
        if(auto*LP=dyn_cast<LandingPadInst>(&I)){
          J->attribute("cleanup",LP->isCleanup());
          J->attributeArray("clauses",[&]{ for(unsigned k=0;k<LP->getNumClauses();k++){ if(LP->isCatch(k)) op(LP->getClause(k)); else J->value("filter"); } });
          return; }
        if(auto*E=dyn_cast<ExtractValueInst>(&I)) J->attributeArray("idx",[&]{ for(auto k:E->indices()) J->value((int64_t)k); });
        if(auto*E=dyn_cast<InsertValueInst>(&I)) J->attributeArray("idx",[&]{ for(auto k:E->indices()) J->value((int64_t)k); });
        if(auto*CB=dyn_cast<CallBase>(&I)){
          const Value*cv=CB->getCalledOperand()->stripPointerCasts();
          if(auto*CF=dyn_cast<Function>(cv)){ J->attribute("f",CF->getName()); if(CF->isIntrinsic()) J->attribute("intr",true); }
          else { J->attributeBegin("fv"); op(cv); J->attributeEnd(); }
          if(CB->doesNotThrow()) J->attribute("nt",true);
          if(CB->doesNotReturn()) J->attribute("nr",true);
          if(CB->hasStructRetAttr()||(CB->arg_size()>0&&CB->paramHasAttr(0,Attribute::StructRet))) J->attribute("sret",(int64_t)DL->getTypeAllocSize(CB->getParamStructRetType(0)));
          J->attributeArray("a",[&]{ for(auto&u:CB->args()) op(u.get()); });
          for(unsigned k=0;k<CB->arg_size();k++) if(CB->isByValArgument(k)){ J->attributeArray("bv",[&]{ for(unsigned m=0;m<CB->arg_size();m++) if(CB->isByValArgument(m)) J->value((int64_t)m);}); break; }
          if(auto*IV=dyn_cast<InvokeInst>(&I)){ J->attribute("n",(int64_t)bids[IV->getNormalDest()]); J->attribute("u",(int64_t)bids[IV->getUnwindDest()]); }
          return; }
        J->attributeArray("a",[&]{ for(auto&u:I.operands()) op(u.get()); });
      });
    } }); });
  });
}
static std::string scopeName(const DIScope*S){
  std::string r; while(S && !isa<DIFile>(S) && !isa<DICompileUnit>(S)){ r = r.empty()?S->getName().str():S->getName().str()+"::"+r; S=S->getScope(); } return r;
}
static void ditype(const DIType*T,int depth=0){
  if(!T){ J->value("void"); return; }
  if(auto*B=dyn_cast<DIBasicType>(T)){ J->object([&]{ J->attribute("k","base"); J->attribute("n",B->getName()); J->attribute("s",(int64_t)B->getSizeInBits()/8); J->attribute("enc",(int64_t)B->getEncoding()); }); return; }
  if(auto*Dv=dyn_cast<DIDerivedType>(T)){
    unsigned t=Dv->getTag();
    J->object([&]{
      J->attribute("k",dwarf::TagString(t)); if(!Dv->getName().empty()) J->attribute("n",Dv->getName());
      if(depth<12){ J->attributeBegin("t"); ditype(Dv->getBaseType(),depth+1); J->attributeEnd(); }
    }); return; }
  if(auto*C=dyn_cast<DICompositeType>(T)){ J->object([&]{ J->attribute("k","rec"); J->attribute("tag",dwarf::TagString(C->getTag())); J->attribute("n",scopeName(C)); J->attribute("id",C->getIdentifier()); J->attribute("s",(int64_t)C->getSizeInBits()/8);
     if(C->getTag()==dwarf::DW_TAG_array_type){ J->attributeBegin("t"); ditype(C->getBaseType(),depth+1); J->attributeEnd(); } }); return; }
  if(auto*S=dyn_cast<DISubroutineType>(T)){ J->object([&]{ J->attribute("k","fn"); if(depth<6){ J->attributeArray("a",[&]{ for(auto*x:S->getTypeArray()) ditype(x,depth+1); }); } }); return; }
  J->value("?");
}
static bool interesting(const DICompositeType*C){
  auto f=C->getFilename(); return f.contains("cffi-interface");
}
static std::string acc(unsigned fl){ fl&=DINode::FlagAccessibility; return fl==DINode::FlagPublic?"public":fl==DINode::FlagPrivate?"private":fl==DINode::FlagProtected?"protected":""; }
static void exportDI(Module&M){
  DebugInfoFinder F; F.processModule(M);
  J->attributeArray("records",[&]{ for(auto*T:F.types()) if(auto*C=dyn_cast<DICompositeType>(T)) if(interesting(C)) {
     if(C->isForwardDecl()) continue;
     J->object([&]{
       J->attribute("n",scopeName(C)); J->attribute("tag",dwarf::TagString(C->getTag())); J->attribute("s",(int64_t)C->getSizeInBits()/8);
       J->attribute("file",C->getFilename()); J->attribute("line",(int64_t)C->getLine());
       J->attributeArray("el",[&]{ for(auto*E:C->getElements()){
          if(auto*En=dyn_cast<DIEnumerator>(E)) J->object([&]{ J->attribute("k","enumerator"); J->attribute("n",En->getName()); J->attribute("v",En->getValue().getSExtValue()); });
          else if(auto*Mb=dyn_cast<DIDerivedType>(E)) J->object([&]{ J->attribute("k",dwarf::TagString(Mb->getTag())); J->attribute("n",Mb->getName()); J->attribute("off",(int64_t)Mb->getOffsetInBits()/8); J->attribute("s",(int64_t)Mb->getSizeInBits()/8); J->attribute("static",(bool)Mb->isStaticMember()); J->attribute("acc",acc(Mb->getFlags()));
             J->attributeBegin("t"); ditype(Mb->getBaseType()); J->attributeEnd(); });
          else if(auto*SP=dyn_cast<DISubprogram>(E)) J->object([&]{ J->attribute("k","method"); J->attribute("n",SP->getName()); J->attribute("ln",SP->getLinkageName()); J->attribute("acc",acc(SP->getFlags())); J->attribute("deleted",(bool)SP->isDeleted()); J->attribute("static",(bool)(SP->getFlags()&DINode::FlagStaticMember)); J->attribute("line",(int64_t)SP->getLine());
             J->attributeBegin("t"); ditype(SP->getType()); J->attributeEnd(); });
       } });
     }); } });
  J->attributeArray("subprograms",[&]{ for(auto*SP:F.subprograms()) if(SP->getFilename().contains("cffi-interface")&&SP->isDefinition()) J->object([&]{ J->attribute("n",SP->getName()); J->attribute("ln",SP->getLinkageName()); J->attribute("file",SP->getFilename()); J->attribute("line",(int64_t)SP->getLine()); J->attributeBegin("t"); ditype(SP->getType()); J->attributeEnd(); }); });
}

int main(int argc,char**argv){
  LLVMContext Ctx; SMDiagnostic Err;
  auto M=parseIRFile(argv[1],Err,Ctx); if(!M){ Err.print("irtool",errs()); return 2; }
  DL=&M->getDataLayout();
  { std::ifstream in(argv[2]); std::string line; while(std::getline(in,line)){ if(line.empty()||line[0]=='#') continue; auto p=line.find(' '); std::string k=line.substr(0,p),r=line.substr(p+1);
      while(!r.empty()&&isspace(r.back())) r.pop_back();
      if(k=="entry") entries.emplace_back(r); else rules.push_back({k=="opaque"?'o':k=="keep"?'k':k=="drop"?'d':'i',std::regex(r)}); } }
  std::map<Function*,char> cls;
  for(auto&F:*M) if(!F.isDeclaration()) cls[&F]=classify(F);
  // names of functions whose definition lies in the repository
  std::set<std::string> repoFns;
  for(auto&F:*M) if(auto*SP=F.getSubprogram()) if(SP->getFilename().contains("cffi-interface")) repoFns.insert(F.getName().str());
  // drop global ctors/dtors and llvm.used
  for(const char*g:{"llvm.global_ctors","llvm.global_dtors","llvm.used","llvm.compiler.used"}) if(auto*G=M->getGlobalVariable(g)) G->eraseFromParent();
  std::vector<Function*> all; for(auto&F:*M) all.push_back(&F);
  for(auto*F:all){ if(F->isDeclaration()) continue;
    if(cls[F]=='o'){ F->deleteBody(); F->setComdat(nullptr); }
    else if(cls[F]=='e'||cls[F]=='k'){ F->setLinkage(GlobalValue::ExternalLinkage); F->setComdat(nullptr); }
    else { F->setComdat(nullptr); F->setLinkage(GlobalValue::InternalLinkage); }
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  { ModulePassManager P; P.addPass(GlobalDCEPass()); P.run(*M,MAM); }
  // recursion: in every SCC keep the functions called from outside of it, inline the others
  std::set<Function*> kept;
  std::set<std::string> recursive;
  for(int round=0;round<50;round++){
    CallGraph CG(*M); bool changed=false;
    // build our own graph ignoring kept functions
    std::map<Function*,std::set<Function*>> succ,pred;
    for(auto&F:*M) if(!F.isDeclaration()) for(auto&I:instructions(F)) if(auto*CB=dyn_cast<CallBase>(&I)) if(auto*C=CB->getCalledFunction()) if(!C->isDeclaration()){ succ[&F].insert(C); pred[C].insert(&F); }
    // Tarjan over non-kept nodes
    std::map<Function*,int> idx,low; std::set<Function*> on; std::vector<Function*> st; int cnt=0; std::vector<std::vector<Function*>> sccs;
    std::function<void(Function*)> dfs=[&](Function*v){ idx[v]=low[v]=cnt++; st.push_back(v); on.insert(v);
      for(auto*w:succ[v]){ if(kept.count(w)) continue; if(!idx.count(w)){ dfs(w); low[v]=std::min(low[v],low[w]); } else if(on.count(w)) low[v]=std::min(low[v],idx[w]); }
      if(low[v]==idx[v]){ std::vector<Function*> c; Function*w; do{ w=st.back(); st.pop_back(); on.erase(w); c.push_back(w);}while(w!=v); sccs.push_back(c);} };
    for(auto&F:*M) if(!F.isDeclaration()&&!kept.count(&F)&&!idx.count(&F)) dfs(&F);
    for(auto&c:sccs){ bool rec=c.size()>1||succ[c[0]].count(c[0]); if(!rec) continue; std::set<Function*> S(c.begin(),c.end());
      bool any=false; for(auto*f:c){ bool outside=false; for(auto*p:pred[f]) if(!S.count(p)) outside=true; if(outside){ kept.insert(f); recursive.insert(f->getName().str()); any=true; } }
      if(!any){ kept.insert(c[0]); recursive.insert(c[0]->getName().str()); } changed=true; }
    if(!changed) break;
  }
  for(auto&F:*M){ if(F.isDeclaration()) continue; char c=cls[&F];
    F.removeFnAttr(Attribute::OptimizeNone);
    if(c=='k'||kept.count(&F)){ F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); if(c!='e') F.setLinkage(GlobalValue::ExternalLinkage); }
    else { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
  }
  if(getenv("IRTOOL_LIST")) for(auto&F:*M) if(!F.isDeclaration()) errs()<<"BODY "<<F.getInstructionCount()<<" "<<qual(F.getName())<<"\n";
  { ModulePassManager P; P.addPass(AlwaysInlinerPass(false)); P.addPass(GlobalDCEPass());
    FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); FP.addPass(EarlyCSEPass(false)); FP.addPass(InstSimplifyPass()); FP.addPass(SROAPass(SROAOptions::PreserveCFG));
    P.addPass(createModuleToFunctionPassAdaptor(std::move(FP)));
    P.addPass(GlobalDCEPass());
    P.run(*M,MAM); }
  for(auto&F:*M) for(bool ch=true;ch;){ ch=false; for(auto it=F.begin();it!=F.end();){ BasicBlock*B=&*it++; if(B!=&F.getEntryBlock()&&MergeBlockIntoPredecessor(B)) ch=true; } }
  if(verifyModule(*M,&errs())) return 3;
  std::error_code EC; raw_fd_ostream OS(argv[3],EC); json::OStream JS(OS,0); J=&JS;
  JS.object([&]{
    JS.attributeArray("functions",[&]{ for(auto&F:*M) if(!F.isDeclaration()){ char c=cls[&F]; exportFn(F,c=='e'?"entry":kept.count(&F)?"recursive":c=='k'?"keep":"rest"); } });
    JS.attributeObject("decls",[&]{ for(auto&F:*M) JS.attribute(F.getName(),qual(F.getName())); });
    JS.attributeArray("repo",[&]{ for(auto&n:repoFns) JS.value(n); });
    JS.attributeObject("globals",[&]{ for(auto&G:M->globals()) JS.attributeObject(G.getName(),[&]{
       JS.attribute("const",G.isConstant()); JS.attribute("tls",G.isThreadLocal()); JS.attribute("dem",D(G.getName())); JS.attribute("size",(int64_t)DL->getTypeAllocSize(G.getValueType()));
       JS.attribute("decl",G.isDeclaration());
       SmallVector<DIGlobalVariableExpression*,2> gv; G.getDebugInfo(gv); if(!gv.empty()){ auto*v=gv[0]->getVariable(); JS.attribute("file",v->getFilename()); JS.attribute("line",(int64_t)v->getLine()); }
       if(G.hasInitializer()){ if(auto*CD=dyn_cast<ConstantDataSequential>(G.getInitializer())) { if(CD->isString()){ std::string s=CD->getAsString().str(); while(!s.empty()&&s.back()==0) s.pop_back(); JS.attribute("str",json::fixUTF8(s)); }
            else if(CD->getElementType()->isIntegerTy()) JS.attributeArray("ints",[&]{ for(unsigned k=0;k<CD->getNumElements();k++) JS.value((int64_t)CD->getElementAsInteger(k)); }); if(CD->getElementType()->isIntegerTy()) JS.attribute("esz",(int64_t)CD->getElementByteSize()); }
          else if(auto*CI=dyn_cast<ConstantInt>(G.getInitializer())) JS.attribute("int",(int64_t)CI->getZExtValue());
          else if(G.getInitializer()->isNullValue()) JS.attribute("zero",true);
          if(G.getName().starts_with("_ZTI")) JS.attributeArray("refs",[&]{ for(auto&U:G.getInitializer()->operands()) if(auto*R=dyn_cast<GlobalVariable>(U->stripPointerCasts())) if(R->getName().starts_with("_ZTI")) JS.value(R->getName()); }); }
    }); });
    exportDI(*M);
  });
  OS.flush();
  return 0;
}
