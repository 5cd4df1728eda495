// Records flat traversals, dimension queries and text output of nested vectors and matrices (spec/Flat.tla).
#include <config.h>
#include "flat.hh"
#include <fstream>
#include <functional>
#include <dune/common/parallel/mpihelper.hh>
#include <dune/istl/foreach.hh>
#include <dune/istl/io.hh>
#include <dune/istl/blocklevel.hh>
#include <dune/istl/matrixutils.hh>
#include <dune/istl/owneroverlapcopy.hh>
using namespace vt; using namespace Dune;
std::ofstream out; std::string dir; int rank_,np_;
std::string dj(const Dim& d){ std::string s; for(auto& x:d.s) s+=(s.empty()?"":",")+dj(x); return "{\"n\":"+std::to_string(d.flat())+",\"s\":["+s+"]}"; }
// numbers with integer value become integers, complex numbers "(re,im)"
std::string norm(const std::string& t){ char* e; if(t.size()>2&&t[0]=='('){ double a=strtod(t.c_str()+1,&e); if(*e==','){ double b=strtod(e+1,&e); if(*e==')'&&!e[1]) return "("+std::to_string(std::lround(a))+","+std::to_string(std::lround(b))+")"; } return t; } double v=strtod(t.c_str(),&e); if(*e||t.empty()||v!=std::floor(v)) return t; return std::to_string(std::lround(v)); }
std::vector<std::string> toks(const std::string& l,bool split=false){ std::string s; for(char c:l) if(split&&(c=='|'||c==':')){ s+=' '; s+=c; s+=' '; } else s+=c; std::istringstream is(s); std::vector<std::string> r; std::string t; while(is>>t) r.push_back(norm(t)); return r; }
std::vector<std::vector<std::string>> lines(std::istream& s,bool split=false){ std::vector<std::vector<std::string>> r; std::string l; while(std::getline(s,l)){ auto t=toks(l,split); if(!t.empty()) r.push_back(t); } return r; }
std::vector<int> title(std::istream& s,const std::string& t,int k){ std::string l; std::getline(s,l); std::vector<int> r; if(l.compare(0,t.size(),t)) return r; const char* p=l.c_str()+t.size(); while(*p&&int(r.size())<k){ if(isdigit(*p)||(*p=='-'&&isdigit(p[1]))){ char* e; r.push_back(int(strtol(p,&e,10))); p=e; } else ++p; } return r; }
std::string ij(const std::vector<std::vector<std::string>>& L){ std::string r="["; for(std::size_t i=0;i<L.size();++i){ r+=i?",[":"["; for(std::size_t j=0;j<L[i].size();++j) r+=std::string(j?",":"")+(L[i][j].find_first_not_of("-0123456789")==std::string::npos?L[i][j]:"-77777"); r+="]"; } return r+"]"; }
bool positive(const Dim& d,bool top){ if(d.leaf) return true; if(!top&&d.s.empty()) return false; for(auto& x:d.s) if(!positive(x,false)) return false; return true; }
void uniform(Dim& d){ for(auto& x:d.s) uniform(x); for(auto& x:d.s) if(!x.leaf||!d.s[0].leaf) x=d.s[0]; }
// the rectangles of an SVG drawing with absolute positions, and the nested viewports
std::string svg(const std::string& x,int& open,int& close){ std::vector<std::pair<int,int>> org{{0,0}}; std::string r; open=close=0; auto num=[](const std::string& t,const char* k){ auto p=t.find(std::string(" ")+k+"='"); return p==std::string::npos?-77777:int(std::strtod(t.c_str()+p+strlen(k)+3,nullptr)); }; std::size_t p=0; while((p=x.find('<',p))!=std::string::npos){ auto e=x.find('>',p); if(e==std::string::npos) break; std::string t=x.substr(p,e-p); if(t.compare(0,2,"</")==0) ++close; else ++open; auto cur=org.back();
    if(t.compare(0,7,"<svg x=")==0){ org.push_back({cur.first+num(t,"x"),cur.second+num(t,"y")}); r+=(r.empty()?"":",")+std::string("{\"k\":\"view\",\"rp\":[],\"cp\":[],\"v\":\"\",\"box\":")+js(std::vector<int>{org.back().first,org.back().second,num(t,"width"),num(t,"height")})+"}"; }
    else if(t.compare(0,4,"<svg")==0){ org.push_back({0,0}); r+=(r.empty()?"":",")+std::string("{\"k\":\"head\",\"rp\":[],\"cp\":[],\"v\":\"\",\"box\":")+js(std::vector<int>{0,0,num(t,"width"),num(t,"height")})+"}"; } else if(t.compare(0,6,"</svg>")==0||t=="</svg"){ if(t=="</svg"&&org.size()>1) org.pop_back(); }
    else if(t.compare(0,5,"<rect")==0){ std::vector<int> a,b; std::string v; auto q=x.find("</rect>",p),tt=x.find("<title>",p); if(tt!=std::string::npos&&tt<q){ std::string c=x.substr(tt+7,x.find("</title>",tt)-tt-7); const char* z=c.c_str(); while(*z=='['){ char* n; a.push_back(int(strtol(z+1,&n,10))); z=n; if(*z==',') ++z; b.push_back(int(strtol(z,&n,10))); z=n; if(*z==']') ++z; } if(*z==':') v=norm(toks(z+1)[0]); }
      r+=(r.empty()?"":",")+std::string("{\"k\":\"rect\",\"rp\":")+js(a)+",\"cp\":"+js(b)+",\"v\":"+js(v)+",\"box\":"+js(std::vector<int>{cur.first+num(t,"x"),cur.second+num(t,"y"),num(t,"width"),num(t,"height")})+"}"; }
    p=e; } return "["+r+"]"; }
enum { FLAT=1,DIM=2,ML=4,PR=8,SP=16,SVG=32 };
template<class M,int ops> void mat(const char* type,Rng& g,int elvmax,int elvmin,bool square=false,bool pos=false,bool uni=true,bool full=false){
  Dim rd,cd; M A; Tab t; for(int tries=0;;++tries){ for(int t=0;t<200;++t){ rd=Mat<M>::rdim(g,3); cd=square?rd:Mat<M>::cdim(g,3); if(uni){ uniform(rd); if(square) cd=rd; uniform(cd); } if(positive(rd,!pos)&&positive(cd,!pos)) break; }
    A=M(); t.clear(); Mat<M>::fill(A,g,rd,cd,{},{},0,0,t); if(!full) break;
    // sizes of nested dynamic blocks are known only where an entry exists
    std::set<int> rs,cs; for(auto& e:t){ rs.insert(e.rp[0]); cs.insert(e.cp[0]); } if(rs.size()==rd.s.size()&&cs.size()==cd.s.size()) break; if(tries==50) return; }
  using K=typename M::field_type; constexpr bool cx=Sc<K>::cx; int mr=int(rd.s.size()),mc=int(cd.s.size());
  auto base=[&](const char* op){ Obj o; o.f("kind",std::string("mat")).f("type",std::string(type)).f("op",std::string(op)).raw("rd",dj(rd)).raw("cd",dj(cd)).f("tab",t).f("cx",cx); return o; };
  if constexpr(ops&FLAT){ int a=g.chance(50)?0:int(g.in(0,9)),b=g.chance(50)?0:int(g.in(0,9)); Flat seq; bool ok=true; auto f=[&](auto&& e,std::size_t r,std::size_t c){ int x,y; ok&=Sc<std::decay_t<decltype(e)>>::get(e,x,y); seq.push_back({int(r),int(c),x,y}); };
    std::pair<std::size_t,std::size_t> ret; if(g.chance(50)) ret=flatMatrixForEach(std::as_const(A),f,a,b); else ret=flatMatrixForEach(A,f,a,b);
    auto o=base("flat"); o.f("off",std::vector<int>{a,b}).f("seq",seq).f("ret",std::vector<int>{int(ret.first),int(ret.second)}); out<<o.str()<<"\n"; }
  if constexpr(ops&DIM){ std::vector<int> rr,cc; for(int i=0;i<mr;++i) rr.push_back(int(MatrixDimension<M>::rowdim(A,i))); for(int i=0;i<mc;++i) cc.push_back(int(MatrixDimension<M>::coldim(A,i))); auto o=base("dim"); o.f("rowdim",int(MatrixDimension<M>::rowdim(A))).f("coldim",int(MatrixDimension<M>::coldim(A))).f("rows",rr).f("cols",cc).f("nnz",int(countNonZeros(A))).f("lv",std::vector<int>{int(maxBlockLevel<M>()),int(minBlockLevel<M>())}).f("elv",std::vector<int>{elvmax,elvmin}); out<<o.str()<<"\n"; }
  if constexpr(ops&ML){ std::string fn=dir+"/m.txt"; writeMatrixToMatlab(A,fn); std::ifstream in(fn); auto L=lines(in); auto o=base("matlab"); o.raw("lines",ij(L)); out<<o.str()<<"\n"; }
  if constexpr(ops&PR){ std::stringstream s; s.precision(7); s.setf(std::ios::fixed,std::ios::floatfield); auto fl=s.flags(); printmatrix(s,A,"tt","rw",int(g.in(1,12)),int(g.in(2,5))); bool kept=s.flags()==fl&&s.precision()==7; auto ti=title(s,"tt",4); auto L=lines(s); auto o=base("print"); o.f("text",std::string("rw")).f("title",ti).f("lines",L).f("kept",kept); out<<o.str()<<"\n"; }
  if constexpr(ops&SP){ std::stringstream s; s.precision(7); auto fl=s.flags(); int w=int(g.in(1,4)); printSparseMatrix(s,A,"tt","rw",w,int(g.in(2,5))); bool kept=s.flags()==fl&&s.precision()==7; auto ti=title(s,"tt",4); auto L=lines(s,true); auto o=base("sparse"); using BB=std::decay_t<decltype(Dune::Impl::asMatrix(std::declval<typename M::block_type&>()))>; o.f("text",std::string("rw")).f("title",ti).f("lines",L).f("kept",kept).f("w",w).f("bn",int(BB::rows)).f("bm",int(BB::cols)); out<<o.str()<<"\n"; }
  if constexpr(ops&SVG){ if(mr&&mc&&!t.empty()){ DefaultSVGMatrixOptions so; so.block_size=g.in(1,20); so.interspace=g.in(0,6); so.write_header=g.chance(70); so.width=g.chance(50)?0:300; so.height=g.chance(50)?0:300; if(g.chance(30)) so.color_fill=[](const double& v){ return "hsl("+std::to_string(int(v))+")"; }; std::stringstream s; writeSVGMatrix(s,A,so); int op,cl; auto x=svg(s.str(),op,cl);
    auto o=base("svg"); o.raw("items",x).f("bs",int(so.block_size)).f("gap",int(so.interspace)).f("head",so.write_header).f("wh",std::vector<int>{int(so.width),int(so.height)}).f("elv",elvmax).f("open",op).f("close",cl); 
    std::string eb; if constexpr(maxBlockLevel<M>()==2){ for(auto r=A.begin();r!=A.end();++r) for(auto c=r->begin();c!=r->end();++c) eb+=(eb.empty()?"":",")+("[["+std::to_string(r.index())+"],["+std::to_string(c.index())+"]]"); } o.raw("eblocks","["+eb+"]"); out<<o.str()<<"\n"; } }
}
template<class V> Dim vdim(Rng& g){ if constexpr(IsNumber<V>::value) return Dim(); else if constexpr(requires{ V::dimension; }) return leaves(V::dimension); else { Dim d; d.leaf=false; if constexpr(requires(V v){ v.resize(1); }){ int n=int(g.in(0,4)); using B=typename V::block_type; for(int i=0;i<n;++i) d.s.push_back(vdim<B>(g)); } else Hybrid::forEach(std::make_index_sequence<V::size()>{},[&](auto i){ d.s.push_back(vdim<std::decay_t<decltype(std::declval<V&>()[i])>>(g)); }); return d; } }
template<class V,bool text> void vec(const char* type,Rng& g,int elvmax,int elvmin){
  Dim d=vdim<V>(g); V v; Flat vals=rndVec(v,d,g); using K=typename FieldTraits<V>::field_type; constexpr bool cx=Sc<K>::cx;
  auto base=[&](const char* op){ Obj o; o.f("kind",std::string("vec")).f("type",std::string(type)).f("op",std::string(op)).raw("d",dj(d)).f("vals",vals).f("cx",cx); return o; };
  { int a=g.chance(50)?0:int(g.in(0,9)); Flat seq; bool ok=true; std::size_t ret=flatVectorForEach(std::as_const(v),[&](auto&& e,std::size_t k){ int x,y; ok&=Sc<std::decay_t<decltype(e)>>::get(e,x,y); seq.push_back({int(k),x,y}); },a); V w(v); flatVectorForEach(w,[&](auto& e,std::size_t k){ e=K(int(k)); }); Flat m=readVec(w,ok); std::vector<int> mod; for(auto& x:m) mod.push_back(x[1]?-1:x[0]); int dim=-1; if constexpr(requires{ v.dim(); }) dim=int(v.dim());
    auto o=base("flat"); o.f("off",a).f("seq",seq).f("ret",int(ret)).f("mod",mod).f("dim",dim).f("lv",std::vector<int>{int(maxBlockLevel<V>()),int(minBlockLevel<V>())}).f("elv",std::vector<int>{elvmax,elvmin}); out<<o.str()<<"\n"; }
  if constexpr(text){ { std::string fn=dir+"/v.txt"; writeVectorToMatlab(v,fn); std::ifstream in(fn); auto L=lines(in); auto o=base("matlab"); o.f("lines",L); out<<o.str()<<"\n"; }
    std::stringstream s; s.precision(7); auto fl=s.flags(); int w=int(g.in(1,5)); printvector(s,v,"tt","rw",w,int(g.in(1,12)),int(g.in(2,5))); bool kept=s.flags()==fl&&s.precision()==7; auto ti=title(s,"tt",2); auto L=lines(s); auto o=base("print"); o.f("text",std::string("rw")).f("title",ti).f("lines",L).f("kept",kept).f("w",w); out<<o.str()<<"\n"; } }
void digits(Rng& g){ int p=int(g.in(1,20)); if(g.chance(30)) p=18; int n=int(g.in(1,5)); BCRSMatrix<double> A(n,n,BCRSMatrix<double>::row_wise); for(auto r=A.createbegin();r!=A.createend();++r) r.insert(r.index()); BlockVector<double> v(n); std::vector<std::string> want,got; char b[99]; for(int i=0;i<n;++i){ double x=(g.below(2000001)-1000000.)/(1+g.below(999999))*std::pow(10.,double(g.in(-30,30))); A[i][i]=x; v[i]=-x; snprintf(b,99,"%.*g",p,x); want.push_back(b); snprintf(b,99,"%.*g",p,-x); want.push_back(b); }
  std::string fn=dir+"/d.txt",fv=dir+"/dv.txt"; if(p==18){ writeMatrixToMatlab(A,fn); writeVectorToMatlab(v,fv); } else { writeMatrixToMatlab(A,fn,p); writeVectorToMatlab(v,fv,p); } std::ifstream a(fn),c(fv); for(int i=0;i<n;++i){ std::string x,y,z; a>>x>>y>>z; got.push_back(z); c>>z; got.push_back(z); } out<<Obj().f("kind",std::string("digits")).f("type",std::string("digits")).f("op",std::string("matlab")).f("p",p).f("want",want).f("got",got).str()<<"\n"; }
#if PART==9
template<int k> void par(Rng& g){ using OS=OwnerOverlapCopyAttributeSet; using Comm=OwnerOverlapCopyCommunication<int>; using B=FieldMatrix<double,1,1>; using M=BCRSMatrix<B>; int ng=int(g.in(1,7)); std::vector<int> ow(ng),id; std::vector<std::vector<int>> at(np_,std::vector<int>(ng)); for(int i=0;i<ng;++i){ ow[i]=int(g.below(np_)); id.push_back(3*i+int(g.below(3))); } for(int i=ng-1;i>0;--i) std::swap(id[i],id[g.below(i+1)]); for(int p=0;p<np_;++p) for(int i=0;i<ng;++i) at[p][i]= ow[i]==p?1:g.chance(50)?(g.chance(50)?2:3):0;
  std::vector<int> mine; for(int i=0;i<ng;++i) if(at[rank_][i]) mine.push_back(i); Rng h(g.s+rank_); for(int i=int(mine.size())-1;i>0;--i) std::swap(mine[i],mine[h.below(i+1)]); int n=int(mine.size()); Comm c(MPI_COMM_WORLD); c.indexSet().beginResize(); for(int l=0;l<n;++l) c.indexSet().add(id[mine[l]],typename Comm::ParallelIndexSet::LocalIndex(l,OS::AttributeSet(at[rank_][mine[l]]),true)); c.indexSet().endResize(); c.remoteIndices().rebuild<false>();
  M A(n,n,M::row_wise); int dens=int(h.in(0,100)); for(auto r=A.createbegin();r!=A.createend();++r) for(int j=0;j<n;++j) if(h.chance(dens)) r.insert(j); std::string want; for(auto r=A.begin();r!=A.end();++r) for(auto e=r->begin();e!=r->end();++e){ int v=int(h.in(-9,9)); *e=v; if(at[rank_][mine[r.index()]]==1) want+=(want.empty()?"":",")+js(std::vector<int>{id[mine[r.index()]],id[mine[e.index()]],v}); }
  std::stringstream s; printGlobalSparseMatrix(A,c,s); auto L=lines(s); auto gat=[&](std::string x){ int m=int(x.size()); std::vector<int> ns(np_),ds(np_); MPI_Gather(&m,1,MPI_INT,ns.data(),1,MPI_INT,0,MPI_COMM_WORLD); int tot=0; for(int p=0;p<np_;++p){ ds[p]=tot; tot+=ns[p]; } std::string all(tot+1,' '); MPI_Gatherv(x.data(),m,MPI_CHAR,all.data(),ns.data(),ds.data(),MPI_CHAR,0,MPI_COMM_WORLD); std::string r="["; if(!rank_) for(int p=0;p<np_;++p) r+=(p?",":"")+all.substr(ds[p],ns[p]); return r+"]"; };
  auto a=gat("["+want+"]"),b=gat(ij(L)); if(!rank_) out<<Obj().f("kind",std::string("par")).f("type",std::string("global sparse")).f("op",std::string("print")).raw("want",a).raw("lines",b).str()<<"\n"; }
#endif
int main(int argc,char** argv){ MPIHelper::instance(argc,argv); MPI_Comm_rank(MPI_COMM_WORLD,&rank_); MPI_Comm_size(MPI_COMM_WORLD,&np_); if(!rank_) out.open(argv[1]); Rng g(std::atol(argv[2])); int I=std::atoi(argv[3]); dir=argv[4]; using C=std::complex<double>; constexpr int ALL=FLAT|DIM|ML|PR;
#if PART==9
  for(int k=0;k<I;++k) par<0>(g);
#else
  for(int k=0;k<I;++k){
#if PART==0
  mat<BCRSMatrix<double>,ALL|SP|SVG>("bcrs<double>",g,1,1); mat<BCRSMatrix<C>,ALL|SP>("bcrs<complex>",g,1,1); mat<BCRSMatrix<int>,ALL>("bcrs<int>",g,1,1);
  mat<BCRSMatrix<FieldMatrix<double,2,3>>,ALL|SP|SVG>("bcrs<23>",g,2,2); mat<BCRSMatrix<FieldMatrix<C,2,1>>,ALL|SP>("bcrs<c21>",g,2,2); mat<BCRSMatrix<FieldMatrix<double,1,1>>,ALL|SP|SVG>("bcrs<11>",g,2,2);
  mat<BCRSMatrix<DiagonalMatrix<double,2>>,FLAT|DIM|ML>("bcrs<diag>",g,2,2); mat<BCRSMatrix<ScaledIdentityMatrix<C,2>>,FLAT|DIM|ML>("bcrs<sid>",g,2,2);
  mat<Matrix<double>,ALL>("matrix<double>",g,1,1,false,true); mat<Matrix<FieldMatrix<C,2,3>>,FLAT|DIM|ML>("matrix<c23>",g,2,2,false,true); mat<FieldMatrix<double,3,2>,FLAT|DIM|ML>("fm",g,1,1);
  mat<BTDMatrix<FieldMatrix<double,2,2>>,FLAT>("btd<2>",g,2,2,true); mat<BDMatrix<C>,FLAT>("bd<complex>",g,1,1,true); mat<BTDMatrix<double>,FLAT>("btd<double>",g,1,1,true);
  digits(g);
#else
  mat<BCRSMatrix<BCRSMatrix<double>>,ALL|SVG>("bcrs<bcrs>",g,2,2,false,true,true,true); mat<BCRSMatrix<BCRSMatrix<FieldMatrix<double,2,1>>>,ALL>("bcrs<bcrs<21>>",g,3,3,false,true,true,true);
  for(int q=0;q<3;++q) mat<BCRSMatrix<BCRSMatrix<double>>,DIM|ML|PR>("bcrs<bcrs> mixed",g,2,2,false,true,false,true); mat<BCRSMatrix<Matrix<FieldMatrix<double,1,2>>>,FLAT|DIM|ML>("bcrs<matrix>",g,3,3,false,true,true,true); mat<Matrix<BCRSMatrix<FieldMatrix<double,2,1>>>,FLAT|DIM|ML>("matrix<bcrs>",g,3,3,false,true); mat<BCRSMatrix<BTDMatrix<double>>,FLAT>("bcrs<btd>",g,2,2,true,true,true,true);
  using R0=MultiTypeBlockVector<BCRSMatrix<FieldMatrix<C,2,2>>,BCRSMatrix<FieldMatrix<C,2,1>>,Matrix<FieldMatrix<C,2,3>>>; using R1=MultiTypeBlockVector<Matrix<FieldMatrix<C,1,2>>,BCRSMatrix<FieldMatrix<C,1,1>>,BCRSMatrix<FieldMatrix<C,1,3>>>; mat<MultiTypeBlockMatrix<R0,R1>,FLAT>("multi<c>",g,3,3,false,true,false); using S0=MultiTypeBlockVector<BCRSMatrix<double>,BCRSMatrix<FieldMatrix<double,1,1>>>; mat<MultiTypeBlockMatrix<S0,S0,S0>,FLAT>("multi<double>",g,3,2,false,true,false);
  vec<BlockVector<double>,true>("bv<double>",g,1,1); vec<BlockVector<FieldVector<C,2>>,true>("bv<c2>",g,2,2); vec<BlockVector<BlockVector<double>>,true>("bv<bv>",g,2,2); vec<BlockVector<BlockVector<FieldVector<double,3>>>,true>("bv<bv<3>>",g,3,3); vec<FieldVector<double,4>,true>("fv",g,1,1); vec<BlockVector<int>,true>("bv<int>",g,1,1);
  vec<MultiTypeBlockVector<BlockVector<double>,BlockVector<FieldVector<double,2>>,FieldVector<double,3>>,false>("multi",g,3,2); vec<MultiTypeBlockVector<BlockVector<BlockVector<FieldVector<double,2>>>,BlockVector<double>>,false>("multi<bv<bv>>",g,4,2);
#endif
  }
#endif
  out.close(); MPI_Barrier(MPI_COMM_WORLD); if(!rank_) std::cout<<"RECORDS"<<std::endl; return 0; }
