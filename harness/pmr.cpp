// Allocators of other shapes than the instrumented one: polymorphic_allocator
// (state, no propagation, uses-allocator construction of the elements),
// scoped_allocator_adaptor and a minimal allocator without optional members.
// Every history of operations up to a depth over two collections; after each
// step memory and elements must belong to the resource of their collection.
#include "elems.hpp"
#include <memory_resource>
#include <scoped_allocator>
#include <sstream>
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
#ifndef VF_ALLOC
#define VF_ALLOC 0     // 0 polymorphic_allocator, 1 scoped_allocator_adaptor, 2 minimal
#endif
using namespace vf;

/* memory taken from elsewhere than the allocator while the library is at work */
static int inlib,paused;
struct Pause{Pause(){++paused;} ~Pause(){--paused;} template<class X> const X& of(const X& x)const{return x;}};
static bool heap_=false,strong_=false;
static void* strays[4096];static int nstrays;
static void* global_new(std::size_t n,std::size_t a){
  void* p=a>16?aligned_alloc(a,(n+a-1)/a*a):malloc(n?n:1);
  if(!p)abort();
  if(inlib&&!paused&&nstrays<4096)strays[nstrays++]=p;
  return p;
}
static void global_delete(void* p){
  if(p)for(int i=0;i<nstrays;++i)if(strays[i]==p){strays[i]=strays[--nstrays];break;}
  free(p);
}
void* operator new(std::size_t n){return global_new(n,0);}
void* operator new[](std::size_t n){return global_new(n,0);}
void* operator new(std::size_t n,const std::nothrow_t&)noexcept{return global_new(n,0);}
void* operator new[](std::size_t n,const std::nothrow_t&)noexcept{return global_new(n,0);}
void* operator new(std::size_t n,std::align_val_t a){return global_new(n,(std::size_t)a);}
void* operator new[](std::size_t n,std::align_val_t a){return global_new(n,(std::size_t)a);}
void operator delete(void* p)noexcept{global_delete(p);}
void operator delete[](void* p)noexcept{global_delete(p);}
void operator delete(void* p,std::size_t)noexcept{global_delete(p);}
void operator delete[](void* p,std::size_t)noexcept{global_delete(p);}
void operator delete(void* p,std::align_val_t)noexcept{global_delete(p);}
void operator delete[](void* p,std::align_val_t)noexcept{global_delete(p);}
void operator delete(void* p,std::size_t,std::align_val_t)noexcept{global_delete(p);}
void operator delete[](void* p,std::size_t,std::align_val_t)noexcept{global_delete(p);}

/* the allocation that fails */
static long armed;
static bool fired;
/* a resource that knows its blocks */
struct Res:std::pmr::memory_resource{
  std::map<void*,std::pair<std::size_t,std::size_t>> b;
  const char* name;
  Res(const char* n):name(n){}
  void* do_allocate(std::size_t n,std::size_t a)override{
    Pause pause;
    if(armed&&inlib&&--armed==0){fired=true;throw std::bad_alloc{};}
    std::size_t f=a>=64?64:128+a; // aligned as asked for and no better
    char* p=static_cast<char*>(::operator new(n+f+64,std::align_val_t(128)))+f;
    memset(p-f,0xAA,n+f+64);
    b[p]={n,a};return p;
  }
  void do_deallocate(void* p,std::size_t n,std::size_t a)override{
    Pause pause;
    auto it=b.find(p);
    VF_CHECK(it!=b.end(),"a block is returned to resource %s that did not come from it",name);
    VF_CHECK(it->second.first==n,"a block of %zu bytes is returned with size %zu",it->second.first,n);
    VF_CHECK(it->second.second==a,"a block is returned with another alignment");
    std::size_t f=a>=64?64:128+a;
    for(int i=0;i<64;++i)VF_CHECK(((unsigned char*)p)[n+i]==0xAA&&((unsigned char*)p)[-1-i]==0xAA,"a write past the ends of a block");
    b.erase(it);
    memset(p,0xDD,n);
    ::operator delete(static_cast<char*>(p)-f,std::align_val_t(128));
  }
  bool do_is_equal(const std::pmr::memory_resource& o)const noexcept override{return this==&o;}
};
static Res* res[3];   // A, B, default

/* allocators */
template<class T> struct Min{  // nothing optional
  using value_type=T;
  Res* r;
  explicit Min(Res* p):r(p){}
  template<class U> Min(const Min<U>& x):r(x.r){}
  T* allocate(std::size_t n){return static_cast<T*>(r->allocate(n*sizeof(T),alignof(T)));}
  void deallocate(T* p,std::size_t n){r->deallocate(p,n*sizeof(T),alignof(T));}
  template<class U> bool operator==(const Min<U>& x)const{return r==x.r;}
  template<class U> bool operator!=(const Min<U>& x)const{return r!=x.r;}
  Res* resource()const{return r;}
};
template<class T> struct Sc:Min<T>{  // default constructible, to be wrapped
  using value_type=T;
  template<class U> struct rebind{using other=Sc<U>;};
  Sc():Min<T>(res[2]){}
  explicit Sc(Res* p):Min<T>(p){}
  template<class U> Sc(const Sc<U>& x):Min<T>(x.r){}
};
#if VF_ALLOC==0
template<class T> using Al=std::pmr::polymorphic_allocator<T>;
using InnerAl=std::pmr::polymorphic_allocator<char>;
template<class A> const void* resof(const A& a){return a.resource();}
static const int soccc=2;
#elif VF_ALLOC==1
template<class T> using Al=std::scoped_allocator_adaptor<Sc<T>>;
using InnerAl=Sc<char>;
template<class A> const void* resof(const A& a){return a.resource();}
static const int soccc=-1;
#else
template<class T> using Al=Min<T>;
using InnerAl=Min<char>;
template<class A> const void* resof(const A& a){return a.resource();}
static const int soccc=-1;
#endif
static const bool scoped=VF_ALLOC!=2;

/* elements */
struct PB{virtual ~PB()=default;virtual int id()const=0;};
using Str=std::basic_string<char,std::char_traits<char>,InnerAl>;
static std::string txt(int v){return "a text that does not fit into the object itself "+std::to_string(v);}
static int made;
static InnerAl noal(){return InnerAl(res[2]);}
struct P0:PB{ // trailing allocator
  using allocator_type=InnerAl;
  Str s;int v;
  explicit P0(int k,const InnerAl& a=noal()):s(Pause().of(txt(k)).c_str(),a),v(k){++made;}
  P0(const P0& x):s(x.s,noal()),v(x.v){++made;}
  P0(P0&& x)noexcept:s(std::move(x.s)),v(x.v){++made;}
  P0(const P0& x,const InnerAl& a):s(x.s,a),v(x.v){++made;}
  P0(P0&& x,const InnerAl& a):s(std::move(x.s),a),v(x.v){++made;}
  P0& operator=(P0&& x){s=std::move(x.s);v=x.v;return *this;}
  ~P0(){--made;}
  int id()const override{return v;}
  int operator()(int)const{return v;}
  bool ok()const{return s==txt(v).c_str();}
};
struct P1:PB{ // leading allocator, move only
  using allocator_type=InnerAl;
  Str s;int v;
  P1(std::allocator_arg_t,const InnerAl& a,int k):s(Pause().of(txt(k)).c_str(),a),v(k){++made;}
  explicit P1(int k):s(Pause().of(txt(k)).c_str(),noal()),v(k){++made;}
  P1(P1&& x)noexcept:s(std::move(x.s)),v(x.v){++made;}
  P1(std::allocator_arg_t,const InnerAl& a,P1&& x):s(std::move(x.s),a),v(x.v){++made;}
  P1& operator=(P1&& x){s=std::move(x.s);v=x.v;return *this;}
  P1(const P1&)=delete;
  ~P1(){--made;}
  int id()const override{return v;}
  int operator()(int)const{return v;}
  bool ok()const{return s==txt(v).c_str();}
};
struct alignas(32) P2 final:PB{ // knows no allocator
  std::string s;int v;
  explicit P2(int k):s(Pause().of(txt(k))),v(k){++made;}
  P2(const P2& x):s(Pause().of(x.s)),v(x.v){++made;}
  P2(P2&& x)noexcept:s(std::move(x.s)),v(x.v){++made;}
  P2& operator=(P2&&)=default;
  ~P2(){--made;}
  int id()const override{return v;}
  int operator()(int)const{return v;}
  bool ok()const{return s==txt(v);}
};
template<class T> const void* inner(const T& x){return x.s.get_allocator().resource();}
static const void* inner(const P2&){return nullptr;}

#if VF_MODEL==0
using C=boost::base_collection<PB,Al<PB>>;
#elif VF_MODEL==1
using C=boost::function_collection<int(int),Al<boost::poly_collection::function_collection_value_type<int(int)>>>;
#else
using C=boost::any_collection<any_concept,Al<boost::poly_collection::any_collection_value_type<any_concept>>>;
#endif
using A=C::allocator_type;
using VT=visit_t<TL<>>;

struct Md{bool reg[3]={};std::vector<int> s[3];Md(){Pause p;for(auto& v:s)v.reserve(64);}};
struct Del{void operator()(C* p)const{p->~C();free(p);}};
using Own=std::unique_ptr<C,Del>;
template<class... X> C* mkC(X&&... x){return ::new(aligned_alloc(64,(sizeof(C)+63)/64*64)) C(std::forward<X>(x)...);}
struct W{
  Own c[2];Md m[2];int r[2];int fresh=1;
  W(){for(int i=0;i<2;++i){c[i].reset(mkC(A(res[i])));r[i]=i;}}
};
template<class F> static void at(int t,F f){if(t==0)f(tag<P0>{});else if(t==1)f(tag<P1>{});else f(tag<P2>{});}
template<class T> using cp=std::is_copy_constructible<T>;

/* operations: code = op*6+t*2+d for typed ones, then whole-collection ones */
enum{EM,INSM,INSC,HEM,PEM,PINS,RNG,ER1,ERL,RES,SHR,TOP_N};
enum{CAS,MAS,CCA,CCB,CCD,MCA,MCB,MC,SWP,CLR,RNGC,WOP_N};
static const char* tn[]={"emplace","insert rvalue","insert lvalue","emplace_hint begin","emplace_pos begin","insert rvalue at begin","insert range","erase first","erase last","reserve","shrink_to_fit"};
static const char* wn[]={"copy assignment","move assignment","copy construction with allocator A","copy construction with allocator B","copy construction","move construction with allocator A","move construction with allocator B","move construction","swap","clear","insert all of the other"};
static const int NOPS=TOP_N*6+WOP_N*2;
static std::string opname(int o){
  if(o<TOP_N*6)return std::string(tn[o/6])+" P"+std::to_string(o%6/2)+" in "+std::to_string(o%2);
  o-=TOP_N*6;return std::string(wn[o/2])+" of "+std::to_string(o%2)+" (other: "+std::to_string(1-o%2)+")";
}
template<class T> static void put_copy(C& c,const T& x,std::true_type){c.insert(x);}
template<class T> static void put_copy(C&,const T&,std::false_type){}
template<class T> static void put_range(C& c,int& f,std::vector<int>& s,std::true_type){
  std::vector<T> v;{Pause p;v.reserve(3);}
  for(int i=0;i<3;++i){v.emplace_back(f);s.push_back(f++);}
  c.insert(v.begin(),v.end());
}
template<class T> static void put_range(C&,int&,std::vector<int>&,std::false_type){}
static bool whole(W& w,int o){
  int d=o%2;o/=2;
  C& x=*w.c[d];C& y=*w.c[1-d];
  Md &mx=w.m[d],&my=w.m[1-d];
  bool cpy=o==CAS||o==CCA||o==CCB||o==CCD||o==RNGC;
  if(cpy&&!my.s[1].empty())return false;      // would throw, seen elsewhere
  switch(o){
  case CAS:x=static_cast<const C&>(y);mx=my;break;
  case MAS:x=std::move(y);mx=my;break;
  case CCA:case CCB:{Own n(mkC(static_cast<const C&>(y),A(res[o-CCA])));w.c[d].swap(n);w.r[d]=o-CCA;mx=my;break;}
  case CCD:{Own n(mkC(static_cast<const C&>(y)));w.c[d].swap(n);w.r[d]=soccc<0?w.r[1-d]:soccc;mx=my;break;}
  case MCA:case MCB:{Own n(mkC(std::move(y),A(res[o-MCA])));w.c[d].swap(n);w.r[d]=o-MCA;mx=my;break;}
  case MC:{Own n(mkC(std::move(y)));w.c[d].swap(n);w.r[d]=w.r[1-d];mx=my;break;}
  case SWP:if(w.r[0]!=w.r[1])return false;x.swap(y);std::swap(mx,my);break;
  case CLR:x.clear();for(auto& s:mx.s)s.clear();break;
  case RNGC:x.insert(y.cbegin(),y.cend());for(int t=0;t<3;++t)if(!my.s[t].empty()){mx.reg[t]=true;mx.s[t].insert(mx.s[t].end(),my.s[t].begin(),my.s[t].end());}break;
  }
  if(o==MAS||(o>=MCA&&o<=MC)){
    VF_CHECK(y.size()==0,"elements are left in a moved-from collection");
    for(int t=0;t<3;++t){my.s[t].clear();at(t,[&](auto tg){my.reg[t]=y.is_registered<typename decltype(tg)::type>();});}
  }
  return true;
}
static bool apply(W& w,int o){
  if(o>=TOP_N*6)return whole(w,o-TOP_N*6);
  int d=o%2,t=o%6/2;bool ok=true;
  C& c=*w.c[d];auto& s=w.m[d].s[t];bool& reg=w.m[d].reg[t];
  at(t,[&](auto tg){
    using T=typename decltype(tg)::type;
    int f=w.fresh;
    switch(o/6){
    case EM:c.emplace<T>(f);s.push_back(f);reg=true;++w.fresh;break;
    case INSM:{T x(f);c.insert(std::move(x));s.push_back(f);reg=true;++w.fresh;break;}
    case INSC:if(!cp<T>::value){ok=false;break;}{T x(f);put_copy(c,x,cp<T>{});s.push_back(f);reg=true;++w.fresh;}break;
    case HEM:if(!reg||s.empty()){ok=false;break;}{
      auto it=c.begin();
#if VF_MODEL==0
      while(typeid(*it)!=typeid(T))++it;
#elif VF_MODEL==1
      while(it->target_type()!=typeid(T))++it;
#else
      while(te::typeid_of(*it)!=typeid(T))++it;
#endif
      c.emplace_hint<T>(it,f);s.insert(s.begin(),f);++w.fresh;}break;
    case PEM:if(!reg){ok=false;break;}c.emplace_pos<T>(c.begin(typeid(T)),f);s.insert(s.begin(),f);++w.fresh;break;
    case PINS:if(!reg){ok=false;break;}{T x(f);c.insert(c.begin<T>(),std::move(x));s.insert(s.begin(),f);++w.fresh;}break;
    case RNG:if(!cp<T>::value){ok=false;break;}put_range<T>(c,w.fresh,s,cp<T>{});reg=true;break;
    case ER1:if(s.empty()){ok=false;break;}c.erase(c.begin<T>());s.erase(s.begin());break;
    case ERL:if(s.size()<2){ok=false;break;}c.erase(c.end(typeid(T))-1);s.pop_back();break;
    case RES:c.reserve<T>(s.size()+2);reg=true;break;
    case SHR:if(!reg){ok=false;break;}c.shrink_to_fit<T>();break;
    }
  });
  return ok;
}
static void check(W& w){
  long n=0;
  for(int d=0;d<2;++d){
    C& c=*w.c[d];
    VF_CHECK(resof(c.get_allocator())==res[w.r[d]],"collection %d uses another allocator than expected",d);
    std::size_t k=0;
    for(int t=0;t<3;++t)at(t,[&](auto tg){
      using T=typename decltype(tg)::type;
      VF_CHECK(c.is_registered<T>()==w.m[d].reg[t],"registration of P%d in collection %d",t,d);
      if(!w.m[d].reg[t])return;
      VF_CHECK(c.size<T>()==w.m[d].s[t].size(),"size of P%d in collection %d",t,d);
      k+=c.size<T>();
      for(std::size_t i=0;i<c.size<T>();++i){
        const T& x=c.begin<T>()[i];
        VF_CHECK(x.v==w.m[d].s[t][i]&&x.ok(),"element %zu of P%d in collection %d has another value",i,t,d);
        bool in=false;
        for(auto& b:res[w.r[d]]->b)if((char*)&x>=(char*)b.first&&(char*)&x+sizeof x<=(char*)b.first+b.second.first)in=true;
        VF_CHECK(reinterpret_cast<std::uintptr_t>(&x)%alignof(T)==0,"element %zu of P%d in collection %d is misaligned",i,t,d);
        VF_CHECK(in,"element %zu of P%d in collection %d does not lie in memory of its allocator",i,t,d);
        if(scoped&&!std::is_same<T,P2>::value)
          VF_CHECK(inner(x)==res[w.r[d]],"element %zu of P%d in collection %d was not constructed with the allocator of its collection",i,t,d);
      }
    });
    VF_CHECK(c.size()==k,"size of collection %d",d);
    std::size_t g=0;for(auto& x:c){(void)x;++g;}
    VF_CHECK(g==k,"traversal of collection %d",d);
    n+=(long)k;
  }
  VF_CHECK(made==n,"%d elements alive, the collections show %ld",made,n);
  // nothing comes from a resource no collection uses
  if(scoped)for(int r=0;r<3;++r)if(w.r[0]!=r&&w.r[1]!=r)
    VF_CHECK(res[r]->b.empty(),"%zu blocks come from resource %s that no collection uses",res[r]->b.size(),res[r]->name);
}
static std::vector<int> path;
static bool run(){
  beat();
  bool ok=true;
  {
    W w;
    for(std::size_t i=0;ok&&i<path.size();++i){inlib=1;ok=apply(w,path[i]);inlib=0;
      if(heap_)VF_CHECK(!nstrays,"the collection keeps %d blocks from the global heap instead of its allocator",nstrays);
      if(ok)check(w);++stat("transitions");}
    if(ok){
      // one of them dies, the other one goes on
      int d=path.back()%2;
      w.c[d].reset(mkC(A(res[d])));w.m[d]=Md();w.r[d]=d;
      check(w);
      for(int t=0;t<3;++t)apply(w,EM*6+t*2+(1-d));
      check(w);
      ++stat("histories");
    }
  }
  for(auto r:res)VF_CHECK(r->b.empty(),"%zu blocks of resource %s are never returned",r->b.size(),r->name);
  VF_CHECK(made==0,"%d elements leaked",made);
  return ok;
}
#if VF_MODEL==0
static const void* addr_of(const PB& x){return dynamic_cast<const void*>(&x);}
#else
template<class X> const void* addr_of(const X& x){return Mod<VF_MODEL>::addr(x);}
#endif
/* the last operation of the path with its k-th allocation failing */
static std::vector<std::pair<int,int>> snap(C& c){ // type and value, in the order of the typed views
  std::vector<std::pair<int,int>> r;
  for(int t=0;t<3;++t)at(t,[&](auto tg){
    using T=typename decltype(tg)::type;
    if(c.is_registered<T>())for(auto& x:c.segment<T>())r.push_back({t,x.v});
  });
  return r;
}
static void consistent(W& w){
  long n=0;
  for(int d=0;d<2;++d){
    C& c=*w.c[d];
    VF_CHECK(resof(c.get_allocator())==res[w.r[d]],"collection %d uses another allocator than expected after a failure",d);
    std::set<const void*> el;
    std::size_t k=0;
    for(int t=0;t<3;++t)at(t,[&](auto tg){
      using T=typename decltype(tg)::type;
      if(!c.is_registered<T>())return;
      VF_CHECK((std::size_t)(c.end<T>()-c.begin<T>())==c.size<T>()&&(std::size_t)(c.end(typeid(T))-c.begin(typeid(T)))==c.size<T>(),"views of P%d in collection %d disagree after a failure",t,d);
      k+=c.size<T>();
      for(std::size_t i=0;i<c.size<T>();++i){
        const T& x=c.begin<T>()[i];
        VF_CHECK(addr_of(c.begin(typeid(T))[i])==static_cast<const void*>(&x),"views of P%d in collection %d show different elements after a failure",t,d);
        el.insert(&x);
        if(scoped&&!std::is_same<T,P2>::value)
          VF_CHECK(inner(x)==res[w.r[d]],"element %zu of P%d in collection %d is not of the allocator of its collection after a failure",i,t,d);
      }
    });
    VF_CHECK(c.size()==k&&el.size()==k,"size of collection %d after a failure",d);
    std::size_t g=0;for(auto& x:c){VF_CHECK(g<k&&el.count(addr_of(x)),"global traversal of collection %d shows something else than its elements after a failure",d);++g;}
    VF_CHECK(g==k,"global traversal of collection %d after a failure",d);
    n+=(long)k;
  }
  VF_CHECK(made==n,"%d elements alive after a failure, the collections show %ld",made,n);
}
static long fault_at;
static int fault(long k){ // 0: not applicable, 1: nothing failed, 2: something failed
  beat();
  int out=1;
  fault_at=0;
  {
    W w;
    for(std::size_t i=0;i+1<path.size();++i)if(!apply(w,path[i]))return 0;
    int o=path.back(),d=o%2;
    auto b0=snap(*w.c[0]),b1=snap(*w.c[1]);
    fired=false;armed=k;fault_at=k;inlib=1;
    bool thrown=false,ok=true;
    try{ok=apply(w,o);}
    catch(const std::bad_alloc&){thrown=true;}
    inlib=0;armed=0;
    ++stat("transitions");
    if(!ok)out=0;
    else{
      if(o/6!=SHR||thrown) // shrink_to_fit is a request: it may stay without effect
      VF_CHECK(thrown==fired,thrown?"an operation fails although no allocation failed":"an operation hides a failed allocation");
      if(thrown){
        out=2;
        ++stat("faults");
        auto a0=snap(*w.c[0]),a1=snap(*w.c[1]);
        bool other=(d?a0:a1)==(d?b0:b1),mine=(d?a1:a0)==(d?b1:b0);
        int op=o<TOP_N*6?o/6:TOP_N+(o-TOP_N*6)/2;
        bool typed=op<TOP_N;
        int wo=op-TOP_N;
        if(strong_){
          if(op==EM||op==INSM||op==INSC)VF_CHECK(mine&&other,"a failed append changed the collection");
        }
        else{
          if(typed||wo==CAS||wo==CCA||wo==CCB||wo==CCD||wo==RNGC||wo==CLR)VF_CHECK(other,"a failed operation changed a collection that is only read or not involved");
          if(!typed&&(wo>=CCA&&wo<=MC))VF_CHECK(mine,"a failed construction changed an uninvolved collection");
        }
        consistent(w);
        for(int e=0;e<2;++e){
          C& c=*w.c[e];
          for(int t=0;t<3;++t)at(t,[&](auto tg){
            using T=typename decltype(tg)::type;
            w.m[e].reg[t]=c.is_registered<T>();w.m[e].s[t].clear();
            if(w.m[e].reg[t])c.clear<T>();
          });
        }
        w.fresh=100;
        check(w);
        for(int t=0;t<3;++t)for(int e=0;e<2;++e)apply(w,EM*6+t*2+e);
        check(w);
      }
      else{check(w);++stat("histories");}
    }
  }
  for(auto r:res)VF_CHECK(r->b.empty(),"%zu blocks of resource %s are never returned after a failure",r->b.size(),r->name);
  VF_CHECK(made==0,"%d elements leaked after a failure",made);
  return out;
}
static bool valid_path(){W w;for(int o:path)if(!apply(w,o))return false;return true;}
static void gof(int depth,int shard,int nshards){
  for(int o=0;o<NOPS;++o){
    if(path.empty()&&o%nshards!=shard)continue;
    path.push_back(o);
    for(long k=1;;++k){int r=fault(k);if(r!=2)break;VF_CHECK(k<1000,"an operation makes over 1000 allocations");}
    if((int)path.size()<depth&&valid_path()){++stat("states_expanded");gof(depth,shard,nshards);}
    path.pop_back();
  }
}
static void go(int depth,int shard,int nshards){
  for(int o=0;o<NOPS;++o){
    if(path.empty()&&o%nshards!=shard)continue;
    path.push_back(o);
    if(run()&&(int)path.size()<depth){++stat("states_expanded");go(depth,shard,nshards);}
    path.pop_back();
  }
}

int main(int argc,char** argv){
  std::string cfg=std::string(Mod<VF_MODEL>::name)+(VF_ALLOC==0?" polymorphic_allocator":VF_ALLOC==1?" scoped_allocator_adaptor":" minimal allocator");
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  heap_=has_flag(argc,argv,"--heap");
  res[0]=new Res("A");res[1]=new Res("B");res[2]=new Res("default");
  std::pmr::set_default_resource(res[2]);
  auto key=[]{std::string s;for(int x:path)s+=std::to_string(x)+" ";return s;};
  bool flt=has_flag(argc,argv,"--fault");
  strong_=has_flag(argc,argv,"--strong");
  ctx().trace=[key,flt]{ctx().replay_key=key();std::string s;for(int x:path)s+=opname(x)+"; ";if(flt)s+="allocation "+std::to_string(fault_at)+" of the last one fails";return s;};
  if(const char* r=get_opt(argc,argv,"--replay",nullptr)){
    std::stringstream ss(r);int x;while(ss>>x)path.push_back(x);
    if(flt)for(long k=1;fault(k)==2;++k);else run();
  }
  else if(flt)gof(get_int(argc,argv,"--depth",2),get_int(argc,argv,"--shard",0),get_int(argc,argv,"--nshards",1));
  else go(get_int(argc,argv,"--depth",2),get_int(argc,argv,"--shard",0),get_int(argc,argv,"--nshards",1));
  sample("all histories up to the depth");
  return finish();
}
