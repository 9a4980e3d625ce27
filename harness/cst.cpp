// Const operations never write: the collection, everything it allocates and
// the program's static data are made read-only (page protection) while every
// const operation runs, in every small state.  Any store traps.
#define VF_RAW_ALLOC
#include "world.hpp"
#include <boost/poly_collection/algorithm.hpp>
#include <sys/mman.h>
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
#ifndef VF_TYPES
#define VF_TYPES E0,E1,E3
#endif
using namespace vf;
extern "C" char __data_start;
extern "C" char _end;

struct Arena{
  char* base;std::size_t cap,used;
  explicit Arena(std::size_t n):cap(n),used(0){base=(char*)mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);VF_CHECK(base!=MAP_FAILED,"mmap");}
  void* get(std::size_t b){used=(used+63)/64*64;VF_CHECK(used+b<=cap,"arena exhausted");void* p=base+used;used+=b;return p;}
};
struct G{Arena a{1<<20},b{1<<20};bool prot=false;bool statics=true;};
static G& g(){static G* p=new G;return *p;}
void* vf::raw_alloc(std::size_t b){if(b>(1u<<19))throw std::bad_alloc{};return (g().prot?g().b:g().a).get(b);}
void vf::raw_free(void* p,std::size_t n){
  Arena& a=g().a;
  bool in_a=(char*)p>=a.base&&(char*)p<a.base+a.cap;
  VF_CHECK(!(in_a&&g().prot),"a const operation releases memory of the collection");
  memset(p,0xDD,n);
}
static void protect(bool on){
  const std::uintptr_t pg=4096;
  std::uintptr_t lo=(std::uintptr_t)&__data_start/pg*pg,hi=((std::uintptr_t)&_end+pg-1)/pg*pg;
  if(on){g().b.used=0;g().prot=true;}
  int pr=on?PROT_READ:PROT_READ|PROT_WRITE;
  if(mprotect(g().a.base,g().a.cap,pr))fail("mprotect");
  if(g().statics&&mprotect((void*)lo,hi-lo,pr))fail("mprotect of static data");
  if(!on)g().prot=false;
}
using Model=Mod<VF_MODEL>;
using L=TL<VF_TYPES>;
using VT=visit_t<L>;
enum{NT=L::size};
using C=Model::coll<0>;
using A=C::allocator_type;
namespace pc=boost::poly_collection;
static const char* curop="";
static std::string state;

struct Sum{long* s;template<class X> void operator()(const X& x)const{*s+=x(0);}};
struct SumB{long* s;template<class X> void operator()(const X& x)const{*s+=Model::code(x);}};
template<class X> static long co(const X& x){return x(0);}
#if VF_MODEL==0
static long co(const Base& x){return x.code();}
#endif
struct Acc{long* s;template<class X> void operator()(const X& x)const{*s+=co(x);}};
struct Eqv{long k;template<class X> bool operator()(const X& x)const{return co(x)==k;}};
struct Eq2{template<class X,class Y> bool operator()(const X& x,const Y& y)const{return co(x)==co(y);}};

template<class F> static void thr(F&& f){try{f();}catch(const unregistered_type&){}catch(const not_copy_constructible&){}}
// the standard allows several type_info objects for one type (dynamic libraries)
struct Alias:std::type_info{explicit Alias(const char* n):std::type_info(n){}};
template<class T> static const std::type_info& alias(){static const std::type_info* p=new Alias(strdup(typeid(T).name()));return *p;}
using OpF=void(*)(const C&,const C&,long&);
struct NOp{const char* n;OpF f;};
template<class T> static void typed(std::vector<NOp>& v){
#define O(name,...) v.push_back({name,[](const C& c,const C& d,long& s){(void)d;(void)s;__VA_ARGS__;}})
  O("is_registered<T>",s+=c.is_registered<T>());
  O("is_registered(info)",s+=c.is_registered(typeid(T)));
  O("begin/end(info)",thr([&]{for(auto it=c.begin(typeid(T));it!=c.end(typeid(T));++it)s+=Model::code(*it);}));
  O("cbegin/cend(info)",thr([&]{for(auto it=c.cbegin(typeid(T));it!=c.cend(typeid(T));it++)s+=Model::code(*it);}));
  O("begin/end<T>",thr([&]{for(auto it=c.begin<T>();it!=c.end<T>();++it)s+=it->val();}));
  O("cbegin/cend<T>",thr([&]{auto n=c.cend<T>()-c.cbegin<T>();for(int i=0;i<n;++i)s+=c.cbegin<T>()[i].val();}));
  O("segment(info)",thr([&]{for(const auto& x:c.segment(typeid(T)))s+=Model::code(x);auto q=c.segment(typeid(T));s+=q.type_info().hash_code()&1;for(auto it=q.begin<T>();it!=q.end<T>();++it)s+=it->val();}));
  O("segment<T>",thr([&]{for(const auto& x:c.segment<T>())s+=x.val();}));
  O("size/empty/capacity/max_size(info)",thr([&]{s+=c.size(typeid(T));});thr([&]{s+=c.empty(typeid(T));});thr([&]{s+=c.capacity(typeid(T));});thr([&]{s+=c.max_size(typeid(T))&1;}));
  (void)alias<T>();
  O("is_registered(another type_info object)",s+=c.is_registered(alias<T>()));
  O("begin/end(another type_info object)",thr([&]{for(auto it=c.begin(alias<T>());it!=c.end(alias<T>());++it)s+=Model::code(*it);}));
  O("segment(another type_info object)",thr([&]{for(const auto& x:c.segment(alias<T>()))s+=Model::code(x);}));
  O("size/empty/capacity/max_size(another type_info object)",thr([&]{s+=c.size(alias<T>());s+=c.empty(alias<T>());s+=c.capacity(alias<T>());s+=c.max_size(alias<T>())&1;}));
  O("size/empty/capacity/max_size<T>",thr([&]{s+=c.size<T>();});thr([&]{s+=c.empty<T>();});thr([&]{s+=c.capacity<T>();});thr([&]{s+=c.max_size<T>()&1;}));
  O("insert into another from const element",thr([&]{C e{A(3)};e.register_types<T>();for(auto it=c.cbegin<T>();it!=c.cend<T>();++it)e.insert(*it);s+=e.size();}));
  O("insert into another from const local range",thr([&]{C e{A(3)};e.register_types<T>();e.insert(c.cbegin<T>(),c.cend<T>());e.insert(c.cbegin(typeid(T)),c.cend(typeid(T)));s+=e.size();}));
}
static std::vector<NOp> ops(){
  std::vector<NOp> v;
  O("copy construction",thr([&]{C e(c);s+=e.size();}));
  O("copy construction with allocator",thr([&]{C e(c,A(4));s+=e.size();}));
  O("range construction",thr([&]{C e(c.begin(),c.end(),A(4));s+=e.size();}));
  O("copy assignment from",thr([&]{C e{A(1)};e.emplace<E0>(4);e=c;s+=e.size();}));
  O("insert into another, whole range",thr([&]{C e{A(3)};e.insert(c.cbegin(),c.cend());s+=e.size();}));
  O("insert into another, hinted range",thr([&]{C e{A(3)};e.emplace<E0>(1);e.insert(e.cbegin(),c.cbegin(),c.cend());s+=e.size();}));
  O("global iteration",{for(const auto& x:c)s+=Model::code(x);});
  O("global iteration, cbegin/cend",{for(auto it=c.cbegin();it!=c.cend();it++)s+=Model::code(*it);});
  O("size/empty",s+=c.size()+c.empty());
  O("get_allocator",s+=c.get_allocator().id);
  O("segment_traversal",for(auto q:c.segment_traversal()){for(const auto& x:q)s+=Model::code(x);s+=q.end()-q.begin();s+=q.cend()-q.cbegin();s+=q.type_info().hash_code()&1;});
  O("==",try{s+=c==d;}catch(const pc::not_equality_comparable&){});
  O("== reversed",try{s+=d==c;}catch(const pc::not_equality_comparable&){});
  O("== self",try{s+=c==c;}catch(const pc::not_equality_comparable&){});
  O("!=",try{s+=c!=d;}catch(const pc::not_equality_comparable&){});
  O("for_each",pc::for_each(c.begin(),c.end(),Acc{&s}));
  O("for_each<...>",pc::for_each<VF_TYPES>(c.begin(),c.end(),Acc{&s}));
  O("for_each<T>",pc::for_each<E0>(c.begin(),c.end(),Acc{&s}));
  O("find_if/count_if/all_of/none_of/any_of",s+=pc::find_if<E0>(c.begin(),c.end(),Eqv{7})==c.end();s+=pc::count_if(c.begin(),c.end(),Eqv{7});s+=pc::all_of<E1>(c.begin(),c.end(),Eqv{8});s+=pc::none_of(c.begin(),c.end(),Eqv{8});s+=pc::any_of<VF_TYPES>(c.begin(),c.end(),Eqv{9}));
  O("adjacent_find",s+=pc::adjacent_find<VF_TYPES>(c.begin(),c.end(),Eq2{})==c.end());
  O("search/equal/mismatch/is_permutation",s+=pc::search<E0,E1>(c.begin(),c.end(),d.begin(),d.end(),Eq2{})==c.end();s+=pc::equal<E0>(c.begin(),c.end(),d.begin(),d.end(),Eq2{});s+=pc::mismatch(c.begin(),c.end(),d.begin(),d.end(),Eq2{}).first==c.end();s+=pc::is_permutation<E0>(c.begin(),c.end(),d.begin(),d.end(),Eq2{}));
  O("transform/copy_if sources",std::vector<long> o;o.reserve(64);pc::transform<VF_TYPES>(c.begin(),c.end(),std::back_inserter(o),[](const auto& x){return co(x);});s+=o.size());
  for(int t=0;t<NT;++t)VT::at(t,[&](auto tg){typed<typename decltype(tg)::type>(v);});
  return v;
}
// spec: per type -1 unregistered, else number of elements; hist: how it got there
static void build(C& c,const std::vector<int>& d,int hist){
  for(int t=0;t<NT;++t)if(d[t]>=0)VT::at(t,[&](auto tg){
    using T=typename decltype(tg)::type;
    c.register_types<T>();
    if(hist==1)c.reserve<T>(5);
    for(int i=0;i<d[t];++i)c.emplace<T>(i+2);
    if(hist==2){c.emplace<T>(50);c.emplace<T>(51);c.erase(c.begin<T>()+d[t]);c.erase(c.end<T>()-1);}
  });
  if(hist==3){C e(std::move(c));C f{A(1)};c=std::move(e);}
  if(hist==4){C e{A(1)};e.swap(c);try{c=e;}catch(const not_copy_constructible&){c=std::move(e);}}
}
// what a const collection hands out gives const access only
template<class X> constexpr bool ro(){return std::is_const<typename std::remove_reference<X>::type>::value;}
template<class It> constexpr bool ro_it(){
  return ro<decltype(*std::declval<It&>())>()&&ro<typename std::iterator_traits<It>::reference>()&&
         ro<typename std::remove_pointer<decltype(std::declval<It&>().operator->())>::type>();
}
template<class T> static void constness(const char* tn){
  curop="types of const access";state=tn;
#define RO(...) do{++stat("transitions");VF_CHECK(ro_it<decltype(__VA_ARGS__)>(),"%s on a const collection yields an iterator through which elements can be modified",#__VA_ARGS__);}while(0)
#define CCC std::declval<const C&>()
#define CNC std::declval<C&>()
#define TI typeid(int)
  RO(CCC.begin());RO(CCC.end());RO(CCC.cbegin());RO(CCC.cend());RO(CNC.cbegin());RO(CNC.cend());
  RO(CCC.begin(TI));RO(CCC.end(TI));RO(CCC.cbegin(TI));RO(CCC.cend(TI));RO(CNC.cbegin(TI));RO(CNC.cend(TI));
  RO(CCC.template begin<T>());RO(CCC.template end<T>());RO(CCC.template cbegin<T>());RO(CCC.template cend<T>());RO(CNC.template cbegin<T>());RO(CNC.template cend<T>());
  RO(CCC.segment(TI).begin());RO(CCC.segment(TI).end());RO(CCC.segment(TI).cbegin());RO(CCC.segment(TI).template begin<T>());RO(CCC.segment(TI).template end<T>());RO(CCC.segment(TI).template cbegin<T>());
  RO(CNC.segment(TI).cbegin());RO(CNC.segment(TI).template cbegin<T>());
  RO(CCC.template segment<T>().begin());RO(CCC.template segment<T>().end());RO(CCC.template segment<T>().cbegin());RO(CNC.template segment<T>().cbegin());
  RO((*CCC.segment_traversal().begin()).begin());RO((*CCC.segment_traversal().begin()).template begin<T>());RO(CCC.segment_traversal().begin()->end());
  RO((*CNC.segment_traversal().cbegin()).begin());RO((*CNC.segment_traversal().begin()).cbegin());
#undef RO
  using ci=C::const_iterator;using i=C::iterator;
  using clb=C::const_local_base_iterator;using lb=C::local_base_iterator;
  using cl=C::const_local_iterator<T>;using l=C::local_iterator<T>;
  auto no=[](bool ok,const char* what){++stat("transitions");VF_CHECK(ok,"%s",what);};
  no(!std::is_constructible<i,ci>::value,"const_iterator converts to iterator");
  no(!std::is_constructible<lb,clb>::value,"const_local_base_iterator converts to local_base_iterator");
  no(!std::is_constructible<l,cl>::value,"const_local_iterator converts to local_iterator");
  no(!std::is_constructible<l,clb>::value,"const_local_base_iterator converts to local_iterator");
  no(!std::is_constructible<lb,cl>::value,"const_local_iterator converts to local_base_iterator");
  no(!std::is_assignable<i&,ci>::value&&!std::is_assignable<lb&,clb>::value&&!std::is_assignable<l&,cl>::value,"a const iterator can be assigned to a mutable one");
  no(std::is_convertible<i,ci>::value&&std::is_convertible<lb,clb>::value&&std::is_convertible<l,cl>::value,"a mutable iterator does not convert to its const counterpart");
}

int main(int argc,char** argv){
  std::string cfg=std::string(Model::name);
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  ctx().trace=[]{ctx().replay_key.clear();return state+" operation: "+curop;};
  int maxn=get_int(argc,argv,"--maxn",2),shard=get_int(argc,argv,"--shard",0),ns=get_int(argc,argv,"--nshards",1);
  auto all=ops();
  fault();life();heap();g();
  constness<E0>("E0");constness<E1>("E1");
  std::vector<std::vector<int>> specs;
  std::vector<int> d(NT,-1);
  for(;;){
    specs.push_back(d);
    int i=0;while(i<NT&&++d[i]>maxn)d[i++]=-1;
    if(i==NT)break;
  }
  bool warm=false;
  for(int pass=0;pass<2;++pass){
    int idx=0;
    for(auto& a:specs)for(int hist=0;hist<5;++hist)for(int other=0;other<3;++other){
      if(pass==1&&(idx++)%ns!=shard)continue;
      g().a.used=0;
      std::string st;for(int x:a)st+=std::to_string(x)+",";
      state="elements per type "+st+" history "+std::to_string(hist)+" other "+std::to_string(other);
      C& c=*new(g().a.get(sizeof(C))) C{A(1)};
      C& e=*new(g().a.get(sizeof(C))) C{A(other==2?2:1)};
      build(c,a,hist);
      if(other){auto b=a;if(other==2)for(auto& x:b)x=x<0?0:x>0?x-1:x;build(e,b,0);}
      for(auto& o:all){
        beat();curop=o.n;
        long s1=0,s2=0;
        if(pass==1)protect(true);
        o.f(c,e,s1);
        o.f(c,e,s2);                   // reading twice gives the same
        if(pass==1)protect(false);
        VF_CHECK(s1==s2,"a const operation repeated on an unchanged collection gave another result");
        if(pass==1){++stat("transitions");ctx().sets["ops"].insert(o.n);}
      }
      if(pass==1){++stat("states_expanded");++stat("histories");}
      c.~C();e.~C();
    }
    (void)warm;
  }
  sample("2 elements of E0, none of E1, E3 unregistered; moved there and back; operation ==");
  return finish();
}
