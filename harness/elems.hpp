// Instrumented element types, fault points, allocators and the adaptors that
// let one harness drive base_collection, function_collection and
// any_collection through their public interface.
#ifndef VF_ELEMS_HPP
#define VF_ELEMS_HPP
#include "vf.hpp"
#include <boost/poly_collection/base_collection.hpp>
#include <boost/poly_collection/function_collection.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/poly_collection/exception.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#include <cstddef>
#include <memory>
#include <new>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>

namespace vf{

/* ---- fault injection ---- */

enum{F_COPY=1,F_MOVE=2,F_ASSIGN=4,F_EMPL=8,F_ALLOC=16,F_ITER=32,F_EQ=64,F_ALL=127};
struct Injected{};
struct InjectedAlloc:std::bad_alloc{};
struct Fault{
  bool armed=false;int mask=0;long countdown=0;bool fired=false;int fired_kind=0;
  void arm(long n,int m){armed=true;countdown=n;mask=m;fired=false;fired_kind=0;}
  void disarm(){armed=false;}
};
inline Fault& fault(){static Fault* f=new Fault;return *f;}
inline void fault_point(int kind){
  auto& f=fault();
  if(f.armed&&(f.mask&kind)&&--f.countdown==0){
    f.armed=false;f.fired=true;f.fired_kind=kind;
    if(kind==F_ALLOC)throw InjectedAlloc{};
    throw Injected{};
  }
}

/* ---- element life cycle tracking ---- */

struct Life{
  long live=0;              // tracked objects alive
  long constructed=0,destroyed=0;
  long al_constructed=0,al_destroyed=0; // through an allocator
  long copies=0,moves=0;
  int  cur_alloc=-1;        // id of the allocator inside construct(), or -1
  int  cur_destroy=-1;      // id of the allocator inside destroy(), or -1
};
inline Life& life(){static Life* l=new Life;return *l;}

enum:unsigned{ALIVE=0xA11CE5EDu,DEAD=0xDEADDEADu};

template<bool NM,bool NA=NM> // NM: nothrow move construction, NA: nothrow move assignment
struct Cell{
  int v;
  unsigned magic;
  const void* self;
  int alloc_id;

  void born(){magic=ALIVE;self=this;alloc_id=life().cur_alloc;++life().live;++life().constructed;}
  void alive(const char* w)const{
    VF_CHECK(magic==ALIVE&&self==this,"element used (%s) while it is not a live object at its own address",w);
  }
  explicit Cell(int x):v(x){fault_point(F_EMPL);born();}
  Cell(const Cell& x):v(x.v){x.alive("copy construction");fault_point(F_COPY);v=x.v;born();++life().copies;}
  Cell(Cell&& x)noexcept(NM):v(x.v){x.alive("move construction");if(!NM)fault_point(F_MOVE);v=x.v;x.v=-1;born();++life().moves;}
  Cell& operator=(const Cell& x){alive("assignment");x.alive("assignment source");fault_point(F_ASSIGN);v=x.v;return *this;}
  Cell& operator=(Cell&& x)noexcept(NA){
    alive("assignment");x.alive("assignment source");if(!NA)fault_point(F_ASSIGN);
    if(this!=&x){v=x.v;x.v=-1;}
    return *this;
  }
  ~Cell(){
    alive("destruction");
    magic=DEAD;v=-77;--life().live;++life().destroyed;
  }
};

struct copy_yes{};
struct copy_no{copy_no()=default;copy_no(const copy_no&)=delete;copy_no(copy_no&&)=default;copy_no& operator=(copy_no&&)=default;};
struct asgn_yes{};
struct asgn_no{asgn_no()=default;asgn_no(const asgn_no&)=default;asgn_no(asgn_no&&)=default;asgn_no& operator=(const asgn_no&)=delete;};

struct Base{
  int canary=0x5a5a;
  Base()=default;
  Base(const Base&)=default;
  Base& operator=(const Base&)=default;
  virtual ~Base(){canary=0;}
  virtual int code()const=0;
  virtual const void* where()const=0;
};
struct Pad{long pad[3]={1,2,3};virtual ~Pad(){} virtual int other()const{return 7;}};

constexpr int KMUL=1000000;
inline int mkcode(int k,int v){return k*KMUL+v+5;}

// flags
enum{T_COPY=1,T_NM=2,T_ASGN=4,T_EQ=8,T_TA=16}; // copyable, nothrow move, assignable, comparable, throwing move assignment

template<int K,int F,int X=0> struct Elem;

template<int K,int F>
struct ElemData:std::conditional<(F&T_COPY)!=0,copy_yes,copy_no>::type,std::conditional<(F&T_ASGN)!=0,asgn_yes,asgn_no>::type{
  Cell<(F&T_NM)!=0,(F&T_NM)!=0&&!(F&T_TA)> c;
  explicit ElemData(int v):c(v){}
  ElemData(const ElemData&)=default;
  ElemData(ElemData&&)=default;
  ElemData& operator=(const ElemData&)=default;
  ElemData& operator=(ElemData&&)=default;
};

#define VF_ELEM_BODY(K,F)                                                     \
  static constexpr int kind=K;                                                \
  static constexpr int flags=F;                                               \
  using is_vf_elem=void;                                                      \
  ElemData<K,F> d;                                                            \
  int  val()const{d.c.alive("read");return d.c.v;}                           \
  void set(int v){d.c.alive("write");d.c.v=v;}                                \
  int  operator()(int)const{return code();}                                   \
  int  code()const override{                                                  \
    d.c.alive("read");                                                        \
    VF_CHECK(this->canary==0x5a5a,"base subobject of an element is damaged"); \
    return mkcode(K,d.c.v);}                                                  \
  const void* where()const override{return this;}

// X selects the class shape so that `final` and base order can vary
template<int K,int F> struct Elem<K,F,0> final:Base{            // final, Base first
  explicit Elem(int v):d(v){} Elem(int a,int b):d(a+b){}
  VF_ELEM_BODY(K,F)
};
template<int K,int F> struct alignas(32) Elem<K,F,1>:Pad,Base{  // offset base, over-aligned, extensible
  explicit Elem(int v):d(v){} Elem(int a,int b):d(a+b){}
  VF_ELEM_BODY(K,F)
};
template<int K,int F> struct Elem<K,F,2>:Base{                  // extensible, odd size
  explicit Elem(int v):d(v){} Elem(int a,int b):d(a+b){}
  char tail=7;
  VF_ELEM_BODY(K,F)
};
template<int K,int F> struct Elem<K,F,3>:Pad,Base{              // offset base
  explicit Elem(int v):d(v){} Elem(int a,int b):d(a+b){}
  VF_ELEM_BODY(K,F)
};

template<class E> struct has_eq:std::integral_constant<bool,(E::flags&T_EQ)!=0>{};
template<int K,int F,int X,typename std::enable_if<(F&T_EQ)!=0>::type* =nullptr>
bool operator==(const Elem<K,F,X>& x,const Elem<K,F,X>& y){
  fault_point(F_EQ);
  return x.val()==y.val();
}

using E0=Elem<0,T_COPY|T_NM|T_ASGN|T_EQ,0>;
using E1=Elem<1,T_COPY|T_ASGN|T_EQ,1>;
using E2=Elem<2,T_NM|T_ASGN|T_EQ,2>;
using E3=Elem<3,T_COPY|T_NM,2>;             // not assignable, not comparable
using E4=Elem<4,T_NM|T_TA|T_ASGN|T_EQ,3>;   // move only, throwing move assignment
using E7=Elem<7,T_ASGN|T_EQ,3>;             // move only, throwing move
struct E5:E1{                               // derived from another element type
  static constexpr int kind=5;
  long extra=5;
  explicit E5(int v):E1(v){} E5(int a,int b):E1(a,b){}
  int operator()(int)const{return code();}
  int code()const override{VF_CHECK(extra==5,"derived part damaged");return E1::code()+4*KMUL;}
  const void* where()const override{return this;}
};
using E6=Elem<6,T_COPY|T_NM|T_ASGN|T_EQ,2>;

// plain data, trivially copyable where the model allows it: small, and large
// and not assignable
#if defined(VF_MODEL)&&VF_MODEL==0
using PlainRoot=Base;
#define VF_PLAIN_OVERRIDE override
#else
struct PlainRoot{};
#define VF_PLAIN_OVERRIDE
#endif
#define VF_PLAIN_BODY(K,F)                                                    \
  static constexpr int kind=K;                                                \
  static constexpr int flags=F;                                               \
  using is_plain=void;                                                        \
  int  val()const{return v;}                                                  \
  int  operator()(int)const{return code();}                                   \
  int  code()const VF_PLAIN_OVERRIDE{return mkcode(K,val());}                 \
  const void* where()const VF_PLAIN_OVERRIDE{return this;}
struct E8 final:PlainRoot{
  int v;
  explicit E8(int x):v(x){fault_point(F_EMPL);} E8(int a,int b):v(a+b){fault_point(F_EMPL);}
  VF_PLAIN_BODY(8,T_COPY|T_NM|T_ASGN|T_EQ)
  friend bool operator==(const E8& x,const E8& y){return x.v==y.v;}
};
struct E9:PlainRoot{
  char head[200];const int v;char tail[90];
  explicit E9(int x):v(x){fault_point(F_EMPL);head[0]=tail[89]=char(x*7);} E9(int a,int b):E9(a+b){}
  static constexpr int kind=9,flags=T_COPY|T_NM;
  using is_plain=void;
  int  val()const{VF_CHECK(head[0]==char(v*7)&&tail[89]==head[0],"part of a large element was lost");return v;}
  int  operator()(int)const{return code();}
  int  code()const VF_PLAIN_OVERRIDE{return mkcode(9,val());}
  const void* where()const VF_PLAIN_OVERRIDE{return this;}
};
// copy operations only, which may throw
struct E10:Base{
  using copies_only=void;
  explicit E10(int x):d(x){} E10(int a,int b):d(a+b){}
  E10(const E10& x):Base(x),d(x.d){} E10& operator=(const E10& x){Base::operator=(x);d=x.d;return *this;}
  VF_ELEM_BODY(10,T_COPY|T_ASGN|T_EQ)
  friend bool operator==(const E10& x,const E10& y){fault_point(F_EQ);return x.val()==y.val();}
};
// plain data whose equality is not that of its bytes: 1 and 11 are equal, 9 does
// not even equal itself, and there is padding that differs from object to object
inline bool eq11(int x,int y){return x%10==y%10&&x%10!=9;}
struct E11:PlainRoot{
  char tag;alignas(16) int v;
  explicit E11(int x):v(x){fault_point(F_EMPL);static unsigned char n;memset((char*)&tag+1,++n,(char*)&v-&tag-1);tag=char(x);v=x;} E11(int a,int b):E11(a+b){}
  VF_PLAIN_BODY(11,T_COPY|T_NM|T_ASGN|T_EQ)
  friend bool operator==(const E11& x,const E11& y){fault_point(F_EQ);return eq11(x.v,y.v);}
};
template<class T,class=void> struct is_plain:std::false_type{};
template<class T> struct is_plain<T,typename T::is_plain>:std::true_type{};
template<class T,class=void> struct copies_only:std::false_type{};
template<class T> struct copies_only<T,typename T::copies_only>:std::true_type{};
// value left behind by a move
template<class T> constexpr int moved_val(int v){return is_plain<T>::value||copies_only<T>::value?v:-1;}
template<class T> int elem_alloc(const T& x,std::false_type){return x.d.c.alloc_id;}
template<class T> int elem_alloc(const T&,std::true_type){return -2;}

template<class E> constexpr bool copyable(){return (E::flags&T_COPY)!=0;}
template<class E> constexpr bool nothrow_move(){return (E::flags&T_NM)!=0;}
template<class E> constexpr bool assignable(){return (E::flags&T_ASGN)!=0;}
template<class E> constexpr bool comparable(){return (E::flags&T_EQ)!=0;}

template<class T,class=void> struct is_elem:std::false_type{};
template<class T> struct is_elem<T,typename T::is_vf_elem>:std::true_type{};
template<class T,class=void> struct is_stored:std::false_type{}; // further types a harness stores
template<class T> struct is_stored<T,typename T::is_vf_stored>:std::true_type{};

/* ---- allocators ---- */

enum{A_POCCA=1,A_POCMA=2,A_POCS=4,A_ALWAYSEQ=8,A_SOCCC=16,A_LIMIT=32};

struct Block{std::size_t bytes,n,al;int id;};
struct Heap{
  std::unordered_map<void*,Block> blocks;
  long total=0;
  // released blocks wait here, filled with a pattern, before being reused
  struct Q{unsigned char* p;std::size_t n;};
  static constexpr int QN=64;
  Q q[QN]={};int qi=0;
};
inline Heap& heap(){static Heap* h=new Heap;return *h;}

// raw memory: with the address sanitizer its own heap; otherwise red zones and
// a quarantine so that overruns and uses after release are noticed.
#if defined(VF_RAW_ALLOC) // supplied by the harness
void* raw_alloc(std::size_t b);
void  raw_free(void* p,std::size_t);
inline void* raw_alloc(std::size_t b,std::size_t){return raw_alloc(b);}
inline void  raw_free(void* p,std::size_t b,std::size_t){raw_free(p,b);}
#elif defined(__SANITIZE_ADDRESS__)
inline void* raw_alloc(std::size_t b,std::size_t){return ::operator new(b,std::align_val_t(64));}
inline void  raw_free(void* p,std::size_t,std::size_t){::operator delete(p,std::align_val_t(64));}
#else
constexpr std::size_t RZ=64;
inline void rz_check(const unsigned char* p,std::size_t n,unsigned char pat,const char* what){
  for(std::size_t i=0;i<n;++i)VF_CHECK(p[i]==pat,"%s",what);
}
// blocks are aligned as asked for and no better
inline std::size_t front(std::size_t al){return al>=64?64:128+al;}
inline void* raw_alloc(std::size_t b,std::size_t al){
  if(b>(std::size_t(1)<<30))throw std::bad_alloc{};
  std::size_t f=front(al);
  auto p=static_cast<unsigned char*>(::operator new(b+f+RZ,std::align_val_t(128)));
  memset(p,0xC5,f);memset(p+f,0xCD,b);memset(p+f+b,0xC5,RZ);
  return p+f;
}
inline void raw_free(void* v,std::size_t b,std::size_t al){
  std::size_t f=front(al);
  auto p=static_cast<unsigned char*>(v)-f;
  rz_check(p,f,0xC5,"memory before a block was overwritten");
  rz_check(p+f+b,RZ,0xC5,"memory past the end of a block was overwritten");
  memset(p,0xDD,b+f+RZ);
  auto& h=heap();auto& q=h.q[h.qi];h.qi=(h.qi+1)%Heap::QN;
  if(q.p){
    rz_check(q.p,q.n,0xDD,"released memory was written to");
    ::operator delete(q.p,std::align_val_t(128));
  }
  q.p=p;q.n=b+f+RZ;
}
#endif
constexpr std::size_t limit_max_size=40;

template<class T,int F>
struct TA{
  using value_type=T;
  using propagate_on_container_copy_assignment=std::integral_constant<bool,(F&A_POCCA)!=0>;
  using propagate_on_container_move_assignment=std::integral_constant<bool,(F&A_POCMA)!=0>;
  using propagate_on_container_swap=std::integral_constant<bool,(F&A_POCS)!=0>;
  using is_always_equal=std::integral_constant<bool,(F&A_ALWAYSEQ)!=0>;
  template<class U> struct rebind{using other=TA<U,F>;};
  int id;
  TA():id(0){}
  explicit TA(int i):id(i){}
  TA(const TA&)=default;
  template<class U> TA(const TA<U,F>& x)noexcept:id(x.id){}
  TA& operator=(const TA&)=default;
  T* allocate(std::size_t n){
    fault_point(F_ALLOC);
    if(n>max_size())throw std::bad_alloc{};
    void* p=raw_alloc(n*sizeof(T),alignof(T));
    heap().blocks[p]=Block{n*sizeof(T),n,alignof(T),id};
    ++heap().total;
    return static_cast<T*>(p);
  }
  void deallocate(T* p,std::size_t n)noexcept{
    auto it=heap().blocks.find(p);
    VF_CHECK(it!=heap().blocks.end(),"deallocation of a block that is not allocated");
    VF_CHECK(it->second.n==n&&it->second.bytes==n*sizeof(T)&&it->second.al==alignof(T),"deallocation with a size or alignment different from the allocation's");
    VF_CHECK((F&A_ALWAYSEQ)||it->second.id==id,"memory allocated by allocator #%d is released through allocator #%d",it->second.id,id);
    heap().blocks.erase(it);
    raw_free(p,n*sizeof(T),alignof(T));
  }
  template<class U,class... Args> void construct(U* p,Args&&... args){
    VF_CHECK(reinterpret_cast<std::uintptr_t>(p)%alignof(U)==0,"element constructed at a misaligned address");
    VF_CHECK((is_elem<U>::value||is_plain<U>::value||is_stored<U>::value),"construct of the allocator is called for an object that is not an element (%s)",typeid(U).name());
    struct G{int o;~G(){life().cur_alloc=o;}} g{life().cur_alloc};
    life().cur_alloc=id;
    ::new((void*)p)U(std::forward<Args>(args)...);
    if(is_elem<U>::value)++life().al_constructed;
  }
  template<class U> void destroy(U* p){
    VF_CHECK((is_elem<U>::value||is_plain<U>::value||is_stored<U>::value),"destroy of the allocator is called for an object that is not an element (%s)",typeid(U).name());
    p->~U();
    if(is_elem<U>::value)++life().al_destroyed;
  }
  TA select_on_container_copy_construction()const{return (F&A_SOCCC)?TA(id+100):*this;}
  std::size_t max_size()const noexcept{return (F&A_LIMIT)?limit_max_size:std::size_t(-1)/2/sizeof(T);}
  template<class U> friend bool operator==(const TA& x,const TA<U,F>& y){return (F&A_ALWAYSEQ)||x.id==y.id;}
  template<class U> friend bool operator!=(const TA& x,const TA<U,F>& y){return !(x==y);}
};

// AF<0 selects std::allocator
template<class T,int F> struct alloc_for{using type=TA<T,F>;};
template<class T> struct alloc_for<T,-1>{using type=std::allocator<T>;};
template<class A> struct mk_alloc_t;
template<class T,int F> struct mk_alloc_t<TA<T,F>>{static TA<T,F> make(int id){return TA<T,F>(id);}};
template<class T> struct mk_alloc_t<std::allocator<T>>{static std::allocator<T> make(int){return {};}};
template<class A> A mk_alloc(int id){return mk_alloc_t<A>::make(id);}
template<class T,int F> int alloc_id(const TA<T,F>& a){return a.id;}
template<class T> int alloc_id(const std::allocator<T>&){return 0;}

/* ---- collection models ---- */

namespace te=boost::type_erasure;
using any_concept=boost::mpl::vector<te::typeid_<>,te::callable<int(int),const te::_self>>;

template<int M> struct Mod;
template<> struct Mod<0>{
  static constexpr const char* name="base_collection";
  using iface=Base;
  template<int F> using coll=boost::base_collection<Base,typename alloc_for<Base,F>::type>;
  using defcoll=boost::base_collection<Base>;
  static int code(const Base& x){return x.code();}
  static const void* addr(const Base& x){return dynamic_cast<const void*>(&x);}
  static const std::type_info& tinfo(const Base& x){return typeid(x);}
};
template<> struct Mod<1>{
  static constexpr const char* name="function_collection";
  using vt=boost::poly_collection::function_collection_value_type<int(int)>;
  template<int F> using coll=boost::function_collection<int(int),typename alloc_for<vt,F>::type>;
  using defcoll=boost::function_collection<int(int)>;
  static int code(const vt& x){return x(0);}
  static const void* addr(const vt& x){return x.data();}
  static const std::type_info& tinfo(const vt& x){return x.target_type();}
};
template<> struct Mod<2>{
  static constexpr const char* name="any_collection";
  using vt=boost::poly_collection::any_collection_value_type<any_concept>;
  template<int F> using coll=boost::any_collection<any_concept,typename alloc_for<vt,F>::type>;
  using defcoll=boost::any_collection<any_concept>;
  static int code(const vt& x){return x(0);}
  static const void* addr(const vt& x){return te::any_cast<const void*>(&x);}
  static const std::type_info& tinfo(const vt& x){return te::typeid_of(x);}
};

/* ---- type lists ---- */

template<class... Ts> struct TL{static constexpr int size=sizeof...(Ts);};
template<class T> struct tag{using type=T;};

template<class L> struct visit_t;
template<class... Ts> struct visit_t<TL<Ts...>>{
  template<class F> static void at(int i,F&& f){
    int k=0;
    (void)std::initializer_list<int>{(k++==i?(f(tag<Ts>{}),0):0)...};
  }
  static const std::type_info& info(int i){
    const std::type_info* a[]={&typeid(Ts)...};return *a[i];
  }
  static int index_of(const std::type_info& t){
    const std::type_info* a[]={&typeid(Ts)...};
    for(int i=0;i<(int)sizeof...(Ts);++i)if(*a[i]==t)return i;
    return -1;
  }
  static int kind(int i){int a[]={Ts::kind...};return a[i];}
  static bool copyable(int i){bool a[]={vf::copyable<Ts>()...};return a[i];}
  static bool nothrow_move(int i){bool a[]={vf::nothrow_move<Ts>()...};return a[i];}
  static bool comparable(int i){bool a[]={vf::comparable<Ts>()...};return a[i];}
  static bool plain(int i){bool a[]={is_plain<Ts>::value...};return a[i];}
  static int moved_code(int i,int code){int a[]={moved_val<Ts>(0)...};return a[i]?mkcode(kind(i),-1):code;}
  static bool assignable(int i){bool a[]={vf::assignable<Ts>()...};return a[i];}
};

}
#endif
