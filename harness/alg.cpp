// boost::poly_collection algorithms against their std counterparts, on every
// subrange of every small collection, for every predicate/needle of the
// alphabet and several sets of restituted types.
#include "world.hpp"
#include <boost/poly_collection/algorithm.hpp>
#include <algorithm>
#include <memory>
#include <random>
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
#ifndef VF_PART
#define VF_PART 0
#endif
using namespace vf;
namespace pc=boost::poly_collection;
using L=TL<E0,E1,E5>;
using Model=Mod<VF_MODEL>;
using C=Model::coll<0>;
using A=C::allocator_type;
using V=C::value_type;
using VT=visit_t<L>;
constexpr int NT=3;
static bool check_types=false,check_values=true;

/* uniform access to elements, whatever static type they are seen through */
template<class X> int code_of(const X& x){
#if VF_MODEL==0
  return static_cast<const Base&>(x).code();
#else
  return x(0);
#endif
}
template<class X> int val_of(const X& x){return code_of(x)%KMUL-5;}
template<class X> const std::type_info& dyn_of(const X& x,std::true_type){return Model::tinfo(x);}
template<class X> const std::type_info& dyn_of(const X& x,std::false_type){return typeid(x);}
template<class X> const std::type_info& dyn_of(const X& x){return dyn_of(x,std::is_same<X,V>{});}
template<class X> const void* addr_of(const X& x,std::true_type){return Model::addr(x);}
template<class X> const void* addr_of(const X& x,std::false_type){return &x;}
template<class X> const void* addr_of(const X& x){return addr_of(x,std::is_same<X,V>{});}

struct Val{int v;};
namespace vf{
#if VF_MODEL==0
inline bool operator==(const Base& x,const Base& y){return val_of(x)==val_of(y);}
#endif
template<class X,class=decltype(code_of(std::declval<const X&>()))> bool eqv(const X& x,const Val& y){return val_of(x)==y.v;}
}
// found through Val by argument dependent lookup
template<class X,typename std::enable_if<!std::is_same<X,Val>::value>::type* =nullptr>
bool operator==(const X& x,const Val& y){return val_of(x)==y.v;}

/* what the current range contains */
static std::set<const void*> range_addrs;
static const char* cur_alg="";
static std::string cur_desc;
static long calls=0;
static std::vector<const void*> seq; // elements the unary function object was applied to

struct NoTs{};
template<class... Ts> struct Set{
  template<class X> static constexpr bool has(){
    bool r=false;(void)std::initializer_list<int>{(r=r||std::is_same<X,Ts>::value,0)...};return r;
  }
  static bool has(const std::type_info& t){
    bool r=false;(void)std::initializer_list<int>{(r=r||typeid(Ts)==t,0)...};return r;
  }
};
// checks the argument a user function object receives
template<class S,bool Const,class X> void arg(X& x){
  using T=typename std::remove_const<X>::type;
  const std::type_info& d=dyn_of(static_cast<const T&>(x));
  if(!check_types)return;
  if(S::has(d))VF_CHECK(typeid(T)==d,"%s: an element of a type in the list given to the algorithm is passed to the function object as %s",cur_alg,typeid(T).name());
  else VF_CHECK((std::is_same<T,V>::value),"%s: an element of a type not in the list given to the algorithm is passed as %s",cur_alg,typeid(T).name());
  VF_CHECK(range_addrs.count(addr_of(static_cast<const T&>(x))),"%s: the function object receives something that is not an element of the range",cur_alg);
  if(Const)VF_CHECK(std::is_const<X>::value||!std::is_reference<X&>::value,"%s: mutable access through const iterators",cur_alg);
  ++stat("arguments");
}
template<class S,bool C_> void arg(const Val&){}
template<class S,bool C_> void arg(Val&){}
template<class X> int v_of(const X& x){return val_of(x);}
inline int v_of(const Val& x){return x.v;}
template<class X> int k_of(const X& x){return code_of(x)/KMUL;}

/* function objects: S is the set of restituted types, Set<> for the reference run */
enum{U_ONE,U_ZERO,U_KIND0,U_TRUE,U_N};
template<class S,bool C_> struct Un{
  int p;
  template<class X> bool operator()(X& x)const{
    arg<S,C_>(x);++calls;seq.push_back(addr_of(static_cast<const typename std::remove_const<X>::type&>(x)));
    switch(p){case U_ONE:return v_of(x)==1;case U_ZERO:return v_of(x)==0;case U_KIND0:return k_of(x)==0;default:return true;}
  }
};
enum{B_EQ,B_LESS,B_N};
template<class S,bool C_> struct Bi{
  int p;
  template<class X,class Y> bool operator()(X& x,Y& y)const{
    arg<S,C_>(x);arg<S,C_>(y);++calls;
    return p==B_EQ?v_of(x)==v_of(y):v_of(x)<v_of(y);
  }
};
template<class S,bool C_> struct Fn{ // stateful, for for_each
  std::vector<const void*> seen;
  template<class X> void operator()(X& x){arg<S,C_>(x);++calls;seen.push_back(addr_of(static_cast<const typename std::remove_const<X>::type&>(x)));}
};
template<class S,bool C_> struct FnN{std::vector<const void*>* s;Fn<S,C_> g;template<class X>void operator()(X& x){g(x);s->push_back(g.seen.back());}};
template<class S,bool C_> struct FnM{Fn<S,C_> g;FnM()=default;FnM(FnM&&)=default;FnM& operator=(FnM&&)=delete;template<class X>void operator()(X& x){g(x);}};
template<class S,bool C_> struct Op1{
  template<class X> int operator()(X& x)const{arg<S,C_>(x);++calls;seq.push_back(addr_of(static_cast<const typename std::remove_const<X>::type&>(x)));return v_of(x)*10+k_of(x);}
};
template<class S,bool C_> struct Op2{
  template<class X> int operator()(X& x,const Val& y)const{arg<S,C_>(x);++calls;return v_of(x)*100+k_of(x)*10+y.v;}
};

/* output iterator remembering what it is given where: each copy has its own
 * position, like an iterator into an array */
struct Got{
  std::vector<std::pair<const void*,int>> v;
  void set(std::size_t pos,const void* p,int x){
    if(check_values)VF_CHECK(pos==v.size(),"%s writes to position %zu of its output after %zu elements",cur_alg,pos,v.size());
    v.push_back({p,x});
  }
};
template<class S> struct Out{
  using iterator_category=std::output_iterator_tag;
  using value_type=void;using difference_type=std::ptrdiff_t;using pointer=void;using reference=void;
  Got* g;std::size_t pos;
  Out& operator*(){return *this;}
  Out& operator++(){++pos;return *this;}
  Out operator++(int){Out o(*this);++pos;return o;}
  template<class X> void put(X&& x,std::true_type){g->set(pos,nullptr,(int)x);}
  template<class X> void put(X&& x,std::false_type){
    using T=typename std::remove_cv<typename std::remove_reference<X>::type>::type;
    const std::type_info& d=dyn_of(static_cast<const T&>(x));
    if(check_types)VF_CHECK((S::has(d)?typeid(T)==d:std::is_same<T,V>::value),"%s: element assigned to the output iterator as %s",cur_alg,typeid(T).name());
    g->set(pos,addr_of(static_cast<const T&>(x)),code_of(x)*4+(std::is_rvalue_reference<X&&>::value?1:0));
  }
  Out& operator=(const Out&)=default;
  Out(Got* g):g(g),pos(g->v.size()){}
  Out(const Out&)=default;
  Out& operator=(const Val& x){g->set(pos,nullptr,x.v);return *this;}
  template<class X,typename std::enable_if<!std::is_same<typename std::decay<X>::type,Out>::value&&!std::is_same<typename std::decay<X>::type,Val>::value>::type* =nullptr>
  Out& operator=(X&& x){put(std::forward<X>(x),std::is_arithmetic<typename std::decay<X>::type>{});return *this;}
};
static bool same(const Got& a,const Got& b){return a.v==b.v;}
// the output iterator an algorithm returns is the one after what it wrote
template<class S> void wrote(const Out<S>& o,const Got& a){
  if(check_values)VF_CHECK(o.g==&a&&o.pos==a.v.size(),"%s returns the output iterator at position %zu after writing %zu elements",cur_alg,o.pos,a.v.size());
}
template<class S> void wrote(const std::pair<Out<S>,Out<S>>& o,const Got& a,const Got& b){wrote(o.first,a);wrote(o.second,b);}

#define ALG(n) cur_alg=n;beat();++stat("transitions");ctx().sets["algorithms"].insert(n)
#define CMP(cond,...) do{if(check_values)VF_CHECK(cond,__VA_ARGS__);}while(0)
#define BOUND(N,what) do{if(check_values)VF_CHECK(calls<=(long)(N),"%s applies the function object %ld times to %ld elements",what,calls,(long)(N));}while(0)
#define EXACT(N,what) do{if(check_values)VF_CHECK(calls==(long)(N),"%s applies the function object %ld times to %ld elements",what,calls,(long)(N));}while(0)

// SEQ0: start recording, SEQ1: keep what the library did, SEQ2: compare with the reference run
#define SEQ0 calls=0;seq.clear()
#define SEQ1 std::vector<const void*> seq1;seq1.swap(seq)
#define SEQ2(what) do{if(check_values)VF_CHECK(seq1==seq,"%s does not apply the function object to the elements std::%s applies it to, in order, once (%d calls, %d expected)",what,what,(int)seq1.size(),(int)seq.size());}while(0)

static std::vector<std::vector<Val>> needles;
static int maxc=4;
static bool fullrange=false;

template<class G> struct Refs{};

// S: what to expect, Ts...: what to pass
template<class It,bool C_,class... Ts> struct Runner{
  using S=Set<Ts...>;using R=Set<>;
  using U=Un<S,C_>;using UR=Un<R,false>;
  using B=Bi<S,C_>;using BR=Bi<R,false>;
  struct off{bool o;off():o(check_types){check_types=false;}~off(){check_types=o;}};
  template<class F> static auto ref(F f)->decltype(f()){off o;return f();}

  static void part0(It f,It l,long n){
    for(int p=0;p<U_N;++p){
      U u{p};UR r{p};
      {ALG("all_of");SEQ0;bool x=pc::all_of<Ts...>(f,l,u);BOUND(n,"all_of");SEQ1;CMP(x==ref([&]{return std::all_of(f,l,r);}),"all_of gives %d",x);SEQ2("all_of");}
      {ALG("any_of");SEQ0;bool x=pc::any_of<Ts...>(f,l,u);BOUND(n,"any_of");SEQ1;CMP(x==ref([&]{return std::any_of(f,l,r);}),"any_of gives %d",x);SEQ2("any_of");}
      {ALG("none_of");SEQ0;bool x=pc::none_of<Ts...>(f,l,u);BOUND(n,"none_of");SEQ1;CMP(x==ref([&]{return std::none_of(f,l,r);}),"none_of gives %d",x);SEQ2("none_of");}
      {ALG("find_if");SEQ0;It x=pc::find_if<Ts...>(f,l,u);BOUND(n,"find_if");SEQ1;CMP(x==ref([&]{return std::find_if(f,l,r);}),"find_if gives another position than std::find_if");use(x,l);SEQ2("find_if");}
      {ALG("find_if_not");SEQ0;It x=pc::find_if_not<Ts...>(f,l,u);BOUND(n,"find_if_not");SEQ1;CMP(x==ref([&]{return std::find_if_not(f,l,r);}),"find_if_not gives another position than std::find_if_not");use(x,l);SEQ2("find_if_not");}
      {ALG("count_if");SEQ0;auto x=pc::count_if<Ts...>(f,l,u);EXACT(n,"count_if");SEQ1;CMP(x==ref([&]{return std::count_if(f,l,r);}),"count_if gives %d",(int)x);SEQ2("count_if");}
      {ALG("is_partitioned");calls=0;bool x=pc::is_partitioned<Ts...>(f,l,u);BOUND(n,"is_partitioned");bool y=ref([&]{return std::is_partitioned(f,l,r);});CMP(x==y,"is_partitioned gives %d",x);
       if(y){ALG("partition_point");It z=pc::partition_point<Ts...>(f,l,u);CMP(z==ref([&]{return std::partition_point(f,l,r);}),"partition_point gives another position than std::partition_point");use(z,l);}}
      {ALG("copy_if");Got a,b;SEQ0;wrote(pc::copy_if<Ts...>(f,l,Out<S>(&a),u),a);EXACT(n,"copy_if");SEQ1;ref([&]{std::copy_if(f,l,Out<R>(&b),r);return 0;});CMP(same(a,b),"copy_if output differs from std::copy_if's");SEQ2("copy_if");}
      {ALG("remove_copy_if");Got a,b;SEQ0;wrote(pc::remove_copy_if<Ts...>(f,l,Out<S>(&a),u),a);EXACT(n,"remove_copy_if");SEQ1;ref([&]{std::remove_copy_if(f,l,Out<R>(&b),r);return 0;});CMP(same(a,b),"remove_copy_if output differs from std::remove_copy_if's");SEQ2("remove_copy_if");}
      {ALG("replace_copy_if");Got a,b;SEQ0;wrote(pc::replace_copy_if<Ts...>(f,l,Out<S>(&a),u,Val{7}),a);EXACT(n,"replace_copy_if");SEQ1;ref([&]{rci(f,l,Out<R>(&b),r);return 0;});CMP(same(a,b),"replace_copy_if output is wrong");SEQ2("replace_copy_if");}
      {ALG("partition_copy");Got a,b,a2,b2;SEQ0;wrote(pc::partition_copy<Ts...>(f,l,Out<S>(&a),Out<S>(&a2),u),a,a2);EXACT(n,"partition_copy");SEQ1;ref([&]{std::partition_copy(f,l,Out<R>(&b),Out<R>(&b2),r);return 0;});CMP(same(a,b)&&same(a2,b2),"partition_copy output differs from std::partition_copy's");SEQ2("partition_copy");}
    }
    {ALG("for_each");calls=0;Fn<S,C_> fn=pc::for_each<Ts...>(f,l,Fn<S,C_>{});EXACT(n,"for_each");auto r=ref([&]{return std::for_each(f,l,Fn<R,false>{});});CMP(fn.seen==r.seen,"for_each does not visit the range in order, once, with one function object");}
    {ALG("for_each (move-only function object)");calls=0;auto fn=pc::for_each<Ts...>(f,l,FnM<S,C_>{});EXACT(n,"for_each");auto r=ref([&]{return std::for_each(f,l,Fn<R,false>{});});CMP(fn.g.seen==r.seen,"for_each does not visit the range in order, once, with one function object");}
    {ALG("copy_n");Got a;wrote(pc::copy_n<Ts...>(f,-1,Out<S>(&a)),a);CMP(a.v.empty(),"copy_n of a negative count copies");}
    for(long k=0;k<=n;++k){
      {ALG("for_each_n");calls=0;std::vector<const void*> s1,s2;
       It x=k%3==0?pc::for_each_n<Ts...>(f,k,FnN<S,C_>{&s1,{}}):k%3==1?pc::for_each_n<Ts...>(f,(std::size_t)k,FnN<S,C_>{&s1,{}}):pc::for_each_n<Ts...>(f,(short)k,FnN<S,C_>{&s1,{}});EXACT(k,"for_each_n");
       It y=f;for(long i=0;i<k;++i,++y)s2.push_back(Model::addr(*y));
       CMP(x==y&&s1==s2,"for_each_n visits or returns something else than std::for_each_n");use(x,l);}
      {ALG("copy_n");Got a,b;if(k&1)wrote(pc::copy_n<Ts...>(f,(std::ptrdiff_t)k,Out<S>(&a)),a);else wrote(pc::copy_n<Ts...>(f,(int)k,Out<S>(&a)),a);ref([&]{std::copy_n(f,k,Out<R>(&b));return 0;});CMP(same(a,b),"copy_n output differs from std::copy_n's");}
    }
    {ALG("copy");Got a,b;wrote(pc::copy<Ts...>(f,l,Out<S>(&a)),a);ref([&]{std::copy(f,l,Out<R>(&b));return 0;});CMP(same(a,b),"copy output differs from std::copy's");}
    {ALG("move");Got a,b;wrote(pc::move<Ts...>(f,l,Out<S>(&a)),a);ref([&]{for(It i=f;i!=l;++i){Out<R> o(&b);*o=std::move(*i);}return 0;});CMP(same(a,b),"move does not pass the elements on as rvalues in order");}
    {ALG("transform");Got a,b;SEQ0;wrote(pc::transform<Ts...>(f,l,Out<S>(&a),Op1<S,C_>{}),a);EXACT(n,"transform");SEQ1;ref([&]{std::transform(f,l,Out<R>(&b),Op1<R,false>{});return 0;});CMP(same(a,b),"transform output differs from std::transform's");SEQ2("transform");}
    {Val z[12];for(int i=0;i<12;++i)z[i].v=i%3;
     {ALG("transform (binary)");Got a,b;calls=0;wrote(pc::transform<Ts...>(f,l,(const Val*)z,Out<S>(&a),Op2<S,C_>{}),a);EXACT(n,"transform (binary)");ref([&]{std::transform(f,l,(const Val*)z,Out<R>(&b),Op2<R,false>{});return 0;});CMP(same(a,b),"binary transform output differs from std::transform's");}
     {ALG("transform (binary, input iterator)");Got a,b;wrote(pc::transform<Ts...>(f,l,InIt<Val>(z),Out<S>(&a),Op2<S,C_>{}),a);ref([&]{std::transform(f,l,(const Val*)z,Out<R>(&b),Op2<R,false>{});return 0;});CMP(same(a,b),"binary transform output differs from std::transform's");}
    }
    for(int v=0;v<3;++v){
      {ALG("find");It x=pc::find<Ts...>(f,l,Val{v});CMP(x==ref([&]{return std::find(f,l,Val{v});}),"find gives another position than std::find");use(x,l);}
      {ALG("count");auto x=pc::count<Ts...>(f,l,Val{v});CMP(x==ref([&]{return std::count(f,l,Val{v});}),"count gives %d",(int)x);}
      {ALG("remove_copy");Got a,b;wrote(pc::remove_copy<Ts...>(f,l,Out<S>(&a),Val{v}),a);ref([&]{std::remove_copy(f,l,Out<R>(&b),Val{v});return 0;});CMP(same(a,b),"remove_copy output differs from std::remove_copy's");}
      {ALG("replace_copy");Got a,b;wrote(pc::replace_copy<Ts...>(f,l,Out<S>(&a),Val{v},Val{8}),a);ref([&]{for(It i=f;i!=l;++i){Out<R> o(&b);if(*i==Val{v})*o=Val{8};else *o=*i;}return 0;});CMP(same(a,b),"replace_copy output is wrong");}
    }
    {It m=f;for(;;){
      ALG("rotate_copy");Got a,b;wrote(pc::rotate_copy<Ts...>(f,m,l,Out<S>(&a)),a);ref([&]{std::rotate_copy(f,m,l,Out<R>(&b));return 0;});CMP(same(a,b),"rotate_copy output differs from std::rotate_copy's");
      if(m==l)break;++m;}}
  }
  template<class O,class P> static void rci(It f,It l,O o,P p){for(;f!=l;++f){if(p(*f))*o=Val{7};else *o=*f;++o;}}
  // a returned position can be used to go on
  static void use(It x,It l){if(!check_values)return;long k=0;for(;x!=l;++x){(void)code_of(*x);VF_CHECK(++k<100,"%s returns an iterator from which the end of the range cannot be reached",cur_alg);}}

  static void part1(It f,It l,long n){
    for(int p=0;p<B_N;++p){
      B b{p};BR r{p};
      {ALG("adjacent_find");calls=0;It x=pc::adjacent_find<Ts...>(f,l,b);BOUND(n,"adjacent_find");CMP(x==ref([&]{return std::adjacent_find(f,l,r);}),"adjacent_find gives another position than std::adjacent_find");use(x,l);}
      for(auto& nd:needles){
        const Val *a=nd.data(),*z=a+nd.size();long k=(long)nd.size();
        {ALG("find_first_of");calls=0;It x=pc::find_first_of<Ts...>(f,l,a,z,b);BOUND(n*k,"find_first_of");CMP(x==ref([&]{return std::find_first_of(f,l,a,z,r);}),"find_first_of gives another position than std::find_first_of");use(x,l);}
        {ALG("search");calls=0;It x=pc::search<Ts...>(f,l,a,z,b);BOUND(n*k,"search");CMP(x==ref([&]{return std::search(f,l,a,z,r);}),"search gives another position than std::search");use(x,l);}
        {ALG("find_end");It x=pc::find_end<Ts...>(f,l,a,z,b);CMP(x==ref([&]{return std::find_end(f,l,a,z,r);}),"find_end gives another position than std::find_end");use(x,l);}
        {ALG("mismatch");calls=0;auto x=pc::mismatch<Ts...>(f,l,a,z,b);BOUND(std::min(n,k),"mismatch");auto y=ref([&]{return std::mismatch(f,l,a,z,r);});CMP(x.first==y.first&&x.second==y.second,"mismatch gives other positions than std::mismatch");use(x.first,l);}
        {ALG("equal");calls=0;bool x=pc::equal<Ts...>(f,l,a,z,b);BOUND(std::min(n,k),"equal");CMP(x==ref([&]{return std::equal(f,l,a,z,r);}),"equal gives %d",x);}
        {ALG("equal (input iterators)");bool x=pc::equal<Ts...>(f,l,InIt<Val>(a),InIt<Val>(z),b);CMP(x==ref([&]{return std::equal(f,l,a,z,r);}),"equal gives %d",x);}
        {ALG("mismatch (input iterators)");auto x=pc::mismatch<Ts...>(f,l,InIt<Val>(a),InIt<Val>(z),b);auto y=ref([&]{return std::mismatch(f,l,a,z,r);});CMP(x.first==y.first&&x.second==InIt<Val>(y.second),"mismatch gives other positions than std::mismatch");}
        if(k>=n){
          {ALG("mismatch (3)");auto x=pc::mismatch<Ts...>(f,l,a,b);auto y=ref([&]{return std::mismatch(f,l,a,r);});CMP(x.first==y.first&&x.second==y.second,"mismatch gives other positions than std::mismatch");}
          {ALG("equal (3)");bool x=pc::equal<Ts...>(f,l,a,b);CMP(x==ref([&]{return std::equal(f,l,a,r);}),"equal gives %d",x);}
        }
        if(p==B_EQ){
          {ALG("is_permutation (4)");bool x=pc::is_permutation<Ts...>(f,l,a,z,b);CMP(x==ref([&]{return perm(f,l,a,z);}),"is_permutation gives %d",x);}
          if(k>=n){ALG("is_permutation (3)");bool x=pc::is_permutation<Ts...>(f,l,a,b);CMP(x==ref([&]{return perm(f,l,a,a+n);}),"is_permutation gives %d",x);}
        }
      }
      for(int c=-1;c<=maxc;++c)for(int v=0;v<2;++v){
        ALG("search_n");calls=0;It x=pc::search_n<Ts...>(f,l,c,Val{v},b);BOUND(n,"search_n");CMP(x==ref([&]{return std::search_n(f,l,c,Val{v},r);}),"search_n gives another position than std::search_n");use(x,l);
      }
    }
    // default comparison with values
    for(auto& nd:needles){
      const Val *a=nd.data(),*z=a+nd.size();long k=(long)nd.size();
      {ALG("find_first_of (==)");It x=pc::find_first_of<Ts...>(f,l,a,z);CMP(x==ref([&]{return std::find_first_of(f,l,a,z);}),"find_first_of gives another position than std::find_first_of");}
      {ALG("search (==)");It x=pc::search<Ts...>(f,l,a,z);CMP(x==ref([&]{return std::search(f,l,a,z);}),"search gives another position than std::search");}
      {ALG("find_end (==)");It x=pc::find_end<Ts...>(f,l,a,z);CMP(x==ref([&]{return std::find_end(f,l,a,z);}),"find_end gives another position than std::find_end");}
      {ALG("mismatch (==)");auto x=pc::mismatch<Ts...>(f,l,a,z);auto y=ref([&]{return std::mismatch(f,l,a,z);});CMP(x.first==y.first&&x.second==y.second,"mismatch gives other positions than std::mismatch");}
      {ALG("equal (==)");bool x=pc::equal<Ts...>(f,l,a,z);CMP(x==ref([&]{return std::equal(f,l,a,z);}),"equal gives %d",x);}
      if(k>=n){
        {ALG("mismatch (3, ==)");auto x=pc::mismatch<Ts...>(f,l,a);auto y=ref([&]{return std::mismatch(f,l,a);});CMP(x.first==y.first&&x.second==y.second,"mismatch gives other positions than std::mismatch");}
        {ALG("equal (3, ==)");bool x=pc::equal<Ts...>(f,l,a);CMP(x==ref([&]{return std::equal(f,l,a);}),"equal gives %d",x);}
      }
    }
    for(int c=-1;c<=maxc;++c)for(int v=0;v<2;++v){
      ALG("search_n (==)");It x=pc::search_n<Ts...>(f,l,c,Val{v});CMP(x==ref([&]{return std::search_n(f,l,c,Val{v});}),"search_n gives another position than std::search_n");
    }
    {ALG("unique_copy");Got a,b;calls=0;wrote(pc::unique_copy<Ts...>(f,l,Out<S>(&a),B{B_EQ}),a);BOUND(n,"unique_copy");ref([&]{uniq(f,l,&b);return 0;});CMP(same(a,b),"unique_copy output differs from std::unique_copy's");}
#if VF_MODEL==0
    {ALG("adjacent_find (==)");It x=pc::adjacent_find<Ts...>(f,l);CMP(x==ref([&]{return std::adjacent_find(f,l);}),"adjacent_find gives another position than std::adjacent_find");}
    {ALG("unique_copy (==)");Got a,b;wrote(pc::unique_copy<Ts...>(f,l,Out<S>(&a)),a);ref([&]{uniq(f,l,&b);return 0;});CMP(same(a,b),"unique_copy output differs from std::unique_copy's");}
    for(auto& nd:needles){
      const Val *a=nd.data(),*z=a+nd.size();long k=(long)nd.size();
      {ALG("is_permutation (4, ==)");bool x=pc::is_permutation<Ts...>(f,l,a,z);CMP(x==ref([&]{return perm(f,l,a,z);}),"is_permutation gives %d",x);}
      if(k>=n){ALG("is_permutation (3, ==)");bool x=pc::is_permutation<Ts...>(f,l,a);CMP(x==ref([&]{return perm(f,l,a,a+n);}),"is_permutation gives %d",x);}
    }
#endif
    // against other ranges of the same collection, elements on both sides
    {ALG("equal (two poly ranges)");bool x=pc::equal<Ts...>(f,l,f,l,Eq2{});CMP(x,"a range is not equal to itself");}
    if(check_values){
      It a=f;
      for(long i=0;i<=n;++i){
        It z=a;
        for(long j=i;;++j){
          {ALG("find_first_of (two poly ranges)");It x=pc::find_first_of<Ts...>(f,l,a,z,Eq2{});CMP(x==std::find_first_of(f,l,a,z,Eq2{}),"find_first_of gives another position than std::find_first_of");}
          {ALG("search (two poly ranges)");It x=pc::search<Ts...>(f,l,a,z,Eq2{});CMP(x==std::search(f,l,a,z,Eq2{}),"search gives another position than std::search");}
          {ALG("find_end (two poly ranges)");It x=pc::find_end<Ts...>(f,l,a,z,Eq2{});CMP(x==std::find_end(f,l,a,z,Eq2{}),"find_end gives another position than std::find_end");}
          {ALG("mismatch (two poly ranges)");auto x=pc::mismatch<Ts...>(f,l,a,z,Eq2{});auto y=std::mismatch(f,l,a,z,Eq2{});CMP(x.first==y.first&&x.second==y.second,"mismatch gives other positions than std::mismatch");}
          {ALG("is_permutation (two poly ranges)");bool x=pc::is_permutation<Ts...>(a,z,f,l,Eq2{});CMP(x==std::is_permutation(a,z,f,l,Eq2{}),"is_permutation gives %d",x);}
          if(j==n)break;
          ++z;
        }
        if(i<n)++a;
      }
    }
    sampling(f,l,n);
  }
  struct Eq2{template<class X,class Y> bool operator()(const X& x,const Y& y)const{return val_of(x)==val_of(y);}};
  static bool perm(It f,It l,const Val* a,const Val* z){
    std::vector<int> x,y;for(;f!=l;++f)x.push_back(val_of(*f));for(;a!=z;++a)y.push_back(a->v);
    std::sort(x.begin(),x.end());std::sort(y.begin(),y.end());return x==y;
  }
  static void uniq(It f,It l,Got* g){
    bool have=false;int last=0;
    for(;f!=l;++f){if(!have||val_of(*f)!=last){Out<R> o(g);*o=*f;have=true;}last=val_of(*f);}
  }

  /* every sequence of answers of the random source: each subset of the right
   * size must come out with the same probability */
  struct Gen{
    using result_type=unsigned;
    static constexpr unsigned min(){return 0;}
    static constexpr unsigned max(){return 12;}   // 12 is never returned: no rejection for 1,2,3,4,6 outcomes
    std::vector<int>* choice;std::size_t* pos;
    unsigned operator()()const{
      if(*pos==choice->size())choice->push_back(0);
      return (unsigned)(*choice)[(*pos)++];
    }
  };
  static void sampling(It f,It l,long n){
    if(n>4)return;
    for(It i=f;i!=l;++i)if(val_of(*i)!=0)return; // values do not matter here
    for(long k=0;k<=n+1;++k){
      ALG("sample");
      std::vector<int> choice;
      std::map<std::vector<int>,double> hist;
      std::vector<const void*> all;for(It i=f;i!=l;++i)all.push_back(Model::addr(*i));
      bool regular=true;
      for(;;){
        beat();
        std::size_t pos=0;
        Got a;
        wrote(pc::sample<Ts...>(f,l,Out<S>(&a),k,Gen{&choice,&pos}),a);
        ++stat("transitions");
        if(pos>(std::size_t)n+1)regular=false;
        CMP((long)a.v.size()==std::min(k,n),"sample(%ld of %ld) gives %zu elements",k,n,a.v.size());
        std::vector<int> idx;
        for(auto& p:a.v){int i=(int)(std::find(all.begin(),all.end(),p.first)-all.begin());CMP(i<n,"sample gives something that is not an element of the range");idx.push_back(i);}
        for(std::size_t i=1;i<idx.size();++i)CMP(idx[i-1]<idx[i],"sample repeats an element or does not keep the relative order");
        double w=1;for(std::size_t i=0;i<pos;++i)w/=12;
        hist[idx]+=w;
        choice.resize(pos);
        // next answer sequence
        while(!choice.empty()&&choice.back()==11)choice.pop_back();
        if(choice.empty())break;
        ++choice.back();
        if(!regular)break;
      }
      if(regular&&k<=n){
        double cnt=1;for(long i=0;i<k;++i)cnt=cnt*(n-i)/(i+1);
        CMP(hist.size()==(std::size_t)(cnt+.5),"sample(%ld of %ld) can only give %zu of the %d possible results",k,n,hist.size(),(int)(cnt+.5));
        for(auto& h:hist)CMP(std::abs(h.second-1/cnt)<1e-9,"sample(%ld of %ld): a result has probability %f instead of %f",k,n,h.second,1/cnt);
        ++stat("distributions");
      }
    }
  }
  static void run(It f,It l,long n){
#if VF_PART==0
    part0(f,l,n);
#else
    part1(f,l,n);
#endif
  }
};

static std::string content;
static bool gaps=false; // runs of empty segments between the others
struct State{std::vector<int> d[NT];bool reg[NT];};

static void explore(const State& st,int variants){
  C c(A(1));
  for(int t=0;t<NT;++t)if(st.reg[t])VT::at(t,[&](auto tg){
    using T=typename decltype(tg)::type;
    c.template register_types<T>();
    for(int v:st.d[t])c.template emplace<T>(v);
    if(gaps&&t==0)c.template register_types<E3,E4>();
    if(gaps&&t==1)c.template register_types<E8,E9>();
  });
  const C& cc=c;
  int n=(int)c.size();
  std::vector<C::iterator> g;std::vector<C::const_iterator> cg;
  {auto i=c.begin();auto j=cc.begin();for(int k=0;k<=n;++k){g.push_back(i);cg.push_back(j);if(k<n){++i;++j;}}}
  ++stat("states_expanded");
  std::size_t nn=needles.size();
  if(fullrange){
    // whole sequence against variations of itself
    std::vector<Val> w;for(auto& x:cc)w.push_back(Val{val_of(x)});
    auto u=w;std::reverse(u.begin(),u.end());needles.push_back(u);
    std::sort(u.begin(),u.end(),[](Val a,Val b){return a.v<b.v;});needles.push_back(u);
    needles.push_back(w);
    for(std::size_t i=0;i<w.size();++i){u=w;u[i].v^=1;needles.push_back(u);}
    for(std::size_t i=0;i<w.size();++i){needles.push_back({w.begin()+i,w.end()});}
  }
  for(int i=0;i<=n;++i)for(int j=i;j<=n;++j){
    if(fullrange&&(i||j!=n))continue;
    range_addrs.clear();
    for(int k=i;k<j;++k)range_addrs.insert(Model::addr(*g[k]));
    cur_desc=content+" range "+std::to_string(i)+".."+std::to_string(j);
    ctx().replay_key=content;
    ++stat("histories");
    using I=C::iterator;using J=C::const_iterator;
    long m=j-i;
    if(variants&1){Runner<I,false>::run(g[i],g[j],m);Runner<J,true>::run(cg[i],cg[j],m);}
    if(variants&2){Runner<J,true,E1>::run(cg[i],cg[j],m);}
    if(variants&4){Runner<I,false,E5,E0>::run(g[i],g[j],m);}
    if(variants&8){Runner<J,true,E0,E1,E5>::run(cg[i],cg[j],m);}
    if(variants&16){Runner<I,false,E6,E2,E3,E4,E8,E1,E1>::run(g[i],g[j],m);}
  }
  needles.resize(nn);
}
int main(int argc,char** argv){
  std::string cfg=std::string(Model::name)+" algorithms part " + std::to_string(VF_PART);
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  ctx().trace=[]{return std::string(cur_alg)+" on "+cur_desc;};
  check_types=has_flag(argc,argv,"--types");
  check_values=!check_types;
  int maxseg=get_int(argc,argv,"--maxseg",2),maxtot=get_int(argc,argv,"--maxtotal",5);
  int shard=get_int(argc,argv,"--shard",0),nshards=get_int(argc,argv,"--nshards",1),variants=get_int(argc,argv,"--variants",31);
  int nl=get_int(argc,argv,"--needle",3);
  gaps=has_flag(argc,argv,"--gaps");
  maxc=get_int(argc,argv,"--maxcount",4);fullrange=has_flag(argc,argv,"--fullrange");
  needles.push_back({});
  for(std::size_t i=0;i<needles.size();++i)if((int)needles[i].size()<nl)for(int v=0;v<2;++v){auto s=needles[i];s.push_back(Val{v});needles.push_back(s);}
  std::vector<std::vector<int>> segs;segs.push_back({});
  for(std::size_t i=0;i<segs.size();++i)if((int)segs[i].size()<maxseg)for(int v=0;v<2;++v){auto s=segs[i];s.push_back(v);segs.push_back(s);}
  int SN=(int)segs.size();
  const char* rep=get_opt(argc,argv,"--replay",nullptr);
  long idx=0;
  for(int a=-1;a<SN;++a)for(int b=-1;b<SN;++b)for(int e=-1;e<SN;++e){
    int sel[3]={a,b,e};
    State st;int tot=0;
    content.clear();
    for(int t=0;t<NT;++t){
      st.reg[t]=sel[t]>=0;
      if(st.reg[t])st.d[t]=segs[sel[t]];
      tot+=(int)st.d[t].size();
      content+=st.reg[t]?"[":"-";
      for(int v:st.d[t])content+=char('0'+v);
      if(st.reg[t])content+="]";
    }
    if(tot>maxtot)continue;
    if(rep?content!=rep:(idx++%nshards)!=shard)continue;
    explore(st,variants);
    if(stat("histories")<400)sample(content,3);
  }
  return finish();
}
