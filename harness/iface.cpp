// Elements seen through the abstract interface are the stored objects: calls,
// identity and conversions of the value types, and insertion of abstract
// references by dynamic type; checked for every element and view after every
// operation of every short history.
#include "elems.hpp"
#include <boost/type_erasure/operators.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/relaxed.hpp>
#ifndef VF_MODEL
#define VF_MODEL 1
#endif
using namespace vf;
namespace pc=boost::poly_collection;
static std::string cur;
static int shard_=0,nshards_=1;
static int out_of(const std::type_info*& pi,const std::function<void()>& f){
  pi=nullptr;
  try{f();return 0;}
  catch(const pc::unregistered_type& e){pi=e.pinfo;return 1;}
  catch(const pc::not_copy_constructible& e){pi=e.pinfo;return 2;}
}

/* generic driver: short histories over a family of element types.
 * P::types  type list; P::template mk<T>(id) makes a value; P::id(T&) reads it;
 * P::look(value_type&, T* stored, int id, set id) exercises one erased view */
template<class P> struct Drv{
  using C=typename P::C;
  using TLt=typename P::types;
  using VT=visit_t<TLt>;
  static constexpr int NT=TLt::size;
  struct St{std::unique_ptr<C> c;std::vector<int> ids[NT];bool reg[NT]={};int fresh=1;St():c(new C){}};
  // 0..: op*NT+t
  enum{EMPL,INSC,INSM,PINS,ERF,ERL,RES,NTOP};
  static constexpr int NOPS=NTOP*NT+4;
  template<class T> static void opt(St& s,int op,int t){
    int id=s.fresh++;
    switch(op){
    case EMPL:s.c->template emplace<T>(P::template mk<T>(id));s.reg[t]=true;s.ids[t].push_back(id);break;
    case INSC:{const T x=P::template mk<T>(id);s.c->insert(x);s.reg[t]=true;s.ids[t].push_back(id);break;}
    case INSM:s.c->insert(P::template mk<T>(id));s.reg[t]=true;s.ids[t].push_back(id);break;
    case PINS:if(s.reg[t]){s.c->insert(s.c->template begin<T>(),P::template mk<T>(id));s.ids[t].insert(s.ids[t].begin(),id);}break;
    case ERF:if(!s.ids[t].empty()){s.c->erase(s.c->template begin<T>());s.ids[t].erase(s.ids[t].begin());}break;
    case ERL:if(!s.ids[t].empty()){s.c->erase(s.c->end(typeid(T))-1);s.ids[t].pop_back();}break;
    case RES:s.c->template reserve<T>(9);s.reg[t]=true;break;
    }
  }
  static void apply(St& s,int o){
    if(o<NTOP*NT){VT::at(o%NT,[&](auto tg){opt<typename decltype(tg)::type>(s,o/NT,o%NT);});return;}
    switch(o-NTOP*NT){
    case 0:{std::unique_ptr<C> n(new C(*s.c));s.c.swap(n);break;}
    case 1:{std::unique_ptr<C> n(new C(std::move(*s.c)));s.c.swap(n);break;}
    case 2:{C n;n=*s.c;s.c->clear();s.c->swap(n);break;}
    case 3:s.c->shrink_to_fit();break;
    }
  }
  template<class T> static void check_t(St& s,int t){
    C& c=*s.c;const C& cc=c;
    VF_CHECK(c.template size<T>()==s.ids[t].size(),"segment size");
    for(std::size_t i=0;i<s.ids[t].size();++i){
      T* p=std::addressof(c.template begin<T>()[i]);
      auto chk=[&](const char* w){VF_CHECK(P::id(*p)==s.ids[t][i],"%s: stored element %zu holds %d, expected %d",w,i,P::id(*p),s.ids[t][i]);};
      chk("typed view");
      auto lb=c.begin(typeid(T))+i;
      P::template look<T>(*lb,p,s.ids[t][i]);chk("after use through a local base iterator");
      auto clb=cc.begin(typeid(T))+i;
      P::template clook<T>(*clb,p,s.ids[t][i]);chk("after use through a const local base iterator");
      P::template look<T>(c.segment(typeid(T)).begin()[i],p,s.ids[t][i]);chk("after use through a segment view");
      VF_CHECK(std::addressof(*typename C::template local_iterator<T>(lb))==p,"typed iterator made from a base iterator");
    }
  }
  static void check(St& s){
    C& c=*s.c;
    std::size_t n=0;
    for(int t=0;t<NT;++t){
      VF_CHECK(c.is_registered(VT::info(t))==s.reg[t],"registration of type %d",t);
      n+=s.ids[t].size();
      if(s.reg[t])VT::at(t,[&](auto tg){check_t<typename decltype(tg)::type>(s,t);});
    }
    VF_CHECK(c.size()==n,"size");
    std::size_t k=0;
    for(auto seg:c.segment_traversal()){
      int t=VT::index_of(seg.type_info());
      VF_CHECK(t>=0,"unknown segment");
      for(std::size_t i=0;i<s.ids[t].size();++i,++k)VT::at(t,[&](auto tg){
        using T=typename decltype(tg)::type;
        T* p=std::addressof(c.template begin<T>()[i]);
        P::template look<T>(*std::next(c.begin(),k),p,s.ids[t][i]);
        P::template clook<T>(*std::next(c.cbegin(),k),p,s.ids[t][i]);
        VF_CHECK(P::id(*p)==s.ids[t][i],"use through a global iterator did not reach the stored element");
      });
    }
    VF_CHECK(k==n,"global size");
  }
  static void go(int depth,std::vector<int>& path){
    int lo=0;
    for(int o=lo;o<NOPS;++o){
      if(path.size()==0&&(o%nshards_)!=shard_)continue;
      path.push_back(o);
      cur=P::name();for(int x:path){cur+=" ";cur+=std::to_string(x);}
      beat();
      {St s;for(int x:path)apply(s,x);check(s);check(s);}
      ++stat("transitions");++stat("histories");
      if((int)path.size()<depth)go(depth,path);
      else ++stat("states_expanded");
      path.pop_back();
    }
  }
  static void run(int depth){std::vector<int> p;go(depth,p);}
};

#if VF_MODEL==1
/* ---------- function_collection ---------- */
struct Obj{int a=3,b=4;int& fa(){return a;} int ca()const{return a;}};
// checks common to all signatures
template<class V,class T> static void ident(V& v,T* p){
  using NV=typename std::remove_const<V>::type;
  const NV& k=v;
  VF_CHECK(static_cast<bool>(k),"operator bool");
  VF_CHECK(k.target_type()==typeid(T),"target_type");
  VF_CHECK(k.template target<T>()==p,"target<T>() is not the stored element");
  VF_CHECK(v.template target<T>()==p,"target<T>() is not the stored element");
  VF_CHECK(k.data()==p&&v.data()==p,"data() is not the address of the stored element");
  VF_CHECK(!k.template target<int>()&&!v.template target<Obj>()&&!k.template target<const char*>(),"target<U>() for a type other than the stored one");
  NV w(k);
  VF_CHECK(w.data()==p&&w.target_type()==typeid(T),"a copy of the value refers to something else");
}
template<class D> struct FnCommon{ // adds const/std::function variants on top of D::use
  template<class T,class V> static void look(V& v,T* p,int id){
    ident(v,p);D::template use<T>(v,p,id);
    auto w=v;D::template use<T>(w,p,id);
    std::function<typename D::sig> f=v;D::template use<T>(f,p,id);
    std::function<typename D::sig> f2(f);D::template use<T>(f2,p,id);
  }
  template<class T,class V> static void clook(const V& v,T* p,int id){
    ident(v,p);D::template use<T>(v,p,id);
    std::function<typename D::sig> f=v;D::template use<T>(f,p,id);
  }
};
// int(int)
struct Cf{static constexpr int kind=0,flags=15;int id;int operator()(int x)const{return id*10+x;}};
struct Mf{static constexpr int kind=1,flags=15;int id;int calls=0;explicit Mf(int i):id(i){} int operator()(int x){++calls;return id*10+x;}};
struct Af{static constexpr int kind=2,flags=15;int id;long pad[3]={};explicit Af(int i):id(i){} short operator()(long x)const{return short(id*10+x);}
  Af* operator&(){return nullptr;} const Af* operator&()const{return nullptr;}};
struct Of{static constexpr int kind=3,flags=15;std::function<int(int)> f;int id;};
struct S1:FnCommon<S1>{
  using sig=int(int);
  using C=boost::function_collection<sig>;
  using types=TL<Cf,Mf,Af>;
  static const char* name(){return "int(int)";}
  template<class T> static T mk(int id){return T{id};}
  template<class T> static int id(T& x){return x.id;}
  template<class T> static int calls(T&){return 0;}
  static int calls(Mf& x){return x.calls;}
  template<class T,class V> static void use(V&& v,T* p,int id){
    int c0=calls(*p);
    VF_CHECK(v(4)==id*10+4&&v(-3)==id*10-3,"result of a call through the abstract interface");
    if(std::is_same<T,Mf>::value)VF_CHECK(calls(*p)==c0+2,"a call did not act on the stored element");
  }
};
// reference results and reference arguments, pointers to members
struct Ra{static constexpr int kind=0,flags=15;int id;int& operator()(Obj& o)const{return o.b;}};
struct Rb{static constexpr int kind=1,flags=15;int id;int own=0;explicit Rb(int i):id(i){} int& operator()(Obj&){return own;}};
struct S2:FnCommon<S2>{
  using sig=int&(Obj&);
  using C=boost::function_collection<sig>;
  using types=TL<Ra,Rb>;
  static const char* name(){return "int&(Obj&)";}
  template<class T> static T mk(int id){return T{id};}
  template<class T> static int id(T& x){return x.id;}
  template<class V> static void u(V&& v,Ra*){Obj o;VF_CHECK(&v(o)==&o.b,"a reference result or argument was copied");v(o)=9;VF_CHECK(o.b==9,"assignment through a reference result");}
  template<class V> static void u(V&& v,Rb* p){Obj o;VF_CHECK(&v(o)==&p->own,"a reference result does not designate the stored element's member");}
  template<class T,class V> static void use(V&& v,T* p,int){u(v,p);}
};
// move-only argument and result
struct Ma{static constexpr int kind=0,flags=15;int id;std::unique_ptr<int> operator()(std::unique_ptr<int> p)const{*p+=id;return p;}};
struct Mb{static constexpr int kind=1,flags=15;int id;std::unique_ptr<int> operator()(std::unique_ptr<int>&& p)const{*p+=id;return std::move(p);}};
struct S3:FnCommon<S3>{
  using sig=std::unique_ptr<int>(std::unique_ptr<int>);
  using C=boost::function_collection<sig>;
  using types=TL<Ma,Mb>;
  static const char* name(){return "unique_ptr(unique_ptr)";}
  template<class T> static T mk(int id){return T{id};}
  template<class T> static int id(T& x){return x.id;}
  template<class T,class V> static void use(V&& v,T*,int id){
    std::unique_ptr<int> q(new int(5));int* r=q.get();
    auto s=v(std::move(q));
    VF_CHECK(s.get()==r&&*s==5+id&&!q,"a move-only argument or result was not passed along");
  }
};
// value category of forwarded arguments and discarded results
struct Trk{int copies=0,moves=0;Trk()=default;Trk(const Trk& o):copies(o.copies+1),moves(o.moves){} Trk(Trk&& o):copies(o.copies),moves(o.moves+1){}};
struct Va{static constexpr int kind=0,flags=15;int id;mutable int got=-1;explicit Va(int i):id(i){} void operator()(Trk t,const Obj& o,Obj&& r,int& z)const{got=t.copies;z=o.a;r.a=77;}};
struct Vb{static constexpr int kind=1,flags=15;int id;mutable int got=-1;explicit Vb(int i):id(i){} int operator()(Trk&& t,const Obj& o,Obj&& r,int& z)const{got=t.copies;z=o.a;r.a=77;return 5;}};
struct S4:FnCommon<S4>{
  using sig=void(Trk,const Obj&,Obj&&,int&);
  using C=boost::function_collection<sig>;
  using types=TL<Va,Vb>;
  static const char* name(){return "void(Trk,const Obj&,Obj&&,int&)";}
  template<class T> static T mk(int id){return T{id};}
  template<class T> static int id(T& x){return x.id;}
  template<class T,class V> static void use(V&& v,T* p,int){
    Obj o,r;o.a=11;int z=0;
    p->got=-1;
    v(Trk{},o,std::move(r),z);
    VF_CHECK(p->got==0,"an rvalue argument was copied on its way to the element");
    VF_CHECK(z==11&&r.a==77,"reference arguments do not reach the element");
    static_assert(std::is_same<decltype(v(Trk{},o,std::move(r),z)),void>::value,"");
  }
};
static int fn1(const Obj& o){return o.a*100;}
static int fn2(const Obj& o){return o.b*100;}
// pointers to members and functions as elements
static void pointers(){
  cur="pointers to members and functions";
  using C=boost::function_collection<int(const Obj&)>;
  using PF=int(*)(const Obj&);using PM=int Obj::*;using PMF=int(Obj::*)()const;
  using SF=std::function<int(const Obj&)>;
  for(int ord=0;ord<24;++ord){
    C c;
    int perm[4]={0,1,2,3};for(int i=0;i<ord;++i)std::next_permutation(perm,perm+4);
    for(int r=0;r<2;++r)for(int k:perm){
      switch(k){
      case 0:c.insert(static_cast<PF>(r?fn2:fn1));break;
      case 1:c.insert(static_cast<PM>(r?&Obj::b:&Obj::a));break;
      case 2:c.insert(static_cast<PMF>(&Obj::ca));break;
      case 3:c.insert(SF([r](const Obj& o){return o.a+r;}));break;
      }
    }
    C d(c);
    for(C* q:{&c,&d}){
      Obj o;o.a=5;o.b=6;
      auto at=[&](const std::type_info& ti,int i){return (q->begin(ti)+i)->operator()(o);};
      VF_CHECK(at(typeid(PF),0)==500&&at(typeid(PF),1)==600,"function pointer element");
      VF_CHECK(at(typeid(PM),0)==5&&at(typeid(PM),1)==6,"pointer to data member element");
      VF_CHECK(at(typeid(PMF),0)==5,"pointer to member function element");
      VF_CHECK(at(typeid(SF),0)==5&&at(typeid(SF),1)==6,"std::function element");
      for(auto& v:*q){
        VF_CHECK((v.target<PF>()!=nullptr)==(v.target_type()==typeid(PF))&&(v.target<SF>()!=nullptr)==(v.target_type()==typeid(SF)),"target of a pointer element");
        SF f=v;VF_CHECK(f(o)==v(o),"conversion to std::function changes the result");
      }
    }
    ++stat("transitions");++stat("histories");
  }
}
// values of another signature are inserted by their target
static void cross(){
  cur="values of another signature";
  using C1=boost::function_collection<int(int)>;
  using C2=boost::function_collection<long(short)>;
  for(int reg=0;reg<4;++reg)for(int n=0;n<4;++n)for(int how=0;how<4;++how){
    C1 s;for(int i=0;i<n;++i){s.insert(Cf{i+1});if(i)s.insert(Mf(i+20));}
    C2 d;
    if(reg&1)d.register_types<Cf>();
    if(reg&2)d.register_types<Mf>();
    for(auto it=s.begin();it!=s.end();++it){
      const std::type_info& ti=it->target_type();
      bool ok=d.is_registered(ti);
      const std::type_info* pi;
      std::size_t n0=d.size();
      const auto& ci=*it;
      int o=out_of(pi,[&]{
        switch(how){
        case 0:d.insert(ci);break;
        case 1:d.insert(std::move(*it));break;
        case 2:d.insert(d.begin(),ci);break;
        case 3:d.insert(d.cend(),std::move(*it));break;
        }
      });
      VF_CHECK(o==(ok?0:1)&&(ok||*pi==ti),"insertion of a value of another signature");
      VF_CHECK(d.size()==n0+ok,"size after insertion of a value of another signature");
      if(ok){
        auto e=(how==2&&d.begin()->target_type()==ti&&false)?d.begin(ti):d.begin(ti);
        bool found=false;
        for(;e!=d.end(ti);++e)if((*e)(1)==(*it)(1))found=true;
        VF_CHECK(found,"the callable inserted is not the source's");
      }
    }
    ++stat("transitions");++stat("histories");
  }
}
static void model(int depth){
  Drv<S1>::run(depth);Drv<S2>::run(depth);Drv<S3>::run(depth);Drv<S4>::run(depth);
  if(shard_==0){pointers();cross();}
}
#elif VF_MODEL==0
/* ---------- base_collection ---------- */
// a concrete base, intermediate classes, several bases, final
struct Cb{static constexpr int kind=0,flags=15;int id,tag=1;explicit Cb(int i):id(i){} virtual ~Cb(){} virtual int who()const{return 1;} virtual int& ref(){return id;}};
struct Md:Cb{static constexpr int kind=1;int more;explicit Md(int i):Cb(i),more(i*3){tag=2;} int who()const override{VF_CHECK(more==id*3,"intermediate part damaged");return 2;}};
struct Side{long z[2]={8,9};virtual ~Side(){} virtual int side()const{return 1;}};
struct Lf:Side,Md{static constexpr int kind=2;double d=2.5;explicit Lf(int i):Md(i){tag=3;} int who()const override{VF_CHECK(d==2.5&&z[1]==9&&more==id*3,"derived part damaged");return 3;}};
struct Fn final:Md{static constexpr int kind=3;char c='q';explicit Fn(int i):Md(i){tag=4;} int who()const override{VF_CHECK(c=='q',"derived part damaged");return 4;}};
struct S0{
  using C=boost::base_collection<Cb>;
  using types=TL<Cb,Md,Lf,Fn>;
  static const char* name(){return "concrete base and derived classes";}
  template<class T> static T mk(int id){return T(id);}
  template<class T> static int id(T& x){return x.id;}
  template<class T> static void look(Cb& v,T* p,int id){
    VF_CHECK(typeid(v)==typeid(T)&&dynamic_cast<T*>(&v)==p&&&v==static_cast<Cb*>(p),"a base view does not show the stored element");
    VF_CHECK(v.who()==T::kind+1&&v.tag==T::kind+1&&v.id==id,"virtual call or data through the base view");
    v.ref()=id+1000;VF_CHECK(p->id==id+1000,"change through the base view does not reach the element");p->id=id;
  }
  template<class T> static void clook(const Cb& v,T* p,int id){
    VF_CHECK(typeid(v)==typeid(T)&&dynamic_cast<const T*>(&v)==p&&v.who()==T::kind+1&&v.id==id,"a const base view does not show the stored element");
  }
};
// insertion through references to the interface and to intermediate classes
template<class St_,class Dy> static void by_ref(int reg,int how,int pre){
  using C=boost::base_collection<Cb>;
  beat();
  char b[128];snprintf(b,sizeof b,"static %d dynamic %d registered %d overload %d elements before %d",St_::kind,Dy::kind,reg,how,pre);cur=b;
  C c;
  if(reg&1)c.register_types<Cb>();
  if(reg&2)c.register_types<Md>();
  if(reg&4)c.register_types<Lf>();
  if(reg&8)c.register_types<Fn>();
  for(int i=0;i<pre;++i){if(reg&1)c.emplace<Cb>(100+i);if(reg&2)c.emplace<Md>(200+i);if(reg&4)c.emplace<Lf>(300+i);if(reg&8)c.emplace<Fn>(400+i);}
  const std::size_t n0=c.size();
  Dy x(7);St_& r=x;const St_& cr=x;
  bool was=c.is_registered<Dy>();
  bool exact=std::is_same<St_,Dy>::value;
  bool local=how>=4;
  if(local&&!was)return;
  std::size_t s0=was?c.size<Dy>():0;
  const std::type_info* pi;
  int at=-1;
  int o=out_of(pi,[&]{
    switch(how){
    case 0:c.insert(cr);at=(int)s0;break;
    case 1:c.insert(std::move(r));at=(int)s0;break;
    case 2:c.insert(c.begin(),cr);break;
    case 3:c.insert(c.cend(),std::move(r));at=(int)s0;break;
    case 4:c.insert(c.begin(typeid(Dy)),cr);at=0;break;
    case 5:c.insert(c.cend(typeid(Dy)),std::move(r));at=(int)s0;break;
    case 6:c.insert(c.template begin<Dy>(),cr);at=0;break;
    case 7:c.insert(c.template cend<Dy>(),std::move(r));at=(int)s0;break;
    }
  });
  bool ok=was||exact;
  VF_CHECK(o==(ok?0:1),"inserting a %s through a reference to %s: %s",typeid(Dy).name(),typeid(St_).name(),o?"refused":"accepted although not registered");
  if(!ok){
    VF_CHECK(*pi==typeid(Dy),"unregistered_type carries another type than the dynamic one");
    VF_CHECK(c.size()==n0&&!c.is_registered<Dy>(),"a refused insertion changed the collection");
  }
  else{
    VF_CHECK(c.size()==n0+1&&c.size<Dy>()==s0+1,"the element did not go to the segment of its dynamic type");
    int seen=0;
    for(std::size_t i=0;i<c.size<Dy>();++i){
      Dy& e=c.begin<Dy>()[i];
      VF_CHECK(typeid(e)==typeid(Dy)&&e.who()==Dy::kind+1&&e.tag==Dy::kind+1,"stored element is not complete");
      if(e.id==7){++seen;if(at>=0)VF_CHECK((int)i==at,"element stored at position %zu, expected %d",i,at);}
    }
    VF_CHECK(seen==1,"the element was stored %d times",seen);
  }
  ++stat("transitions");++stat("histories");
}
// a hierarchy whose unary operator& does not give the address
struct Ob{int id;explicit Ob(int i):id(i){} virtual ~Ob(){} virtual int who()const{return 1;} Ob* operator&(){return nullptr;} const Ob* operator&()const{return nullptr;}};
struct Oc final:Ob{static constexpr int kind=1;int c;explicit Oc(int i):Ob(i),c(i){} int who()const override{VF_CHECK(c==id,"derived part damaged");return 2;}};
struct Od:Side,Ob{static constexpr int kind=2;int c;explicit Od(int i):Ob(i),c(i){} int who()const override{VF_CHECK(c==id&&z[1]==9,"derived part damaged");return 3;} Od* operator&(){return nullptr;}};
struct S9{
  using C=boost::base_collection<Ob>;
  using types=TL<Oc,Od>;
  static const char* name(){return "classes with an operator& of their own";}
  template<class T> static T mk(int id){return T(id);}
  template<class T> static int id(T& x){return x.id;}
  template<class T> static void look(Ob& v,T* p,int id){clook<T>(v,p,id);}
  template<class T> static void clook(const Ob& v,T* p,int id){
    VF_CHECK(typeid(v)==typeid(T)&&dynamic_cast<const T*>(std::addressof(v))==p&&std::addressof(v)==static_cast<const Ob*>(p)&&v.who()==T::kind+1&&v.id==id,"a base view does not show the stored element");
  }
};
static void ampersand(){
  using C=boost::base_collection<Ob>;
  for(int which=0;which<2;++which)for(int how=0;how<6;++how)for(int pre=0;pre<3;++pre){
    cur="insertion through a base with an operator& of its own "+std::to_string(which)+" "+std::to_string(how)+" "+std::to_string(pre);
    beat();
    C c,d;c.register_types<Oc,Od>();
    for(int i=0;i<pre;++i){c.emplace<Oc>(50+i);c.emplace<Od>(60+i);}
    Oc x(7);Od y(7);Ob& r=which?static_cast<Ob&>(y):x;const Ob& cr=r;
    const std::type_info& ti=which?typeid(Od):typeid(Oc);
    std::size_t at=pre;
    switch(how){
    case 0:c.insert(cr);break;
    case 1:c.insert(std::move(r));break;
    case 2:c.insert(c.begin(ti),cr);at=0;break;
    case 3:c.insert(c.begin(ti),std::move(r));at=0;break;
    case 4:c.insert(c.cend(),cr);break;
    case 5:d.register_types<Oc,Od>();d.insert(cr);c.insert(d.begin(),d.end());break;
    }
    VF_CHECK(c.size()==2u*pre+1&&c.size(ti)==pre+1u,"size after insertion through a base reference");
    auto it=c.begin(ti)+at;
    VF_CHECK(typeid(*it)==ti&&it->who()==which+2&&it->id==7,"the element inserted through a base reference is not stored complete");
    C e(c);VF_CHECK(e.size(ti)==pre+1u&&(e.begin(ti)+at)->who()==which+2,"copy");
    ++stat("transitions");++stat("histories");
  }
}
static void model(int depth){
  Drv<S0>::run(depth);
  Drv<S9>::run(depth-1);
  if(shard_==0)ampersand();
  if(shard_==0)for(int reg=0;reg<16;++reg)for(int how=0;how<8;++how)for(int pre=0;pre<3;++pre){
    by_ref<Cb,Cb>(reg,how,pre);by_ref<Cb,Md>(reg,how,pre);by_ref<Cb,Lf>(reg,how,pre);by_ref<Cb,Fn>(reg,how,pre);
    by_ref<Md,Md>(reg,how,pre);by_ref<Md,Lf>(reg,how,pre);by_ref<Md,Fn>(reg,how,pre);
    by_ref<Lf,Lf>(reg,how,pre);by_ref<Fn,Fn>(reg,how,pre);
  }
}
#else
/* ---------- any_collection ---------- */
using con1=boost::mpl::vector<te::typeid_<>,te::callable<int(int),const te::_self>,te::incrementable<>>;
using con2=boost::mpl::vector<te::callable<int(int),const te::_self>,te::incrementable<>>;      // typeid_ added by the library
using own1=boost::mpl::vector<te::copy_constructible<>,te::typeid_<>,te::callable<int(int),const te::_self>,te::incrementable<>,te::assignable<>>;
using own2=boost::mpl::vector<te::copy_constructible<>,te::callable<int(int),const te::_self>,te::incrementable<>,te::assignable<>>; // no typeid
struct Xa{static constexpr int kind=0,flags=15;int id;Xa* operator&(){return nullptr;} const Xa* operator&()const{return nullptr;} int operator()(int x)const{return id*10+x;} Xa& operator++(){++id;return *this;}};
struct Xb{static constexpr int kind=1,flags=15;long pad[3];int id;explicit Xb(int i):id(i){pad[1]=4;} int operator()(int x)const{VF_CHECK(pad[1]==4,"element damaged");return id*10+x;} Xb& operator++(){++id;return *this;}};
struct alignas(64) Xc{static constexpr int kind=2,flags=15;int id;explicit Xc(int i):id(i){} int operator()(int x)const{return id*10+x;} Xc& operator++(){++id;return *this;}};
template<class Con> struct SA{
  using C=boost::any_collection<Con>;
  using types=TL<Xa,Xb,Xc>;
  static const char* name(){return "any";}
  template<class T> static T mk(int id){return T{id};}
  template<class T> static int id(T& x){return x.id;}
  template<class T,class V> static void look(V& v,T* p,int id){
    clook<T>(v,p,id);
    VF_CHECK(te::any_cast<T*>(&v)==p&&std::addressof(te::any_cast<T&>(v))==p,"any_cast does not give the stored element");
    ++v;VF_CHECK(p->id==id+1,"modification through the abstract reference does not reach the element");
    p->id=id;
    VF_CHECK(v(2)==id*10+2,"call after modification of the element");
  }
  template<class T,class V> static void clook(const V& v,T* p,int id){
    VF_CHECK(te::typeid_of(v)==typeid(T),"typeid_of does not give the element's type");
    VF_CHECK(te::any_cast<const T*>(&v)==p,"any_cast does not give the stored element");
    VF_CHECK(!te::any_cast<const int*>(&v),"any_cast to another type succeeds");
    VF_CHECK(v(3)==id*10+3,"call through the abstract reference");
  }
};
// owning any objects, references and foreign values are inserted by what they hold
template<class Src> static void foreign(const char* nm,bool has_typeid){
  using C=boost::any_collection<con1>;
  for(int reg=0;reg<4;++reg)for(int which=0;which<2;++which)for(int how=0;how<4;++how)for(int pre=0;pre<3;++pre){
    beat();
    char b[128];snprintf(b,sizeof b,"%s reg %d which %d how %d pre %d",nm,reg,which,how,pre);cur=b;
    C c;
    if(reg&1)c.register_types<Xa>();
    if(reg&2)c.register_types<Xb>();
    for(int i=0;i<pre;++i){if(reg&1)c.insert(Xa{100+i});if(reg&2)c.insert(Xb(200+i));}
    Src x=which?Src(Xb(7)):Src(Xa{7});
    const Src& cx=x;
    const std::type_info& held=which?typeid(Xb):typeid(Xa);
    const std::type_info& exp=has_typeid?held:typeid(Src);
    bool ok=!has_typeid||c.is_registered(held);
    std::size_t n0=c.size(),s0=c.is_registered(exp)?c.size(exp):0;
    const std::type_info* pi;
    int o=out_of(pi,[&]{
      switch(how){
      case 0:c.insert(cx);break;
      case 1:c.insert(std::move(x));break;
      case 2:c.insert(c.begin(),cx);break;
      case 3:c.insert(c.cend(),std::move(x));break;
      }
    });
    VF_CHECK(o==(ok?0:1)&&(ok||*pi==held),"insertion of an owning any: outcome %d",o);
    VF_CHECK(c.size()==n0+ok,"size");
    if(ok){
      VF_CHECK(c.is_registered(exp)&&c.size(exp)==s0+1,"the element did not go to the segment of what it holds");
      int seen=0;for(auto it=c.begin(exp);it!=c.end(exp);++it){VF_CHECK(te::typeid_of(*it)==exp,"type of the stored element");if((*it)(0)==70)++seen;}
      VF_CHECK(seen==1,"the element stored is not the one given");
      for(auto it=c.begin(exp);it!=c.end(exp);++it)if((*it)(0)==70){++*it;VF_CHECK((*it)(0)==80,"modification of the stored element");break;}
    }
    else VF_CHECK(!c.is_registered(held),"a refused insertion registered the type");
    ++stat("transitions");++stat("histories");
  }
}
static void other_collection(){
  using C=boost::any_collection<con1>;using D=boost::any_collection<con2>;
  for(int reg=0;reg<4;++reg)for(int n=0;n<4;++n)for(int how=0;how<4;++how){
    beat();
    char b[128];snprintf(b,sizeof b,"other collection reg %d n %d how %d",reg,n,how);cur=b;
    D s;for(int i=0;i<n;++i){s.insert(Xa{i+1});if(i)s.insert(Xb(i+20));}
    C d;
    if(reg&1)d.register_types<Xa>();
    if(reg&2)d.register_types<Xb>();
    for(auto it=s.begin();it!=s.end();++it){
      const std::type_info& ti=te::typeid_of(*it);
      bool ok=d.is_registered(ti);
      const std::type_info* pi;std::size_t n0=d.size();
      const auto& ci=*it;
      int o=out_of(pi,[&]{switch(how){case 0:d.insert(ci);break;case 1:d.insert(std::move(*it));break;case 2:d.insert(d.begin(),ci);break;case 3:d.insert(d.cend(),ci);break;}});
      VF_CHECK(o==(ok?0:1)&&(ok||*pi==ti)&&d.size()==n0+ok,"insertion of a value of another any_collection");
      if(ok){bool found=false;for(auto e=d.begin(ti);e!=d.end(ti);++e)if((*e)(1)==ci(1))found=true;VF_CHECK(found,"the element inserted is not the source's");}
    }
    ++stat("transitions");++stat("histories");
  }
}
static void model(int depth){
  Drv<SA<con1>>::run(depth);
  Drv<SA<con2>>::run(std::min(depth,3));
  if(shard_==0){foreign<te::any<own1>>("any with typeid",true);foreign<te::any<own2>>("any without typeid",false);other_collection();}
}
#endif
int main(int argc,char** argv){
  std::string cfg=VF_MODEL==0?"base_collection":VF_MODEL==1?"function_collection":"any_collection";
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  ctx().trace=[]{ctx().replay_key.clear();return cur;};
  shard_=get_int(argc,argv,"--shard",0);nshards_=get_int(argc,argv,"--nshards",1);
  model(get_int(argc,argv,"--depth",3));
  sample("insert int&(Obj&) callables at the front, shrink, copy; call, target, data, std::function of every element");
  return finish();
}
