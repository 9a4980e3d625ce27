// Many registered types, several type_info objects per type: registration,
// lookup through every kind of key and the stability of the segment order.
#include "elems.hpp"
#include "world.hpp"
#include <memory>
#include <utility>
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
using namespace vf;
constexpr int N=34;

template<int I> struct G:Base{
  using is_vf_stored=void;
  int v;
  explicit G(int x):v(x){}
  int operator()(int)const{return code();}
  int code()const override{return I*1000+v;}
  const void* where()const override{return this;}
  bool operator==(const G& x)const{return v==x.v;}
};
// the standard allows several type_info objects for one type (dynamic libraries)
struct Alias:std::type_info{explicit Alias(const char* n):std::type_info(n){}};

using Model=Mod<VF_MODEL>;
using C=Model::coll<0>;
using A=C::allocator_type;

struct Ent{
  const std::type_info* ti;
  const std::type_info* al[2];
  bool (*isreg)(const C&);
  std::size_t (*size)(const C&);
  void (*reg)(C&);
  void (*reserve)(C&);
  void (*emplace)(C&,int);
  void (*ins)(C&,int);
  bool (*typed)(const C&,const std::vector<int>&);
};
static Ent ent[N];
template<int I> void fill(){
  using T=G<I>;
  Ent& e=ent[I];
  e.ti=&typeid(T);
  for(auto& p:e.al)p=new Alias(strdup(typeid(T).name()));
  e.isreg=[](const C& c){return c.template is_registered<T>();};
  e.size=[](const C& c){return c.template size<T>();};
  e.reg=[](C& c){c.template register_types<T>();};
  e.reserve=[](C& c){c.template reserve<T>(3);};
  e.emplace=[](C& c,int v){c.template emplace<T>(v);};
  e.ins=[](C& c,int v){c.insert(T(v));};
  e.typed=[](const C& c,const std::vector<int>& m){
    std::size_t i=0;
    for(auto it=c.template begin<T>();it!=c.template end<T>();++it,++i)if(i>=m.size()||it->code()!=m[i])return false;
    return i==m.size();
  };
}
template<int... Is> void fill_all(std::integer_sequence<int,Is...>){(void)std::initializer_list<int>{(fill<Is>(),0)...};}

struct Mdl{
  bool reg[N]={};
  std::vector<int> s[N];
  std::vector<int> order;
};
struct Obj{C c;Mdl m;Obj():c(A(1)){} };
static std::string tr,key_;
static int fresh=1;

static int idx(const std::type_info& t){for(int i=0;i<N;++i)if(*ent[i].ti==t)return i;return -1;}

template<class F> void expect_unreg(int i,const char* what,F f){
  const std::type_info* pi=nullptr;
  int o=World<VF_MODEL,TL<E0>,0>::catching(f,pi);
  VF_CHECK(o==UNREG,"%s of unregistered type %d: %s",what,i,outname(o));
  VF_CHECK(pi&&*pi==*ent[i].ti,"%s of unregistered type %d: exception carries another type",what,i);
}
static void check(Obj& o,bool created,int full){
  const C& cc=o.c;
  std::vector<int> ord;
  for(const auto& s:cc.segment_traversal()){
    int i=idx(s.type_info());
    VF_CHECK(i>=0&&o.m.reg[i],"segment traversal shows an unregistered type");
    ord.push_back(i);
    std::size_t k=0;
    for(const auto& x:s){VF_CHECK(k<o.m.s[i].size()&&Model::code(x)==o.m.s[i][k],"segment %d shows wrong contents",i);++k;}
    VF_CHECK(k==o.m.s[i].size(),"segment %d is short",i);
    VF_CHECK((int)ord.size()<=N,"too many segments");
  }
  int n=0;for(int i=0;i<N;++i)n+=o.m.reg[i];
  std::set<int> u(ord.begin(),ord.end());
  VF_CHECK((int)ord.size()==n&&(int)u.size()==n,"segment traversal shows %zu segments (%zu types), %d types are registered",ord.size(),u.size(),n);
  if(!created)VF_CHECK(ord==o.m.order,"segment order changed although no segment was created");
  o.m.order=ord;
  std::size_t tot=0;auto it=cc.begin();
  for(int i:ord)for(int code:o.m.s[i]){VF_CHECK(it!=cc.end()&&Model::code(*it)==code,"global traversal is not the concatenation of the segments");++it;++tot;}
  VF_CHECK(it==cc.end()&&cc.size()==tot,"global traversal or size() wrong");
  for(int i=0;i<N;++i){
    bool r=o.m.reg[i];
    const std::type_info* keys[3]={ent[i].ti,ent[i].al[0],ent[i].al[1]};
    VF_CHECK(ent[i].isreg(cc)==r,"is_registered<T>() wrong for type %d",i);
    for(int k=0;k<3;++k){
      VF_CHECK(cc.is_registered(*keys[k])==r,"is_registered(type %d, type_info object %d) is %d",i,k,!r);
      if(r){
        VF_CHECK(cc.size(*keys[k])==o.m.s[i].size()&&cc.empty(*keys[k])==o.m.s[i].empty(),"size of type %d through type_info object %d is wrong",i,k);
        if(full>1||k==0){auto p=cc.begin(*keys[k]);for(int code:o.m.s[i]){VF_CHECK(Model::code(*p)==code,"contents of type %d through type_info object %d are wrong",i,k);++p;}VF_CHECK(p==cc.end(*keys[k]),"end");}
      }
      else if(full&&k<=1){
        if(full>1||k)expect_unreg(i,"begin",[&]{cc.begin(*keys[k]);});
        if(full>1){expect_unreg(i,"size",[&]{cc.size(*keys[k]);});expect_unreg(i,"clear",[&]{o.c.clear(*keys[k]);});expect_unreg(i,"begin (non-const)",[&]{o.c.begin(*keys[k]);});}
      }
    }
    if(r)VF_CHECK(ent[i].typed(cc,o.m.s[i])&&ent[i].size(cc)==o.m.s[i].size(),"typed view of type %d is wrong",i);
  }
}
// iterators and addresses that must survive whatever happens to other segments
struct Stab{
  std::vector<C::local_base_iterator> l[N],e;std::vector<int> et;std::vector<C::iterator> g;std::vector<const void*> a[N],ga;C::iterator gend;
};
static bool stab_=false;
static void take(Obj& o,Stab& s){
  if(!stab_)return;
  for(int i=0;i<N;++i)if(o.m.reg[i]){
    for(auto it=o.c.begin(*ent[i].ti);it!=o.c.end(*ent[i].ti);++it){s.l[i].push_back(it);s.a[i].push_back(Model::addr(*it));}
    s.e.push_back(o.c.end(*ent[i].ti));s.et.push_back(i);
  }
  for(auto it=o.c.begin();it!=o.c.end();++it){s.g.push_back(it);s.ga.push_back(Model::addr(*it));}
  s.gend=o.c.end();
}
static void kept(Obj& o,Stab& s,int except,bool sameobj){
  if(!stab_)return;
  std::set<const void*> gone;
  if(except>=0)gone.insert(s.a[except].begin(),s.a[except].end());
  for(int i=0;i<N;++i)if(i!=except)for(std::size_t k=0;k<s.l[i].size();++k){
    auto now=o.c.begin(*ent[i].ti)+k;
    VF_CHECK(Model::addr(*now)==s.a[i][k],"element %zu of type %d moved although nothing happened to its segment",k,i);
    VF_CHECK(s.l[i][k]==now&&Model::addr(*s.l[i][k])==s.a[i][k],"local iterator to element %zu of type %d did not stay valid",k,i);
  }
  for(std::size_t k=0;k<s.e.size();++k)if(s.et[k]!=except)VF_CHECK(s.e[k]==o.c.end(*ent[s.et[k]].ti),"local end iterator of type %d did not stay valid",s.et[k]);
  if(sameobj)VF_CHECK(s.gend==o.c.end(),"the global end did not stay valid");
  std::size_t tot=o.c.size();
  std::map<const void*,std::size_t> at;
  {std::size_t k=0;for(auto it=o.c.begin();it!=o.c.end();++it,++k)at[Model::addr(*it)]=k;}
  for(std::size_t k=0;k<s.g.size();++k)if(!gone.count(s.ga[k])){
    VF_CHECK(at.count(s.ga[k])&&Model::addr(*s.g[k])==s.ga[k],"global iterator %zu does not designate its element any more",k);
    VF_CHECK(s.g[k]==std::next(o.c.begin(),at[s.ga[k]]),"global iterator %zu did not stay valid",k);
    std::size_t n=0;
    for(auto w=s.g[k];w!=o.c.end();++w){++n;VF_CHECK(n<=tot,"traversal from an iterator that must stay valid runs away");}
    VF_CHECK(n==tot-at[s.ga[k]],"traversal from an iterator that must stay valid misses elements");
  }
}
static void m_add(Obj& o,int i,int v,bool& created){if(!o.m.reg[i]){o.m.reg[i]=true;created=true;}if(v>=0)o.m.s[i].push_back(i*1000+v);}

// mode 0 register_types, 1 reserve<T>, 2 emplace<T>, 3 insert(T)
static void grow(Obj& o,int i,int mode,bool& created){
  int v=-1;
  switch(mode){
  case 0:ent[i].reg(o.c);break;
  case 1:ent[i].reserve(o.c);break;
  case 2:v=fresh++%500;ent[i].emplace(o.c,v);break;
  case 3:v=fresh++%500;ent[i].ins(o.c,v);break;
  }
  m_add(o,i,v,created);
}
static void linear(int order,int mode){
  Obj o;
  for(int s=0;s<N;++s){
    int i=order==0?s:order==1?N-1-s:(s*(order*2+1))%N;
    if(std::__gcd(order*2+1,N)!=1&&order>1)return;
    tr="grow order "+std::to_string(order)+" mode "+std::to_string(mode)+" step "+std::to_string(s);
    bool cr=false;
    Stab sn;take(o,sn);
    grow(o,i,(mode+s*(mode>3))%4,cr);
    kept(o,sn,i,true);
    check(o,cr,s%4==0?2:1);
    ++stat("transitions");++stat("histories");beat();
    // looking a type up through another of its type_info objects changes nothing
    if(mode&1){o.c.begin(*ent[i].al[0]);check(o,false,0);}
  }
  ++stat("states_expanded");
}

enum{LOOK,CLOOK,MISS,REGA,REGB,EMPA,EMPLAST,CLEARALIAS,COPYC,COPYA,MOVEC,MOVEA,SWAP,ERASEDINS,OPN};
static const char* opn[]={"lookup-alias","const-lookup-alias","lookup-unregistered","register-a","register-b","emplace-a","emplace-in-last","clear-through-alias","copy-construct","copy-assign-from","move-construct","move-assign-from","swap","insert-erased"};
static void seqrun(int k,const std::vector<int>& ops){
  beat();
  fresh=1;
  tr="prefilled "+std::to_string(k)+":";key_="S"+std::to_string(k)+":";
  for(int x:ops){tr+=std::string(" ")+opn[x];key_+=std::to_string(x)+",";}
  std::unique_ptr<Obj> o(new Obj),p(new Obj);
  bool cr=true;
  for(int i=0;i<k;++i){grow(*o,i,i%3,cr);}
  for(int i=N-1;i>N-3;--i)grow(*p,i,2,cr);
  check(*o,true,0);check(*p,true,0);
  int a=k<N?k:0,b=k+1<N?k+1:1,l=k?k-1:0;
  for(std::size_t st=0;st<ops.size();++st){
    bool last=st+1==ops.size();
    cr=false;bool crp=false;
    Stab sn;take(*o,sn);
    switch(ops[st]){
    case LOOK:if(o->m.reg[l]){for(auto& x:o->c.segment(*ent[l].al[0]))(void)x;(void)o->c.begin(*ent[l].al[1]);}break;
    case CLOOK:{const C& cc=o->c;if(o->m.reg[l])(void)cc.begin(*ent[l].al[1]);break;}
    case MISS:if(!o->m.reg[a])expect_unreg(a,"begin",[&]{o->c.begin(*ent[a].al[0]);});break;
    case REGA:grow(*o,a,0,cr);break;
    case REGB:grow(*o,b,1,cr);break;
    case EMPA:grow(*o,a,2,cr);break;
    case EMPLAST:grow(*o,l,3,cr);break;
    case CLEARALIAS:if(o->m.reg[l]){o->c.clear(*ent[l].al[1]);o->m.s[l].clear();}break;
    case COPYC:{std::unique_ptr<Obj> q(new Obj);C c2(o->c);q->c.swap(c2);q->m=o->m;o=std::move(q);cr=true;break;}
    case COPYA:p->c=o->c;p->m=o->m;std::swap(o,p);cr=crp=true;break;
    case MOVEC:{std::unique_ptr<Obj> q(new Obj);C c2(std::move(o->c));q->c.swap(c2);q->m=o->m;o=std::move(q);cr=true;break;}
    case MOVEA:p->c=std::move(o->c);p->m=o->m;o.reset(new Obj);std::swap(o,p);cr=crp=true;break;
    case SWAP:o->c.swap(p->c);std::swap(o->m,p->m);std::swap(o,p);cr=crp=true;break;
    case ERASEDINS:{ // insertion through the interface type, first element of o into p
      if(o->c.size()){
        int i=-1;for(int x:o->m.order)if(!o->m.s[x].empty()){i=x;break;}
        const auto& x=*o->c.cbegin();
        if(p->m.reg[i]){p->c.insert(x);p->m.s[i].push_back(o->m.s[i][0]);}
        else expect_unreg(i,"insert of an element of",[&]{p->c.insert(x);});
      }
      break;}
    }
    ++stat("transitions");
    switch(ops[st]){
    case COPYC:case COPYA:break;
    case MOVEC:case MOVEA:case SWAP:kept(*o,sn,-1,false);break;
    case EMPA:kept(*o,sn,a,true);break;
    case REGB:kept(*o,sn,b,true);break;
    case EMPLAST:case CLEARALIAS:kept(*o,sn,l,true);break;
    default:kept(*o,sn,-1,true);
    }
    if(ops[st]>=COPYC&&ops[st]<=SWAP){ // the order of segments is the result's own
      Mdl t=o->m;(void)t;
    }
    check(*o,cr,last?1:0);
    if(last){check(*p,crp,0);}
  }
  ++stat("histories");
}
static void rec(int k,std::vector<int>& s,int depth){
  for(int x=0;x<OPN;++x){
    s.push_back(x);
    seqrun(k,s);
    if(depth>1)rec(k,s,depth-1);
    s.pop_back();
  }
}
// Every distribution of at most two elements over M types, empty segments in all
// places: range erasure over any number of segments, whole-collection operations,
// global ranges as sources, equality.
static bool ret_=false,eq_=false;
static std::vector<std::pair<int,std::size_t>> flat(const Obj& o){
  std::vector<std::pair<int,std::size_t>> r;
  for(int i:o.m.order)for(std::size_t k=0;k<o.m.s[i].size();++k)r.push_back({i,k});
  return r;
}
static void build(Obj& o,int M,int shape,bool rev,int skip){
  bool cr=true;fresh=1;
  std::vector<int> d(M);
  for(int i=0;i<M;++i){d[i]=shape%3;shape/=3;}
  for(int j=0;j<M;++j){
    int i=rev?M-1-j:j;
    if(i==skip)continue;
    grow(o,i,0,cr);
    for(int k=0;k<d[i];++k){ent[i].emplace(o.c,10*i+k);m_add(o,i,10*i+k,cr);}
  }
  check(o,true,0);
}
template<class It> void landed(Obj& o,It r,std::size_t at,const char* what){
  if(!ret_)return;
  VF_CHECK(r==std::next(o.c.begin(),at),"%s: the iterator returned does not designate the element after the erased ones",what);
  std::size_t n=0;
  for(auto w=r;w!=o.c.end();++w){++n;VF_CHECK(n<=o.c.size(),"%s: traversal from the iterator returned runs away",what);}
  VF_CHECK(n==o.c.size()-at,"%s: traversal from the iterator returned misses elements",what);
}
static void wide(int M,int shape){
  beat();
  key_="W"+std::to_string(M)+":"+std::to_string(shape);
  std::string base=std::to_string(M)+" types, shape "+std::to_string(shape)+": ";
  tr=base+"build";
  std::size_t n;
  {Obj o;build(o,M,shape,false,-1);n=o.c.size();++stat("states_expanded");}
  for(std::size_t i=0;i<=n;++i)for(std::size_t j=i;j<=n;++j)for(int how=0;how<2;++how){
    if(how&&j!=i+1)continue;
    tr=base+(how?"erase element ":"erase elements ")+std::to_string(i)+" to "+std::to_string(j);
    Obj o;build(o,M,shape,false,-1);
    auto f=flat(o);
    std::set<int> touched;
    for(std::size_t k=i;k<j;++k)touched.insert(f[k].first);
    Stab s;take(o,s);
    auto r=how?o.c.erase(std::next(o.c.cbegin(),i)):o.c.erase(std::next(o.c.cbegin(),i),std::next(o.c.cbegin(),j));
    for(std::size_t k=j;k-->i;)o.m.s[f[k].first].erase(o.m.s[f[k].first].begin()+f[k].second);
    check(o,false,0);
    landed(o,r,i,"erase");
    if(stab_){
      std::set<int> part; // before the erased positions nothing is touched
      for(std::size_t k=0;k<i;++k)VF_CHECK(Model::addr(*s.g[k])==s.ga[k]&&s.g[k]==std::next(o.c.begin(),k),"iterator before the erased elements did not stay valid");
      for(std::size_t k=j;k<n;++k)if(!touched.count(f[k].first))VF_CHECK(Model::addr(*s.g[k])==s.ga[k]&&s.g[k]==std::next(o.c.begin(),k-(j-i)),"iterator into an untouched segment did not stay valid");
      VF_CHECK(s.gend==o.c.end(),"the global end did not stay valid");
    }
    ++stat("transitions");++stat("histories");
    // the erased collection goes on working
    if((i+j)%3==0){bool cr=false;for(int t=0;t<M;++t)grow(o,t,2,cr);check(o,cr,0);}
  }
  for(int op=0;op<4;++op){
    static const char* nm[]={"clear()","reserve(5)","shrink_to_fit()","reserve(5), shrink_to_fit()"};
    tr=base+nm[op];
    Obj o;build(o,M,shape,false,-1);
    Stab s;take(o,s);
    if(op==0){o.c.clear();for(auto& v:o.m.s)v.clear();}
    if(op&1){
      o.c.reserve(5);
      for(int t=0;t<M;++t)VF_CHECK(o.c.capacity(*ent[t].ti)>=5,"capacity of type %d after reserve(5)",t);
    }
    if(op&2)o.c.shrink_to_fit();
    check(o,false,0);
    if(op==1&&stab_){
      Stab s2;take(o,s2);
      bool cr=false;
      for(int t=0;t<M;++t)while(o.m.s[t].size()<5){
        grow(o,t,2,cr);
        for(std::size_t k=0;k<s2.g.size();++k)VF_CHECK(Model::addr(*s2.g[k])==s2.ga[k],"element moved while there was reserved capacity");
      }
      check(o,false,0);
    }
    ++stat("transitions");++stat("histories");
  }
  // global ranges as sources; the target registers the types the other way round
  for(std::size_t i=0;i<=n;++i)for(std::size_t j=i;j<=n;++j){
    tr=base+"insert elements "+std::to_string(i)+" to "+std::to_string(j)+" of the collection into another";
    Obj o,q;build(o,M,shape,false,-1);build(q,M,(int)((shape+i)%3),true,-1);
    auto f=flat(o);
    q.c.insert(std::next(o.c.cbegin(),i),std::next(o.c.cbegin(),j));
    for(std::size_t k=i;k<j;++k)q.m.s[f[k].first].push_back(o.m.s[f[k].first][f[k].second]);
    check(q,false,0);check(o,false,0);
    ++stat("transitions");++stat("histories");
  }
}
// equality looks at types and contents only: not at order of registration, empty segments
static void wide_eq(int M,int a){
  beat();
  Obj x;build(x,M,a,false,-1);
  int p3=1;
  for(int t=0;t<M;++t,p3*=3){
    int d=a/p3%3;
    for(int e=0;e<3;++e)for(int rev=0;rev<2;++rev){
      int b=a+(e-d)*p3;
      key_="Q"+std::to_string(M)+":"+std::to_string(a);
      tr=std::to_string(M)+" types, shape "+std::to_string(a)+" compared with shape "+std::to_string(b)+(rev?" registered the other way round":"");
      Obj y;build(y,M,b,rev,-1);
      VF_CHECK((x.c==y.c)==(d==e)&&(x.c!=y.c)==(d!=e)&&(y.c==x.c)==(d==e)&&(y.c!=x.c)==(d!=e),"equality is wrong");
      ++stat("transitions");++stat("histories");
      if(!e){
        Obj z;build(z,M,b,rev,t); // type not even registered
        VF_CHECK((x.c==z.c)==!d&&(z.c==x.c)==!d&&(x.c!=z.c)==!!d&&(z.c!=x.c)==!!d,"equality with the type unregistered is wrong");
      }
      else if(d==e){
        C w(y.c);
        w.erase(w.begin(*ent[t].ti));ent[t].emplace(w,777);
        VF_CHECK(!(x.c==w)&&!(w==x.c)&&x.c!=w&&w!=x.c,"collections with different elements of type %d are equal",t);
      }
    }
  }
}
int main(int argc,char** argv){
  std::string cfg=std::string(Model::name)+" many types";
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  ctx().trace=[]{ctx().replay_key=key_;return tr;};
  fill_all(std::make_integer_sequence<int,N>{});
  stab_=has_flag(argc,argv,"--stab");
  if(const char* r=get_opt(argc,argv,"--replay",nullptr)){
    if(*r=='S'){
      int k=atoi(r+1);std::vector<int> s;std::stringstream ss(strchr(r,':')+1);std::string e;
      while(std::getline(ss,e,','))s.push_back(atoi(e.c_str()));
      seqrun(k,s);
    }
    else if(*r=='W'||*r=='Q'){
      ret_=has_flag(argc,argv,"--ret");
      int M=atoi(r+1),sh=atoi(strchr(r,':')+1);
      if(*r=='W')wide(M,sh);else wide_eq(M,sh);
    }
    else for(int o=0;o<6;++o)for(int m=0;m<5;++m)linear(o,m);
    return finish();
  }
  stab_=has_flag(argc,argv,"--stab");
  ret_=has_flag(argc,argv,"--ret");
  eq_=has_flag(argc,argv,"--eq");
  if(int M=get_int(argc,argv,"--wide",0)){
    int tot=1;for(int i=0;i<M;++i)tot*=3;
    for(int s=0;s<tot;++s){if(eq_)wide_eq(M,s);else wide(M,s);}
    sample(tr);
    VF_CHECK(heap().blocks.empty(),"memory blocks leaked");
    return finish();
  }
  int k=get_int(argc,argv,"--prefill",-1);
  if(k<0){for(int o=0;o<6;++o)for(int m=0;m<5;++m)linear(o,m);sample(tr);}
  else{
    std::vector<int> s;
    rec(k,s,get_int(argc,argv,"--depth",3));
    ++stat("states_expanded");
    sample(tr);
  }
  VF_CHECK(heap().blocks.empty(),"memory blocks leaked");
  return finish();
}
