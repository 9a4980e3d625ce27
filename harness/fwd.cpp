// Emplacement and converting insertion: arguments reach the constructor of the
// element with their number, types, value categories and identity, exactly one
// object is made from them and it ends up where it was asked to.  Exhaustive
// over argument packs, overloads, positions, segment sizes and free places.
#include "elems.hpp"
#include <list>
#include <sstream>
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
using namespace vf;
static std::string cur;

struct Arg{int a=1;};
static int made,copied;     // objects constructed from arguments, copies of elements
struct FB{virtual ~FB()=default;virtual int code()const=0;bool operator==(const FB&)const{return true;}};
enum How{H0,HIL,HICL,HIR,HUP,H3,HAL,HACL,HAR,HACR,HSZ,HINI,HFP,HCS,HNP,HDBL,HSTRL,HSTRR,HOTHER,HOTHERR,HRAW};
struct Other;
struct Rec:FB{
  int how,n;const void* at;std::string s,t;std::unique_ptr<int> up;
  Rec(int h,int k=0,const void* p=nullptr):how(h),n(k),at(p){++made;}
  Rec(Rec&& x)noexcept:how(x.how),n(x.n),at(x.at),s(std::move(x.s)),t(std::move(x.t)),up(std::move(x.up)){x.how=-1;}
  Rec& operator=(Rec&& x)noexcept{if(this!=&x){how=x.how;n=x.n;at=x.at;s=std::move(x.s);t=std::move(x.t);up=std::move(x.up);x.how=-1;}return *this;}
  Rec(const Rec& x):how(x.how),n(x.n),at(x.at),s(x.s),t(x.t){++copied;}
  int code()const override{return how*1000+n;}
  int operator()(int)const{return code();}
};
static void freef(int){}
struct F:Rec{
  F():Rec(H0){}
  F(F&&)=default;F(const F&)=default;F& operator=(F&&)=default;
  explicit F(int& x):Rec(HIL,x,&x){}
  explicit F(const int& x):Rec(HICL,x,&x){}
  explicit F(int&& x):Rec(HIR,x,&x){}
  explicit F(std::unique_ptr<int> p):Rec(HUP,*p){up=std::move(p);}
  F(std::string a,std::string&& b,const std::string& c):Rec(H3,(int)c.size(),&c){s=std::move(a);t=std::move(b);}
  explicit F(Arg& x):Rec(HAL,x.a,&x){}
  explicit F(const Arg& x):Rec(HACL,x.a,&x){}
  explicit F(Arg&& x):Rec(HAR,x.a,&x){}
  explicit F(const Arg&& x):Rec(HACR,x.a,&x){}
  F(std::size_t n,char c):Rec(HSZ,(int)n){s.assign(n,c);}
  F(std::initializer_list<int> l):Rec(HINI,(int)l.size()){}
  explicit F(void(*p)(int)):Rec(HFP,0,(const void*)p){}
  explicit F(const char* p):Rec(HCS,(int)strlen(p),p){}
  explicit F(std::nullptr_t):Rec(HNP){}
  explicit F(const std::string& x):Rec(HSTRL,0,&x){s=x;}
  explicit F(std::string&& x):Rec(HSTRR,0,&x){s=std::move(x);}
  explicit F(const Other& x);
  explicit F(Other&& x);
};
struct Other:Rec{Other(int k):Rec(HRAW,k){} Other(Other&&)=default;Other(const Other&)=default;Other& operator=(Other&&)=default;};
inline F::F(const Other& x):Rec(HOTHER,x.n,&x){}
inline F::F(Other&& x):Rec(HOTHERR,x.n,&x){x.how=-1;}
struct N final:Rec{N(int k):Rec(HDBL,k){} N(N&&)=default;N& operator=(N&&)=default;};  // narrowing is fine with parentheses
struct G:Rec{ // constructible from anything
  template<class X,typename std::enable_if<!std::is_base_of<G,typename std::decay<X>::type>::value>::type* =nullptr>
  explicit G(X&& x):Rec(std::is_lvalue_reference<X>::value?(std::is_const<typename std::remove_reference<X>::type>::value?HACL:HAL):HAR,sizeof(x),&x){}
  G(G&&)=default;G(const G&)=default;G& operator=(G&&)=default;
};

#if VF_MODEL==0
using C=boost::base_collection<FB>;
#elif VF_MODEL==1
using C=boost::function_collection<int(int)>;
#else
using C=boost::any_collection<any_concept>;
#endif
struct Snap{int how,n;const void* at;std::string s;bool operator==(const Snap& x)const{return how==x.how&&n==x.n&&at==x.at&&s==x.s;}};
template<class T> static Snap snap(const T& x){return {x.how,x.n,x.at,x.s};}
template<class T> static std::vector<Snap> snaps(const C& c){
  std::vector<Snap> r;
  for(auto it=c.begin<T>();it!=c.end<T>();++it)r.push_back(snap(*it));
  return r;
}
static Arg filler;
template<class T> struct mk;
template<> struct mk<F>{static void f(C& c,int k){c.emplace<F>((std::size_t)(k+1),'x');}};
template<> struct mk<N>{static void f(C& c,int k){c.emplace<N>(k+1);}};
template<> struct mk<G>{static void f(C& c,int k){c.emplace<G>(filler);}};

enum Op{EMPL,HINT,HEND,HOTH,PLB,PCLB,PL,PCL,OP_N};
static const char* opn[]={"emplace","emplace_hint in the segment","emplace_hint at end()","emplace_hint in another segment",
  "emplace_pos(local_base_iterator)","emplace_pos(const_local_base_iterator)","emplace_pos(local_iterator)","emplace_pos(const_local_iterator)"};

// P: prepares arguments, passes them to a function, says what the element must look like
template<class T,class P> static void all(const char* pname,P pack){
  for(int n=0;n<4;++n)for(int spare=0;spare<3;++spare)for(int op=0;op<OP_N;++op)for(int pos=0;pos<=n;++pos){
    if(pos&&(op==EMPL||op==HEND||op==HOTH))continue;
    beat();++stat("states_expanded");
    C c;
    c.emplace<Other>(77);c.emplace<Other>(78);
    c.register_types<T>();
    c.reserve<T>(n);
    for(int i=0;i<n;++i)mk<T>::f(c,i);
    if(spare==1)c.reserve<T>(n+2);
    if(spare==2)c.shrink_to_fit<T>();
    cur=std::string(pname)+", "+opn[op]+", position "+std::to_string(pos)+" of "+std::to_string(n)+", capacity variant "+std::to_string(spare);
    auto before=snaps<T>(c);
    int m0=made,c0=copied;
    int at=(op==EMPL||op==HEND||op==HOTH)?n:pos;
    const C& cc=c;
    auto other=std::find_if(c.begin(),c.end(),[&](const C::value_type& x){
#if VF_MODEL==0
      return typeid(x)==typeid(Other);
#elif VF_MODEL==1
      return x.target_type()==typeid(Other);
#else
      return boost::type_erasure::typeid_of(x)==typeid(Other);
#endif
    });
    auto gpos=[&]{auto it=c.begin();for(;it!=c.end();++it){
#if VF_MODEL==0
      bool mine=typeid(*it)==typeid(T);
#elif VF_MODEL==1
      bool mine=it->target_type()==typeid(T);
#else
      bool mine=boost::type_erasure::typeid_of(*it)==typeid(T);
#endif
      if(mine)break;}
      return std::next(it,pos);};
    if(op==HINT&&pos==n)continue;      // no global iterator designates it unless the segment is last
    const T* res=nullptr;
    Snap want=pack([&](auto&&... a){
      switch(op){
      case EMPL:{auto it=c.template emplace<T>(std::forward<decltype(a)>(a)...);VF_CHECK(it!=c.end(),"returned end()");break;}
      case HINT:c.template emplace_hint<T>(gpos(),std::forward<decltype(a)>(a)...);break;
      case HEND:c.template emplace_hint<T>(c.cend(),std::forward<decltype(a)>(a)...);break;
      case HOTH:c.template emplace_hint<T>(other,std::forward<decltype(a)>(a)...);break;
      case PLB:{auto it=c.template emplace_pos<T>(c.begin(typeid(T))+pos,std::forward<decltype(a)>(a)...);res=std::addressof(*typename C::template local_iterator<T>(it));break;}
      case PCLB:{auto it=c.template emplace_pos<T>(cc.begin(typeid(T))+pos,std::forward<decltype(a)>(a)...);res=std::addressof(*typename C::template local_iterator<T>(it));break;}
      case PL:res=std::addressof(*c.emplace_pos(c.template begin<T>()+pos,std::forward<decltype(a)>(a)...));break;
      case PCL:res=std::addressof(*c.emplace_pos(cc.template begin<T>()+pos,std::forward<decltype(a)>(a)...));break;
      }
    },[&]()->const T&{return c.template begin<T>()[at];});
    ++stat("transitions");++stat("histories");
    VF_CHECK(made-m0==1,"%d objects were constructed from the arguments, expected 1",made-m0);
    VF_CHECK(copied==c0,"elements were copied");
    auto after=snaps<T>(c);
    VF_CHECK(after.size()==before.size()+1,"size %zu, expected %zu",after.size(),before.size()+1);
    Snap got=after[at];
    VF_CHECK(got.how==want.how,"the element was made by constructor #%d, expected #%d",got.how,want.how);
    VF_CHECK(got.n==want.n&&got.s==want.s,"the element holds other values than those passed");
    VF_CHECK(got.at==want.at,"the constructor received another object than the one passed");
    after.erase(after.begin()+at);
    VF_CHECK(after==before,"other elements changed");
    VF_CHECK(!res||res==std::addressof(c.template begin<T>()[at]),"the returned iterator designates another element");
    VF_CHECK(c.size<Other>()==2&&c.begin<Other>()->n==77&&c.begin<Other>()[1].n==78,"another segment changed");
  }
}

static Other& oth=*new Other(5);
static void packs_F(){
  all<F>("no argument",[](auto call,auto){call();return Snap{H0,0,nullptr,""};});
  all<F>("int lvalue",[](auto call,auto){static int i=5;call(i);return Snap{HIL,5,&i,""};});
  all<F>("const int lvalue",[](auto call,auto){static const int i=6;call(i);return Snap{HICL,6,&i,""};});
  all<F>("int rvalue",[](auto call,auto){static int i=7;call(std::move(i));return Snap{HIR,7,&i,""};});
  all<F>("unique_ptr rvalue",[](auto call,auto get){
    std::unique_ptr<int> p(new int(8));int* q=p.get();call(std::move(p));
    VF_CHECK(!p&&get().up.get()==q,"a move-only argument did not arrive");return Snap{HUP,8,nullptr,""};});
  all<F>("unique_ptr prvalue",[](auto call,auto get){call(std::unique_ptr<int>(new int(9)));VF_CHECK(*get().up==9,"value");return Snap{HUP,9,nullptr,""};});
  all<F>("three strings",[](auto call,auto get){
    std::string a="a string that is too long to be stored inside the object",b=a+a;static const std::string c="abc";
    std::string a0=a,b0=b;
    call(a,std::move(b),c);
    VF_CHECK(a==a0,"an lvalue argument was moved from");VF_CHECK(b!=b0&&get().t==b0,"an rvalue argument was not moved");
    return Snap{H3,3,&c,a0};});
  all<F>("class lvalue",[](auto call,auto){static Arg a;call(a);return Snap{HAL,1,&a,""};});
  all<F>("class const lvalue",[](auto call,auto){static const Arg a;call(a);return Snap{HACL,1,&a,""};});
  all<F>("class rvalue",[](auto call,auto){static Arg a;call(std::move(a));return Snap{HAR,1,&a,""};});
  all<F>("class const rvalue",[](auto call,auto){static const Arg a;call(std::move(a));return Snap{HACR,1,&a,""};});
  all<F>("size and character",[](auto call,auto){call((std::size_t)3,'z');return Snap{HSZ,3,nullptr,"zzz"};});
  all<F>("initializer_list",[](auto call,auto){call(std::initializer_list<int>{1,2,3,4});return Snap{HINI,4,nullptr,""};});
  all<F>("function pointer",[](auto call,auto){call(&freef);return Snap{HFP,0,(const void*)&freef,""};});
  all<F>("function",[](auto call,auto){call(freef);return Snap{HFP,0,(const void*)&freef,""};});
  all<F>("string literal",[](auto call,auto){static const char l[]="lit";call(l);return Snap{HCS,3,l,""};});
  all<F>("nullptr",[](auto call,auto){call(nullptr);return Snap{HNP,0,nullptr,""};});
  all<F>("string lvalue",[](auto call,auto){static std::string s="some string that does not fit in place, really";std::string k=s;call(s);VF_CHECK(s==k,"an lvalue argument was moved from");return Snap{HSTRL,0,&s,k};});
  all<F>("string rvalue",[](auto call,auto){static std::string s;s="some string that does not fit in place, really";std::string k=s;call(std::move(s));VF_CHECK(s.empty(),"an rvalue argument was not moved");return Snap{HSTRR,0,&s,k};});
  all<F>("element of another type",[](auto call,auto){Other& o=oth;o.how=HRAW;call(o);return Snap{HOTHER,5,&o,""};});
  all<F>("rvalue element of another type",[](auto call,auto){Other& o=oth;o.how=HRAW;call(std::move(o));VF_CHECK(o.how==-1,"not moved");return Snap{HOTHERR,5,&o,""};});
}
static void packs_NG(){
  all<N>("narrowed double",[](auto call,auto){call(3.75);return Snap{HDBL,3,nullptr,""};});
  all<N>("int lvalue",[](auto call,auto){static int i=5;call(i);return Snap{HDBL,5,nullptr,""};});
  all<G>("anything lvalue",[](auto call,auto){static Arg a;call(a);return Snap{HAL,sizeof a,&a,""};});
  all<G>("anything const lvalue",[](auto call,auto){static const Arg a;call(a);return Snap{HACL,sizeof a,&a,""};});
  all<G>("anything rvalue",[](auto call,auto){static Arg a;call(std::move(a));return Snap{HAR,sizeof a,&a,""};});
}

/* converting ranges at a typed position */
enum Src{S_INT,S_CINT,S_STR,S_STRMV,S_CS,S_OTHER,S_OTHERMV,S_OWN,S_COLL,S_N};
static const char* srcn[]={"int","const int","string","moved string","const char*","other element","moved other element","elements of the type itself","iterators of a collection"};
static void ranges(){
  for(int n=0;n<4;++n)for(int spare=0;spare<3;++spare)for(int pos=0;pos<=n;++pos)for(int cnt=0;cnt<4;++cnt)for(int src=0;src<S_N;++src)for(int cst=0;cst<2;++cst){
    beat();++stat("states_expanded");
    C c,d;
    c.emplace<Other>(77);
    c.register_types<F>();
    c.reserve<F>(n);
    for(int i=0;i<n;++i)mk<F>::f(c,i);
    if(spare==1)c.reserve<F>(n+cnt);
    if(spare==2)c.reserve<F>(n+1);
    cur=std::string("range of ")+srcn[src]+" of length "+std::to_string(cnt)+" at "+(cst?"const ":"")+"local_iterator "+std::to_string(pos)+" of "+std::to_string(n)+", capacity variant "+std::to_string(spare);
    std::vector<int> vi;std::vector<std::string> vs;std::list<const char*> vc;std::vector<Other> vo;std::list<F> vf_;
    static const char lit[]="0123456789";
    d.register_types<Other>();d.reserve<Other>(cnt);
    for(int i=0;i<cnt;++i){
      vi.push_back(100+i);vs.push_back("a string that is too long to be stored inside: "+std::to_string(i));
      vc.push_back(lit+i);vo.emplace_back(200+i);d.emplace<Other>(200+i);
      vf_.emplace_back((std::size_t)(20+i),'q');
    }
    auto vs0=vs;
    const auto& cvi=vi;
    auto before=snaps<F>(c);
    int m0=made,c0=copied;
    std::vector<Snap> want;
    for(int i=0;i<cnt;++i)switch(src){
    case S_INT:want.push_back({HIL,100+i,&vi[i],""});break;
    case S_CINT:want.push_back({HICL,100+i,&vi[i],""});break;
    case S_STR:want.push_back({HSTRL,0,&vs[i],vs0[i]});break;
    case S_STRMV:want.push_back({HSTRR,0,&vs[i],vs0[i]});break;
    case S_CS:want.push_back({HCS,10-i,lit+i,""});break;
    case S_OTHER:want.push_back({HOTHER,200+i,&vo[i],""});break;
    case S_OTHERMV:want.push_back({HOTHERR,200+i,&vo[i],""});break;
    case S_OWN:want.push_back({HSZ,20+i,nullptr,std::string(20+i,'q')});break;
    case S_COLL:want.push_back({HOTHER,200+i,std::addressof(d.begin<Other>()[i]),""});break;
    }
    auto put=[&](auto f,auto l){return cst?c.insert(c.cbegin<F>()+pos,f,l):c.insert(c.begin<F>()+pos,f,l);};
    C::local_iterator<F> r;
    switch(src){
    case S_INT:r=put(vi.begin(),vi.end());break;
    case S_CINT:r=put(cvi.begin(),cvi.end());break;
    case S_STR:r=put(vs.begin(),vs.end());break;
    case S_STRMV:r=put(std::make_move_iterator(vs.begin()),std::make_move_iterator(vs.end()));break;
    case S_CS:r=put(vc.begin(),vc.end());break;
    case S_OTHER:r=put(vo.cbegin(),vo.cend());break;
    case S_OTHERMV:r=put(std::make_move_iterator(vo.begin()),std::make_move_iterator(vo.end()));break;
    case S_OWN:r=put(vf_.begin(),vf_.end());break;
    case S_COLL:r=put(d.cbegin<Other>(),d.cend<Other>());break;
    }
    ++stat("transitions");++stat("histories");
    VF_CHECK(made-m0==(src==S_OWN?0:cnt),"%d objects were constructed from %d source elements",made-m0,cnt);
    VF_CHECK(copied-c0==(src==S_OWN?cnt:0),"%d elements were copied",copied-c0);
    auto after=snaps<F>(c);
    VF_CHECK(after.size()==before.size()+cnt,"size");
    for(int i=0;i<cnt;++i)VF_CHECK(after[pos+i]==want[i],"element %d of the range: made by constructor #%d with %d, expected #%d with %d (or another source object)",i,after[pos+i].how,after[pos+i].n,want[i].how,want[i].n);
    after.erase(after.begin()+pos,after.begin()+pos+cnt);
    VF_CHECK(after==before,"other elements changed");
    VF_CHECK(r==c.begin<F>()+pos,"the returned iterator designates another position");
    if(src==S_STR)VF_CHECK(vs==vs0,"lvalue sources were moved from");
    VF_CHECK(c.size<Other>()==1&&c.begin<Other>()->n==77,"another segment changed");
  }
}

/* elements seen through their abstract type at a typed position of a type that could also be constructed from the abstract type */
static const char* absn[]={"local base iterators","const local base iterators","global iterators","const global iterators","moved local base iterators"};
static void abstracts(){
  for(int n=0;n<4;++n)for(int spare=0;spare<3;++spare)for(int pos=0;pos<=n;++pos)for(int cnt=0;cnt<4;++cnt)for(int src=0;src<5;++src)for(int cst=0;cst<2;++cst){
    beat();++stat("states_expanded");
    C c,d;
    c.emplace<Other>(77);
    c.register_types<G>();c.reserve<G>(n);
    for(int i=0;i<n;++i)mk<G>::f(c,i);
    if(spare==1)c.reserve<G>(n+cnt);
    if(spare==2)c.reserve<G>(n+1);
    d.register_types<G>();
    static Arg args[4];
    for(int i=0;i<cnt;++i)d.emplace<G>(args[i]);
    cur=std::string("range of ")+absn[src]+" of length "+std::to_string(cnt)+" at "+(cst?"const ":"")+"local_iterator "+std::to_string(pos)+" of "+std::to_string(n)+", capacity variant "+std::to_string(spare);
    auto before=snaps<G>(c),from=snaps<G>(d);
    int m0=made,c0=copied;
    const C& cd=d;
    auto put=[&](auto f,auto l){return cst?c.insert(c.cbegin<G>()+pos,f,l):c.insert(c.begin<G>()+pos,f,l);};
    C::local_iterator<G> r;
    switch(src){
    case 0:r=put(d.begin(typeid(G)),d.end(typeid(G)));break;
    case 1:r=put(cd.begin(typeid(G)),cd.end(typeid(G)));break;
    case 2:r=put(d.begin(),d.end());break;
    case 3:r=put(cd.begin(),cd.end());break;
    case 4:r=put(std::make_move_iterator(d.begin(typeid(G))),std::make_move_iterator(d.end(typeid(G))));break;
    }
    ++stat("transitions");++stat("histories");
    VF_CHECK(made==m0,"%d elements were constructed from the abstract reference instead of the object it refers to",made-m0);
    VF_CHECK(copied-c0==(src==4?0:cnt),"%d elements were copied",copied-c0);
    auto after=snaps<G>(c);
    VF_CHECK(after.size()==before.size()+cnt,"size");
    for(int i=0;i<cnt;++i)VF_CHECK(after[pos+i]==from[i],"element %d of the range differs from its source",i);
    after.erase(after.begin()+pos,after.begin()+pos+cnt);
    VF_CHECK(after==before,"other elements changed");
    VF_CHECK(r==c.begin<G>()+pos,"the returned iterator designates another position");
    if(src!=4)VF_CHECK(snaps<G>(d)==from,"the source changed");
    else for(auto& x:snaps<G>(d))VF_CHECK(x.how==-1,"an rvalue was not moved from");
  }
}

/* single-pass ranges: elements made on the fly, or referred to in a stream */
struct PF:Rec{PF(int k):Rec(HDBL,k){} PF(PF&&)=default;PF(const PF&)=default;PF& operator=(PF&&)=default;};
struct PT final:Rec{PT(int k):Rec(HDBL,k){} PT(PT&&)=default;PT(const PT&)=default;PT& operator=(PT&&)=default;};
struct Strm{int at,calls;};
template<class T,int K> struct Gen{ // K: 0 prvalue, 1 lvalue, 2 const lvalue
  using iterator_category=std::input_iterator_tag;
  using value_type=T;using difference_type=std::ptrdiff_t;
  using reference=typename std::conditional<K==0,T,typename std::conditional<K==1,T&,const T&>::type>::type;
  using pointer=T*;
  Strm* st;int p;T* a;
  void now()const{VF_CHECK(st->at==p,"a range given by single-pass iterators is traversed more than once");}
  template<int J> static T get(T*,int p,std::integral_constant<int,J>){return T(100+p);}
  static T& get(T* a,int p,std::integral_constant<int,1>){return a[p];}
  static const T& get(T* a,int p,std::integral_constant<int,2>){return a[p];}
  reference operator*()const{now();++st->calls;return get(a,p,std::integral_constant<int,K>{});}
  Gen& operator++(){now();st->at=++p;return *this;}
  struct Post{T v;T operator*()const{return v;}};
  Post operator++(int){Post r{T(100+p)};++*this;return r;}
  friend bool operator==(const Gen& x,const Gen& y){return x.p==y.p;}
  friend bool operator!=(const Gen& x,const Gen& y){return x.p!=y.p;}
};
static const char* dstn[]={"at the end","with a hint at end()","with a hint in the segment","at a local_base_iterator","at a local_iterator","into a new collection"};
template<class T,int K> static void stream(const char* tn){
  static T* vals=[]{T* v=static_cast<T*>(::operator new(sizeof(T)*8));for(int i=0;i<8;++i)new(v+i)T(100+i);return v;}();
  for(int n=0;n<4;++n)for(int spare=0;spare<2;++spare)for(int cnt=0;cnt<6;++cnt)for(int dst=0;dst<6;++dst)for(int pos=0;pos<=n;++pos){
    if(pos&&(dst<2||dst==5))continue;
    if(dst==5&&n)continue;
    if(dst==2&&pos==n)continue;
    beat();++stat("states_expanded");
    cur=std::string("single-pass range of ")+std::to_string(cnt)+(K==0?" prvalues":K==1?" lvalues":" const lvalues")+" of "+tn+" "+dstn[dst]+", position "+std::to_string(pos)+" of "+std::to_string(n)+", capacity variant "+std::to_string(spare);
    Strm st{0,0},en{cnt,0};
    Gen<T,K> f{&st,0,vals},l{&en,cnt,vals};
    std::unique_ptr<C> c;
    if(dst==5)c.reset(new C(f,l));
    else{
      c.reset(new C);
      c->template register_types<T>();
      c->template reserve<T>(n);
      for(int i=0;i<n;++i)c->template emplace<T>(i);
      if(spare)c->template reserve<T>(n+3);
      switch(dst){
      case 0:c->insert(f,l);break;
      case 1:c->insert(c->cend(),f,l);break;
      case 2:c->insert(std::next(c->cbegin(),pos),f,l);break;
      case 3:{auto r=c->insert(c->begin(typeid(T))+pos,f,l);VF_CHECK(r==c->begin(typeid(T))+pos,"the returned iterator designates another position");break;}
      case 4:{auto r=c->insert(c->template begin<T>()+pos,f,l);VF_CHECK(r==c->template begin<T>()+pos,"the returned iterator designates another position");break;}
      }
    }
    ++stat("transitions");++stat("histories");
    std::vector<int> want,got;
    for(int i=0;i<n;++i)want.push_back(i);
    int at=dst<2||dst==5?n:pos;
    for(int i=0;i<cnt;++i)want.insert(want.begin()+at+i,100+i);
    if(c->is_registered(typeid(T)))for(auto it=c->template begin<T>();it!=c->template end<T>();++it){VF_CHECK(it->how==HDBL,"an element was moved from");got.push_back(it->n);}
    VF_CHECK(got==want,"the segment has %zu elements, expected %zu, or others than expected",got.size(),want.size());
    VF_CHECK(st.at==cnt,"%d elements of the range were passed over, expected %d",st.at,cnt);
    for(int i=0;i<8;++i)VF_CHECK(vals[i].how==HDBL&&vals[i].n==100+i,"an element of the source range changed");
  }
}

int main(int argc,char** argv){
  std::string cfg=std::string(Mod<VF_MODEL>::name)+" argument forwarding";
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  ctx().trace=[]{return cur;};
  packs_F();packs_NG();ranges();abstracts();
  stream<PF,0>("a class");stream<PF,1>("a class");stream<PF,2>("a class");
  stream<PT,0>("a final class");stream<PT,1>("a final class");stream<PT,2>("a final class");
  sample(cur);
  return finish();
}
