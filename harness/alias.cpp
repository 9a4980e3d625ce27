// Single insertions whose argument refers to an element of the collection
// itself: every segment size, free capacity, source element, position and
// overload; with and without a second segment.
#include "world.hpp"
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
using namespace vf;
using Model=Mod<VF_MODEL>;
using C=Model::coll<0>;
using A=C::allocator_type;
static std::string cur;
static const char* kn[]={"insert(const T&)","insert(hint,const T&)","insert(value)","insert(hint,value)","insert(lb,const T&)","insert(l,const T&)",
  "insert(clb,value)","insert(cl,value)","emplace(const T&)","emplace_hint(const T&)","emplace_pos(lb,const T&)","emplace_pos(cl,const T&)",
  "emplace(int&)","emplace_hint(int&)","emplace_pos(clb,int&)","emplace_pos(l,int&)","insert(hint of other segment,const T&)","emplace(int&,int&)","emplace_pos(l,int&,int&)"};
enum{NK=19};
template<class T,class U,bool Cp=vf::copyable<T>()> struct Go;
template<class T,class U> struct Go<T,U,true>{
  static void copy(C& c,int kind,int p,const T& x,const C::value_type& y,C::const_iterator h,C::const_iterator h2){
    const auto& info=typeid(T);
    switch(kind){
    case 0:c.insert(x);break;
    case 1:c.insert(h,x);break;
    case 2:c.insert(y);break;
    case 3:c.insert(h,y);break;
    case 4:c.insert(c.begin(info)+p,x);break;
    case 5:c.insert(c.template begin<T>()+p,x);break;
    case 6:c.insert(c.cbegin(info)+p,y);break;
    case 7:c.insert(c.template cbegin<T>()+p,y);break;
    case 8:c.template emplace<T>(x);break;
    case 9:c.template emplace_hint<T>(h,x);break;
    case 10:c.template emplace_pos<T>(c.begin(info)+p,x);break;
    case 11:c.emplace_pos(c.template cbegin<T>()+p,x);break;
    case 16:c.insert(h2,x);break;
    }
  }
};
template<class T,class U> struct Go<T,U,false>{
  static void copy(C&,int,int,const T&,const C::value_type&,C::const_iterator,C::const_iterator){}
};
template<class T,class U> static void one(int n,int slack,int i,int p,int kind,int others,long fault_n,bool& fired){
  beat();
  char b[160];snprintf(b,sizeof b,"%d.%d.%d.%d.%d.%d.%ld|",n,slack,i,p,kind,others,fault_n);cur=b;
  fired=false;
  long live0=life().live;std::size_t bl0=heap().blocks.size();
  {
    C c{A(1)};
    for(int k=0;k<others;++k)c.emplace<U>(500+k);
    c.register_types<T>();
    c.reserve<T>(n+slack);
    std::vector<int> v;
    for(int k=0;k<n;++k){c.template emplace<T>(10+k);v.push_back(10+k);}
    if(c.capacity<T>()!=(std::size_t)(n+slack)&&slack==0)return;
    auto g=c.cbegin();while(&c!=nullptr&&!(Model::tinfo(*g)==typeid(T)))++g;
    auto src=std::next(g,i);
    auto h=p<n?std::next(g,p):C::const_iterator{};
    if(p==n){
      h=std::next(g,n); // just past the segment
    }
    auto h2=others?c.cend():c.cend();
    const T& x=*(c.template cbegin<T>()+i);
    int& f=(c.template begin<T>()+i)->d.c.v;
    int val=v[i];
    bool endpos=kind==0||kind==2||kind==8||kind==12||kind==16||kind==17;
    if(endpos&&p!=n)return;
    bool isint=kind>=12&&kind!=16;
    if(!isint&&!vf::copyable<T>())return;
    const std::type_info* pi;
    if(fault_n)fault().arm(fault_n,F_ALL);
    int out=World<VF_MODEL,TL<T>,0>::catching([&]{
      switch(kind){
      case 12:c.template emplace<T>(f);break;
      case 13:c.template emplace_hint<T>(h,f);break;
      case 14:c.template emplace_pos<T>(c.cbegin(typeid(T))+p,f);break;
      case 15:c.emplace_pos(c.template begin<T>()+p,f);break;
      case 17:c.template emplace<T>(f,f);break;
      case 18:c.emplace_pos(c.template begin<T>()+p,f,f);break;
      default:Go<T,U>::copy(c,kind,p,x,*src,h,h2);
      }
    },pi);
    fired=fault().fired;fault().disarm();
    ctx().sets["outcomes"].insert(std::string(kn[kind])+outname(out));
    if(fired){
      VF_CHECK(out==INJECTED,"an exception of user code was not passed on");
      // valid: every view shows the same, live elements; other segment untouched
      std::size_t k=0;
      for(auto it=c.cbegin<T>();it!=c.cend<T>();++it,++k){
        VF_CHECK(it->val()>=-1,"an element is damaged");
        VF_CHECK(Model::code(*(c.cbegin(typeid(T))+k))==it->code(),"views disagree after a failed insertion");
      }
      VF_CHECK(k==c.size<T>()&&c.size()==k+others,"sizes disagree after a failed insertion");
      c.emplace<T>(99);VF_CHECK((c.cend<T>()-1)->val()==99,"emplace after a failed insertion");
    }
    else{
      VF_CHECK(out==OK_,"%s gave %s",kn[kind],outname(out));
      int nv=(kind==17||kind==18)?2*val:val;
      v.insert(v.begin()+p,nv);
      std::size_t k=0;
      for(auto it=c.cbegin<T>();it!=c.cend<T>();++it,++k){
        VF_CHECK(k<v.size()&&it->val()==v[k],"%s with an element of the collection itself: element %zu is %d, expected %d (source %d of %d, position %d, free capacity %d)",kn[kind],k,it->val(),k<v.size()?v[k]:-1,i,n,p,slack);
        VF_CHECK(Model::code(*(c.cbegin(typeid(T))+k))==it->code(),"views disagree");
      }
      VF_CHECK(k==v.size()&&c.size()==k+others,"wrong number of elements");
      for(int q=0;q<others;++q)VF_CHECK((c.cbegin<U>()+q)->val()==500+q,"another segment changed");
    }
    ++stat("transitions");
  }
  VF_CHECK(life().live==live0,"elements leaked or destroyed twice");
  VF_CHECK(heap().blocks.size()==bl0,"memory leaked");
}
template<class T,class U> static void all(int maxn,bool faults,const char* name){
  ctx().trace=[=]{ctx().replay_key=std::string(name)+"|"+cur;return std::string(name)+" size.free.source.position.kind.others.fault "+cur;};
  for(int others=0;others<=2;others+=2)
  for(int n=1;n<=maxn;++n)for(int slack=0;slack<=2;++slack){
    for(int i=0;i<n;++i)for(int p=0;p<=n;++p)for(int k=0;k<NK;++k){
      bool fired=false;
      one<T,U>(n,slack,i,p,k,others,0,fired);
      if(faults&&(n<=3))for(long f=1;;++f){
        one<T,U>(n,slack,i,p,k,others,f,fired);
        if(!fired)break;
        ++stat("faults");
      }
    }
    ++stat("states_expanded");++stat("histories");
  }
}
int main(int argc,char** argv){
  std::string cfg=std::string(Mod<VF_MODEL>::name);
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  int n=get_int(argc,argv,"--maxn",5);
  bool fl=has_flag(argc,argv,"--faults");
  std::string only=get_opt(argc,argv,"--only","");
#define G(T,U) if(only.empty()||only==#T)all<T,U>(n,fl,#T);
  G(E0,E1) G(E1,E0) G(E2,E0) G(E3,E0) G(E4,E0) G(E5,E0)
  sample("E1: 3 elements, no free capacity, insert(begin+1, *(begin+2))");
  return finish();
}
