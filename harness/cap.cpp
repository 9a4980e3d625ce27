// Capacity contract of one segment (next to a second, untouched one): every
// (size, capacity) pair up to the limit of a bounded allocator, every
// reservation and insertion from it, including those beyond max_size; growth
// and element-move counts over long append histories.
#include "world.hpp"
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
using namespace vf;
template<class T,int AF> struct Cap{
  using Model=Mod<VF_MODEL>;
  using C=typename Model::template coll<AF>;
  using A=typename C::allocator_type;
  using Other=typename std::conditional<std::is_same<T,E6>::value,E0,E6>::type;
  C c{A(1)};
  std::vector<int> v;   // model: values of T's segment
  int fresh=1;
  std::string tr;
  void state(int s,std::size_t k){
    c.template emplace<Other>(77);
    char b[64];snprintf(b,sizeof b,"%d elements, capacity %zu",s,k);tr=b;
    c.template reserve<T>(k);
    for(int i=0;i<s;++i){c.template emplace<T>(fresh);v.push_back(fresh++);}
  }
  void same(const char* w){
    VF_CHECK(c.template size<T>()==v.size(),"%s: segment has %zu elements, expected %zu",w,(std::size_t)c.template size<T>(),v.size());
    std::size_t i=0;
    for(auto it=c.template cbegin<T>();it!=c.template cend<T>();++it,++i)VF_CHECK(it->val()==v[i],"%s: element %zu is %d, expected %d",w,i,it->val(),v[i]);
    VF_CHECK(i==v.size()&&c.size()==v.size()+1,"%s: sizes do not add up",w);
    i=0;for(auto it=c.cbegin(typeid(T));it!=c.cend(typeid(T));++it,++i)VF_CHECK(Model::code(*it)==mkcode(T::kind,v[i]),"%s: base view element %zu differs",w,i);
    VF_CHECK(i==v.size(),"%s: base view has %zu elements",w,i);
    VF_CHECK(c.template size<Other>()==1&&c.template begin<Other>()->val()==77,"%s: another segment changed",w);
    VF_CHECK(c.template capacity<T>()>=v.size()&&c.template capacity<T>()==c.capacity(typeid(T)),"%s: capacity below size",w);
    VF_CHECK(c.template max_size<T>()>=c.template capacity<T>(),"%s: capacity above max_size",w);
  }
};
static std::string cur;
template<class T,int AF> struct Run{
  using K=Cap<T,AF>;
  static std::size_t max_size(){K k;k.c.template register_types<T>();return k.c.template max_size<T>();}

  // one operation from one (size,capacity)
  static void op(int s,std::size_t k,int kind,std::size_t n,int pos){
    beat();
    static const char* kn[]={"reserve<T>","reserve(info)","reserve all","emplace at","insert range at","insert input range at","shrink_to_fit","insert mixed range","clear"};
    char b[128];snprintf(b,sizeof b,"%d.%zu.%d.%zu.%d",s,k,kind,n,pos);cur=b;
    K x;x.state(s,k);
    std::size_t mx=x.c.template max_size<T>(),c0=x.c.template capacity<T>();
    VF_CHECK(c0>=k,"reserve(%zu) left capacity %zu",k,c0);
    VF_CHECK(x.c.template size<T>()==(std::size_t)s,"wrong size after filling");
    const void* first=s?static_cast<const void*>(&*x.c.template cbegin<T>()):nullptr;
    const std::type_info* pi;
    std::vector<int> w=x.v;
    std::vector<T> src;src.reserve(64);
    bool grows=false;std::size_t add=0;
    typename Mod<VF_MODEL>::template coll<0> ext(typename Mod<VF_MODEL>::template coll<0>::allocator_type(50));
    if(kind==3)add=1;
    if(kind==4||kind==5||kind==7)add=n;
    std::vector<int> nv;
    if(kind==4||kind==5)for(std::size_t i=0;i<n;++i){int f=x.fresh++;src.emplace_back(f);nv.push_back(f);}
    if(kind==7)for(std::size_t i=0;i<n;++i){int f=x.fresh++;ext.template emplace<T>(f);nv.push_back(f);}
    long m0=life().moves+life().copies;
    int out=World<VF_MODEL,TL<T>,AF>::catching([&]{
      switch(kind){
      case 0:x.c.template reserve<T>(n);break;
      case 1:x.c.reserve(typeid(T),n);break;
      case 2:x.c.reserve(n);break;
      case 3:{int f=x.fresh++;nv.push_back(f);x.c.template emplace_pos<T>(x.c.template begin<T>()+pos,f);break;}
      case 4:x.c.insert(x.c.template begin<T>()+pos,src.data(),src.data()+n);break;
      case 5:x.c.insert(x.c.template begin<T>()+pos,InIt<T>(src.data()),InIt<T>(src.data()+n));break;
      case 6:x.c.template shrink_to_fit<T>();break;
      case 7:x.c.insert(ext.cbegin(),ext.cend());break;
      case 8:x.c.template clear<T>();break;
      }
    },pi);
    long mv=life().moves+life().copies-m0;
    std::size_t c1=x.c.template capacity<T>();
    ctx().sets["outcomes"].insert(std::string(kn[kind])+"/"+outname(out));
    ++stat("transitions");
    if(kind<=2){
      std::size_t lim=mx;
      bool bad=n>lim||(kind==2&&n>x.c.template max_size<typename K::Other>());
      if(bad){
        VF_CHECK(out==LENGTH,"%s(%zu) with max_size %zu gave %s instead of length_error",kn[kind],n,mx,outname(out));
        x.same("after a failed reserve");
      }
      else if(out==BADALLOC&&!(AF&A_LIMIT)){x.same("after a reserve the allocator could not satisfy");}
      else{
        VF_CHECK(out==OK_,"%s(%zu) with max_size %zu gave %s",kn[kind],n,mx,outname(out));
        VF_CHECK(c1>=n&&c1>=c0,"%s(%zu) left capacity %zu (was %zu)",kn[kind],n,c1,c0);
        if(n<=c0)VF_CHECK(c1==c0&&(mv==0||kind==2)&&(!s||first==&*x.c.template cbegin<T>()),"%s(%zu) within capacity %zu changed the storage",kn[kind],n,c0);
        x.same("after reserve");
      }
    }
    else if(kind==6){
      VF_CHECK(out==OK_,"shrink_to_fit gave %s",outname(out));
      VF_CHECK(c1<=std::max<std::size_t>(c0,1),"shrink_to_fit increased the capacity from %zu to %zu",c0,c1);
      x.same("after shrink_to_fit");
    }
    else if(kind==8){
      x.v.clear();
      VF_CHECK(out==OK_&&c1>=c0,"clear changed the capacity from %zu to %zu",c0,c1);
      x.same("after clear");
    }
    else{
      std::size_t tot=s+add;
      grows=tot>c0;
      if(tot>mx){
        VF_CHECK(out==LENGTH||out==BADALLOC,"inserting beyond max_size (%zu+%zu > %zu) gave %s",(std::size_t)s,add,mx,outname(out));
        if(kind==3&&pos==s){x.same("after a failed append");}
        else{ // basic guarantee
          VF_CHECK(x.c.template size<T>()<=mx,"segment larger than max_size");
          x.v.clear();for(auto it=x.c.template cbegin<T>();it!=x.c.template cend<T>();++it)x.v.push_back(it->val());
          x.same("after a failed insertion");
        }
      }
      else{
        VF_CHECK(out==OK_,"inserting %zu elements into %d of at most %zu gave %s",add,s,mx,outname(out));
        int at=kind==7?s:pos;
        x.v.insert(x.v.begin()+at,nv.begin(),nv.end());
        x.same("after insertion");
        if(!grows){
          VF_CHECK(c1==c0,"capacity changed from %zu to %zu although %zu elements fit",c0,c1,tot);
          if(at>0)VF_CHECK(first==&*x.c.template cbegin<T>(),"storage was reallocated although %zu elements fit into capacity %zu",tot,c0);
        }
        // single insertions cost amortized constant plus the distance to the end
        long lin=(long)(s-at)+4;
        if(kind==3&&!(AF&A_LIMIT)){
          if(!grows)VF_CHECK(mv<=2*lin,"%s %d: %ld element moves for an element %d from the end",kn[kind],pos,mv,s-at);
          else VF_CHECK(mv<=2*lin+3*(long)s,"%s %d: %ld element moves while growing from %d by %zu",kn[kind],pos,mv,s,add);
        }
      }
    }
    // the collection goes on working
    if(x.v.size()<mx){
      int f=x.fresh++;x.c.template emplace<T>(f);x.v.push_back(f);x.same("append afterwards");
    }
    if(!x.v.empty()){x.c.erase(x.c.template begin<T>());x.v.erase(x.v.begin());x.same("erase afterwards");}
  }
  static void erases(int s){
    for(int p=0;p<s;++p)for(int q=p;q<=s;++q){
      beat();
      char b[64];snprintf(b,sizeof b,"erase [%d,%d) of %d",p,q,s);cur=b;
      K x;x.state(s,s);
      std::size_t c0=x.c.template capacity<T>();
      long m0=life().moves+life().copies;
      if(q==p+1)x.c.erase(x.c.template begin<T>()+p);
      else x.c.erase(x.c.template begin<T>()+p,x.c.template begin<T>()+q);
      long mv=life().moves+life().copies-m0;
      x.v.erase(x.v.begin()+p,x.v.begin()+q);
      x.same("after erase");
      VF_CHECK(x.c.template capacity<T>()==c0,"erase changed the capacity");
      VF_CHECK(mv<=2*(s-p)+2,"erasing [%d,%d) of %d elements took %ld element moves",p,q,s,mv);
      ++stat("transitions");
    }
  }
  // long append histories: amortized constant cost, geometric growth
  static void appends(int N,int kind){
    char b[64];snprintf(b,sizeof b,"%d appends, kind %d",N,kind);cur=b;
    K x;x.c.template emplace<typename K::Other>(77);
    x.c.template register_types<T>();
    long m0=life().moves+life().copies,b0=heap().total;
    std::vector<T> one;one.reserve(2);
    int grow=0;std::size_t cap=0;
    for(int i=0;i<N;++i){
      beat();
      int f=x.fresh++;
      switch(kind){
      case 0:x.c.template emplace<T>(f);break;
      case 1:x.c.insert(T(f));break;
      case 2:one.clear();one.emplace_back(f);x.c.insert(one.data(),one.data()+1);break;
      case 3:one.clear();one.emplace_back(f);x.c.insert(x.c.template end<T>(),one.data(),one.data()+1);break;
      case 4:x.c.template emplace_hint<T>(x.c.end(),f);break;
      case 5:x.c.template emplace_pos<T>(x.c.end(typeid(T)),f);break;
      }
      x.v.push_back(f);
      std::size_t nc=x.c.template capacity<T>();
      VF_CHECK(nc>=cap,"appending reduced the capacity");
      if(nc!=cap){++grow;cap=nc;}
      long mv=life().moves+life().copies-m0;
      VF_CHECK(mv<=8L*(i+1)+16,"%ld element moves or copies for %d appends: not amortized constant",mv,i+1);
      VF_CHECK(grow<=8+4*(int)(__builtin_clz(1)-__builtin_clz(i+1)),"storage grew %d times in %d appends",grow,i+1);
      ++stat("transitions");
    }
    VF_CHECK(heap().total-b0<=16L*grow+16,"%ld allocations for %d appends",heap().total-b0,N);
    x.same("after appends");
  }
  static void all(int lim,int N,int L){
    std::size_t mx=max_size();
    if(AF&A_LIMIT)VF_CHECK(mx>=limit_max_size-1&&mx<=limit_max_size,"max_size is %zu with an allocator limited to %zu",mx,limit_max_size);
    int S=(AF&A_LIMIT)?(int)mx:lim;
    std::vector<std::size_t> huge={std::size_t(-1),std::size_t(-1)/2,std::size_t(-1)/2+1,mx+1,mx+2,std::size_t(-1)/sizeof(T),std::size_t(-1)/sizeof(T)+1,std::size_t(-1)/sizeof(T)/2+1};
    for(int s=0;s<=S;++s)for(int k=s;k<=S;++k){
      bool edge=k-s<=3||k==S||k==2*s;
      if((AF&A_LIMIT)&&!(s<=2||S-s<=3)&&!(s%7==0))continue;
      if(!edge)continue;
      for(int kind=0;kind<3;++kind){
        for(std::size_t n=0;n<=(std::size_t)S+2;++n)if(n<=3||n+4>=(std::size_t)s&&n<=(std::size_t)k+2||n+1>=(std::size_t)S)op(s,k,kind,n,0);
        for(auto h:huge)if(h>mx||!(AF&A_LIMIT))if(h>mx)op(s,k,kind,h,0);
      }
      for(int pos=0;pos<=s;++pos){
        if(pos>2&&s-pos>2&&s>8)continue;
        op(s,k,3,0,pos);
        for(std::size_t n=0;n<=(std::size_t)(S-s)+2;++n){
          if(n>3&&n<(std::size_t)(S-s)&&n!=(std::size_t)(k-s)&&n!=(std::size_t)(k-s)+1)continue;
          if(vf::copyable<T>()){op(s,k,4,n,pos);op(s,k,5,n,pos);if(pos==s)op(s,k,7,n,pos);}
        }
      }
      op(s,k,6,0,0);op(s,k,8,0,0);
      ++stat("states_expanded");++stat("histories");
    }
    for(int s=0;s<=std::min(S,8);++s)erases(s);
    if(!(AF&A_LIMIT))for(int kind=0;kind<6;++kind)if(vf::copyable<T>()||(kind!=2&&kind!=3))appends(kind==0||kind==3?L:N,kind);
  }
};
template<int AF> void types(int lim,int N,int L){
#define GO(E) {ctx().trace=[]{ctx().replay_key=std::string();return std::string(#E " ")+std::to_string(AF)+" size.capacity.op.n.position "+cur;};Run<E,AF>::all(lim,N,L);}
  GO(E0) GO(E1) GO(E2) GO(E3)
}
int main(int argc,char** argv){
  std::string cfg=std::string(Mod<VF_MODEL>::name);
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  int lim=get_int(argc,argv,"--lim",7),N=get_int(argc,argv,"--appends",600),L=get_int(argc,argv,"--long",N);
  if(!has_flag(argc,argv,"--nolimit"))types<A_LIMIT>(lim,N,L);
  if(!has_flag(argc,argv,"--limit"))types<0>(lim,N,L);
  sample("E1 33 elements, capacity 40, insert range of 8 at 3 -> length_error, contents valid");
  return finish();
}
