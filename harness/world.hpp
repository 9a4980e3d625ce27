// One collection under test plus its reference model, the operation alphabet
// (every modifier overload of the public interface with every position), and
// the oracles evaluated after each operation.
#ifndef VF_WORLD_HPP
#define VF_WORLD_HPP
#include "elems.hpp"
#include <boost/iterator/indirect_iterator.hpp>
#include <algorithm>
#include <cstring>
#include <iterator>
#include <list>
#include <sstream>
#include <stdexcept>

#include <memory>
namespace vf{

using boost::poly_collection::unregistered_type;
using boost::poly_collection::not_copy_constructible;
using boost::poly_collection::not_equality_comparable;

/* ---- oracle selection ---- */
enum{
  O_RET=1,      // returned iterators
  O_VIEWS=2,    // full cross-view coherence
  O_STAB=4,     // iterator/reference stability
  O_LIFE=8,     // life cycle accounting
  O_CAP=16,     // capacity contract
  O_REG=32,     // registration and error reports
  O_BUILTIN=0
};

/* ---- single pass / forward iterators over an array ---- */
template<class T,class Cat>
struct ArrIt{
  using iterator_category=Cat;
  using value_type=T;
  using difference_type=std::ptrdiff_t;
  using pointer=const T*;
  using reference=const T&;
  const T* p=nullptr;
  ArrIt()=default;
  explicit ArrIt(const T* q):p(q){}
  reference operator*()const{fault_point(F_ITER);return *p;}
  pointer operator->()const{return p;}
  ArrIt& operator++(){++p;return *this;}
  ArrIt operator++(int){ArrIt r=*this;++p;return r;}
  friend bool operator==(const ArrIt& a,const ArrIt& b){return a.p==b.p;}
  friend bool operator!=(const ArrIt& a,const ArrIt& b){return a.p!=b.p;}
};
// all copies share the position of the stream: using one that was left behind
// is a second pass
template<class T>
struct InIt{
  using iterator_category=std::input_iterator_tag;
  using value_type=T;
  using difference_type=std::ptrdiff_t;
  using pointer=const T*;
  using reference=const T&;
  const T* p=nullptr;
  std::shared_ptr<const T*> at;
  struct Post{const T* v;const T& operator*()const{return *v;}};
  InIt()=default;
  explicit InIt(const T* q):p(q),at(std::make_shared<const T*>(q)){}
  void now()const{VF_CHECK(at&&*at==p,"a range given by single-pass iterators is traversed more than once");}
  reference operator*()const{now();fault_point(F_ITER);return *p;}
  pointer operator->()const{now();return p;}
  InIt& operator++(){now();*at=++p;return *this;}
  Post operator++(int){Post r{p};++*this;return r;}
  friend bool operator==(const InIt& a,const InIt& b){return a.p==b.p;}
  friend bool operator!=(const InIt& a,const InIt& b){return a.p!=b.p;}
};
template<class T> using FwIt=ArrIt<T,std::forward_iterator_tag>;

struct Op{
  unsigned char k=0,t=0;
  int a=0,b=0,c=0;
  bool operator==(const Op& o)const{return k==o.k&&t==o.t&&a==o.a&&b==o.b&&c==o.c;}
};

#define VF_OPS(X) \
  X(EMPLACE) X(EMPLACE2) X(INS_C) X(INS_M) X(INS_EC) X(INS_EM) X(INS_CR) \
  X(HEMPLACE) X(HINS_C) X(HINS_M) X(HINS_EC) X(HINS_EM) X(HINS_CR) \
  X(PEMPL_LB) X(PEMPL_CLB) X(PEMPL_L) X(PEMPL_CL) \
  X(PINS_LB_C) X(PINS_CLB_M) X(PINS_L_C) X(PINS_CL_M) X(PINS_LB_EC) X(PINS_CLB_EM) X(PINS_L_EC) X(PINS_CL_EM) X(PINS_L_CR) X(PINS_CLB_CR) \
  X(R_PTR) X(R_IN) X(R_FW) X(R_MV) X(R_ER) X(R_SL) X(R_SCL) X(R_SLB) X(R_SCLB) \
  X(HR_PTR) X(HR_IN) X(HR_FW) X(HR_MV) X(HR_ER) X(HR_SL) X(HR_SCL) X(HR_SLB) X(HR_SCLB) \
  X(PR_LB_PTR) X(PR_CLB_ER) X(PR_L_PTR) X(PR_CL_IN) X(PR_L_INT) X(PR_CL_ER) X(PR_CLB_MV) X(PR_CL_MV) \
  X(X_G) X(X_CG) X(HX_G) X(HX_CG) X(X_ER) X(HX_ER) X(X_MV) X(HX_MV) \
  X(ER_G) X(ER_LB) X(ER_CLB) X(ER_L) X(ER_CL) \
  X(ERR_G) X(ERR_LB) X(ERR_CLB) X(ERR_L) X(ERR_CL) \
  X(CLEAR) X(CLEAR_I) X(CLEAR_T) \
  X(RESERVE) X(RESERVE_I) X(RESERVE_T) X(SHRINK) X(SHRINK_I) X(SHRINK_T) \
  X(REG_T) X(REG_ALL)
enum OpK:unsigned char{
#define X(n) n,
  VF_OPS(X)
#undef X
  OPK_COUNT
};
inline const char* opname(int k){
  static const char* n[]={
#define X(n) #n,
    VF_OPS(X)
#undef X
  };
  return n[k];
}
inline std::string opstr(const Op& o){
  char b[96];snprintf(b,sizeof b,"%s(t%d,%d,%d,%d)",opname(o.k),o.t,o.a,o.b,o.c);return b;
}
inline std::string ops_key(const std::vector<Op>& v){
  std::string s;char b[64];
  for(auto& o:v){snprintf(b,sizeof b,"%d.%d.%d.%d.%d;",o.k,o.t,o.a,o.b,o.c);s+=b;}
  return s;
}
inline std::vector<Op> parse_ops(const std::string& s){
  std::vector<Op> r;std::stringstream ss(s);std::string e;
  while(std::getline(ss,e,';')){
    int k,t,a,b,c;
    if(sscanf(e.c_str(),"%d.%d.%d.%d.%d",&k,&t,&a,&b,&c)==5){Op o;o.k=k;o.t=t;o.a=a;o.b=b;o.c=c;r.push_back(o);}
  }
  return r;
}

enum Outcome{OK_,UNREG,NOTCOPY,NOTEQ,INJECTED,BADALLOC,LENGTH,OTHER};
inline const char* outname(int o){const char* n[]={"no exception","unregistered_type","not_copy_constructible","not_equality_comparable","injected exception","bad_alloc","length_error","other exception"};return n[o];}

template<int M,class L,int AF=0>
struct World{
  using Model=Mod<M>;
  using C=typename Model::template coll<AF>;
  using A=typename C::allocator_type;
  using V=typename C::value_type;
  using VT=visit_t<L>;
  static constexpr int NT=L::size;
  using git=typename C::iterator;
  using cgit=typename C::const_iterator;
  using lb=typename C::local_base_iterator;
  using clb=typename C::const_local_base_iterator;
  template<class T> using li=typename C::template local_iterator<T>;
  template<class T> using cli=typename C::template const_local_iterator<T>;

  struct Mdl{
    bool reg[NT]={};
    std::vector<int> s[NT];       // codes of the elements of each segment
    std::vector<int> order;       // segments in traversal order
    std::size_t total()const{std::size_t n=0;for(auto& x:s)n+=x.size();return n;}
  };

  C c;
  Mdl m;
  int fresh=1;
  int oracles=0;
  bool sync_after_throw=false; // set when the last operation threw and contents were re-read

  explicit World(int id=1):c(mk_alloc<A>(id)){}
  struct inplace{};
  template<class... As> World(inplace,As&&... as):c(std::forward<As>(as)...){}

  /* ---------- observation helpers ---------- */

  int kcode(int t,int v)const{return mkcode(VT::kind(t),v);}

  std::vector<int> read_order()const{
    std::vector<int> r;
    for(const auto& s:c.segment_traversal()){
      int t=VT::index_of(s.type_info());
      VF_CHECK(t>=0,"segment traversal shows a segment of a type that was never inserted");
      r.push_back(t);
      VF_CHECK(r.size()<=(std::size_t)NT,"segment traversal shows more segments than types");
    }
    return r;
  }
  // contents through the local base view
  std::vector<int> read_segment(int t)const{
    std::vector<int> r;
    for(auto it=c.begin(VT::info(t)),e=c.end(VT::info(t));it!=e;++it){
      r.push_back(Model::code(*it));
      VF_CHECK(r.size()<(1u<<20),"runaway segment traversal");
    }
    return r;
  }
  void resync(){ // re-read contents from the local views after a basic-guarantee failure
    for(int t=0;t<NT;++t){
      m.reg[t]=c.is_registered(VT::info(t));
      m.s[t].clear();
      if(m.reg[t])m.s[t]=read_segment(t);
    }
    m.order=read_order();
  }
  void locate(int g,int& t,int& i)const{
    for(int x:m.order){
      int n=(int)m.s[x].size();
      if(g<n){t=x;i=g;return;}
      g-=n;
    }
    t=-1;i=0;
  }
  int gindex(int t,int i)const{ // global index of position i of segment t
    int g=0;
    for(int x:m.order){
      if(x==t)return g+i;
      g+=(int)m.s[x].size();
    }
    return g;
  }
  cgit gpos(int g)const{return std::next(c.cbegin(),g);}

  std::string show()const{
    std::string s="{";
    for(int t:m.order){
      char b[32];snprintf(b,sizeof b,"t%d:[",t);s+=b;
      for(std::size_t i=0;i<m.s[t].size();++i){snprintf(b,sizeof b,"%s%d",i?",":"",m.s[t][i]%KMUL-5);s+=b;}
      s+="]";
    }
    return s+"}";
  }
  // canonical form of a state: traversal order, and size and free capacity
  // (0, 1, or more) of each segment
  int slack_cap=2;
  std::string shape()const{
    std::string s;char b[48];
    for(int t:m.order){
      std::size_t sz=m.s[t].size(),sl=c.capacity(VT::info(t))-sz;
      snprintf(b,sizeof b,"%d:%zu/%zu ",t,sz,std::min<std::size_t>(sl,slack_cap));s+=b;
    }
    return s;
  }

  /* ---------- oracles on a state ---------- */

  void check_order(){
    auto o=read_order();
    std::vector<int> a=o,b=m.order;
    std::sort(a.begin(),a.end());std::sort(b.begin(),b.end());
    VF_CHECK(a==b,"segment traversal does not show exactly the registered types");
    VF_CHECK(o==m.order,"segment traversal order changed although no segment was created");
  }

  // contents, seen through the local base view and the global view
  void check_contents(){
    std::size_t tot=0;
    for(int t=0;t<NT;++t){
      VF_CHECK(c.is_registered(VT::info(t))==m.reg[t],"is_registered(t%d) is %d, expected %d",t,!m.reg[t],m.reg[t]);
      if(!m.reg[t])continue;
      auto r=read_segment(t);
      VF_CHECK(r.size()==m.s[t].size(),"segment t%d has %zu elements, model has %zu (model %s)",t,r.size(),m.s[t].size(),show().c_str());
      for(std::size_t i=0;i<r.size();++i)
        VF_CHECK(r[i]==m.s[t][i],"segment t%d element %zu is %d, model says %d (model %s)",t,i,r[i]%KMUL-5,m.s[t][i]%KMUL-5,show().c_str());
      VF_CHECK(c.size(VT::info(t))==m.s[t].size(),"size(t%d) is %zu, model says %zu",t,c.size(VT::info(t)),m.s[t].size());
      tot+=r.size();
    }
    check_order();
    VF_CHECK(c.size()==tot,"size() is %zu, model says %zu",c.size(),tot);
    VF_CHECK(c.empty()==(tot==0),"empty() is wrong");
    std::size_t n=0;
    auto it=c.cbegin(),e=c.cend();
    for(int t:m.order)for(std::size_t i=0;i<m.s[t].size();++i,++it,++n){
      VF_CHECK(it!=e,"global traversal ends after %zu of %zu elements",n,tot);
      int k=Model::code(*it);
      VF_CHECK(k==m.s[t][i],"global traversal element %zu is %d, model says t%d value %d (model %s)",n,k,t,m.s[t][i]%KMUL-5,show().c_str());
    }
    VF_CHECK(it==e,"global traversal goes on after all %zu elements",tot);
  }

  template<class T> void views_of(int t){
    const C& cc=c;
    const std::type_info& info=typeid(T);
    const auto& v=m.s[t];
    int n=(int)v.size();
    VF_CHECK(cc.template is_registered<T>(),"is_registered<T>() false for a registered type");
    VF_CHECK(cc.template size<T>()==v.size()&&cc.template empty<T>()==v.empty()&&cc.empty(info)==v.empty(),"typed size/empty disagree with the segment's contents");
    lb  b=c.begin(info),e=c.end(info);
    clb cb=cc.begin(info),ce=cc.end(info);
    li<T> lbg=c.template begin<T>(),len=c.template end<T>();
    cli<T> clbg=cc.template begin<T>(),cle=cc.template end<T>();
    VF_CHECK(e-b==n&&ce-cb==n&&len-lbg==n&&cle-clbg==n,"end-begin differs from the segment's size in some local view");
    VF_CHECK(cc.cbegin(info)==cb&&cc.cend(info)==ce&&cc.template cbegin<T>()==clbg&&cc.template cend<T>()==cle,"cbegin/cend differ from const begin/end");
    VF_CHECK(clb(b)==cb&&clb(e)==ce&&cli<T>(lbg)==clbg&&cli<T>(len)==cle,"const conversion of a local iterator changes its position");
    // segment info objects
    {
      auto si=c.segment(info);
      auto csi=cc.segment(info);
      auto ti=c.template segment<T>();
      auto cti=cc.template segment<T>();
      const auto& ksi=si;const auto& kti=ti;
      VF_CHECK(si.type_info()==info&&csi.type_info()==info,"segment info reports a wrong type");
      VF_CHECK(si.begin()==b&&si.end()==e&&si.template begin<T>()==lbg&&si.template end<T>()==len,"segment(info) positions differ from begin/end(info)");
      VF_CHECK(ksi.begin()==cb&&ksi.end()==ce&&ksi.cbegin()==cb&&ksi.cend()==ce&&csi.begin()==cb&&csi.end()==ce&&csi.cbegin()==cb&&csi.cend()==ce,"const segment(info) positions differ from cbegin/cend(info)");
      VF_CHECK(ksi.template begin<T>()==clbg&&ksi.template end<T>()==cle&&csi.template begin<T>()==clbg&&csi.template end<T>()==cle&&csi.template cbegin<T>()==clbg&&csi.template cend<T>()==cle,"const segment(info).begin<T> differs from cbegin<T>");
      VF_CHECK(ti.begin()==lbg&&ti.end()==len&&kti.begin()==clbg&&kti.end()==cle&&cti.begin()==clbg&&cti.end()==cle&&cti.cbegin()==clbg&&cti.cend()==cle&&kti.cbegin()==clbg&&kti.cend()==cle,"segment<T>() positions differ from begin/end<T>");
    }
    // element identity across the views, arithmetic and conversions
    for(int i=0;i<=n;++i){
      lb p=b+i;clb cp=cb+i;li<T> q=lbg+i;cli<T> cq=clbg+i;
      VF_CHECK(li<T>(p)==q&&cli<T>(cp)==cq&&cli<T>(p)==cq,"conversion of a local base iterator to local_iterator<T> changes its position (%d of %d)",i,n);
      VF_CHECK(lb(q)==p&&clb(cq)==cp&&clb(q)==cp,"conversion of a local_iterator<T> to a local base iterator changes its position (%d of %d)",i,n);
      VF_CHECK(e-p==n-i&&p-b==i&&q-lbg==i&&len-q==n-i&&cp-cb==i&&cq-clbg==i,"iterator differences are wrong at position %d of %d",i,n);
      for(int j=0;j<=n;++j){
        lb p2=b+j;li<T> q2=lbg+j;clb cp2=cb+j;cli<T> cq2=clbg+j;
        VF_CHECK((p==p2)==(i==j)&&(p!=p2)==(i!=j)&&(p<p2)==(i<j)&&(p>p2)==(i>j)&&(p<=p2)==(i<=j)&&(p>=p2)==(i>=j),"local base iterator comparison wrong at %d,%d",i,j);
        VF_CHECK((q==q2)==(i==j)&&(q<q2)==(i<j)&&(q<=q2)==(i<=j)&&(q>q2)==(i>j)&&(q>=q2)==(i>=j),"local iterator comparison wrong at %d,%d",i,j);
        VF_CHECK((cp==cp2)==(i==j)&&(cp<cp2)==(i<j)&&(cq==cq2)==(i==j)&&(cq<cq2)==(i<j),"const local iterator comparison wrong at %d,%d",i,j);
        VF_CHECK((p==cp2)==(i==j)&&(cp==p2)==(i==j)&&(q==cq2)==(i==j),"mixed const/non-const comparison wrong at %d,%d",i,j);
        VF_CHECK(p2-p==j-i&&cp2-cp==j-i&&q2-q==j-i&&cq2-cq==j-i,"iterator difference wrong at %d,%d",i,j);
        lb r=p;r+=(j-i);VF_CHECK(r==p2&&p+(j-i)==p2&&p-(i-j)==p2&&(j-i)+p==p2,"iterator arithmetic wrong at %d,%d",i,j);
        li<T> s=q;s-=(i-j);VF_CHECK(s==q2&&q+(j-i)==q2,"iterator arithmetic wrong at %d,%d",i,j);
        cli<T> cs=cq;cs+=(j-i);VF_CHECK(cs==cq2,"iterator arithmetic wrong at %d,%d",i,j);
        clb cr=cp;cr-=(i-j);VF_CHECK(cr==cp2,"iterator arithmetic wrong at %d,%d",i,j);
        if(j<n){
          VF_CHECK(&p[j-i]==&*p2&&&cp[j-i]==&*cp2&&&q[j-i]==&*q2&&&cq[j-i]==&*cq2,"operator[] disagrees with dereference at %d,%d",i,j);
        }
      }
      if(i<n){
        T& x=*q;const T& cx=*cq;V& y=*p;const V& cy=*cp;
        VF_CHECK(&x==&cx&&&y==&cy,"const and non-const views show different objects");
        VF_CHECK(q.operator->()==&x&&cq.operator->()==&x,"local iterator -> disagrees with *");
        VF_CHECK(Model::addr(y)==static_cast<const void*>(&x)&&Model::tinfo(y)==info,"base view and typed view of the same position show different objects");
        VF_CHECK(reinterpret_cast<std::uintptr_t>(&x)%alignof(T)==0,"element is misaligned");
        VF_CHECK(x.code()==v[i]&&Model::code(y)==v[i],"typed view shows a value different from the model's");
        lb p3=p;li<T> q3=q;clb cp3=cp;cli<T> cq3=cq;
        VF_CHECK(&*(p3++)==&y&&p3==b+(i+1)&&&*(cp3++)==&cy&&cp3==cb+(i+1),"post-increment wrong");
        VF_CHECK(--p3==p&&&*(q3++)==&x&&q3-- ==lbg+(i+1)&&q3==q,"decrement wrong");
        VF_CHECK(++cq3==clbg+(i+1)&&--cq3==cq&&--cp3==cp,"increment wrong");
      }
    }
  }

  // every interface of the segment traversal's own iterators and entries, and
  // iterators that are default constructed or first designate another segment
  // whatever the memory they are created in, value-initialized iterators are equal
  template<class I> static void value_init(const char* what){
    alignas(I) unsigned char m[2][sizeof(I)];
    std::memset(m[0],0x11,sizeof(I));std::memset(m[1],0x22,sizeof(I));
    asm volatile(""::"r"(&m):"memory");
    I* x=::new((void*)m[0]) I{};I* y=::new((void*)m[1]) I{};
    bool eq=*x==*y&&!(*x!=*y);
    x->~I();y->~I();
    VF_CHECK(eq,"value-initialized objects of type %s differ",what);
  }
  void check_traversal_iterators(){
    C const& cc=c;
    auto st=c.segment_traversal();
    auto cst=cc.segment_traversal();
    const auto& kst=st;
    VF_CHECK(st.cbegin()==cst.begin()&&st.cend()==cst.end()&&cst.cbegin()==cst.begin()&&cst.cend()==cst.end()&&kst.begin()==cst.begin()&&kst.end()==cst.end(),"segment traversals of a collection and of its const view differ");
    {auto a=st;a=c.segment_traversal();auto b=cst;b=a;VF_CHECK(a.begin()==st.begin()&&a.end()==st.end()&&b.begin()==cst.begin()&&b.end()==cst.end(),"a copied segment traversal differs");}
    using sti=decltype(st.begin());using csti=decltype(cst.begin());
    {
      sti i=st.begin(),e=st.end();csti ci=cst.begin(),ce=cst.end();
      for(std::size_t n=0;n<m.order.size();++n){
        VF_CHECK(i!=e&&ci!=ce,"segment traversal ends after %zu of %zu segments",n,m.order.size());
        int t=m.order[n];const std::type_info& info=VT::info(t);
        VF_CHECK(csti(i)==ci,"const conversion of a segment traversal iterator changes its position");
        VF_CHECK(i->type_info()==info&&(*ci).type_info()==info&&ci->type_info()==info,"segment traversal iterators at the same position show different segments");
        VT::at(t,[&](auto tg){
          using T=typename decltype(tg)::type;
          auto s=*i;auto cs=*ci;const auto& ks=s;
          VF_CHECK(s.template begin<T>()==c.template begin<T>()&&s.template end<T>()==c.template end<T>()&&s.template cbegin<T>()==cc.template begin<T>()&&s.template cend<T>()==cc.template end<T>(),"typed positions of a segment traversal entry differ from begin/end<T>()");
          VF_CHECK(ks.template begin<T>()==cc.template begin<T>()&&ks.template end<T>()==cc.template end<T>()&&ks.begin()==cc.begin(info)&&ks.end()==cc.end(info),"positions of a const segment traversal entry differ from begin/end");
          VF_CHECK(cs.begin()==cc.begin(info)&&cs.end()==cc.end(info)&&cs.cbegin()==cc.begin(info)&&cs.cend()==cc.end(info)&&cs.template begin<T>()==cc.template begin<T>()&&cs.template end<T>()==cc.template end<T>()&&cs.template cbegin<T>()==cc.template begin<T>()&&cs.template cend<T>()==cc.template end<T>(),"positions of an entry of the const segment traversal differ from begin/end");
          VF_CHECK(i->begin()==c.begin(info)&&i->end()==c.end(info)&&ci->begin()==cc.begin(info)&&ci->end()==cc.end(info),"segment traversal iterator -> disagrees with *");
        });
        sti o=i;csti co=ci;
        sti r=i++;csti cr=ci++;
        VF_CHECK(r==o&&cr==co&&i!=o&&ci!=co&&r!=i,"post-increment of a segment traversal iterator does not return the old position");
        sti a;a=o;++a;csti ca;ca=co;++ca;csti cb;cb=o;++cb;
        VF_CHECK(a==i&&ca==ci&&cb==ci,"an assigned segment traversal iterator moves differently");
      }
      VF_CHECK(i==e&&ci==ce,"segment traversal goes on after all segments");
    }
    // assignment over iterators of other segments
    for(int x:m.order)for(int y:m.order){
      const std::type_info &ix=VT::info(x),&iy=VT::info(y);
      int n=(int)m.s[y].size();
      lb b=c.begin(ix),d,z=b;clb k=cc.begin(ix),cd,w=k;
      b=c.begin(iy);d=c.begin(iy);k=c.begin(iy);cd=cc.begin(iy);z=c.end(iy);w=cc.end(iy);
      for(int i=0;i<n;++i,++b,++d,++k,++cd)
        VF_CHECK(b==c.begin(iy)+i&&d==b&&k==cc.begin(iy)+i&&cd==k&&&*b==&*(c.begin(iy)+i)&&&*k==&*b&&&*d==&*b&&&*cd==&*b&&z-b==n-i&&w-k==n-i&&b.operator->()==&*b&&k.operator->()==&*b,"a local base iterator assigned over one of another segment shows other elements");
      VF_CHECK(b==c.end(iy)&&d==b&&k==cc.end(iy)&&cd==k,"a local base iterator assigned over one of another segment does not reach its end");
      auto si=c.segment(ix);auto csi=cc.segment(ix);
      si=c.segment(iy);csi=c.segment(iy);
      VF_CHECK(si.type_info()==iy&&csi.type_info()==iy&&si.begin()==c.begin(iy)&&si.end()==c.end(iy)&&csi.begin()==cc.begin(iy)&&csi.end()==cc.end(iy),"an assigned segment info does not show the segment it was assigned");
    }
    value_init<git>("iterator");value_init<cgit>("const_iterator");
    value_init<lb>("local_base_iterator");value_init<clb>("const_local_base_iterator");
    for(int t=0;t<NT;++t)VT::at(t,[&](auto tg){
      using T=typename decltype(tg)::type;
      value_init<typename C::template local_iterator<T>>("local_iterator<T>");
      value_init<typename C::template const_local_iterator<T>>("const_local_iterator<T>");
    });
    {
      std::size_t n=0;
      git g;g=c.begin();cgit k;k=c.begin();
      for(;g!=c.end();++g,++k,++n)VF_CHECK(n<m.total()&&&*g==&*k,"an assigned global iterator shows another element");
      VF_CHECK(n==m.total()&&k==cc.end(),"an assigned global iterator does not reach the end");
    }
  }

  void check_views(){
    C const& cc=c;
    // traversal info
    std::vector<int> o1,o2,o3;
    auto st=c.segment_traversal();
    for(auto s:st){
      int t=VT::index_of(s.type_info());o1.push_back(t);
      VF_CHECK(t>=0&&m.reg[t],"segment traversal shows an unregistered type");
      VF_CHECK(s.begin()==c.begin(VT::info(t))&&s.end()==c.end(VT::info(t)),"segment traversal entry positions differ from begin/end(info)");
      VF_CHECK(s.cbegin()==cc.begin(VT::info(t))&&s.cend()==cc.end(VT::info(t)),"segment traversal entry positions differ from cbegin/cend(info)");
    }
    for(auto s:cc.segment_traversal()){
      int t=VT::index_of(s.type_info());o2.push_back(t);
      VF_CHECK(t>=0&&s.begin()==cc.begin(VT::info(t))&&s.end()==cc.end(VT::info(t)),"const segment traversal entry positions differ from begin/end(info)");
    }
    for(auto it=st.cbegin();it!=st.cend();++it)o3.push_back(VT::index_of((*it).type_info()));
    check_traversal_iterators();
    VF_CHECK(o1==m.order&&o2==m.order&&o3==m.order,"segment traversal order differs between views");
    // global views
    std::vector<const void*> ga,ca,exp;
    std::size_t tot=m.total();
    for(auto& x:c){ga.push_back(Model::addr(x));VF_CHECK(ga.size()<=tot,"global traversal shows too many elements");}
    for(const auto& x:cc){ca.push_back(Model::addr(x));VF_CHECK(ca.size()<=tot,"const global traversal shows too many elements");}
    for(int t:m.order)for(auto it=cc.begin(VT::info(t));it!=cc.end(VT::info(t));++it)exp.push_back(Model::addr(*it));
    VF_CHECK(ga==exp&&ca==exp,"global traversal is not the concatenation of the segments in traversal order");
    std::set<const void*> uniq(exp.begin(),exp.end());
    VF_CHECK(uniq.size()==exp.size(),"two positions share one element");
    // global iterator algebra
    std::vector<git> gi;std::vector<cgit> ci;
    {git g=c.begin();cgit k=cc.begin();for(std::size_t i=0;i<=tot;++i){gi.push_back(g);ci.push_back(k);if(i<tot){git old=g;git r=g++;VF_CHECK(r==old,"post-increment of a global iterator does not return the old position");++k;}}}
    VF_CHECK(gi.back()==c.end()&&ci.back()==cc.end()&&cc.cend()==cc.end()&&cc.cbegin()==cc.begin(),"global end mismatch");
    VF_CHECK(std::distance(c.begin(),c.end())==(std::ptrdiff_t)tot,"distance(begin,end) differs from size()");
    for(std::size_t i=0;i<=tot;++i){
      VF_CHECK(cgit(gi[i])==ci[i]&&ci[i]==gi[i],"const conversion of a global iterator changes its position");
      for(std::size_t j=0;j<=tot;++j)
        VF_CHECK((gi[i]==gi[j])==(i==j)&&(gi[i]!=gi[j])==(i!=j)&&(ci[i]==ci[j])==(i==j),"global iterator equality wrong at %zu,%zu",i,j);
      if(i<tot)VF_CHECK(&*gi[i]==&*ci[i]&&gi[i].operator->()==&*gi[i],"global iterator dereference mismatch");
    }
    for(int t=0;t<NT;++t)if(m.reg[t])VT::at(t,[&](auto tg){this->template views_of<typename decltype(tg)::type>(t);});
  }

  template<class F> static int catching(F&& f,const std::type_info*& pi){
    pi=nullptr;
    try{f();return OK_;}
    catch(const unregistered_type& e){pi=e.pinfo;return UNREG;}
    catch(const not_copy_constructible& e){pi=e.pinfo;return NOTCOPY;}
    catch(const not_equality_comparable& e){pi=e.pinfo;return NOTEQ;}
    catch(const Injected&){return INJECTED;}
    catch(const InjectedAlloc&){return INJECTED;}
    catch(const std::bad_alloc&){return BADALLOC;}
    catch(const std::length_error&){return LENGTH;}
    catch(...){return OTHER;}
  }
  template<class F> void expect_unreg(const std::type_info& info,const char* what,F&& f){
    const std::type_info* pi;
    int o=catching(f,pi);
    VF_CHECK(o==UNREG,"%s on an unregistered type: %s instead of unregistered_type",what,outname(o));
    VF_CHECK(pi&&*pi==info,"%s: unregistered_type carries the wrong type",what);
  }
  // every type-directed operation on an unregistered type reports it
  void check_unregistered(){
    const C& cc=c;
    for(int t=0;t<NT;++t)VT::at(t,[&](auto tg){
      using T=typename decltype(tg)::type;
      const std::type_info& info=typeid(T);
      bool r=m.reg[t];
      VF_CHECK(cc.is_registered(info)==r&&cc.template is_registered<T>()==r,"is_registered disagrees with the history");
      if(r)return;
#define U(e) this->expect_unreg(info,#e,[&]{(void)(e);});
      U(c.begin(info)) U(c.end(info)) U(cc.begin(info)) U(cc.end(info)) U(cc.cbegin(info)) U(cc.cend(info))
      U(c.template begin<T>()) U(c.template end<T>()) U(cc.template begin<T>()) U(cc.template end<T>()) U(cc.template cbegin<T>()) U(cc.template cend<T>())
      U(c.segment(info)) U(cc.segment(info)) U(c.template segment<T>()) U(cc.template segment<T>())
      U(cc.empty(info)) U(cc.template empty<T>()) U(cc.size(info)) U(cc.template size<T>()) U(cc.max_size(info)) U(cc.template max_size<T>())
      U(cc.capacity(info)) U(cc.template capacity<T>()) U(c.reserve(info,1)) U(c.shrink_to_fit(info)) U(c.template shrink_to_fit<T>())
      U(c.clear(info)) U(c.template clear<T>())
#undef U
      VF_CHECK(!cc.is_registered(info),"a failed operation registered the type");
    });
    check_contents();
  }

  void check_life(long externals=0){
    long tot=externals;
    for(int t=0;t<NT;++t)if(!VT::plain(t))tot+=(long)m.s[t].size();
    VF_CHECK(life().live==tot,"%ld tracked objects are alive, %ld expected",life().live,tot);
    for(int t=0;t<NT;++t)if(m.reg[t])VT::at(t,[&](auto tg){
      using T=typename decltype(tg)::type;
      if(AF<0||is_plain<T>::value||!vf::assignable<T>())return; // std::allocator; emulated assignment re-creates objects in place
      for(auto it=c.template cbegin<T>();it!=c.template cend<T>();++it){
        VF_CHECK(elem_alloc(*it,is_plain<T>{})!=-1,"an element was not constructed through the allocator");
        VF_CHECK((AF&A_ALWAYSEQ)||elem_alloc(*it,is_plain<T>{})==alloc_id(c.get_allocator()),"an element was constructed through allocator #%d, the collection's is #%d",elem_alloc(*it,is_plain<T>{}),alloc_id(c.get_allocator()));
      }
    });
  }

  void check_state(){
    check_contents();
    if(oracles&O_VIEWS)check_views();
    if(oracles&O_REG)check_unregistered();
    if(oracles&O_LIFE)check_life();
    if(oracles&O_CAP)check_cap();
  }

  void check_cap(){
    for(int t=0;t<NT;++t)if(m.reg[t])VT::at(t,[&](auto tg){
      using T=typename decltype(tg)::type;
      VF_CHECK(c.capacity(typeid(T))==c.template capacity<T>()&&c.max_size(typeid(T))==c.template max_size<T>(),"capacity/max_size differ between the typed and the type_info interface");
      VF_CHECK(c.template capacity<T>()>=m.s[t].size(),"capacity below size");
      VF_CHECK(c.template max_size<T>()>=c.template size<T>(),"max_size below size");
    });
  }

  /* ---------- iterator / reference stability ---------- */

  struct Snap{
    std::size_t cap[NT];
    bool reg[NT];
    std::vector<const void*> addr[NT];
    std::vector<lb> l[NT];           // size+1 positions
    std::vector<clb> cl[NT];
    std::vector<git> g[NT];          // per element
    std::vector<int> codes[NT];
    git gend;cgit cgend;
    std::vector<int> order;
    std::function<bool(int,int)> typed[NT]; // (old position, new position) equal through local_iterator<T>?
    Snap():reg{}{}
  };
  template<class T> void snap_t(Snap& s,int t){
    std::vector<li<T>> v;std::vector<cli<T>> cv;
    int n=(int)m.s[t].size();
    for(int i=0;i<=n;++i){v.push_back(c.template begin<T>()+i);cv.push_back(c.template cbegin<T>()+i);}
    C* pc=&c;
    std::vector<const T*> addr;for(int i=0;i<n;++i)addr.push_back(&*v[i]);
    s.typed[t]=[=](int oldp,int newp){
      if(!(v[oldp]==pc->template begin<T>()+newp)||!(cv[oldp]==pc->template cbegin<T>()+newp))return false;
      if(newp<(int)pc->template size<T>()&&oldp<n)return &*v[oldp]==addr[oldp]&&&*cv[oldp]==addr[oldp];
      return true;
    };
  }
  void take(Snap& s){
    s.gend=c.end();s.cgend=c.cend();s.order=m.order;
    for(int t=0;t<NT;++t){
      s.reg[t]=m.reg[t];
      if(!m.reg[t])continue;
      s.cap[t]=c.capacity(VT::info(t));
      s.codes[t]=m.s[t];
      for(auto it=c.begin(VT::info(t));;++it){
        s.l[t].push_back(it);s.cl[t].push_back(it);
        if(it==c.end(VT::info(t)))break;
        s.addr[t].push_back(Model::addr(*it));
      }
      VT::at(t,[&](auto tg){this->template snap_t<typename decltype(tg)::type>(s,t);});
    }
    git it=c.begin();
    for(int t:m.order)for(std::size_t i=0;i<m.s[t].size();++i,++it)s.g[t].push_back(it);
  }
  // keep[t]: number of leading positions that must stay valid (-1: segment untouched, end included)
  void check_stability(Snap& s,const int* keep){
    VF_CHECK(s.gend==c.end()&&s.cgend==c.cend(),"the global end() iterator did not stay valid");
    for(int t=0;t<NT;++t){
      if(!s.reg[t])continue;
      int n=(int)s.addr[t].size();
      int k=keep[t]<0?n:keep[t];
      for(int i=0;i<k;++i){
        lb now=c.begin(VT::info(t))+i;
        VF_CHECK(Model::addr(*now)==s.addr[t][i],"element %d of segment t%d moved although it had to stay in place",i,t);
        VF_CHECK(s.l[t][i]==now&&s.cl[t][i]==clb(now),"local base iterator to element %d of t%d did not stay valid",i,t);
        VF_CHECK(Model::addr(*s.l[t][i])==s.addr[t][i]&&Model::code(*s.l[t][i])==s.codes[t][i],"local base iterator to element %d of t%d designates something else",i,t);
        VF_CHECK(s.typed[t](i,i),"local_iterator<T> to element %d of t%d did not stay valid",i,t);
        git g=std::next(c.begin(),gindex(t,i));
        VF_CHECK(s.g[t][i]==g,"global iterator to element %d of t%d did not stay valid",i,t);
        VF_CHECK(Model::addr(*s.g[t][i])==s.addr[t][i],"global iterator to element %d of t%d designates something else",i,t);
        // it can still be used to traverse to the end
        git w=s.g[t][i];std::size_t steps=0,left=m.total()-gindex(t,i);
        for(;w!=c.end();++w){VF_CHECK(steps<left,"traversal from a valid iterator runs past the end");++steps;}
        VF_CHECK(steps==left,"traversal from a valid iterator misses elements");
      }
      if(keep[t]<0){
        VF_CHECK(s.l[t][n]==c.end(VT::info(t))&&s.typed[t](n,n),"local end iterator of the untouched segment t%d did not stay valid",t);
        VF_CHECK(c.capacity(VT::info(t))==s.cap[t],"capacity of the untouched segment t%d changed",t);
      }
    }
  }

  /* ---------- returned iterators ---------- */

  void ret_g(git it,int t,int i){
    int g=gindex(t,i);
    VF_CHECK(it==std::next(c.begin(),g),"returned global iterator does not designate position %d of segment t%d",i,t);
    if(g<(int)m.total()){
      int tt,ii;locate(g,tt,ii);
      VF_CHECK(Model::code(*it)==m.s[tt][ii]&&Model::addr(*it)==Model::addr(*(c.begin(VT::info(tt))+ii)),"returned global iterator designates another element");
    }
    // usable for traversal
    int steps=0,left=(int)m.total()-g;
    for(git w=it;w!=c.end();++w){VF_CHECK(steps<left,"traversal from the returned iterator runs past the end");++steps;}
    VF_CHECK(steps==left,"traversal from the returned iterator misses elements");
  }
  void ret_gend(git it){VF_CHECK(it==c.end(),"returned iterator should be end()");}
  void ret_lb(lb it,int t,int i){
    VF_CHECK(it-c.begin(VT::info(t))==i&&it==c.begin(VT::info(t))+i,"returned local base iterator designates position %d, expected %d",(int)(it-c.begin(VT::info(t))),i);
    if(i<(int)m.s[t].size())VF_CHECK(Model::code(*it)==m.s[t][i],"returned local base iterator designates another element");
  }
  template<class T> void ret_l(li<T> it,int t,int i){
    VF_CHECK(it-c.template begin<T>()==i&&it==c.template begin<T>()+i,"returned local iterator designates position %d, expected %d",(int)(it-c.template begin<T>()),i);
    if(i<(int)m.s[t].size())VF_CHECK(it->code()==m.s[t][i],"returned local iterator designates another element");
    VF_CHECK(lb(it)==c.begin(typeid(T))+i,"returned local iterator converts to another position");
  }

  /* ---------- operations ---------- */

  void m_insert(int t,int i,const std::vector<int>& codes){
    m.reg[t]=true;
    m.s[t].insert(m.s[t].begin()+i,codes.begin(),codes.end());
  }

  // source collection with n elements of T, fresh values
  template<class T> void fill_src(C& src,int n,std::vector<int>& codes){
    for(int i=0;i<n;++i){int v=fresh++;src.template emplace<T>(v);codes.push_back(mkcode(T::kind,v));}
  }
  // mixed source: two elements of every copyable type; codes in traversal order
  void fill_mixed(C& src,std::vector<std::pair<int,int>>& seq,bool all=false){
    for(int r=0;r<2;++r)for(int t=0;t<NT;++t)VT::at(t,[&](auto tg){
      using T=typename decltype(tg)::type;
      if(all||vf::copyable<T>())src.template emplace<T>(fresh++);
    });
    for(const auto& x:src)seq.push_back({VT::index_of(Model::tinfo(x)),Model::code(x)});
  }
  static int mixed_size(){int n=0;for(int t=0;t<NT;++t)n+=2*VT::copyable(t);return n;}

  struct Expect{
    int outcome=OK_;
    const std::type_info* info=nullptr;
    bool basic=false;      // contents may change when it throws
    bool maybe=false;
  };

  // Apply o. Returns the outcome. `keep` receives the stability obligations.
  int apply(const Op& o){
    int keep[NT];for(int& k:keep)k=-1;
    Snap sn;
    bool stab=(oracles&O_STAB)!=0;
    bool oldreg[NT];for(int t=0;t<NT;++t)oldreg[t]=m.reg[t];
    std::size_t oldcap[NT];
    for(int t=0;t<NT;++t)oldcap[t]=m.reg[t]?c.capacity(VT::info(t)):0;
    int oldsize[NT];for(int t=0;t<NT;++t)oldsize[t]=(int)m.s[t].size();
    run_moves=0;
    if(stab)take(sn);
    Mdl before;
    if(fault().armed)before=m;
    sync_after_throw=false;
    last_affected=0;last_append=false;
    int out=OK_;
    VT::at(o.t,[&](auto tg){
      using T=typename decltype(tg)::type;
      out=this->template apply_t<T>(o,keep);
    });
    if(out==INJECTED||(out!=OK_&&sync_after_throw)){fault().disarm();return out;}
    // new segments: order may be anything, but must contain the right types
    bool created=false;
    for(int t=0;t<NT;++t)if(m.reg[t]&&!oldreg[t])created=true;
    if(created||out!=OK_){
      if(out!=OK_)for(int t=0;t<NT;++t)m.reg[t]=c.is_registered(VT::info(t));
      auto no=read_order();
      std::vector<int> a=no,b;
      for(int t=0;t<NT;++t)if(m.reg[t])b.push_back(t);
      std::sort(a.begin(),a.end());
      VF_CHECK(a==b,"segments shown by the traversal are not the registered types");
      m.order=no;
    }
    if(oracles&O_RET)if(out==OK_&&post_ret)post_ret();
    post_ret=nullptr;
    if(stab&&out==OK_){
      for(int t=0;t<NT;++t)if(keep[t]>=0&&sn.reg[t]&&m.s[t].size()>oldcap[t])keep[t]=0; // capacity exceeded
      check_stability(sn,keep);
    }
    if((oracles&O_CAP)&&out==OK_){cap_after(o,oldreg,oldcap);cost_after(o,oldreg,oldcap,oldsize,keep);}
    return out;
  }

  void cap_after(const Op& o,const bool* oldreg,const std::size_t* oldcap){
    for(int t=0;t<NT;++t){
      if(!m.reg[t])continue;
      std::size_t nc=c.capacity(VT::info(t));
      bool shrink=o.k==SHRINK||((o.k==SHRINK_I||o.k==SHRINK_T)&&o.t==t);
      bool res=o.k==RESERVE||((o.k==RESERVE_I||o.k==RESERVE_T)&&o.t==t);
      if(res)VF_CHECK(nc>=(std::size_t)o.a,"reserve(%d) left capacity %zu in t%d",o.a,nc,t);
      if(oldreg[t]&&!shrink)VF_CHECK(nc>=oldcap[t],"%s reduced the capacity of t%d from %zu to %zu",opname(o.k),t,oldcap[t],nc);
      if(oldreg[t]&&res&&(std::size_t)o.a<=oldcap[t])VF_CHECK(nc==oldcap[t],"reserve within the capacity changed it");
      if(oldreg[t]&&!shrink&&!res&&m.s[t].size()<=oldcap[t])VF_CHECK(nc==oldcap[t],"capacity of t%d changed from %zu to %zu although %zu elements fit",t,oldcap[t],nc,m.s[t].size());
      VF_CHECK(nc>=m.s[t].size(),"capacity below size");
      if(shrink)VF_CHECK(nc<=(oldcap[t]>1?oldcap[t]:1),"shrink_to_fit increased the capacity");
    }
    // the collection-wide form is specified as the per-type form on each segment
    if(o.k==SHRINK)for(int t=0;t<NT;++t)if(m.reg[t]){
      std::size_t nc=c.capacity(VT::info(t));
      c.shrink_to_fit(VT::info(t));
      VF_CHECK(c.capacity(VT::info(t))==nc,"shrink_to_fit() left t%d with capacity %zu, shrink_to_fit(info) makes that %zu",t,nc,c.capacity(VT::info(t)));
    }
  }

  // element moves and copies of single insertions, erasures, clears and
  // reservations that fit: linear in the distance to the end, plus growth
  void cost_after(const Op& o,const bool* oldreg,const std::size_t* oldcap,const int* oldsize,const int* keep){
    bool single=o.k<R_PTR,er=o.k>=ER_G&&o.k<=ERR_CL,none=(o.k>=CLEAR&&o.k<=CLEAR_T)||o.k>=REG_T;
    bool res=o.k==RESERVE_I||o.k==RESERVE_T;
    if(res&&oldreg[o.t]&&(std::size_t)o.a<=oldcap[o.t])none=true;
    if(!single&&!er&&!none)return;
    long lim=none?0:6;
    if(!none)for(int t=0;t<NT;++t)if(keep[t]>=0&&oldreg[t]){
      lim+=3*(oldsize[t]-keep[t]);
      if(m.s[t].size()>oldcap[t])lim+=2*oldsize[t]+2;
    }
    VF_CHECK(run_moves<=lim,"%s took %ld element moves and copies, at most %ld are justified",opname(o.k),run_moves,lim);
  }
  long run_moves=0;
  unsigned last_affected=0;  // bit mask of segments the last operation may touch
  bool last_append=false;    // single element appended at the end of its segment
  int last_affected_t=0;
  std::function<void()> post_ret;

  template<class F> int run(const Expect& ex,F&& f){
    const std::type_info* pi=nullptr;
    long mv0=life().moves+life().copies;
    int out=catching(f,pi);
    run_moves=life().moves+life().copies-mv0;
    if(out==INJECTED)return out;
    if(ex.maybe&&out==OK_)return out;
    VF_CHECK(out==ex.outcome,"operation gave %s, expected %s",outname(out),outname(ex.outcome));
    if(ex.info)VF_CHECK(pi&&*pi==*ex.info,"exception carries the wrong type_info");
    if(out!=OK_&&ex.basic){sync_after_throw=true;resync();}
    return out;
  }

  template<class T> int apply_t(const Op& o,int* keep){
    const int t=o.t;
    const std::type_info& info=typeid(T);
    const bool reg=m.reg[t];
    const bool cp=vf::copyable<T>();
    int n=(int)m.s[t].size();
    last_affected=1u<<t;last_affected_t=t;
    Expect ex;
    switch(o.k){
    /* ---- single insertion, unhinted ---- */
    case EMPLACE:case EMPLACE2:case INS_C:case INS_M:case INS_EC:case INS_EM:case INS_CR:
    case HEMPLACE:case HINS_C:case HINS_M:case HINS_EC:case HINS_EM:case HINS_CR:{
      bool hinted=o.k>=HEMPLACE;
      int pos=n;
      if(hinted){int ht,hi;locate(o.a,ht,hi);if(ht==t)pos=hi;}
      last_append=pos==n;
      bool erased=o.k==INS_EC||o.k==INS_EM||o.k==HINS_EC||o.k==HINS_EM;
      bool copy=o.k==INS_C||o.k==INS_EC||o.k==HINS_C||o.k==HINS_EC||o.k==INS_CR||o.k==HINS_CR;
      if(erased&&!reg){ex.outcome=UNREG;ex.info=&info;}
      else if(copy&&!cp){ex.outcome=NOTCOPY;ex.info=&info;}
      int v=fresh++;
      git r;
      int out;
      {
        fault_pause fp;
        T x(v);
        C src(mk_alloc<A>(50));
        if(erased)src.template emplace<T>(v);
        const C& csrc=src;
        fp.resume();
        out=run(ex,[&]{
          switch(o.k){
          case EMPLACE:r=c.template emplace<T>(v);break;
          case EMPLACE2:r=c.template emplace<T>(v-1,1);break;
          case INS_C:r=c.insert(static_cast<const T&>(x));break;
          case INS_M:r=c.insert(std::move(x));break;
          case INS_CR:r=c.insert(static_cast<const T&&>(x));break;
          case HINS_CR:r=c.insert(gpos(o.a),static_cast<const T&&>(x));break;
          case INS_EC:r=c.insert(*csrc.begin());break;
          case INS_EM:r=c.insert(std::move(*src.begin()));break;
          case HEMPLACE:r=c.template emplace_hint<T>(gpos(o.a),v);break;
          case HINS_C:r=c.insert(gpos(o.a),static_cast<const T&>(x));break;
          case HINS_M:r=c.insert(gpos(o.a),std::move(x));break;
          case HINS_EC:r=c.insert(gpos(o.a),*csrc.begin());break;
          case HINS_EM:r=c.insert(gpos(o.a),std::move(*src.begin()));break;
          }
        });
        if(out==INJECTED)fault().disarm();
        if(out==OK_&&(o.k==INS_M||o.k==HINS_M))VF_CHECK(x.val()==moved_val<T>(v),"an rvalue was not moved from");
        if(out==OK_&&(o.k==INS_EM||o.k==HINS_EM))VF_CHECK(src.template begin<T>()->val()==moved_val<T>(v),"an rvalue was not moved from");
        if(copy)VF_CHECK(x.val()==v&&(!erased||src.template begin<T>()->val()==v),"the source of a copy insertion was changed");
      }
      if(out!=OK_)return out;
      m_insert(t,pos,{mkcode(T::kind,v)});
      keep[t]=pos;
      post_ret=[=]{ret_g(r,t,pos);};
      return out;
    }
    /* ---- single insertion at a local position ---- */
    case PEMPL_LB:case PEMPL_CLB:case PEMPL_L:case PEMPL_CL:
    case PINS_LB_C:case PINS_CLB_M:case PINS_L_C:case PINS_CL_M:
    case PINS_LB_EC:case PINS_CLB_EM:case PINS_L_EC:case PINS_CL_EM:case PINS_L_CR:case PINS_CLB_CR:{
      int p=o.a;
      last_append=p==n;
      bool copy=o.k==PINS_LB_C||o.k==PINS_L_C||o.k==PINS_LB_EC||o.k==PINS_L_EC||o.k==PINS_L_CR||o.k==PINS_CLB_CR;
      bool erased=o.k>=PINS_LB_EC&&o.k<=PINS_CL_EM;
      if(copy&&!cp){ex.outcome=NOTCOPY;ex.info=&info;}
      int v=fresh++;
      lb rb;li<T> rl;bool isb=false;
      int out;
      {
        fault_pause fp;
        T x(v);
        C src(mk_alloc<A>(50));
        if(erased)src.template emplace<T>(v);
        const C& csrc=src;
        lb plb=c.begin(info)+p;clb pclb=plb;li<T> pl=c.template begin<T>()+p;cli<T> pcl=pl;
        fp.resume();
        out=run(ex,[&]{
          switch(o.k){
          case PEMPL_LB:rb=c.template emplace_pos<T>(plb,v);isb=true;break;
          case PEMPL_CLB:rb=c.template emplace_pos<T>(pclb,v-1,1);isb=true;break;
          case PEMPL_L:rl=c.emplace_pos(pl,v);break;
          case PEMPL_CL:rl=c.emplace_pos(pcl,v-1,1);break;
          case PINS_LB_C:rb=c.insert(plb,static_cast<const T&>(x));isb=true;break;
          case PINS_CLB_M:rb=c.insert(pclb,std::move(x));isb=true;break;
          case PINS_L_C:rl=c.insert(pl,static_cast<const T&>(x));break;
          case PINS_CL_M:rl=c.insert(pcl,std::move(x));break;
          case PINS_L_CR:rl=c.insert(pl,static_cast<const T&&>(x));break;
          case PINS_CLB_CR:rb=c.insert(pclb,static_cast<const T&&>(x));isb=true;break;
          case PINS_LB_EC:rb=c.insert(plb,*csrc.begin());isb=true;break;
          case PINS_CLB_EM:rb=c.insert(pclb,std::move(*src.begin()));isb=true;break;
          case PINS_L_EC:rl=c.insert(pl,*csrc.begin());break;
          case PINS_CL_EM:rl=c.insert(pcl,std::move(*src.begin()));break;
          }
        });
        if(out==INJECTED)fault().disarm();
        if(out==OK_&&(o.k==PINS_CLB_M||o.k==PINS_CL_M))VF_CHECK(x.val()==moved_val<T>(v),"an rvalue was not moved from");
        if(out==OK_&&(o.k==PINS_CLB_EM||o.k==PINS_CL_EM))VF_CHECK(src.template begin<T>()->val()==moved_val<T>(v),"an rvalue was not moved from");
        if(copy)VF_CHECK(x.val()==v,"the source of a copy insertion was changed");
      }
      if(out!=OK_)return out;
      m_insert(t,p,{mkcode(T::kind,v)});
      keep[t]=p;
      post_ret=[=]{if(isb)ret_lb(rb,t,p);else this->template ret_l<T>(rl,t,p);};
      return out;
    }
    /* ---- ranges of one type ---- */
    case R_PTR:case R_IN:case R_FW:case R_MV:case R_ER:case R_SL:case R_SCL:case R_SLB:case R_SCLB:
    case HR_PTR:case HR_IN:case HR_FW:case HR_MV:case HR_ER:case HR_SL:case HR_SCL:case HR_SLB:case HR_SCLB:{
      bool hinted=o.k>=HR_PTR;
      int base=hinted?o.k-(HR_PTR-R_PTR):o.k;
      int cnt=o.b;
      int pos=n;
      if(hinted){int ht,hi;locate(o.a,ht,hi);if(ht==t)pos=hi;}
      bool er=base==R_ER;
      if(cnt&&er&&!reg){ex.outcome=UNREG;ex.info=&info;ex.basic=true;}
      else if(cnt&&base!=R_MV&&!cp){ex.outcome=NOTCOPY;ex.info=&info;ex.basic=true;}
      std::vector<int> codes;
      int out;
      {
        fault_pause fp;
        C src(mk_alloc<A>(50));
        fill_src<T>(src,cnt,codes);
        if(!cnt)src.template register_types<T>();
        const C& csrc=src;
        T* f=cnt?&*src.template begin<T>():nullptr;
        T* l=f+cnt;
        std::vector<V*> ptrs;for(auto& x:src)ptrs.push_back(&x);
        auto ef=boost::make_indirect_iterator(ptrs.data());
        auto el=boost::make_indirect_iterator(ptrs.data()+ptrs.size());
        cgit h=gpos(hinted?o.a:0);
        fp.resume();
        out=run(ex,[&]{
          if(!hinted)switch(base){
          case R_PTR:c.insert(f,l);break;
          case R_IN:c.insert(InIt<T>(f),InIt<T>(l));break;
          case R_FW:c.insert(FwIt<T>(f),FwIt<T>(l));break;
          case R_MV:c.insert(std::make_move_iterator(f),std::make_move_iterator(l));break;
          case R_ER:c.insert(ef,el);break;
          case R_SL:c.insert(src.template begin<T>(),src.template end<T>());break;
          case R_SCL:c.insert(csrc.template begin<T>(),csrc.template end<T>());break;
          case R_SLB:c.insert(src.begin(info),src.end(info));break;
          case R_SCLB:c.insert(csrc.begin(info),csrc.end(info));break;
          }
          else switch(base){
          case R_PTR:c.insert(h,f,l);break;
          case R_IN:c.insert(h,InIt<T>(f),InIt<T>(l));break;
          case R_FW:c.insert(h,FwIt<T>(f),FwIt<T>(l));break;
          case R_MV:c.insert(h,std::make_move_iterator(f),std::make_move_iterator(l));break;
          case R_ER:c.insert(h,ef,el);break;
          case R_SL:c.insert(h,src.template begin<T>(),src.template end<T>());break;
          case R_SCL:c.insert(h,csrc.template begin<T>(),csrc.template end<T>());break;
          case R_SLB:c.insert(h,src.begin(info),src.end(info));break;
          case R_SCLB:c.insert(h,csrc.begin(info),csrc.end(info));break;
          }
        });
        if(out==INJECTED)fault().disarm();
        if(out==OK_)for(int i=0;i<cnt;++i)VF_CHECK((src.template begin<T>()+i)->code()==(base==R_MV?VT::moved_code(t,codes[i]):codes[i]),"source range of an insertion in a wrong state afterwards");
      }
      if(out!=OK_)return out;
      if(cnt)m_insert(t,pos,codes);
      if(cnt)keep[t]=pos;
      return out;
    }
    /* ---- ranges at a local position ---- */
    case PR_LB_PTR:case PR_CLB_ER:case PR_L_PTR:case PR_CL_IN:case PR_L_INT:case PR_CL_ER:case PR_CLB_MV:case PR_CL_MV:{
      bool mv=o.k==PR_CLB_MV||o.k==PR_CL_MV;
      int p=o.a,cnt=o.b;
      if(cnt&&o.k!=PR_L_INT&&!mv&&!cp){ex.outcome=NOTCOPY;ex.info=&info;ex.basic=true;}
      std::vector<int> codes;
      lb rb;li<T> rl;bool isb=false;
      int out;
      {
        fault_pause fp;
        C src(mk_alloc<A>(50));
        std::vector<int> ints;
        if(o.k==PR_L_INT)for(int i=0;i<cnt;++i){ints.push_back(fresh);codes.push_back(mkcode(T::kind,fresh++));}
        else fill_src<T>(src,cnt,codes);
        T* f=(cnt&&o.k!=PR_L_INT)?&*src.template begin<T>():nullptr;
        T* l=f+((o.k!=PR_L_INT)?cnt:0);
        std::vector<V*> ptrs;for(auto& x:src)ptrs.push_back(&x);
        auto ef=boost::make_indirect_iterator(ptrs.data());
        auto el=boost::make_indirect_iterator(ptrs.data()+ptrs.size());
        lb plb=c.begin(info)+p;clb pclb=plb;li<T> pl=c.template begin<T>()+p;cli<T> pcl=pl;
        fp.resume();
        out=run(ex,[&]{
          switch(o.k){
          case PR_LB_PTR:rb=c.insert(plb,f,l);isb=true;break;
          case PR_CLB_ER:rb=c.insert(pclb,ef,el);isb=true;break;
          case PR_L_PTR:rl=c.insert(pl,f,l);break;
          case PR_CL_IN:rl=c.insert(pcl,InIt<T>(f),InIt<T>(l));break;
          case PR_L_INT:rl=c.insert(pl,ints.begin(),ints.end());break;
          case PR_CL_ER:rl=c.insert(pcl,ef,el);break;
          case PR_CLB_MV:rb=c.insert(pclb,std::make_move_iterator(ef),std::make_move_iterator(el));isb=true;break;
          case PR_CL_MV:rl=c.insert(pcl,std::make_move_iterator(f),std::make_move_iterator(l));break;
          }
        });
        if(out==INJECTED)fault().disarm();
        if(out==OK_&&o.k!=PR_L_INT)for(int i=0;i<cnt;++i)VF_CHECK((src.template begin<T>()+i)->code()==(mv?VT::moved_code(t,codes[i]):codes[i]),"source range of an insertion in a wrong state afterwards");
      }
      if(out!=OK_)return out;
      m_insert(t,p,codes);
      if(cnt)keep[t]=p;
      post_ret=[=]{if(isb)ret_lb(rb,t,p);else this->template ret_l<T>(rl,t,p);};
      return out;
    }
    /* ---- mixed ranges from another collection ---- */
    case X_G:case X_CG:case HX_G:case HX_CG:case X_ER:case HX_ER:case X_MV:case HX_MV:{
      bool hinted=o.k==HX_G||o.k==HX_CG||o.k==HX_ER||o.k==HX_MV;
      bool mv=o.k==X_MV||o.k==HX_MV;
      bool er=o.k==X_ER||o.k==HX_ER||mv;
      std::vector<std::pair<int,int>> seq;
      int out;
      int ht=-1,hi=0;
      if(hinted)locate(o.c,ht,hi);
      last_affected=0;
      std::vector<std::pair<int,int>> sub;
      {
        fault_pause fp;
        C src(mk_alloc<A>(50));
        fill_mixed(src,seq,mv);
        const C& csrc=src;
        sub.assign(seq.begin()+o.a,seq.begin()+o.b);
        for(auto& q:sub)last_affected|=1u<<q.first;
        if(er)for(auto& q:sub)if(!m.reg[q.first]){ex.outcome=UNREG;ex.info=&VT::info(q.first);ex.basic=true;break;}
        std::vector<V*> ptrs;for(auto& x:src)ptrs.push_back(&x);
        auto ef=boost::make_indirect_iterator(ptrs.data()+o.a);
        auto el=boost::make_indirect_iterator(ptrs.data()+o.b);
        git f=std::next(src.begin(),o.a),l=std::next(src.begin(),o.b);
        cgit cf=std::next(csrc.begin(),o.a),cl_=std::next(csrc.begin(),o.b);
        cgit h=gpos(hinted?o.c:0);
        fp.resume();
        out=run(ex,[&]{
          switch(o.k){
          case X_G:c.insert(f,l);break;
          case X_CG:c.insert(cf,cl_);break;
          case HX_G:c.insert(h,f,l);break;
          case HX_CG:c.insert(h,cf,cl_);break;
          case X_ER:c.insert(ef,el);break;
          case HX_ER:c.insert(h,ef,el);break;
          case X_MV:c.insert(std::make_move_iterator(f),std::make_move_iterator(l));break;
          case HX_MV:c.insert(h,std::make_move_iterator(f),std::make_move_iterator(l));break;
          }
        });
        if(out==INJECTED)fault().disarm();
        std::size_t k=0;
        for(const auto& x:csrc){
          bool moved=mv&&out==OK_&&(int)k>=o.a&&(int)k<o.b;
          if(!mv||out==OK_)VF_CHECK(k<seq.size()&&Model::code(x)==(moved?VT::moved_code(seq[k].first,seq[k].second):seq[k].second),"the source collection of an insertion is in a wrong state afterwards");
          ++k;
        }
      }
      if(out!=OK_&&sync_after_throw){
        // elements before the offending one have been inserted (equivalent to a loop of insert)
        return out;
      }
      if(out!=OK_)return out;
      for(auto& q:sub){
        int qt=q.first;
        int pos=(int)m.s[qt].size();
        if(keep[qt]<0)keep[qt]=qt==ht?hi:pos;
        if(qt==ht)pos=hi++;
        m_insert(qt,pos,{q.second});
      }
      return out;
    }
    /* ---- erasure ---- */
    case ER_G:{
      int et,ei;locate(o.a,et,ei);
      last_affected=1u<<et;
      git r;
      int out=run(ex,[&]{r=c.erase(gpos(o.a));});
      if(out!=OK_)return out;
      m.s[et].erase(m.s[et].begin()+ei);
      keep[et]=ei;
      post_ret=[=]{ret_g(r,et,ei);};
      return out;
    }
    case ER_LB:case ER_CLB:case ER_L:case ER_CL:{
      int p=o.a;lb rb;li<T> rl;bool isb=o.k==ER_LB||o.k==ER_CLB;
      int out=run(ex,[&]{
        lb x=c.begin(info)+p;li<T> y=c.template begin<T>()+p;
        if(o.k==ER_LB)rb=c.erase(x);
        else if(o.k==ER_CLB)rb=c.erase(clb(x));
        else if(o.k==ER_L)rl=c.erase(y);
        else rl=c.erase(cli<T>(y));
      });
      if(out!=OK_)return out;
      m.s[t].erase(m.s[t].begin()+p);
      keep[t]=p;
      post_ret=[=]{if(isb)ret_lb(rb,t,p);else this->template ret_l<T>(rl,t,p);};
      return out;
    }
    case ERR_G:{
      int ft,fi,lt,l_;locate(o.a,ft,fi);locate(o.b,lt,l_);
      git r;
      last_affected=0;
      for(int g=o.a;g<o.b;++g){int x,y;locate(g,x,y);last_affected|=1u<<x;}
      int out=run(ex,[&]{r=c.erase(gpos(o.a),gpos(o.b));});
      if(out!=OK_)return out;
      // delete from the back so that positions stay meaningful
      for(int g=o.b-1;g>=o.a;--g){int x,y;locate(g,x,y);m.s[x].erase(m.s[x].begin()+y);keep[x]=y;}
      int a=o.a;
      post_ret=[=]{
        int x,y;locate(a,x,y);
        if(x<0)ret_gend(r);else ret_g(r,x,y);
      };
      return out;
    }
    case ERR_LB:case ERR_CLB:case ERR_L:case ERR_CL:{
      int p=o.a,q=o.b;lb rb;li<T> rl;bool isb=o.k==ERR_LB||o.k==ERR_CLB;
      int out=run(ex,[&]{
        lb x=c.begin(info)+p,x2=c.begin(info)+q;li<T> y=c.template begin<T>()+p,y2=c.template begin<T>()+q;
        if(o.k==ERR_LB)rb=c.erase(x,x2);
        else if(o.k==ERR_CLB)rb=c.erase(clb(x),clb(x2));
        else if(o.k==ERR_L)rl=c.erase(y,y2);
        else rl=c.erase(cli<T>(y),cli<T>(y2));
      });
      if(out!=OK_)return out;
      m.s[t].erase(m.s[t].begin()+p,m.s[t].begin()+q);
      if(p!=q)keep[t]=p;
      post_ret=[=]{if(isb)ret_lb(rb,t,p);else this->template ret_l<T>(rl,t,p);};
      return out;
    }
    case CLEAR:{
      last_affected=~0u;
      int out=run(ex,[&]{c.clear();});
      if(out!=OK_)return out;
      for(int x=0;x<NT;++x){if(!m.s[x].empty())keep[x]=0;m.s[x].clear();}
      return out;
    }
    case CLEAR_I:case CLEAR_T:{
      if(!reg){ex.outcome=UNREG;ex.info=&info;}
      int out=run(ex,[&]{if(o.k==CLEAR_I)c.clear(info);else c.template clear<T>();});
      if(out!=OK_)return out;
      if(n)keep[t]=0;
      m.s[t].clear();
      return out;
    }
    case RESERVE:case RESERVE_I:case RESERVE_T:{
      if(o.k==RESERVE)last_affected=~0u;
      if(o.k==RESERVE_I&&!reg){ex.outcome=UNREG;ex.info=&info;}
      for(int x=0;x<NT;++x)if(m.reg[x]&&(o.k==RESERVE||x==t)&&(std::size_t)o.a>c.capacity(VT::info(x)))keep[x]=0;
      int out=run(ex,[&]{if(o.k==RESERVE)c.reserve(o.a);else if(o.k==RESERVE_I)c.reserve(info,o.a);else c.template reserve<T>(o.a);});
      if(out!=OK_)return out;
      if(o.k==RESERVE_T)m.reg[t]=true;
      return out;
    }
    case SHRINK:case SHRINK_I:case SHRINK_T:{
      if(o.k==SHRINK)last_affected=~0u;
      if(o.k!=SHRINK&&!reg){ex.outcome=UNREG;ex.info=&info;}
      for(int x=0;x<NT;++x)if(m.reg[x]&&(o.k==SHRINK||x==t))keep[x]=0;
      return run(ex,[&]{if(o.k==SHRINK)c.shrink_to_fit();else if(o.k==SHRINK_I)c.shrink_to_fit(info);else c.template shrink_to_fit<T>();});
    }
    case REG_T:{
      int out=run(ex,[&]{c.template register_types<T>();});
      if(out==OK_)m.reg[t]=true;
      return out;
    }
    case REG_ALL:{
      last_affected=0;
      int out=run(ex,[&]{reg_all(c,L{});});
      if(out==OK_)for(int x=0;x<NT;++x)m.reg[x]=true;
      return out;
    }
    }
    fail("unknown op %d",o.k);
  }
  template<class... Ts> static void reg_all(C& c,TL<Ts...>){c.template register_types<Ts...>();}

  // suspends fault injection while sources are prepared
  struct fault_pause{
    bool was;
    fault_pause():was(fault().armed){fault().armed=false;}
    void resume(){fault().armed=was;}
    ~fault_pause(){}
  };

  /* ---------- operation enumeration ---------- */

  struct Menu{
    bool singles=true,hints=true,locals=true,ranges=true,hranges=true,lranges=true,mixed=true,hmixed=true,erases=true,errs=true,clears=true,caps=true,regs=true;
    std::vector<int> counts{0,2};
    std::vector<int> reserves{0,3};
    int maxseg=3;       // maximum size of a segment
    int maxtotal=6;     // maximum size of the collection
    unsigned types=~0u; // which types may be used
    bool thin=false;    // fewer overload variants per position
  };

  template<class F> void gen(const Menu& mn,F&& emit)const{
    int N=(int)m.total();
    auto E=[&](int k,int t,int a=0,int b=0,int cc=0){Op o;o.k=k;o.t=t;o.a=a;o.b=b;o.c=cc;emit(o);};
    int t0=-1;
    for(int t=0;t<NT;++t)if(mn.types>>t&1){
      if(t0<0)t0=t;
      int n=(int)m.s[t].size();
      bool room=n<mn.maxseg&&N<mn.maxtotal;
      bool reg=m.reg[t];
      if(mn.regs)E(REG_T,t);
      if(room){
        if(mn.singles)for(int k=EMPLACE;k<=INS_CR;++k)E(k,t);
        if(mn.hints)for(int g=0;g<=N;++g)for(int k=HEMPLACE;k<=HINS_CR;++k)E(k,t,g);
        if(mn.locals&&reg)for(int p=0;p<=n;++p)for(int k=PEMPL_LB;k<=PINS_CLB_CR;++k)E(k,t,p);
      }
      for(int cnt:mn.counts){
        if(n+cnt>mn.maxseg||N+cnt>mn.maxtotal)continue;
        if(mn.ranges)for(int k=R_PTR;k<=R_SCLB;++k)E(k,t,0,cnt);
        if(mn.hranges&&cnt)for(int g=0;g<=N;++g)for(int k=HR_PTR;k<=HR_SCLB;++k)E(k,t,g,cnt);
        if(mn.lranges&&reg)for(int p=0;p<=n;++p)for(int k=PR_LB_PTR;k<=PR_CL_MV;++k)E(k,t,p,cnt);
      }
      if(mn.erases&&reg)for(int p=0;p<n;++p)for(int k=ER_LB;k<=ER_CL;++k)E(k,t,p);
      if(mn.errs&&reg)for(int p=0;p<=n;++p)for(int q=p;q<=n;++q)for(int k=ERR_LB;k<=ERR_CL;++k)E(k,t,p,q);
      if(mn.clears){E(CLEAR_I,t);E(CLEAR_T,t);}
      if(mn.caps){
        for(int r:mn.reserves){E(RESERVE_I,t,r);E(RESERVE_T,t,r);}
        E(SHRINK_I,t);E(SHRINK_T,t);
      }
    }
    if(t0<0)t0=0;
    if(mn.erases)for(int g=0;g<N;++g)E(ER_G,t0,g);
    if(mn.errs)for(int g=0;g<=N;++g)for(int h=g;h<=N;++h)E(ERR_G,t0,g,h);
    if(mn.clears)E(CLEAR,t0);
    if(mn.caps){for(int r:mn.reserves)E(RESERVE,t0,r);E(SHRINK,t0);}
    if(mn.regs)E(REG_ALL,t0);
    if(mn.mixed){
      int S=mixed_size();
      for(int i=0;i<=S;++i)for(int j=i;j<=S;++j){
        if(N+(j-i)>mn.maxtotal||(i==j&&i))continue;
        // at most 2 elements of each type are added
        bool ok=true;for(int t=0;t<NT;++t)if((int)m.s[t].size()+2>mn.maxseg&&j-i>0)ok=false;
        if(!ok)continue;
        E(X_G,t0,i,j);E(X_CG,t0,i,j);E(X_ER,t0,i,j);
        if(mn.hmixed)for(int g=0;g<=N;++g){E(HX_G,t0,i,j,g);if(!mn.thin||g%2==0)E(HX_CG,t0,i,j,g);E(HX_ER,t0,i,j,g);}
      }
      for(int i=0;i<=2*NT;++i)for(int j=i+1;j<=2*NT&&N+(j-i)<=mn.maxtotal;++j){
        bool ok=true;for(int t=0;t<NT;++t)if((int)m.s[t].size()+2>mn.maxseg)ok=false;
        if(!ok)continue;
        E(X_MV,t0,i,j);
        if(mn.hmixed)for(int g=0;g<=N;++g)E(HX_MV,t0,i,j,g);
      }
    }
  }
};

}
#endif
