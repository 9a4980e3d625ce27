// Equality of collections: every pair of contents over a small alphabet.
#include "world.hpp"
#include <memory>
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
#ifndef VF_TYPES
#define VF_TYPES E0,E1,E3
#endif
using namespace vf;
#define VF_STR_(...) #__VA_ARGS__
#define VF_STR(...) VF_STR_(__VA_ARGS__)
using L=TL<VF_TYPES>;
using W=World<VF_MODEL,L,0>;
using VT=W::VT;
constexpr int NT=L::size;
using Seg=std::vector<int>;            // values; {-1} alone: not registered
static std::vector<Seg> segs;
static int sel[2][NT];int rev[2];
static std::string render(){
  std::string s;
  for(int k=0;k<2;++k){
    for(int t=0;t<NT;++t)s+=std::to_string(sel[k][t])+",";
    s+=std::to_string(rev[k])+"|";
  }
  return s;
}
static std::unique_ptr<W> build(int k){
  std::unique_ptr<W> w(new W(1+k));
  for(int r=0;r<NT;++r){
    int t=rev[k]==1?NT-1-r:r;
    auto& s=segs[sel[k][t]];
    if(s.size()==1&&s[0]==-1)continue;
    VT::at(t,[&](auto tg){
      using T=typename decltype(tg)::type;
      w->c.template register_types<T>();
      if(rev[k]==2){ // a different history with the same result
        w->c.template reserve<T>(7);
        for(std::size_t i=s.size();i--;)w->c.template emplace_pos<T>(w->c.template begin<T>(),s[i]);
        w->c.template emplace<T>(9);
        w->c.erase(w->c.template end<T>()-1);
      }
      else for(int v:s)w->c.template emplace<T>(v);
      w->m.reg[t]=true;
      for(int v:s)w->m.s[t].push_back(mkcode(T::kind,v));
    });
  }
  w->m.order=w->read_order();
  return w;
}
static bool eqseq(const std::vector<int>& x,const std::vector<int>& y){
  for(std::size_t i=0;i<x.size();++i){
    int k=(x[i]-5)/KMUL,vx=(x[i]-5)%KMUL,vy=(y[i]-5)%KMUL;
    if(!(k==11?eq11(vx,vy):vx==vy))return false;
  }
  return true;
}
static void one(const W& a,const W& b,bool same){
  beat();
  bool diff=false,nc=false;
  for(int t=0;t<NT;++t){
    auto &x=a.m.s[t],&y=b.m.s[t];
    if(x.size()!=y.size())diff=true;
    else if(VT::comparable(t)){if(!eqseq(x,y))diff=true;}
    else if(!x.empty())nc=true;
  }
  for(int ne=0;ne<2;++ne){
    bool res=false;
    const std::type_info* pi=nullptr;
    const auto &ca=a.c,&cb=b.c;
    int out=W::catching([&]{res=ne?!(ca!=cb):ca==cb;},pi);
    ++stat("transitions");
    const char* op=ne?"!=":"==";
    if(!nc){
      VF_CHECK(out==OK_,"operator%s gave %s although every segment that has to be compared is comparable",op,outname(out));
      VF_CHECK(res==!diff,"operator%s says the collections are %s, they are %s: %s and %s",op,res?"equal":"different",diff?"different":"equal",a.show().c_str(),b.show().c_str());
    }
    else if(!diff){
      VF_CHECK(out==NOTEQ,"comparison of equally sized segments of a type that cannot be compared gave %s",outname(out));
      int t=pi?VT::index_of(*pi):-1;
      VF_CHECK(t>=0&&!VT::comparable(t)&&!a.m.s[t].empty(),"not_equality_comparable carries a wrong type");
    }
    else VF_CHECK(out==NOTEQ||(out==OK_&&!res),"different collections compare equal");
    ctx().sets["outcomes"].insert(std::string(op)+outname(out)+std::to_string(res)+std::to_string(nc)+std::to_string(diff)+std::to_string(same));
  }
}
static void faults(W& a,W& b){
  for(long n=1;;++n){
    beat();
    fault().arm(n,F_EQ);
    const std::type_info* pi=nullptr;
    bool res=false;
    int out=W::catching([&]{res=a.c==b.c;},pi);
    bool f=fault().fired;fault().disarm();
    if(!f)break;
    VF_CHECK(out==INJECTED,"an exception thrown by an element's operator== was not passed on (%s)",outname(out));
    ++stat("faults");
    a.check_contents();b.check_contents();
    one(a,b,false);
  }
}
int main(int argc,char** argv){
  std::string cfg=std::string(Mod<VF_MODEL>::name)+" {" VF_STR(VF_TYPES) "}";
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  ctx().trace=[]{ctx().replay_key=render();return "segment contents (index into the alphabet) of both sides: "+render();};
  int maxlen=get_int(argc,argv,"--maxlen",2),vals=get_int(argc,argv,"--vals",2);
  int shard=get_int(argc,argv,"--shard",0),nshards=get_int(argc,argv,"--nshards",1);
  int hist=get_int(argc,argv,"--hist",3);
  static const int oddv[]={1,11,9,2};bool odd=has_flag(argc,argv,"--odd");
  segs.push_back({-1});segs.push_back({});
  for(std::size_t i=1;i<segs.size();++i)if((int)segs[i].size()<maxlen)for(int v=1;v<=vals;++v){Seg s=segs[i];s.push_back(odd?oddv[v-1]:v);segs.push_back(s);}
  int S=(int)segs.size();
  long N=1;for(int t=0;t<NT;++t)N*=S;
  auto decode=[&](int k,long x){for(int t=0;t<NT;++t){sel[k][t]=x%S;x/=S;}};
  if(const char* r=get_opt(argc,argv,"--replay",nullptr)){
    std::string e;std::stringstream ss(r);int i=0;
    while(std::getline(ss,e,'|')&&i<2){std::stringstream s2(e);std::string f;int j=0;while(std::getline(s2,f,',')){if(j<NT)sel[i][j]=atoi(f.c_str());else rev[i]=atoi(f.c_str());++j;}++i;}
    auto a=build(0),b=build(1);
    one(*a,*b,false);one(*b,*a,false);faults(*a,*b);
    return finish();
  }
  // all collections of the right side are kept alive
  std::vector<std::unique_ptr<W>> R;
  for(int h=0;h<hist;++h){rev[1]=h;for(long y=0;y<N;++y){decode(1,y);R.push_back(build(1));}}
  for(long x=0;x<N;++x){
    if(x%nshards!=shard)continue;
    decode(0,x);rev[0]=x%hist;
    auto a=build(0);
    ++stat("states_expanded");
    {for(int t=0;t<NT;++t)sel[1][t]=sel[0][t];rev[1]=rev[0];one(*a,*a,true);}
    for(int h=0;h<hist;++h){
      rev[1]=h;
      for(long y=0;y<N;++y){
        decode(1,y);
        W& b=*R[h*N+y];
        one(*a,b,false);
        if(h==0)one(b,*a,false);
        ++stat("histories");
        if(has_flag(argc,argv,"--faults")&&h==0&&y%7==x%7)faults(*a,b);
      }
    }
    a->check_contents();
  }
  for(auto& w:R)w->check_contents();
  sample(render());
  R.clear();
  return finish();
}
