// Two collections and every operation that relates whole collections: copy,
// move and range construction (plain and allocator extended), copy and move
// assignment, swap, plus mutations in between.  Exhaustive over the contents
// of both sides, the allocator traits and operation sequences up to a depth.
#include "world.hpp"
#include <memory>
#ifndef VF_MODEL
#define VF_MODEL 0
#endif
#ifndef VF_TYPES
#define VF_TYPES E0,E1,E2
#endif
using namespace vf;
#define VF_STR_(...) #__VA_ARGS__
#define VF_STR(...) VF_STR_(__VA_ARGS__)

enum PK{CC,CA1,CA2,MC,MA1,MA2,CAS,MAS,SW,SWF,SELFC,RNG,RNGC,RNGD,SELFM,SELFS,POKE,CLR,SHR,PK_N};
static const char* pkname[]={"copy-construct","copy-construct(alloc 1)","copy-construct(alloc 2)","move-construct","move-construct(alloc 1)","move-construct(alloc 2)",
  "copy-assign","move-assign","swap","swap(x,y)","self-copy-assign","range-construct(alloc 2)","range-construct(const, alloc 2)","range-construct(default alloc)","self-move-assign","self-swap","mutate","clear","shrink_to_fit"};
struct PO{int k,d;};   // operation, destination slot (source is the other one)

template<int M,class L,int AF>
struct Pair{
  using W=World<M,L,AF>;
  using C=typename W::C;
  using A=typename W::A;
  using VT=typename W::VT;
  static constexpr int NT=L::size;
  std::unique_ptr<W> w[2];
  bool alloc_oracle=false,deep=true;
  int fresh=1;

  /* building */
  void build(W& x,const std::vector<int>& d){
    for(int r=0;r<NT;++r){
      int t=(d[NT]&1)?NT-1-r:r;
      if(d[t]<0)continue;
      VT::at(t,[&](auto tg){
        using T=typename decltype(tg)::type;
        x.c.template register_types<T>();
        x.m.reg[t]=true;
        if(d[NT]&2)x.c.template reserve<T>(d[t]+3);
        for(int i=0;i<d[t];++i){int v=fresh++;x.c.template emplace<T>(v);x.m.s[t].push_back(mkcode(T::kind,v));}
      });
    }
    x.m.order=x.read_order();
  }
  std::vector<const void*> addrs(W& x,int t){
    std::vector<const void*> r;
    if(x.m.reg[t])for(auto it=x.c.begin(VT::info(t));it!=x.c.end(VT::info(t));++it)r.push_back(W::Model::addr(*it));
    return r;
  }

  // iterators to elements, taken before an operation that hands over storage
  struct Its{std::vector<typename W::lb> l[NT];std::vector<typename W::git> g;std::vector<std::function<bool(C&,int)>> typed[NT];};
  Its its(W& x){
    Its r;
    for(int t=0;t<NT;++t)if(x.m.reg[t]){
      for(auto it=x.c.begin(VT::info(t));it!=x.c.end(VT::info(t));++it)r.l[t].push_back(it);
      VT::at(t,[&](auto tg){
        using T=typename decltype(tg)::type;
        for(auto it=x.c.template begin<T>();it!=x.c.template end<T>();++it)
          r.typed[t].push_back([it](C& c,int i){return it==c.template begin<T>()+i&&typename W::template cli<T>(it)==c.template cbegin<T>()+i;});
      });
    }
    for(auto it=x.c.begin();it!=x.c.end();++it)r.g.push_back(it);
    return r;
  }
  void its_valid(const Its& b,W& x,const char* what){
    if(!iter_oracle)return;
    for(int t=0;t<NT;++t)for(std::size_t i=0;i<b.l[t].size();++i){
      VF_CHECK(b.l[t][i]==x.c.begin(VT::info(t))+i&&W::Model::code(*b.l[t][i])==x.m.s[t][i],"%s: local base iterator to element %zu of t%d did not stay valid",what,i,t);
      VF_CHECK(b.typed[t][i](x.c,(int)i),"%s: local iterator to element %zu of t%d did not stay valid",what,i,t);
    }
    auto it=x.c.begin();
    for(std::size_t i=0;i<b.g.size();++i,++it){
      VF_CHECK(it!=x.c.end()&&b.g[i]==it&&&*b.g[i]==&*it,"%s: global iterator to element %zu did not stay valid",what,i);
      std::size_t n=0;
      for(auto w=b.g[i];w!=x.c.end();++w){++n;VF_CHECK(n<=b.g.size(),"%s: traversal from an iterator that must stay valid runs past the end",what);}
      VF_CHECK(n==b.g.size()-i,"%s: traversal from an iterator that must stay valid misses elements",what);
    }
  }
  bool iter_oracle=false;

  /* oracles */
  void check_one(W& x,bool views){
    x.check_contents();
    if(views)x.check_views();
  }
  void check_all(bool views){
    long tot=0;
    for(auto& p:w){check_one(*p,views&&deep);tot+=(long)p->m.total();}
    VF_CHECK(life().live==tot,"%ld elements are alive, the two collections show %ld",life().live,tot);
    if(alloc_oracle)for(auto& p:w)p->check_life(life().live-(long)p->m.total());
  }
  void adopt(W& x,const typename W::Mdl& m){ // x must now hold exactly m
    bool same=true;
    for(int t=0;t<NT;++t){
      VF_CHECK(x.c.is_registered(VT::info(t))==m.reg[t],"type t%d is %sregistered in the result",t,m.reg[t]?"not ":"");
      x.m.reg[t]=m.reg[t];x.m.s[t]=m.s[t];
    }
    x.m.order=x.read_order();
    (void)same;
  }
  void alloc_is(W& x,int id,const char* what){
    if(alloc_oracle)VF_CHECK(x.c.get_allocator().id==id,"%s: allocator is #%d, expected #%d",what,x.c.get_allocator().id,id);
  }
  bool copyable(const typename W::Mdl& m){
    for(int t=0;t<NT;++t)if(!VT::copyable(t)&&!m.s[t].empty())return false;
    return true;
  }
  void poke(W& x){
    for(int t=0;t<NT;++t)VT::at(t,[&](auto tg){
      using T=typename decltype(tg)::type;
      bool was=x.m.reg[t];
      int v=fresh++;
      auto it=x.c.template emplace<T>(v);
      VF_CHECK(W::Model::code(*it)==mkcode(T::kind,v),"emplace after a whole-collection operation returned a wrong iterator");
      x.m.reg[t]=true;x.m.s[t].push_back(mkcode(T::kind,v));
      if(!was)x.m.order=x.read_order();
      if(x.m.s[t].size()>1){
        x.c.erase(x.c.begin(typeid(T)));
        x.m.s[t].erase(x.m.s[t].begin());
      }
      v=fresh++;
      x.c.template emplace_pos<T>(x.c.template begin<T>(),v);
      x.m.s[t].insert(x.m.s[t].begin(),mkcode(T::kind,v));
    });
  }

  bool applicable(const PO& o){
    if(o.k==SW||o.k==SWF)return (AF&A_POCS)||(AF&A_ALWAYSEQ)||w[0]->c.get_allocator().id==w[1]->c.get_allocator().id;
    return true;
  }

  static std::string& threw(){static std::string s;return s;}

  // runs the operation; the models are updated.  Returns the outcome.
  int apply(const PO& o){
    W& D=*w[o.d];W& S=*w[1-o.d];
    const C& cs=S.c;
    int did=D.c.get_allocator().id,sid=S.c.get_allocator().id;
    auto dm=D.m,sm=S.m;
    std::vector<const void*> sa[NT],da[NT];
    for(int t=0;t<NT;++t){sa[t]=addrs(S,t);da[t]=addrs(D,t);}
    Its si,di;
    if(iter_oracle){si=its(S);di=its(D);}
    std::unique_ptr<W> nw;
    bool ctor=o.k==CC||o.k==CA1||o.k==CA2||o.k==MC||o.k==MA1||o.k==MA2||o.k==RNG||o.k==RNGC||o.k==RNGD;
    bool copies=o.k==CC||o.k==CA1||o.k==CA2||o.k==CAS||o.k==RNG||o.k==RNGC||o.k==RNGD;
    bool moves=o.k==MC||o.k==MA1||o.k==MA2||o.k==MAS;
    using I=typename W::inplace;
    if(ctor){bool a=fault().armed;fault().armed=false;w[o.d].reset();fault().armed=a;}
    long c0=life().copies,mv0=life().moves;
    const std::type_info* pi=nullptr;
    int out=W::catching([&]{
      switch(o.k){
      case CC: nw.reset(new W(I{},cs));break;
      case CA1:nw.reset(new W(I{},cs,A(1)));break;
      case CA2:nw.reset(new W(I{},cs,A(2)));break;
      case MC: nw.reset(new W(I{},std::move(S.c)));break;
      case MA1:nw.reset(new W(I{},std::move(S.c),A(1)));break;
      case MA2:nw.reset(new W(I{},std::move(S.c),A(2)));break;
      case RNG:nw.reset(new W(I{},S.c.begin(),S.c.end(),A(2)));break;
      case RNGC:nw.reset(new W(I{},cs.begin(),cs.end(),A(2)));break;
      case RNGD:nw.reset(new W(I{},S.c.begin(),S.c.end()));break;
      case CAS:D.c=cs;break;
      case MAS:D.c=std::move(S.c);break;
      case SELFC:{const C& me=D.c;D.c=me;break;}
      case SELFM:{C& me=D.c;D.c=std::move(me);break;}
      case SELFS:{C& me=D.c;D.c.swap(me);break;}
      case SW:D.c.swap(S.c);break;
      case SWF:{using std::swap;swap(D.c,S.c);break;}
      case POKE:poke(D);break;
      case CLR:D.c.clear();for(auto& v:D.m.s)v.clear();break;
      case SHR:D.c.shrink_to_fit();break;
      }
    },pi);
    if(out==INJECTED){
      fault().disarm();
      if(ctor)w[o.d].reset(new W(2));
      else w[o.d]->resync();
      if(copies||!ctor)if(!moves&&o.k!=SW&&o.k!=SWF)S.check_contents();  // a const source is not changed
      w[1-o.d]->resync();
      return out;
    }
    fault().disarm();
    bool expect_nc=copies&&!copyable(sm);
    if(expect_nc){
      VF_CHECK(out==NOTCOPY,"copying a collection with elements of a non-copyable type gave %s",outname(out));
      int t=pi?VT::index_of(*pi):-1;
      VF_CHECK(t>=0&&!VT::copyable(t)&&!sm.s[t].empty(),"not_copy_constructible carries a wrong type");
      if(ctor)w[o.d].reset(new W(2));
      else w[o.d]->resync();
      return out;
    }
    VF_CHECK(out==OK_,"%s gave %s",pkname[o.k],outname(out));
    if(ctor)w[o.d]=std::move(nw);
    W& R=*w[o.d];
    bool eq=(AF&A_ALWAYSEQ)||did==sid;
    bool steals=false;
    switch(o.k){
    case CC:alloc_is(R,(AF&A_SOCCC)?sid+100:sid,pkname[o.k]);break;
    case CA1:case MA1:alloc_is(R,1,pkname[o.k]);steals=(AF&A_ALWAYSEQ)||sid==1;break;
    case CA2:case MA2:alloc_is(R,2,pkname[o.k]);steals=(AF&A_ALWAYSEQ)||sid==2;break;
    case RNG:case RNGC:alloc_is(R,2,pkname[o.k]);break;
    case RNGD:alloc_is(R,0,pkname[o.k]);break;
    case MC:alloc_is(R,sid,pkname[o.k]);steals=true;break;
    case CAS:alloc_is(R,(AF&A_POCCA)?sid:did,pkname[o.k]);break;
    case MAS:alloc_is(R,(AF&A_POCMA)?sid:did,pkname[o.k]);steals=eq||(AF&A_POCMA);break;
    case SW:case SWF:alloc_is(R,(AF&A_POCS)?sid:did,pkname[o.k]);alloc_is(S,(AF&A_POCS)?did:sid,pkname[o.k]);break;
    case SELFC:case SELFM:case SELFS:case POKE:case CLR:case SHR:alloc_is(R,did,pkname[o.k]);break;
    }
    if(!copies&&o.k!=SELFC&&o.k!=POKE&&o.k!=SHR)VF_CHECK(life().copies==c0,"%s copied elements instead of moving them",pkname[o.k]);
    if(o.k==SW||o.k==SWF){
      VF_CHECK(life().moves==mv0,"swap moved elements");
      adopt(R,sm);adopt(S,dm);
      for(int t=0;t<NT;++t)VF_CHECK(addrs(R,t)==sa[t]&&addrs(S,t)==da[t],"swap relocated elements");
      its_valid(si,R,"swap");its_valid(di,S,"swap");
    }
    else if(o.k==SELFS||o.k==SELFM){
      for(int t=0;t<NT;++t)VF_CHECK(addrs(R,t)==da[t],"%s relocated elements",pkname[o.k]);
      its_valid(di,R,pkname[o.k]);
    }
    else if(o.k==RNG||o.k==RNGC||o.k==RNGD){
      auto e=sm;for(int t=0;t<NT;++t)e.reg[t]=!e.s[t].empty();
      adopt(R,e);
    }
    else if(copies)adopt(R,sm);
    else if(moves){
      adopt(R,sm);
      if(steals){
        VF_CHECK(life().moves==mv0,"%s between equal allocators moved elements one by one",pkname[o.k]);
        for(int t=0;t<NT;++t)VF_CHECK(addrs(R,t)==sa[t],"%s relocated elements",pkname[o.k]);
        its_valid(si,R,pkname[o.k]);
      }
      S.resync();                      // valid but unspecified
      VF_CHECK(S.c.size()==0,"elements are left in a moved-from collection");
    }
    if(copies)for(int t=0;t<NT;++t){
      auto ra=addrs(R,t);
      for(auto p:ra)VF_CHECK(std::find(sa[t].begin(),sa[t].end(),p)==sa[t].end(),"a copy shares an element with its source");
    }
    return out;
  }

  std::string desc;
  std::vector<PO> cur;
  long faultn=0;int order=0;
  void blocks_of(int id,const char* what){
    if(!alloc_oracle||(AF&A_ALWAYSEQ))return;
    for(auto& b:heap().blocks)VF_CHECK(b.second.id==id,"%s: %zu bytes come from allocator #%d, the only collection left uses #%d",what,b.second.bytes,b.second.id,id);
  }

  // one complete history; returns whether a fault fired
  bool run(const std::vector<int>& d0,const std::vector<int>& d1,int id0,int id1,const std::vector<PO>& ops,int ord,long fn,int fmask){
    beat();
    long live0=life().live;std::size_t bl0=heap().blocks.size();
    long alc0=life().al_constructed-life().al_destroyed;
    bool fired=false,ran=true;
    cur=ops;faultn=fn;order=ord;
    fresh=1;
    char b[160];
    desc.clear();
    for(int x:d0){snprintf(b,sizeof b,"%d,",x);desc+=b;}
    desc+="|";
    for(int x:d1){snprintf(b,sizeof b,"%d,",x);desc+=b;}
    snprintf(b,sizeof b,"|%d,%d|%d|%ld|%d|",id0,id1,ord,fn,AF);desc+=b;
    for(auto& o:ops){snprintf(b,sizeof b,"%d.%d;",o.k,o.d);desc+=b;}
    {
      w[0].reset(new W(id0));w[1].reset(new W(id1));
      build(*w[0],d0);build(*w[1],d1);
      for(std::size_t i=0;i<ops.size();++i){
        if(!applicable(ops[i])){ran=false;break;}
        bool last=i+1==ops.size();
        if(fn&&last)fault().arm(fn,fmask);
        int out=apply(ops[i]);
        if(last){
          fired=out==INJECTED;
          ctx().sets["outcomes"].insert(std::string(pkname[ops[i].k])+"/"+outname(out));
          if(fn&&!fired)ran=false;
        }
        ++stat("transitions");
        check_all(last);
      }
      if(ran){
        ++stat("histories");
        if(fired){
          ++stat("faults");
          ctx().sets["fault_sites"].insert(std::string(pkname[ops.back().k])+"#"+std::to_string(fault().fired_kind)+"#"+std::to_string(fn));
        }
        // independence: what happens to one does not show in the other
        int a=ord,z=1-ord;
        poke(*w[a]);check_all(false);
        poke(*w[z]);check_all(deep);
        w[a].reset();
        check_one(*w[z],deep);
        blocks_of(w[z]->c.get_allocator().id,"after the other collection was destroyed");
        poke(*w[z]);check_one(*w[z],false);
      }
      w[0].reset();w[1].reset();
    }
    VF_CHECK(life().live==live0,"%ld elements leaked",life().live-live0);
    VF_CHECK(heap().blocks.size()==bl0,"%zu memory blocks leaked",heap().blocks.size()-bl0);
    VF_CHECK(life().al_constructed-life().al_destroyed==alc0,"construction and destruction through allocators are not balanced");
    return fired;
  }
  void install(){
    ctx().trace=[this]{
      ctx().replay_key=desc;
      std::string s="elements per type of slot 0 | slot 1 | allocator ids | destruction order | fault | allocator traits: "+desc+" : ";
      for(auto& o:cur)s+=std::string(pkname[o.k])+" slot "+std::to_string(o.d)+(o.k<SELFC||(o.k>=RNG&&o.k<=RNGD)?" from slot "+std::to_string(1-o.d):"")+"; ";
      return s;
    };
  }

  void all_desc(int maxn,bool rev,std::vector<std::vector<int>>& out){
    std::vector<int> d(NT+1,-1);
    d[NT]=0;
    for(;;){
      out.push_back(d);
      if(rev){auto e=d;e[NT]=1;out.push_back(e);}
      int i=0;
      for(;i<NT;++i){if(++d[i]<=maxn)break;d[i]=-1;}
      if(i==NT)break;
    }
  }

  void explore(int argc,char** argv){
    int maxn=get_int(argc,argv,"--maxn",1),maxn1=get_int(argc,argv,"--maxn1",maxn),depth=get_int(argc,argv,"--depth",1);
    int shard=get_int(argc,argv,"--shard",0),nshards=get_int(argc,argv,"--nshards",1);
    bool faults=has_flag(argc,argv,"--faults"),rev=has_flag(argc,argv,"--rev");
    int fmask=get_int(argc,argv,"--fmask",F_ALL);
    bool mutate=has_flag(argc,argv,"--mutate");
    std::vector<std::vector<int>> ds,ds1;
    if(has_flag(argc,argv,"--spare")){   // segments with free places on either side
      std::vector<std::vector<int>> a,b;
      all_desc(maxn,false,a);all_desc(maxn1,false,b);
      for(auto& d:a)d[NT]|=2;
      for(auto& d:b)d[NT]|=2;
      ds=a;ds1=b;
    }
    else if(has_flag(argc,argv,"--big")){   // long segments of one type next to short ones
      bool all=has_flag(argc,argv,"--all");
      for(int t=0;t<NT;++t)for(int n:{3,4,5,8,9,17})for(int o=-1;o<2;++o)for(int r=0;r<4;r+=2){
        if(!all&&(o==0||n==4||n==5||n==9))continue;
        std::vector<int> d(NT+1,o);d[t]=n;d[NT]=r;ds.push_back(d);
        if((all&&(n==3||n==8))||(n==8&&o==1&&r==2)||(n==3&&o<0&&r==0))ds1.push_back(d);
      }
      for(int o=-1;o<2;++o){std::vector<int> d(NT+1,o);d[NT]=0;ds1.push_back(d);}
    }
    else{all_desc(maxn,rev,ds);all_desc(maxn1,rev,ds1);}
    std::vector<PO> menu;
    for(int k=0;k<PK_N;++k){
      if((k==POKE||k==CLR||k==SHR)&&!mutate)continue;
      menu.push_back({k,0});menu.push_back({k,1});
    }
    long idx=0;
    for(auto& d0:ds)for(auto& d1:ds1){
      if(idx++%nshards!=shard)continue;
      ++stat("states_expanded");
      for(int id1=1;id1<=2;++id1){
        std::vector<PO> seq;
        rec(d0,d1,id1,menu,seq,depth,faults,fmask);
      }
    }
  }
  void rec(const std::vector<int>& d0,const std::vector<int>& d1,int id1,const std::vector<PO>& menu,std::vector<PO>& seq,int depth,bool faults,int fmask){
    for(auto& o:menu){
      if(seq.empty()&&o.d==1)continue;   // symmetric
      seq.push_back(o);
      if(!faults){
        run(d0,d1,1,id1,seq,0,0,0);
        run(d0,d1,1,id1,seq,1,0,0);
      }
      else for(long n=1;;++n){
        VF_CHECK(n<3000,"fault enumeration does not end");
        if(!run(d0,d1,1,id1,seq,n&1,n,fmask))break;
      }
      if(depth>1)rec(d0,d1,id1,menu,seq,depth-1,faults,fmask);
      seq.pop_back();
    }
  }
  void replay(const std::string& k){
    std::vector<int> d[2];int part=0;
    std::vector<std::string> f;std::string e;std::stringstream ss(k);
    while(std::getline(ss,e,'|'))f.push_back(e);
    for(part=0;part<2;++part){std::stringstream s2(f[part]);while(std::getline(s2,e,','))d[part].push_back(atoi(e.c_str()));}
    int i0,i1;sscanf(f[2].c_str(),"%d,%d",&i0,&i1);
    std::vector<PO> ops;
    if(f.size()>6){std::stringstream s3(f[6]);while(std::getline(s3,e,';')){PO o;if(sscanf(e.c_str(),"%d.%d",&o.k,&o.d)==2)ops.push_back(o);}}
    run(d[0],d[1],i0,i1,ops,atoi(f[3].c_str()),atol(f[4].c_str()),F_ALL);
  }
};

template<int AF> void go(int argc,char** argv){
  using P=Pair<VF_MODEL,TL<VF_TYPES>,AF>;
  static P* p=new P;
  p->alloc_oracle=has_flag(argc,argv,"--alloc");
  p->iter_oracle=has_flag(argc,argv,"--iters");
  p->deep=!has_flag(argc,argv,"--shallow");
  p->install();
  if(const char* r=get_opt(argc,argv,"--replay",nullptr)){
    std::string k=r;std::vector<std::string> f;std::string e;std::stringstream ss(k);
    while(std::getline(ss,e,'|'))f.push_back(e);
    if(f.size()>5&&atoi(f[5].c_str())==AF)p->replay(k);
  }
  else p->explore(argc,argv);
  sample(p->desc,6);
}

int main(int argc,char** argv){
  std::string cfg=std::string(Mod<VF_MODEL>::name)+" {" VF_STR(VF_TYPES) "}";
  for(int i=1;i<argc;++i){cfg+=" ";cfg+=argv[i];}
  init(cfg);
  int only=get_int(argc,argv,"--af",-1);
#define X(af) if(only<0||only==(af))go<(af)>(argc,argv);
#ifdef VF_AFS
  VF_AFS
#else
  X(0)
#endif
  return finish();
}
