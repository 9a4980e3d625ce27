// Explicit-state exploration of one collection: breadth first over canonical
// shapes (segment traversal order + size and capacity of every segment),
// every operation of the alphabet executed from every shape on the real
// object, compared step by step with the reference model.
#ifndef VF_EXPLORE_HPP
#define VF_EXPLORE_HPP
#include "world.hpp"
#include <chrono>
#include <deque>

namespace vf{

template<class W>
struct Explorer{
  using Menu=typename W::Menu;
  std::vector<std::vector<Op>> paths;         // one path per state
  std::unordered_map<std::string,int> seen;
  int oracles=0;
  Menu menu;
  int max_states=1<<30;
  int slack=2;
  bool lastop=false;   // distinguish states by the operation that led to them, too
  int shard=0,nshards=1;

  std::vector<Op> cur;
  std::string extra;
  void install_trace(){
    ctx().trace=[this]{
      ctx().replay_key=ops_key(cur)+extra;
      std::string s;
      for(auto& o:cur){if(!s.empty())s+="; ";s+=opstr(o);}
      return s+(extra.empty()?"":" | "+extra);
    };
  }

  // canonical state
  std::string key(W& w){
    w.slack_cap=slack;
    std::string k=w.shape();
    if(lastop&&!cur.empty())k+=std::string("<")+opname(cur.back().k);
    return k;
  }

  void replay(W& w,const std::vector<Op>& p){
    w.oracles=0;
    cur.clear();
    for(auto& o:p){cur.push_back(o);w.apply(o);}
    ++stat("histories");
  }

  // Cheap discovery of the reachable shapes, with one representative overload
  // per kind of effect.
  void discover(){
    std::deque<int> q;
    {W w;seen.emplace(key(w),0);paths.push_back({});q.push_back(0);}
    Menu mn=menu;
    while(!q.empty()){
      int s=q.front();q.pop_front();
      std::vector<Op> ops;
      {W w;replay(w,paths[s]);
       w.gen(mn,[&](const Op& o){
         switch(o.k){
         case EMPLACE:case R_PTR:case ER_L:case ERR_L:case CLEAR_T:case RESERVE_T:case SHRINK_T:case REG_T:case R_IN:case SHRINK:case RESERVE:case REG_ALL:
           if(!lastop&&o.k==ER_L&&o.a)break;
           if(!lastop&&o.k==ERR_L&&o.a)break;
           ops.push_back(o);
           break;
         default:if(lastop)ops.push_back(o);
         }
       });
      }
      for(auto& o:ops){
        beat();
        W w;replay(w,paths[s]);
        cur.push_back(o);
        w.apply(o);
        auto k=key(w);
        if((int)paths.size()<max_states&&seen.emplace(k,(int)paths.size()).second){
          auto p=paths[s];p.push_back(o);
          q.push_back((int)paths.size());
          paths.push_back(p);
        }
      }
    }
  }

  // Full alphabet from every state of this shard.
  void sweep(){
    long long trans=0,maxd=0;
    const int found0=(int)paths.size();
    for(int s=0;s<(int)paths.size();++s){
      maxd=std::max<long long>(maxd,(long long)paths[s].size());
      if(s<found0?s%nshards!=shard:false)continue; // states found during the sweep are expanded by their finder
      std::vector<Op> ops;
      {
        W w;replay(w,paths[s]);
        w.oracles=oracles;
        extra="state";
        w.check_state();
        extra.clear();
        w.gen(menu,[&](const Op& o){ops.push_back(o);});
      }
      for(auto& o:ops){
        beat();
        one(paths[s],o);
        ++trans;
      }
      ++stat("states_expanded");
    }
    stat("transitions")+=trans;
    stat("max_depth")=maxd+1;
  }

  void one(const std::vector<Op>& path,const Op& o){
    long live0=life().live;std::size_t bl0=heap().blocks.size();
    long alc0=life().al_constructed-life().al_destroyed;
    {
      W w;replay(w,path);
      cur.push_back(o);
      w.oracles=oracles;
      int out=w.apply(o);
      w.check_state();
      auto k=key(w);
      ctx().sets["op_kinds"].insert(opname(o.k));
      ctx().sets["outcomes"].insert(std::string(opname(o.k))+"/"+outname(out));
      if(!seen.count(k)){
        ++stat("frontier_new");
        if(max_states==1<<30&&seen.emplace(k,(int)paths.size()).second&&path.size()<12){
          auto p=path;p.push_back(o);paths.push_back(p);
        }
      }
      if(stat("sampled")<3&&w.m.total()>=3){
        ++stat("sampled");
        std::string t;for(auto& x:cur)t+=opstr(x)+"; ";
        sample(t+"=> "+w.show()+" "+outname(out));
      }
    }
    VF_CHECK(life().live==live0,"%ld elements are still alive after the collection was destroyed",life().live-live0);
    VF_CHECK(heap().blocks.size()==bl0,"%zu memory blocks leaked after the collection was destroyed",heap().blocks.size()-bl0);
    VF_CHECK(life().al_constructed-life().al_destroyed==alc0,"%ld more elements were constructed through the allocator than destroyed through it",life().al_constructed-life().al_destroyed-alc0);
  }

  // every operation sequence up to the given depth, without merging states
  void sequences(int depth,bool first=true){
    if(first)cur.clear();
    std::vector<Op> base=cur;
    std::vector<Op> ops;
    {W w;replay(w,base);w.gen(menu,[&](const Op& o){ops.push_back(o);});}
    int i=0;
    for(auto& o:ops){
      if(first&&(i++%nshards)!=shard)continue;
      beat();
      one(base,o);
      ++stat("sequences");
      if(depth>1){cur=base;cur.push_back(o);sequences(depth-1,false);}
    }
    cur=base;
  }

  // one long segment: every size from lo to hi, reached by appending (with the
  // natural growth of the storage) and with free capacity; first, second,
  // middle, last and end positions
  std::vector<Op> spine_path(int t,int n,int res){
    std::vector<Op> p;Op e;e.t=t;
    if(res){e.k=RESERVE_T;e.a=n+res;p.push_back(e);e.a=0;}
    // a neighbour to notice operations on the wrong segment
    {Op o;o.k=EMPLACE;o.t=(t+1)%W::NT;p.push_back(o);}
    e.k=EMPLACE;for(int i=0;i<n;++i)p.push_back(e);
    return p;
  }
  void spine(int lo,int hi,int step,bool fault_mode){
    menu.maxseg=menu.maxtotal=1<<20;
    for(int n=lo;n<=hi;n+=step)for(int t=0;t<W::NT;++t)if(menu.types>>t&1)for(int res:{0,1,3}){
      if(shard!=((n-lo)/step*3+t)%nshards)continue;
      auto path=spine_path(t,n,res);
      std::vector<Op> ops;
      menu.counts={1,2,3,n};
      if(n>20)menu.counts={1,3};
      unsigned keepmask=menu.types;menu.types=1u<<t;
      {
        W w;replay(w,path);
        int g0=w.gindex(t,0);
        auto okp=[&](int x){return x==0||x==1||x==n/2||x==n-1||x==n;};
        w.gen(menu,[&](const Op& o){
          if(o.k>=EMPLACE&&o.k<=INS_CR){ops.push_back(o);return;}
          bool glob=(o.k>=HEMPLACE&&o.k<=HINS_CR)||(o.k>=HR_PTR&&o.k<=HR_SCLB)||o.k==ER_G||o.k==ERR_G;
          bool cap=o.k>=RESERVE&&o.k<=SHRINK_T,none=cap||(o.k>=CLEAR&&o.k<=CLEAR_T)||o.k>=REG_T||(o.k>=R_PTR&&o.k<=R_SCLB);
          if(none){ops.push_back(o);return;}
          if(o.k==X_G||o.k==X_CG||o.k==X_ER||o.k==X_MV||o.k==HX_G||o.k==HX_CG||o.k==HX_ER||o.k==HX_MV){ // all of the source or a single element
            bool mv=o.k==X_MV||o.k==HX_MV,hinted=o.k==HX_G||o.k==HX_CG||o.k==HX_ER||o.k==HX_MV;
            int S=mv?2*W::NT:W::mixed_size();
            if((o.b-o.a==1||(o.a==0&&o.b==S))&&(!hinted||okp(o.c-g0)))ops.push_back(o);
            return;
          }
          int a=glob?o.a-g0:o.a;
          if(!okp(a))return;
          if(o.k>=ERR_G&&o.k<=ERR_CL&&!okp(glob?o.b-g0:o.b))return;
          ops.push_back(o);
        });
      }
      menu.types=keepmask;
      for(auto& o:ops){
        beat();
        if(!fault_mode){one(path,o);++stat("transitions");}
        else for(long k=1;;++k){if(!one_fault(path,o,k))break;++stat("transitions");}
      }
      ++stat("states_expanded");
      if(paths.size()<path.size())paths.push_back(path);
    }
    stat("max_depth")=hi+3;
  }

  /* ---- fault enumeration ---- */

  bool strong=false;   // check the strong guarantee of end appends
  int fmask=F_ALL;

  void faults(){
    for(int s=0;s<(int)paths.size();++s){
      if(s%nshards!=shard)continue;
      std::vector<Op> ops;
      {W w;replay(w,paths[s]);w.gen(menu,[&](const Op& o){ops.push_back(o);});}
      for(auto& o:ops){
        ctx().sets["op_kinds"].insert(opname(o.k));
        for(long n=1;;++n){
          beat();
          if(!one_fault(paths[s],o,n))break;
          VF_CHECK(n<2000,"fault enumeration does not end");
        }
        ++stat("operations");
      }
      ++stat("states_expanded");
    }
  }

  /* ---- any operation, with or without a fault of its own, after a failed one ---- */

  void faults2(){
    for(int s=0;s<(int)paths.size();++s){
      if(s%nshards!=shard)continue;
      std::vector<Op> ops;
      {W w;replay(w,paths[s]);w.gen(menu,[&](const Op& o){ops.push_back(o);});}
      for(auto& o:ops)for(long n=1;;++n){
        std::vector<Op> next;
        if(!one_fault2(paths[s],o,n,nullptr,0,&next))break;
        for(auto& o2:next)for(long k=0;;++k){
          beat();
          if(!one_fault2(paths[s],o,n,&o2,k,nullptr)&&k)break;
          ++stat("transitions");
        }
        ++stat("operations");
      }
      ++stat("states_expanded");
    }
  }

  // path, o failing at its n-th fault point, then o2 (failing at its k-th unless k is 0); whether the last fault was reached
  bool one_fault2(const std::vector<Op>& path,const Op& o,long n,const Op* o2,long k,std::vector<Op>* next){
    long live0=life().live;std::size_t bl0=heap().blocks.size();
    bool fired=false;
    {
      W w;replay(w,path);
      cur.push_back(o);
      char b[64];snprintf(b,sizeof b,"fault %ld",n);extra=b;
      w.oracles=0;
      fault().arm(n,fmask);
      w.apply(o);
      fired=fault().fired;
      fault().disarm();
      if(fired){
        w.resync();
        if(next)w.gen(menu,[&](const Op& x){next->push_back(x);});
        if(o2){
          cur.push_back(*o2);
          snprintf(b,sizeof b,"fault %ld,%ld",n,k);extra=b;
          auto before=w.m;
          w.oracles=k?0:O_RET|O_VIEWS|O_LIFE|O_CAP;
          if(k)fault().arm(k,fmask);
          int out=w.apply(*o2);
          fired=fault().fired;
          fault().disarm();
          if(k&&fired){
            bool shrink=o2->k==SHRINK||o2->k==SHRINK_I||o2->k==SHRINK_T;
            if(!(out==OK_&&shrink)){
              VF_CHECK(out==INJECTED,"an exception thrown by user code during the operation was not passed on (%s)",outname(out));
              ++stat("faults");
              after_fault(w,before,*o2);
            }
          }
          else{w.oracles=O_VIEWS|O_LIFE|O_CAP;w.check_state();}
        }
      }
      extra.clear();
    }
    VF_CHECK(life().live==live0,"%ld elements leaked or doubly destroyed",life().live-live0);
    VF_CHECK(heap().blocks.size()==bl0,"memory blocks leaked");
    return fired;
  }

  // returns whether the n-th fault point was reached
  bool one_fault(const std::vector<Op>& path,const Op& o,long n){
    long live0=life().live;std::size_t bl0=heap().blocks.size();
    bool fired=false;
    {
      W w;replay(w,path);
      cur.push_back(o);
      char b[64];snprintf(b,sizeof b,"fault %ld",n);extra=b;
      auto before=w.m;
      w.oracles=0;
      fault().arm(n,fmask);
      int out=w.apply(o);
      fired=fault().fired;
      int kind=fault().fired_kind;
      fault().disarm();
      if(fired){
        bool shrink=o.k==SHRINK||o.k==SHRINK_I||o.k==SHRINK_T; // a non-binding request
        if(out==OK_&&shrink){w.oracles=O_VIEWS|O_LIFE|O_CAP;w.check_state();extra.clear();++stat("faults");return true;}
        VF_CHECK(out==INJECTED,"an exception thrown by user code during the operation was not passed on (%s)",outname(out));
        ++stat("faults");
        ctx().sets["fault_sites"].insert(std::string(opname(o.k))+"#"+std::to_string(kind)+"#"+std::to_string(n));
        after_fault(w,before,o);
      }
      else{
        w.oracles=O_VIEWS;
        w.check_state();
      }
      extra.clear();
    }
    VF_CHECK(life().live==live0,"%ld elements leaked or doubly destroyed",life().live-live0);
    VF_CHECK(heap().blocks.size()==bl0,"memory blocks leaked");
    return fired;
  }

  void after_fault(W& w,const typename W::Mdl& before,const Op& o){
    unsigned aff=w.last_affected;
    // global size first: whatever was left behind must be observable
    w.resync();
    w.oracles=O_VIEWS|O_LIFE|O_CAP;
    w.check_state();
    std::set<int> old;
    for(int t=0;t<W::NT;++t)for(int x:before.s[t])old.insert(x);
    for(int t=0;t<W::NT;++t){
      VF_CHECK(!before.reg[t]||w.m.reg[t],"a registered type was lost");
      if(!(aff>>t&1))VF_CHECK(w.m.s[t]==before.s[t],"a failed operation changed segment t%d, which it was not directed at",t);
    }
    if(strong&&w.last_append){
      int t=o.t;
      bool realloc_may_lose=!W::VT::copyable(t)&&!W::VT::nothrow_move(t);
      if(!realloc_may_lose)
        VF_CHECK(w.m.s[t]==before.s[t],"a failed append of one element changed the contents of t%d (%zu elements before, %zu after)",t,before.s[t].size(),w.m.s[t].size());
      else
        VF_CHECK(w.m.s[t].size()==before.s[t].size(),"a failed append of one element changed the number of elements of t%d",t);
      ++stat("strong_checked");
    }
    // the collection must be fully usable afterwards
    for(int t=0;t<W::NT;++t){
      Op e;e.k=EMPLACE;e.t=t;
      follow(w,e);
      if(w.m.s[t].size()>1){Op d;d.k=ER_LB;d.t=t;d.a=0;follow(w,d);}
      Op p;p.k=PEMPL_LB;p.t=t;p.a=0;follow(w,p);
    }
    {Op s;s.k=SHRINK;s.t=0;follow(w,s);}
    {Op s;s.k=CLEAR_T;s.t=o.t;follow(w,s);}
  }
  void follow(W& w,const Op& o){
    w.oracles=O_RET;
    int out=w.apply(o);
    VF_CHECK(out==OK_,"follow-up operation %s after a failed operation gave %s",opstr(o).c_str(),outname(out));
    w.check_state();
  }
};

}
#endif
