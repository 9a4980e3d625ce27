From b03b4b679a7abd19580800384237457611969809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:17 +0000
Subject: [PATCH 01/15] fix: keep the global traversal of a segment valid when
 a modifying operation throws

The sentinel kept by segment was only updated on normal return of an
operation; if the operation threw after the segment's memory had been
relocated or the number of elements had changed, global iteration
run past the end of the segment.
---
 .../boost/poly_collection/detail/segment.hpp  | 63 +++++++++++++++++--
 1 file changed, 59 insertions(+), 4 deletions(-)

diff --git a/include/boost/poly_collection/detail/segment.hpp b/include/boost/poly_collection/detail/segment.hpp
index a080839..3248272 100644
--- a/include/boost/poly_collection/detail/segment.hpp
+++ b/include/boost/poly_collection/detail/segment.hpp
@@ -115,32 +115,51 @@ public:
   template<typename U>
   std::size_t          max_size()const noexcept
                          {return impl<U>().nv_max_size();}
-  void                 reserve(std::size_t n){filter(impl().reserve(n));}
+  void                 reserve(std::size_t n)
+  {
+    sentinel_filter filter{*this};
+    filter(impl().reserve(n));
+  }
   template<typename U>
-  void                 reserve(std::size_t n){filter(impl<U>().nv_reserve(n));}
+  void                 reserve(std::size_t n)
+  {
+    sentinel_filter filter{*this};
+    filter(impl<U>().nv_reserve(n));
+  }
   std::size_t          capacity()const noexcept{return impl().capacity();}
   template<typename U>
   std::size_t          capacity()const noexcept
                          {return impl<U>().nv_capacity();}
-  void                 shrink_to_fit(){filter(impl().shrink_to_fit());}
+  void                 shrink_to_fit()
+  {
+    sentinel_filter filter{*this};
+    filter(impl().shrink_to_fit());
+  }
   template<typename U>
-  void                 shrink_to_fit(){filter(impl<U>().nv_shrink_to_fit());}
+  void                 shrink_to_fit()
+  {
+    sentinel_filter filter{*this};
+    filter(impl<U>().nv_shrink_to_fit());
+  }
 
   template<typename U,typename Iterator,typename... Args>
   base_iterator emplace(Iterator it,Args&&... args)
   {
+    sentinel_filter filter{*this};
     return filter(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
   }
 
   template<typename U,typename... Args>
   base_iterator emplace_back(Args&&... args)
   {
+    sentinel_filter filter{*this};
     return filter(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
   }
 
   template<typename T>
   base_iterator push_back(const T& x)
   {
+    sentinel_filter filter{*this};
     return filter(impl().push_back(subaddress(x)));
   }
 
@@ -152,12 +171,14 @@ public:
   >
   base_iterator push_back(T&& x)
   {
+    sentinel_filter filter{*this};
     return filter(impl().push_back_move(subaddress(x)));
   }
 
   template<typename U>
   base_iterator push_back_terminal(U&& x)
   {
+    sentinel_filter filter{*this};
     return filter(
       impl<typename std::decay<U>::type>().nv_push_back(std::forward<U>(x)));
   }
@@ -165,12 +186,14 @@ public:
   template<typename T>
   base_iterator insert(const_base_iterator it,const T& x)
   {
+    sentinel_filter filter{*this};
     return filter(impl().insert(it,subaddress(x)));
   }
 
   template<typename U,typename T>
   base_iterator insert(const_iterator<U> it,const T& x)
   {
+    sentinel_filter filter{*this};
     return filter(
       impl<U>().nv_insert(it,*static_cast<const U*>(subaddress(x))));
   }
@@ -183,6 +206,7 @@ public:
   >
   base_iterator insert(const_base_iterator it,T&& x)
   {
+    sentinel_filter filter{*this};
     return filter(impl().insert_move(it,subaddress(x)));
   }
 
@@ -194,6 +218,7 @@ public:
   >
   base_iterator insert(const_iterator<U> it,T&& x)
   {
+    sentinel_filter filter{*this};
     return filter(
       impl<U>().nv_insert(it,std::move(*static_cast<U*>(subaddress(x)))));
   }
@@ -201,6 +226,7 @@ public:
   template<typename InputIterator>
   base_iterator insert(InputIterator first,InputIterator last)
   {
+    sentinel_filter filter{*this};
     return filter(
       impl<typename std::iterator_traits<InputIterator>::value_type>().
         nv_insert(first,last));
@@ -220,40 +246,47 @@ public:
   base_iterator insert(
     const_iterator<U> it,InputIterator first,InputIterator last)
   {
+    sentinel_filter filter{*this};
     return filter(impl<U>().nv_insert(it,first,last));
   }
 
   base_iterator erase(const_base_iterator it)
   {
+    sentinel_filter filter{*this};
     return filter(impl().erase(it));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> it)
   {
+    sentinel_filter filter{*this};
     return filter(impl<U>().nv_erase(it));
   }
 
   base_iterator erase(const_base_iterator f,const_base_iterator l)
   {
+    sentinel_filter filter{*this};
     return filter(impl().erase(f,l));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> f,const_iterator<U> l)
   {
+    sentinel_filter filter{*this};
     return filter(impl<U>().nv_erase(f,l));
   }
 
   template<typename Iterator>
   base_iterator erase_till_end(Iterator f)
   {
+    sentinel_filter filter{*this};
     return filter(impl().erase_till_end(f));
   }
 
   template<typename Iterator>
   base_iterator erase_from_begin(Iterator l)
   {
+    sentinel_filter filter{*this};
     return filter(impl().erase_from_begin(l));
   }
   
@@ -273,6 +306,28 @@ private:
 
   struct from_prototype{};
 
+  /* Modifying operations that throw may have relocated the elements or changed
+   * their number by the time they do: sentinel_filter updates the sentinel
+   * in this case too.
+   */
+
+  class sentinel_filter
+  {
+  public:
+    explicit sentinel_filter(segment& x):px{&x}{}
+    sentinel_filter(const sentinel_filter&)=delete;
+    sentinel_filter& operator=(const sentinel_filter&)=delete;
+    ~sentinel_filter(){if(px)px->set_sentinel();}
+
+    void operator()(base_sentinel x){release()->filter(x);}
+    base_iterator operator()(const range& x){return release()->filter(x);}
+
+  private:
+    segment* release(){auto p=px;px=nullptr;return p;}
+
+    segment* px;
+  };
+
   segment(segment_backend_unique_ptr&& pimpl):
     pimpl{std::move(pimpl)}{set_sentinel();}
   segment(from_prototype,const segment& x,const allocator_type& al):
-- 
2.43.0


From 1457f1a88f86a929c6a10e85f10cab82c7085828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:05 +0000
Subject: [PATCH 02/15] fix: restitute the type of the last element of the
 previous segment

adjacent_find and unique_copy took the type of the carried over element by
value, so that the predicate never received it with its restituted type
when comparing across segments.
---
 include/boost/poly_collection/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 67c4fc3..ab737b7 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -244,7 +244,7 @@ struct adjacent_find_alg
   >
   LocalBaseIterator operator()(
     LocalIterator first,LocalIterator last,BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(first==last)return LocalBaseIterator{last};
@@ -955,7 +955,7 @@ struct unique_copy_alg
   OutputIterator operator()(
     LocalIterator first,LocalIterator last,
     OutputIterator res, BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(carry){
-- 
2.43.0


From 4c4a54854d531ad6cd25d18ca27c8a4b93584aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:21 +0000
Subject: [PATCH 03/15] fix: keep the index of split_segment consistent when
 element operations throw

erase(p) removed an index entry before the element was erased (which can
throw), insertion in the middle of a segment could throw after the number
of stored elements had increased, and the first insertion into an empty
segment allocated the index entry after the element had been added.
---
 .../poly_collection/detail/split_segment.hpp  | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 4c18788..33360ee 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -165,6 +165,7 @@ public:
   range nv_emplace(Iterator p,Args&&... args)
   {
     auto q=prereserve(p);
+    index_guard g{*this};
     auto it=s.emplace(
       iterator_from(q),
       value_holder_emplacing_ctor,std::forward<Args>(args)...);
@@ -209,6 +210,7 @@ public:
   range nv_insert(const_iterator p,const Concrete& x)
   {
     p=prereserve(p);
+    index_guard g{*this};
     auto it=s.emplace(iterator_from(p),x);
     push_index_entry();
     return range_from(it);
@@ -220,6 +222,7 @@ public:
   range nv_insert(const_iterator p,Concrete&& x)
   {
     p=prereserve(p);
+    index_guard g{*this};
     auto it=s.emplace(iterator_from(p),std::move(x));
     push_index_entry();
     return range_from(it);
@@ -245,8 +248,9 @@ public:
 
   range nv_erase(const_iterator p)
   {
+    auto it=s.erase(iterator_from(p));
     pop_index_entry();
-    return range_from(s.erase(iterator_from(p)));
+    return range_from(it);
   }
     
   virtual range erase(const_base_iterator first,const_base_iterator last)
@@ -314,6 +318,7 @@ private:
     i{{},typename index::allocator_type{al}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -321,6 +326,7 @@ private:
     s{std::move(s_)},i{{},typename index::allocator_type{s.get_allocator()}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -400,6 +406,17 @@ private:
     while(n--)i.pop_back();
   }
 
+  /* s.emplace(p,...) may throw after having increased s.size(): index_guard
+   * ensures size(index)=size(store)+1 also in that case.
+   */
+
+  struct index_guard
+  {
+    ~index_guard(){x.build_index(x.i.size());}
+
+    split_segment& x;
+  };
+
   static Concrete& concrete_ref(value_pointer p)noexcept
   {
     return *static_cast<Concrete*>(p);
@@ -470,6 +487,7 @@ private:
     std::size_t n=0;
     for(;first!=last;++first,++n,++p){
       p=prereserve(p);
+      index_guard g{*this};
       s.emplace(iterator_from(p),*first);
       push_index_entry();
     }
-- 
2.43.0


From 3966faa94c6b60c4ba077cda73a9a1421aa051e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:03 +0000
Subject: [PATCH 04/15] fix: allow single insertion arguments to refer to
 elements of the segment

When its capacity was exhausted, split_segment relocated the elements
before reading the arguments of the insertion, which were left dangling if
they referred to some element of the segment.
---
 .../poly_collection/detail/split_segment.hpp  | 57 ++++++++++++++++---
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 33360ee..e070c99 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -164,10 +164,11 @@ public:
   template<typename Iterator,typename... Args>
   range nv_emplace(Iterator p,Args&&... args)
   {
-    auto q=prereserve(p);
+    if(full())return expanding_emplace(
+      p,value_holder_emplacing_ctor,std::forward<Args>(args)...);
     index_guard g{*this};
     auto it=s.emplace(
-      iterator_from(q),
+      iterator_from(p),
       value_holder_emplacing_ctor,std::forward<Args>(args)...);
     push_index_entry();
     return range_from(it);
@@ -176,7 +177,9 @@ public:
   template<typename... Args>
   range nv_emplace_back(Args&&... args)
   {
-    prereserve();
+    if(full())return expanding_emplace(
+      const_base_iterator(nv_end()),
+      value_holder_emplacing_ctor,std::forward<Args>(args)...);
     s.emplace_back(value_holder_emplacing_ctor,std::forward<Args>(args)...);
     push_index_entry();
     return range_from(s.size()-1);
@@ -187,7 +190,7 @@ public:
 
   range nv_push_back(const Concrete& x)
   {
-    prereserve();
+    if(full())return expanding_emplace(const_base_iterator(nv_end()),x);
     s.emplace_back(x);
     push_index_entry();
     return range_from(s.size()-1);
@@ -198,7 +201,8 @@ public:
 
   range nv_push_back(Concrete&& x)
   {
-    prereserve();
+    if(full())return expanding_emplace(
+      const_base_iterator(nv_end()),std::move(x));
     s.emplace_back(std::move(x));
     push_index_entry();
     return range_from(s.size()-1);
@@ -209,7 +213,7 @@ public:
 
   range nv_insert(const_iterator p,const Concrete& x)
   {
-    p=prereserve(p);
+    if(full())return expanding_emplace(p,x);
     index_guard g{*this};
     auto it=s.emplace(iterator_from(p),x);
     push_index_entry();
@@ -221,7 +225,7 @@ public:
 
   range nv_insert(const_iterator p,Concrete&& x)
   {
-    p=prereserve(p);
+    if(full())return expanding_emplace(p,std::move(x));
     index_guard g{*this};
     auto it=s.emplace(iterator_from(p),std::move(x));
     push_index_entry();
@@ -330,11 +334,46 @@ private:
     build_index();
   }
 
-  void prereserve()
+  bool full()const noexcept{return s.size()==s.capacity();}
+
+  /* As insertion arguments may refer to elements of the segment, the new value
+   * has to be created before these are relocated.
+   */
+
+  template<typename Iterator,typename... Args>
+  range expanding_emplace(Iterator p,Args&&... args)
   {
-    if(s.size()==s.capacity())expand();
+    temporary_value x{s.get_allocator(),std::forward<Args>(args)...};
+    auto q=prereserve(p);
+    index_guard g{*this};
+    auto it=s.emplace(iterator_from(q),std::move(x.value()));
+    push_index_entry();
+    return range_from(it);
   }
 
+  struct temporary_value
+  {
+    using allocator_type=typename store::allocator_type;
+    using allocator_traits=std::allocator_traits<allocator_type>;
+
+    template<typename... Args>
+    temporary_value(const allocator_type& al_,Args&&... args):al{al_}
+    {
+      allocator_traits::construct(al,&value(),std::forward<Args>(args)...);
+    }
+
+    temporary_value(const temporary_value&)=delete;
+    temporary_value& operator=(const temporary_value&)=delete;
+    ~temporary_value(){allocator_traits::destroy(al,&value());}
+
+    store_value_type& value()noexcept
+      {return *reinterpret_cast<store_value_type*>(&space);}
+
+    allocator_type                  al;
+    alignas(store_value_type)
+    unsigned char                   space[sizeof(store_value_type)];
+  };
+
   const_base_iterator prereserve(const_base_iterator p)
   {
     if(s.size()==s.capacity()){
-- 
2.43.0


From 9155b30adab3ab760c18513087106963e697a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:40 +0000
Subject: [PATCH 05/15] fix: report length_error when reserving beyond max_size
 in split_segment

max_size did not take the index into account, and reserve attempted the
allocation of the index (bad_alloc) before the requested capacity was
checked.
---
 include/boost/poly_collection/detail/split_segment.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index e070c99..dfdaf76 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -13,11 +13,13 @@
 #pragma once
 #endif
 
+#include <algorithm>
 #include <boost/poly_collection/detail/segment_backend.hpp>
 #include <boost/poly_collection/detail/value_holder.hpp>
 #include <iterator>
 #include <memory>
 #include <new>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -120,7 +122,8 @@ public:
   virtual std::size_t   size()const noexcept{return nv_size();}
   std::size_t           nv_size()const noexcept{return s.size();}
   virtual std::size_t   max_size()const noexcept{return nv_max_size();}
-  std::size_t           nv_max_size()const noexcept{return s.max_size()-1;}
+  std::size_t           nv_max_size()const noexcept
+                         {return (std::min)(s.max_size(),i.max_size())-1;}
   virtual std::size_t   capacity()const noexcept{return nv_capacity();}
   std::size_t           nv_capacity()const noexcept{return s.capacity();}
 
@@ -128,6 +131,7 @@ public:
 
   base_sentinel nv_reserve(std::size_t n)
   {
+    if(n>nv_max_size())throw std::length_error{"split_segment::reserve"};
     bool rebuild=n>s.capacity();
     i.reserve(n+1);
     s.reserve(n);
@@ -407,7 +411,7 @@ private:
   void expand()
   {
     std::size_t c=
-      s.size()<=1||(s.max_size()-1-s.size())/2<s.size()?
+      s.size()<=1||(nv_max_size()-s.size())/2<s.size()?
         s.size()+1:
         s.size()+s.size()/2;
     i.reserve(c+1);
-- 
2.43.0


From 8e0d8d8b54b2b7bb1a3f96142c86431ede8605ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:39 +0000
Subject: [PATCH 06/15] fix: propagate the allocator to all internal storage on
 copy assignment

---
 include/boost/poly_collection/detail/type_info_map.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index f983b82..73b5b9f 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -100,12 +100,14 @@ public:
   {
     if(this!=&x)try{
       map=x.map;
-      cache=make<cache_type>(map.get_allocator());
-      build_cache(x.cache);
+      cache=x.cache; /* same allocator propagation as in map */
+      rebuild_cache();
     }
     catch(...){
       map.clear();
       cache.clear();
+      const cache_type empty_cache=make<cache_type>(map.get_allocator());
+      cache=empty_cache; /* same allocator as map */
       throw;
     }
     return *this;
-- 
2.43.0


From fdf8da2677fd29867c47cb89c29c3bc7452df64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:29 +0000
Subject: [PATCH 07/15] fix: leave the source of a failed allocator-extended
 move construction valid

---
 include/boost/poly_collection/detail/type_info_map.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index 73b5b9f..bf2adad 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -81,7 +81,8 @@ public:
   type_info_map(const type_info_map& x,const allocator_type& al):
     map{make(x.map,al)},cache{make<cache_type>(al)}
     {build_cache(x.cache);}
-  type_info_map(type_info_map&& x,const allocator_type& al):
+  type_info_map(type_info_map&& x,const allocator_type& al)
+  try:
     map{make(std::move(x.map),al)},
     cache{
       al==allocator_type{x.map.get_allocator()}&&x.map.empty()?
@@ -95,6 +96,11 @@ public:
     x.map.clear();
     x.cache.clear();
   }
+  catch(...){
+    x.map.clear();
+    x.cache.clear();
+    throw;
+  }
 
   type_info_map& operator=(const type_info_map& x)
   {
-- 
2.43.0


From 98717a3a06f7ddc5bba0382d58ac9e42b151f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 08/15] fix: accept any integral count type in copy_n

---
 include/boost/poly_collection/algorithm.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index ab737b7..64a053c 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -778,10 +778,11 @@ OutputIterator copy_n(const Iterator& first,Size count,OutputIterator res)
   auto lbit=traits::local_base_iterator_from(first);
   auto sit=traits::base_segment_info_iterator_from(first);
   for(;;){
-    auto n=(std::min)(count,sit->end()-lbit);
+    auto m=sit->end()-lbit;
+    auto n=count<m?static_cast<decltype(m)>(count):m; /* count may be any int */
     auto alg=restitute_iterator<Ts...>(std_copy_n{},n,res);
     res=alg(sit->type_info(),lbit);
-    if((count-=n)==0)break;
+    if((count-=static_cast<Size>(n))==0)break;
     ++sit;
     lbit=sit->begin();
   }
-- 
2.43.0


From 5e82bad32b397b40fd8d316c02a1d8c2b73c2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:47 +0000
Subject: [PATCH 09/15] fix: let function_collection hold callables with a
 non-const call operator

---
 .../poly_collection/detail/callable_wrapper_iterator.hpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp b/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
index fb3ca23..9485c48 100644
--- a/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
@@ -69,7 +69,9 @@ public:
   template<
     typename Callable,
     typename std::enable_if<
-      std::is_constructible<CWrapper,Callable&>::value&&
+      std::is_constructible<
+        CWrapper,typename std::remove_const<Callable>::type&
+      >::value&&
       (!std::is_const<CWrapper>::value||std::is_const<Callable>::value)
     >::type* =nullptr
   >
-- 
2.43.0


From 84b085b729f4ec53db4a63e3eea9b7de310075b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:08 +0000
Subject: [PATCH 10/15] fix: support signatures returning a reference in
 function_collection

---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 9b339db..442dcb1 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -78,7 +78,7 @@ private:
   static table* info(Callable&)noexcept
   {
     static table t={
-      [](void* p,Args... args){
+      [](void* p,Args... args)->R{
         auto r=std::ref(*static_cast<Callable*>(p));
         return static_cast<R>(r(std::forward<Args>(args)...));
       },
-- 
2.43.0


From 883f1d1434ed6102d1dda4c29ba5cba8faa48243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:39 +0000
Subject: [PATCH 11/15] fix: refer to callables with an overloaded address
 operator correctly

---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 442dcb1..af7c9d2 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -13,6 +13,7 @@
 #pragma once
 #endif
 
+#include <boost/core/addressof.hpp>
 #include <boost/poly_collection/detail/is_invocable.hpp>
 #include <functional>
 #include <type_traits>
@@ -41,7 +42,8 @@ public:
       is_invocable_r<R,Callable,Args...>::value
     >::type* =nullptr
   >
-  explicit callable_wrapper(Callable& x)noexcept:pt{info(x)},px{&x}{}
+  explicit callable_wrapper(Callable& x)noexcept:
+    pt{info(x)},px{boost::addressof(x)}{}
   callable_wrapper(const callable_wrapper&)=default;
   callable_wrapper& operator=(const callable_wrapper&)=default;
 
-- 
2.43.0


From e63f0a36eb54b371c7bf338224557b4a089ab769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 12/15] fix: make repeated range insertion into
 function_collection and any_collection amortized

---
 include/boost/poly_collection/detail/split_segment.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index dfdaf76..183ab58 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -421,8 +421,14 @@ private:
 
   void expand(std::size_t m)
   {
-    i.reserve(s.size()+m+1);
-    s.reserve(s.size()+m);
+    /* grow geometrically so that repeated range insertion is amortized */
+
+    std::size_t c=
+      (nv_max_size()-s.size())/2<s.size()||m>s.size()/2?
+        s.size()+m:
+        s.size()+s.size()/2;
+    i.reserve(c+1);
+    s.reserve(c);
     rebuild_index();
   }
 
-- 
2.43.0


From e5a531ee341bd6280a2840cd8a0f412811016bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:55 +0000
Subject: [PATCH 13/15] fix: do not convert const local iterators to mutable
 ones

---
 .../boost/poly_collection/detail/iterator_impl.hpp    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/iterator_impl.hpp b/include/boost/poly_collection/detail/iterator_impl.hpp
index 2a40bbe..d747717 100644
--- a/include/boost/poly_collection/detail/iterator_impl.hpp
+++ b/include/boost/poly_collection/detail/iterator_impl.hpp
@@ -18,6 +18,7 @@
 #include <boost/iterator/iterator_facade.hpp>
 #include <boost/poly_collection/detail/is_constructible.hpp>
 #include <boost/poly_collection/detail/iterator_traits.hpp>
+#include <iterator>
 #include <type_traits>
 #include <typeinfo>
 
@@ -143,6 +144,12 @@ class local_iterator_impl:
   using segment_base_iterator=typename PolyCollection::segment_base_iterator;
   using const_segment_map_iterator=
     typename PolyCollection::const_segment_map_iterator;
+  template<typename Iterator>
+  using is_const_base_iterator=std::is_const<
+    typename std::remove_reference<
+      typename std::iterator_traits<Iterator>::reference
+    >::type
+  >;
 
 #if BOOST_WORKAROUND(BOOST_GCC_VERSION,>=90300)&&\
     BOOST_WORKAROUND(BOOST_GCC_VERSION,<100300)
@@ -196,7 +203,9 @@ public:
     typename std::enable_if<
       !is_constructible<BaseIterator,BaseIterator2>::value&&
       is_constructible<BaseIterator,segment_base_iterator>::value&&
-      is_constructible<BaseIterator2,segment_base_iterator>::value
+      is_constructible<BaseIterator2,segment_base_iterator>::value&&
+      (is_const_base_iterator<BaseIterator>::value||
+       !is_const_base_iterator<BaseIterator2>::value)
     >::type* =nullptr
   >
   explicit local_iterator_impl(
-- 
2.43.0


From 1cb4ba5b8b6bd9f6535201b9de2ff27f46324892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 14/15] fix: do not terminate when an allocator-extended
 element construction throws

---
 include/boost/poly_collection/detail/value_holder.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/boost/poly_collection/detail/value_holder.hpp b/include/boost/poly_collection/detail/value_holder.hpp
index b4cef22..9b1f4f2 100644
--- a/include/boost/poly_collection/detail/value_holder.hpp
+++ b/include/boost/poly_collection/detail/value_holder.hpp
@@ -93,14 +93,12 @@ public:
     enable_if_not_emplacing_ctor_t<Allocator> =nullptr
   >
   value_holder(Allocator& al,const T& x)
-    noexcept(is_nothrow_copy_constructible::value)
     {copy(al,x);}
   template<
     typename Allocator,
     enable_if_not_emplacing_ctor_t<Allocator> =nullptr
   >
   value_holder(Allocator& al,T&& x)
-    noexcept(is_nothrow_move_constructible::value)
     {std::allocator_traits<Allocator>::construct(al,data(),std::move(x));}
   template<
     typename Allocator,typename... Args,
@@ -114,14 +112,12 @@ public:
     enable_if_not_emplacing_ctor_t<Allocator> =nullptr
   >
   value_holder(Allocator& al,const value_holder& x)
-    noexcept(is_nothrow_copy_constructible::value)
     {copy(al,x.value());}
   template<
     typename Allocator,
     enable_if_not_emplacing_ctor_t<Allocator> =nullptr
   >
   value_holder(Allocator& al,value_holder&& x)
-    noexcept(is_nothrow_move_constructible::value)
     {std::allocator_traits<Allocator>::construct(
       al,data(),std::move(x.value()));}
 
-- 
2.43.0


From f4510d45e70fc06abf4b17b46d51d064ce171bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:06 +0000
Subject: [PATCH 15/15] fix: make value-initialized iterators compare equal

---
 include/boost/poly_collection/detail/any_iterator.hpp          | 2 +-
 .../boost/poly_collection/detail/callable_wrapper_iterator.hpp | 3 ++-
 include/boost/poly_collection/detail/iterator_impl.hpp         | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/poly_collection/detail/any_iterator.hpp b/include/boost/poly_collection/detail/any_iterator.hpp
index a51ae86..f1a2a8c 100644
--- a/include/boost/poly_collection/detail/any_iterator.hpp
+++ b/include/boost/poly_collection/detail/any_iterator.hpp
@@ -32,7 +32,7 @@ template<typename Any>
 class any_iterator:public boost::iterator_adaptor<any_iterator<Any>,Any*>
 {
 public:
-  any_iterator()=default;
+  any_iterator()noexcept:any_iterator::iterator_adaptor_{nullptr}{}
   explicit any_iterator(Any* p)noexcept:any_iterator::iterator_adaptor_{p}{}
   any_iterator(const any_iterator&)=default;
   any_iterator& operator=(const any_iterator&)=default;
diff --git a/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp b/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
index 9485c48..f904282 100644
--- a/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
@@ -30,7 +30,8 @@ class callable_wrapper_iterator:public boost::iterator_adaptor<
 >
 {
 public:
-  callable_wrapper_iterator()=default;
+  callable_wrapper_iterator()noexcept:
+    callable_wrapper_iterator::iterator_adaptor_{nullptr}{}
   explicit callable_wrapper_iterator(CWrapper* p)noexcept:
     callable_wrapper_iterator::iterator_adaptor_{p}{}
   callable_wrapper_iterator(const callable_wrapper_iterator&)=default;
diff --git a/include/boost/poly_collection/detail/iterator_impl.hpp b/include/boost/poly_collection/detail/iterator_impl.hpp
index d747717..4bdf9e1 100644
--- a/include/boost/poly_collection/detail/iterator_impl.hpp
+++ b/include/boost/poly_collection/detail/iterator_impl.hpp
@@ -171,7 +171,8 @@ private:
 public:
   using base_iterator=BaseIterator;
 
-  local_iterator_impl()=default;
+  local_iterator_impl():
+    local_iterator_impl::iterator_adaptor_{BaseIterator{}},mapit{}{}
   local_iterator_impl(const local_iterator_impl&)=default;
   local_iterator_impl& operator=(const local_iterator_impl&)=default;
 
-- 
2.43.0

