From 8055ccc6dd68238dde796474d769c58919ec589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 01/66] fix: swapping or moving a pack_t transfers recur_max,
 and leaves no uninitialised members

---
 pack_base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 40b735a..a2fbe0e 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -152,6 +152,7 @@ namespace classdesc
       std::swap(m_size,other.m_size);
       std::swap(m_pos,other.m_pos);
       std::swap(ptr_flag,other.ptr_flag);
+      std::swap(recur_max,other.recur_max);
       std::swap(alloced,other.alloced);
     }
     enum mode_t {buf, readf, writef};
@@ -230,7 +231,8 @@ namespace classdesc
     virtual ~pack_t() {realloc(0); if (f) fclose(f);}
 
 #if __cplusplus >= 201103L
-    pack_t(pack_t&& x): f(nullptr), m_data(nullptr) {swap_base(x);}
+    pack_t(pack_t&& x): f(nullptr), mode(buf), m_data(nullptr), m_size(0), m_pos(0),
+                        ptr_flag(DEFAULT), recur_max(500) {swap_base(x);}
     pack_t& operator=(pack_t&& x) {swap_base(x); return *this;}
 #endif
 
-- 
2.43.0


From a946406929c454edf40837383d70d8ab1b72f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 02/66] fix: bounds check in pack_t reads no longer wraps
 around for huge lengths

---
 pack_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index a2fbe0e..ad911a9 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -204,7 +204,7 @@ namespace classdesc
     virtual void popoff(basic_type& x)
     {
       if (mode==buf)
-        if (m_pos+x.size>m_size)
+        if (m_pos>m_size || x.size>m_size-m_pos)
           throw pack_error("unexpected end of data");
         else
           memcpy(x.val,m_data+m_pos,x.size);
@@ -272,7 +272,7 @@ namespace classdesc
     {
       if (mode==buf)
         {
-          if (s+m_pos>m_size)
+          if (m_pos>m_size || s>m_size-m_pos)
             throw pack_error("premature end of buffered data");
           memcpy(x,m_data+m_pos,s);
         }
-- 
2.43.0


From 18d92724d401c13bf61cf113a2b14d090f2aa058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 03/66] fix: pack_t::resize(0) empties the buffer instead of
 throwing with a dangling size

---
 pack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index ad911a9..8964b51 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -183,7 +183,7 @@ namespace classdesc
      */
     void resize(size_t s) {
       realloc(s);
-      if (!m_data) throw std::bad_alloc();
+      if (s && !m_data) throw std::bad_alloc();
       m_size=s;
     }
      
-- 
2.43.0


From d267648321fbf794550194a57bad1b1d3f31b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 04/66] fix: pack_t::cmp returns -1, 0 or 1 as documented, so
 that < and > are consistent

---
 pack_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 8964b51..8e956e4 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -294,7 +294,10 @@ namespace classdesc
     /// greater than \a x
     virtual int cmp(const pack_t& x) const {
       if (m_size==x.m_size)
-        return memcmp(m_data,x.m_data,m_size);
+        {
+          int r=m_size? memcmp(m_data,x.m_data,m_size): 0;
+          return r<0? -1: r>0? 1: 0;
+        }
       else
         return m_size<x.m_size? -1: 1;
     }
-- 
2.43.0


From cc6d3d22cb18dcf33de870ad19516a7b95e18910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 05/66] fix: 64 bit long values survive XDR packing (negative
 and large values were corrupted)

---
 xdr_pack.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xdr_pack.cc b/xdr_pack.cc
index ddd87cc..26bf240 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -111,11 +111,22 @@ namespace classdesc
 
   template <>
   xdr_filter XDR_filter(const long int& x)           
-  {return (xdr_filter) xdr_long;}
+  {
+#ifdef HAVE_LONGLONG
+    // xdr_long only encodes 32 bits, even where long is 64 bits
+    if (sizeof(long)>4) return (xdr_filter) xdr_hyper;
+#endif
+    return (xdr_filter) xdr_long;
+  }
 
   template <>
   xdr_filter XDR_filter(const unsigned long int& x)  
-  {return (xdr_filter) xdr_u_long;}
+  {
+#ifdef HAVE_LONGLONG
+    if (sizeof(unsigned long)>4) return (xdr_filter) xdr_u_hyper;
+#endif
+    return (xdr_filter) xdr_u_long;
+  }
 
     /* long long is an extension to ANSI C++ that describes a 64 bit
        integer on all our supported compilers. XDR's terminolgy for
-- 
2.43.0


From 02cb321846c7d7331e78233bc4fdce50e07b72c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 06/66] fix: xdr_pack buffers hold any amount of data, can be
 read while being written, swapped and moved

Reading was restricted to the first 1K chunk and restarted from its beginning each
time a chunk was added, raw data larger than a chunk could not be packed, reading
past the written data returned garbage, an empty buffer claimed to hold 1024 bytes,
and swap exchanged the wrong streams.
---
 pack_base.h |  10 ++--
 xdr_pack.cc | 147 +++++++++++++++++++++++++++++++---------------------
 2 files changed, 90 insertions(+), 67 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 8e956e4..b5f212d 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -326,17 +326,14 @@ namespace classdesc
   template <> inline string typeName<pack_t>() {return "classdesc::pack_t";}
   
 #ifdef XDR_PACK
-  const int BUFCHUNK=1024;  
-  
   /**
      machine independent serialisation buffer object
   */
   class xdr_pack: public pack_t
   {
-    size_t asize;
-    XDR *input, *output;
+    XDR *input, *output; ///< only used for files
   public:
-    xdr_pack(size_t sz=BUFCHUNK);
+    xdr_pack(size_t sz=0);
     xdr_pack(const char *, const char* rw);
     ~xdr_pack();
 #if __cplusplus >= 201103L
@@ -356,9 +353,8 @@ namespace classdesc
       xdr_pack* xdr_other=dynamic_cast<xdr_pack*>(&other);
       if (!xdr_other) throw pack_error("cannot swap differing types");
       swap_base(other);
-      std::swap(asize,xdr_other->asize);
       std::swap(input,xdr_other->input);
-      std::swap(input,xdr_other->output);
+      std::swap(output,xdr_other->output);
     }
   };
   template <> inline string typeName<xdr_pack>() {return "classdesc::xdr_pack";}
diff --git a/xdr_pack.cc b/xdr_pack.cc
index 26bf240..d5ad34e 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -158,24 +158,29 @@ namespace classdesc
   xdr_filter XDR_filter(const long double& x)        
   {return NULL;}    
 
-  xdr_pack::xdr_pack(size_t sz): pack_t(sz), asize(0)
+  namespace
   {
-    input=new XDR; output=new XDR;
-    xdrmem_create(input,(const caddr_t)data(),sz,XDR_ENCODE);
-    xdrmem_create(output,(const caddr_t)data(),sz,XDR_DECODE);    
+    const size_t xdrUnit=4;   // everything in an XDR stream is a multiple of this
+    const size_t maxItem=16;  // no filter encodes to more than this
+
+    size_t padding(size_t sz) {return (xdrUnit-sz%xdrUnit)%xdrUnit;}
   }
 
-  xdr_pack::xdr_pack(const char *fname, const char *rw):  pack_t(fname,rw), asize(0)
+  // memory buffers are managed by pack_t, with each item being
+  // separately encoded or decoded. Only files have an XDR stream
+  // open throughout
+  xdr_pack::xdr_pack(size_t sz): pack_t(sz), input(NULL), output(NULL) {}
+
+  xdr_pack::xdr_pack(const char *fname, const char *rw):
+    pack_t(fname,rw), input(NULL), output(NULL)
   {
     if (mode==writef)
       {
         input=new XDR; 
-        output=NULL;
         xdrstdio_create(input,f,XDR_ENCODE);
       }
     else
       {
-        input=NULL;
         output=new XDR;
         xdrstdio_create(output,f,XDR_DECODE);    
       }
@@ -183,12 +188,12 @@ namespace classdesc
 
   xdr_pack::~xdr_pack() 
   {
-    if (output && (mode==buf || mode==readf))
+    if (output)
       {
         xdr_destroy(output); 
         delete output;
       }
-    if (input && (mode==buf || mode==writef))
+    if (input)
       {
         xdr_destroy(input); 
         delete input;  
@@ -196,90 +201,112 @@ namespace classdesc
   }
 
   void  xdr_pack::append(const basic_type& x) 
-    {
-      if (mode==buf && BUFCHUNK-xdr_getpos(input)<8)
-	{
-	  asize += xdr_getpos(input);
-	  realloc(asize+BUFCHUNK);
-	  if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
-	  xdr_destroy(input); xdr_destroy(output);
-	  xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	  xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
-	}
-      if(!x.filter || !x.filter(input,x.val)) 
-	throw pack_error("Error encoding XDR stream");
-      m_size=asize+xdr_getpos(input);
-    }
+  {
+    if (mode==buf)
+      {
+        char item[maxItem];
+        XDR xdr;
+        xdrmem_create(&xdr,item,sizeof(item),XDR_ENCODE);
+        bool ok=x.filter && x.filter(&xdr,x.val);
+        size_t sz=xdr_getpos(&xdr);
+        xdr_destroy(&xdr);
+        if (!ok)
+          throw pack_error("Error encoding XDR stream");
+        pack_t::packraw(item,sz);
+      }
+    else
+      {
+        if (!input || !x.filter || !x.filter(input,x.val))
+          throw pack_error("Error encoding XDR stream");
+        m_size=xdr_getpos(input);
+      }
+  }
   
   void xdr_pack::popoff(basic_type& x)
   { 
-    if (!x.filter || !x.filter(output,x.val)) 
-      throw pack_error("Error encoding XDR stream");
-    m_pos=xdr_getpos(output);
-  }
-
-  xdr_pack& xdr_pack::reseti() { 
-    if (asize==0) 
-      xdr_setpos(input,0);
+    if (mode==buf)
+      {
+        if (m_pos>m_size || x.size>maxItem)
+          throw pack_error("Error decoding XDR stream");
+        size_t left=m_size-m_pos;
+        double item[maxItem/sizeof(double)]; // aligned for any type
+        XDR xdr;
+        xdrmem_create(&xdr,data()+m_pos,left<maxItem? left: maxItem,XDR_DECODE);
+        bool ok=x.filter && x.filter(&xdr,item);
+        size_t sz=xdr_getpos(&xdr);
+        xdr_destroy(&xdr);
+        if (!ok)
+          throw pack_error("Error decoding XDR stream");
+        memcpy(x.val,item,x.size);
+        m_pos+=sz;
+      }
     else
       {
-	m_size=0; asize=0; xdr_destroy(input); 
-	xdrmem_create(input,(const caddr_t)data(),BUFCHUNK,XDR_ENCODE);
+        if (!output || !x.filter || !x.filter(output,x.val))
+          throw pack_error("Error decoding XDR stream");
+        m_pos=xdr_getpos(output);
       }
+  }
+
+  xdr_pack& xdr_pack::reseti() { 
+    if (input) xdr_setpos(input,0);
+    m_size=0;
     return *this;
   }
 
   xdr_pack& xdr_pack::reseto() 
   { 
-    xdr_setpos(output,0); 
+    if (output) xdr_setpos(output,0); 
+    m_pos=0;
     return *this; 
   }
 
-  // assume that sizeof(size_t)==sizeof(long): true for most things
   xdr_pack& xdr_pack::seeki(long offs)
   { 
     assert(offs<=0);
-    long seekpos=xdr_getpos(input)+offs;
-    if (mode==buf && seekpos<0) 
-      {
-	seekpos+=asize;  /* work in absolute stream units, not relative to 
-			    current segment */
-	asize=seekpos/BUFCHUNK; seekpos%=BUFCHUNK;
-	xdr_destroy(input);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-      }
-    xdr_setpos(input,seekpos);
-    m_size=asize+seekpos;
+    m_size+=offs;
+    if (input) xdr_setpos(input,m_size);
     return *this;
   }  
 
   xdr_pack& xdr_pack::seeko(long offs) 
   {
-    xdr_setpos(output,xdr_getpos(output)+offs);
+    m_pos+=offs;
+    if (output) xdr_setpos(output,m_pos);
     return *this;
   }
 
   void xdr_pack::packraw(const char *x, size_t sz) 
   {
-    if (mode==buf && BUFCHUNK-xdr_getpos(input)<sz)
+    if (mode==buf)
       {
-	asize += xdr_getpos(input);
-	realloc(asize+BUFCHUNK);
-	if (data()==NULL) throw pack_error("Error encoding XDR stream");
-	xdr_destroy(input); xdr_destroy(output);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
+        static const char zeros[xdrUnit]={0};
+        if (sz) pack_t::packraw(x,sz);
+        if (padding(sz)) pack_t::packraw(zeros,padding(sz));
+      }
+    else
+      {
+        if (!input || !xdr_opaque(input,const_cast<char*>(x),sz)) 
+          throw pack_error("Error encoding XDR stream");
+        m_size=xdr_getpos(input);
       }
-    if (!xdr_opaque(input,const_cast<char*>(x),sz)) 
-      throw pack_error("Error encoding XDR stream");
-    m_size=asize+xdr_getpos(input);
   }
 
   void xdr_pack::unpackraw(char *x, size_t sz) 
   {
-    if (!xdr_opaque(output,x,sz)) 
-      throw pack_error("Error encoding XDR stream");
-    m_pos=xdr_getpos(output);
+    if (mode==buf)
+      {
+        if (m_pos>m_size || sz>m_size-m_pos || padding(sz)>m_size-m_pos-sz)
+          throw pack_error("Error decoding XDR stream");
+        if (sz) memcpy(x,data()+m_pos,sz);
+        m_pos+=sz+padding(sz);
+      }
+    else
+      {
+        if (!output || !xdr_opaque(output,x,sz)) 
+          throw pack_error("Error decoding XDR stream");
+        m_pos=xdr_getpos(output);
+      }
   }
 
 }
-- 
2.43.0


From 4a69ef5a671d02c9fba31100bb63eba46a2cc364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 07/66] fix: raw data written to a file counts towards the
 stream's size, as other data does

---
 pack_base.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index b5f212d..e6892c8 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -258,9 +258,11 @@ namespace classdesc
           memcpy(m_data+m_size,x,s); m_size+=s;
         }
       else
-        if (s && fwrite(x,s,1,f)!=1)
-          throw pack_error("failed to write data to stream");
-          
+        {
+          if (s && fwrite(x,s,1,f)!=1)
+            throw pack_error("failed to write data to stream");
+          m_size+=s;
+        }
     }
     
 #if defined(__GNUC__) && !defined(__ICC)
-- 
2.43.0


From fcd0f1b37fe9cb1cb2a1ad355b7d61282df6b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 08/66] fix: wide strings can be deserialised (unpacking any
 basic_string other than string did not compile)

---
 pack_stl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_stl.h b/pack_stl.h
index 09fca3d..ca05694 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -262,7 +262,7 @@ namespace classdesc_access
     {
       classdesc::uint64 size=0; targ>>size;
       std::vector<cT> buf(size+1); //ensure buf[0] exists
-      targ.unpackraw(buf.data(),sizeof(cT)*size);
+      targ.unpackraw((char*)buf.data(),sizeof(cT)*size);
       asg(arg, buf);
     }
   };
-- 
2.43.0


From 3b5819d3cf6a6cc9a6aa26953b81b86759ab46f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 09/66] fix: deserialising a deque no longer walks an iterator
 past its end

---
 pack_stl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_stl.h b/pack_stl.h
index ca05694..0ed385e 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -121,7 +121,7 @@ namespace classdesc
     uint64 sz=0, i=0;
     b >> sz;
     resize(a,0);
-    for (typename T::iterator j=a.begin(); i<sz; ++i, ++j)
+    for (; i<sz; ++i)
       {
         typename T::value_type x;
         b >> x;
-- 
2.43.0


From b63320ae4914b7fcc1cba26bdc48049db962b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 10/66] fix: deserialising an unordered_map no longer loses
 keys of class type

---
 pack_stl.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pack_stl.h b/pack_stl.h
index 0ed385e..41a378c 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -38,6 +38,15 @@ namespace classdesc
   struct Value_Type<std::multimap<K,V,C,A> > 
   {typedef std::pair<K,V> value_type;};
 
+#if defined(__cplusplus) && __cplusplus>=201103L
+  template <class K, class V, class H, class P, class A> 
+  struct Value_Type<std::unordered_map<K,V,H,P,A> > 
+  {typedef std::pair<K,V> value_type;};
+
+  template <class K, class V, class H, class P, class A> 
+  struct Value_Type<std::unordered_multimap<K,V,H,P,A> > 
+  {typedef std::pair<K,V> value_type;};
+#endif
 
   /**
      Iterators are impossible to trap, as each compiler uses its own intrinsic
-- 
2.43.0


From 1ae45a9e792aee258f35cce284ae6793f9ce4056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 11/66] fix: assigning a ref from something owned by its own
 target no longer uses freed memory

---
 ref.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ref.h b/ref.h
index 662b1b3..ccdfc89 100644
--- a/ref.h
+++ b/ref.h
@@ -48,8 +48,9 @@ namespace classdesc
     ref(): item(NULL) {}  /* unitialised refs don't consume space */
     ref(const ref& x) {asg(x);}
     ref(const T& x) {newitem(x);}
-    ref& operator=(const ref& x)  { if (x.item!=item) {refdec(); asg(x);} return *this;}
-    ref& operator=(const T& x) {refdec(); newitem(x); return *this;}  
+    // x may be destroyed along with the present target, so let go of that last
+    ref& operator=(const ref& x)  {ref tmp(x); swap(tmp); return *this;}
+    ref& operator=(const T& x) {ref tmp(x); swap(tmp); return *this;}  
     ~ref() {refdec();}
     /// dereference - creates default object if null
     T* operator->() {if (!item) newitem(); return (T*)item;}
@@ -68,7 +69,7 @@ namespace classdesc
     /// dereference - throws in debug mode if null
     const T& operator*() const {assert(item); return *(T*)item;}
     /// make reference null
-    void nullify() { refdec(); item=NULL;}
+    void nullify() {ref tmp; swap(tmp);}
     /// true if reference is null
     bool nullref() const { return item==NULL;} 
     /// equivalent to nullref
-- 
2.43.0


From a256629002b317c7287b273716f974d79236b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 12/66] fix: comparing a null ref with a value is false rather
 than a null dereference

---
 ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ref.h b/ref.h
index ccdfc89..5f6c8fd 100644
--- a/ref.h
+++ b/ref.h
@@ -78,7 +78,7 @@ namespace classdesc
     int refCount() const {if (item) {return item->count;} else return 0;}
     bool operator==(const ref& x) const {return x.item==item;}
     bool operator==(const T* x) const {return x==item;} 
-    bool operator==(const T& x) const {return x==*item;} 
+    bool operator==(const T& x) const {return item && x==*item;} 
     template <class U>
     bool operator!=(const U& x) const {return !operator==(x);}
     /* used for maps and sets - needed for unpack */
-- 
2.43.0


From 0e1225a194573d4d94484de3467f6a460dbb7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 13/66] fix: assigning entries of pack_t::alloced releases what
 they held, so erasing them does not leak

---
 pack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index e6892c8..e752ba5 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -127,7 +127,7 @@ namespace classdesc
     void* data() {return d->data();}
     PtrStoreRef(PtrStoreBase *d=NULL): d(d) {}
     PtrStoreRef(const PtrStoreRef& x): d(x.d) {d && d->cnt++;}
-    PtrStoreRef& operator=(const PtrStoreRef& x) {d=x.d; d && d->cnt++; return *this;}
+    PtrStoreRef& operator=(const PtrStoreRef& x) {PtrStoreRef tmp(x); std::swap(d,tmp.d); return *this;}
     ~PtrStoreRef() {if (d && d->cnt-- == 0) delete d;}
   };
 
-- 
2.43.0


From 95a5f04306aff0338bd8e04c85f641ac09636201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 14/66] fix: a null tree pointer is deserialised as null,
 whatever the target held

---
 pack_graph.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_graph.h b/pack_graph.h
index 0e07f8a..0561251 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -53,6 +53,8 @@ namespace classdesc
         arg=static_cast<T*>(targ.alloced.back().data());
         unpack(targ,desc,*arg);
       }
+    else
+      arg=NULL;
   }
 
   /*
-- 
2.43.0


From 1902e5fc2853748e9b05b0c14e60857f75fb46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 15/66] fix: pack_graph and unpack_graph recover from
 exceptions, and process restarts without nesting them

---
 pack_graph.h | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index 0561251..33810ff 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -82,12 +82,38 @@ namespace classdesc
     }
   };
 
+  /// Clears the state of pack_graph/unpack_graph when the outermost call
+  /// is left, which includes it being left by an exception
+  template <class Map, class Restart>
+  struct GraphSession
+  {
+    Map& graph_map;
+    Restart& restart;
+    unsigned& recur_level;
+    bool& restarting;
+    bool outermost;
+    GraphSession(Map& graph_map, Restart& restart, unsigned& recur_level, bool& restarting):
+      graph_map(graph_map), restart(restart), recur_level(recur_level), restarting(restarting),
+      outermost(recur_level==0 && !restarting) {}
+    ~GraphSession() {
+      if (outermost)
+        {
+          graph_map.clear();
+          restart.clear();
+          recur_level=0;
+          restarting=false;
+        }
+    }
+  };
+
   template <class T>
   inline void pack_graph(pack_t& buf, T& arg)
   {
     static std::map<T,int> graph_map;
     static std::vector<T*> restart;
     static unsigned recur_level=0;
+    static bool restarting=false;
+    GraphSession<std::map<T,int>,std::vector<T*> > session(graph_map,restart,recur_level,restarting);
     int nought=0;
 
     if (recur_level==0)
@@ -109,15 +135,15 @@ namespace classdesc
       pack(buf,string(),graph_map[arg]);
     
     recur_level--;
-    if (recur_level==0)   //process restarts
+    if (session.outermost)   //process restarts
       {
+        restarting=true;
         while (restart.size())
           {
             T& aa=*restart.back(); //we need to pop_back() before packing
             restart.pop_back();    //in case further restarts are needed
             pack_graph(buf,aa);
           }
-        graph_map.clear();
       }
   }
 
@@ -127,6 +153,8 @@ namespace classdesc
     static std::map<int,T> graph_map;
     static std::vector<T*> restart;
     static unsigned recur_level=0;
+    static bool restarting=false;
+    GraphSession<std::map<int,T>,std::vector<T*> > session(graph_map,restart,recur_level,restarting);
     int myid;
     Alloc<T> alloc;
     
@@ -152,15 +180,15 @@ namespace classdesc
 
       }
     recur_level--;
-    if (recur_level==0)   //process restarts
+    if (session.outermost)   //process restarts
       {
+        restarting=true;
         while (restart.size())
           {
             T& aa=*restart.back(); //we need to pop_back() before packing
             restart.pop_back();    //in case further restarts are needed
             unpack_graph(buf,aa);
           }
-        graph_map.clear();
       }
 
   }
-- 
2.43.0


From 54237c624c5dd8867ae76061e2d0c7f02f963924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 16/66] fix: pack_graph with a recursion limit of one no longer
 recurses for ever

---
 pack_graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index 33810ff..c1113be 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -120,7 +120,7 @@ namespace classdesc
       pack(buf,string(),buf.recur_max);
     recur_level++;
 
-    if (recur_level==buf.recur_max)
+    if (buf.recur_max>0 && recur_level>1 && recur_level>=buf.recur_max)
       restart.push_back(&arg); //save ref for restart
     else if (!arg)   //reference is invalid 
       pack(buf,string(),nought);
@@ -162,7 +162,7 @@ namespace classdesc
       unpack(buf,string(),buf.recur_max);
     recur_level++;
 
-    if (recur_level==buf.recur_max)
+    if (buf.recur_max>0 && recur_level>1 && recur_level>=buf.recur_max)
       restart.push_back(&arg); //save ref for restart
     else
       {
-- 
2.43.0


From 386263a0a3d878ba387f931a7fc26d46a0477933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 17/66] fix: links held in sequences and maps survive
 unpack_graph's restarts (their addresses were of temporaries)

---
 pack_base.h | 11 +++++++++++
 pack_stl.h  | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index e752ba5..7295a02 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -237,6 +237,17 @@ namespace classdesc
 #endif
 
     operator bool() {return m_pos<m_size;}
+    /// number of bytes left to read, of the buffer or of the file
+    size_t bytesLeft() const {
+      if (mode==buf) return m_pos<m_size? m_size-m_pos: 0;
+      long here=ftell(f), end=-1;
+      if (here>=0 && fseek(f,0,SEEK_END)==0)
+        {
+          end=ftell(f);
+          fseek(f,here,SEEK_SET);
+        }
+      return end<0? ~size_t(0): end>here? size_t(end-here): 0;
+    }
     virtual pack_t& reseti() {m_size=0; if (f) fseek(f,0,SEEK_SET); return *this;}
     virtual pack_t& reseto() {m_pos=0; if (f) fseek(f,0,SEEK_SET); return *this;}
     virtual pack_t& seeki(long offs) {
diff --git a/pack_stl.h b/pack_stl.h
index 41a378c..142860f 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -124,12 +124,31 @@ namespace classdesc
 #pragma GCC diagnostic ignored "-Wunused-value"
 #endif
 
+  // Entries are unpacked in place, as unpack_graph may need to come
+  // back to a link held in one of them. Returns false if not possible
+  template <class T>
+  bool unpackInPlace(classdesc::pack_t& b, T& a, uint64 sz, classdesc::true_type)
+  {
+    // a deferred link takes up space later in the stream, so more
+    // entries than bytes contain none
+    if (sz>b.bytesLeft()) return false;
+    resize(a,sz);
+    if (a.size()!=sz) return false; // not resizable
+    for (typename T::iterator i=a.begin(); i!=a.end(); ++i)
+      b >> *i;
+    return true;
+  }
+  template <class T> // eg vector<bool>
+  bool unpackInPlace(classdesc::pack_t&, T&, uint64, classdesc::false_type) {return false;}
+  
   template <class T>
   void unpackSequence(classdesc::pack_t& b, const classdesc::string& d, T& a)
   {
     uint64 sz=0, i=0;
     b >> sz;
     resize(a,0);
+    if (unpackInPlace(b,a,sz,typename is_same<typename T::reference,typename T::value_type&>::type()))
+      return;
     for (; i<sz; ++i)
       {
         typename T::value_type x;
@@ -168,6 +187,28 @@ namespace classdesc
 #pragma GCC diagnostic pop
 #endif
 
+  // entry just inserted
+  template <class I> I insertedAt(const I& i) {return i;}
+  template <class I> I insertedAt(const std::pair<I,bool>& i) {return i.first;}
+
+  template <class T>
+  void unpackEntry(classdesc::pack_t& b, T& a,...)
+  {
+    typename T::value_type e;
+    b >> e;
+    a.insert(e);
+  }
+
+  // mapped values are unpacked in place, as unpack_graph may need to
+  // come back to a link held in one of them
+  template <class T>
+  void unpackEntry(classdesc::pack_t& b, T& a, typename T::mapped_type*)
+  {
+    typename classdesc::Value_Type<T>::value_type e;
+    b >> e.first;
+    b >> insertedAt(a.insert(e))->second;
+  }
+
   template <class T>
   typename enable_if<is_associative_container<T>, void>::T
   unpack(classdesc::pack_t& b, const classdesc::string&, T& a)
@@ -176,11 +217,7 @@ namespace classdesc
     b >> sz;
     a.clear();
     for (typename T::size_type i=0; i<sz; ++i)
-      {
-        typename classdesc::Value_Type<T>::value_type e;
-        b >> e;
-        a.insert(e);
-      }
+      unpackEntry(b,a,0);
   }
 
   template <class T>
-- 
2.43.0


From b72cb2026880694c0e62f367612ac8e641953b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 18/66] fix: XML character data is never mistaken for markup
 (entities, quotes, = and > in text, empty attribute values)

---
 xml_unpack_base.h | 57 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index e0fe1c1..58cb8ce 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -89,6 +89,8 @@ namespace classdesc
   {
     Stream& i;
     char nexttok;
+    bool inTag;   ///< true between < and >
+    bool literal; ///< true if last token is character data, rather than markup
 
     // basic I/O operations
     bool get(char& c) {return classdesc::get(i,c);}
@@ -110,13 +112,19 @@ namespace classdesc
     char parse_entity();
     std::string retval(char c, const std::string& tok);
   public:
-    XMLtoken(Stream& i): i(i), nexttok('\0') {}
+    XMLtoken(Stream& i): i(i), nexttok('\0'), inTag(false), literal(false) {}
     std::string token();
     std::string tokenNoEOF() {
       std::string tok=token();
-      if (tok.empty()) throw xml_pack_error("XML token expected");
+      if (tok.empty() && !literal) throw xml_pack_error("XML token expected");
       else return tok;
     }
+    /// true if the last token returned is character data
+    bool isLiteral() const {return literal;}
+    /// true if the last token returned is the markup \a tok, rather
+    /// than character data that happens to look like it
+    bool isMarkup(const std::string& lastTok, const char* tok) const
+    {return !literal && lastTok==tok;}
     /// handle tags starting with ! - comments and CDATAs
     std::string processBang(std::string& tok,char c);
     /// handle XML tags ('<' case)
@@ -186,16 +194,20 @@ namespace classdesc
     if (tok.empty())
       {
         nexttok='\0';
+        literal=false;
         switch (c)
           {
-          case '/': return "</";
-          case '\\': return "/>";
+          case '/': inTag=true; return "</";
+          case '\\': inTag=false; return "/>";
+          case '<': inTag=true; return "<";
+          case '>': inTag=false; return ">";
           default: return std::string(1,c);
           }
       }
     else
       {
         nexttok=c;
+        literal=true;
         return tok;
       }
   }
@@ -221,7 +233,10 @@ namespace classdesc
               else
                 leadin=c;
             else if (c=='>' && leadin=="]]")
-              return tok;
+              {
+                literal=true;
+                return tok;
+              }
             else
               {
                 tok+=leadin+c;
@@ -256,6 +271,7 @@ namespace classdesc
   {
     std::string tok;
     char c;
+    literal=false;
 
     // handle any tokens left over from previous parsing
     if (nexttok)
@@ -273,6 +289,11 @@ namespace classdesc
             continue;
           case '\'':
           case '"':    //process string literal as single token
+            if (!inTag) // just character data
+              {
+                tok+=c;
+                break;
+              }
             {
               char term=c;
               while ((c=getNoEOF())!=term)
@@ -280,6 +301,7 @@ namespace classdesc
                   tok+=parse_entity();
                 else
                   tok+=c;
+              literal=true;
               return tok;
             }
           case '<':
@@ -289,17 +311,22 @@ namespace classdesc
               return r;
             }
           case '/':
-            if ((c=getNoEOF())=='>') //we have end empty tag token
+            if (!inTag) // just character data
+              tok+=c;
+            else if ((c=getNoEOF())=='>') //we have end empty tag token
               return retval('\\',tok);
             else  //TODO is a / in the middle of a token acceptible XML?
               {
                 tok+='/';
                 unget(c);
-                break;
               }
+            break;
           case '>': 
           case '=':
-            return retval(c,tok);
+            if (inTag)
+              return retval(c,tok);
+            tok+=c; // just character data
+            break;
           default:
             tok+=c;
           }
@@ -455,8 +482,8 @@ namespace classdesc
   {
     std::string tok; 
     while (isspace(tok=stream.tokenNoEOF()));
-    if (tok!="=") throw xml_pack_error("ill-formed attribute");
-    while (isspace(tok=stream.tokenNoEOF()));
+    if (!stream.isMarkup(tok,"=")) throw xml_pack_error("ill-formed attribute");
+    while (isspace(tok=stream.tokenNoEOF()) && !stream.isLiteral());
     contentMap[scope]=tok;
   }
 
@@ -471,7 +498,7 @@ namespace classdesc
     std::string tok;    
     while (isspace(tok=stream.token()));
     if (tok.empty()) return;
-    if (tok=="<") 
+    if (stream.isMarkup(tok,"<"))
       parse(stream,stream.tokenNoEOF());
     else
       throw xml_pack_error("no root element found");
@@ -485,15 +512,15 @@ namespace classdesc
 
     std::string tok;
     //parse attributes
-    for (tok=stream.tokenNoEOF(); tok!=">" && tok!="/>"; tok=stream.tokenNoEOF())
+    for (tok=stream.tokenNoEOF(); !stream.isMarkup(tok,">") && !stream.isMarkup(tok,"/>"); tok=stream.tokenNoEOF())
       if (!isspace(tok)) process_attribute(stream, scope_idx+"."+tok);
     
     if (tok=="/>") return;
 
     //parse content. We assume element is either just content, or just has child elements
     std::string content;
-    for (tok=stream.tokenNoEOF(); tok!="</"; tok=stream.tokenNoEOF())
-      if (tok=="<")
+    for (tok=stream.tokenNoEOF(); !stream.isMarkup(tok,"</"); tok=stream.tokenNoEOF())
+      if (stream.isMarkup(tok,"<"))
         parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
       else 
         content+=tok;
@@ -505,7 +532,7 @@ namespace classdesc
     tok=stream.tokenNoEOF();
     if (scope.length()-scope.rfind(tok)!=tok.length()) //tok matches last part of scope
       throw xml_pack_error("unexpected end tag");
-    for (; tok!=">"; tok=stream.tokenNoEOF()); //skip rest of end tag
+    for (; !stream.isMarkup(tok,">"); tok=stream.tokenNoEOF()); //skip rest of end tag
   }
 
 
-- 
2.43.0


From 4b3604b51bd1003199f3176443bca577b7e0f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 19/66] fix: XML comments, processing instructions and CDATA
 sections end where XML says they do

---
 xml_unpack_base.h | 56 +++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 58cb8ce..62e83e7 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -103,11 +103,14 @@ namespace classdesc
     }
     
     void gobble_comment();
-    void gobble_whitespace() {
-      char c;
-      bool notEof=get(c); 
-      while (notEof && std::isspace(c)) notEof=get(c);
-      if (notEof) unget(c);
+    /// discard everything up to and including \a term
+    void gobble_until(const std::string& term) {
+      std::string last;
+      while (last!=term)
+        {
+          last+=getNoEOF();
+          if (last.length()>term.length()) last.erase(0,1);
+        }
     }
     char parse_entity();
     std::string retval(char c, const std::string& tok);
@@ -148,7 +151,6 @@ namespace classdesc
           case '>': level--; break;
           }
       }
-    gobble_whitespace();
   }
   
   template <class Stream> 
@@ -215,35 +217,31 @@ namespace classdesc
   template <class Stream> 
   std::string XMLtoken<Stream>::processBang(std::string& tok,char c)
   {
-    // look ahead for [CDATA[
+    // look ahead for [CDATA[ or --
     std::string leadin;
-    for (int i=0; i<7; i++)
+    for (int i=0; i<7 && leadin!="--"; i++)
       {
         if (!get(c) || c=='>') break; // in case of EOF, or end of tag
         leadin+=c;
       }
     if (leadin=="[CDATA[")
       { // CDATA processing, add CDATA contents verbatim
-        leadin.clear();
-        while ((c=getNoEOF()))
-          {
-            if (c==']')
-              if (leadin=="]")
-                leadin+=c;
-              else
-                leadin=c;
-            else if (c=='>' && leadin=="]]")
-              {
-                literal=true;
-                return tok;
-              }
-            else
-              {
-                tok+=leadin+c;
-                leadin.clear();
-              }
-          }
+        std::string::size_type brackets=0; // number of ]s immediately preceding
+        for (c=getNoEOF(); c!='>' || brackets<2; c=getNoEOF())
+          if (c==']')
+            brackets++;
+          else
+            {
+              tok.append(brackets,']');
+              tok+=c;
+              brackets=0;
+            }
+        tok.append(brackets-2,']');
+        literal=true;
+        return tok;
       }
+    else if (leadin=="--")
+      gobble_until("-->");
     else if (c!='>')
       gobble_comment();
     return "";
@@ -256,8 +254,8 @@ namespace classdesc
     switch (c)
       {
       case '!': return processBang(tok,c);
-      case '?': //we have a comment or XML declaration, which we ignore, except for CDATA
-        gobble_comment(); return "";
+      case '?': //we have a processing instruction or XML declaration, which we ignore
+        gobble_until("?>"); return "";
       case '/': //we have begin end tag token
         return  retval('/',tok);
       default:
-- 
2.43.0


From 4b7aef7ea47f3c8888269c7628f0c2b5cd41c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 20/66] fix: an XML end tag must match the whole name of its
 element, not just its end

---
 xml_unpack_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 62e83e7..29f9f89 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -528,7 +528,10 @@ namespace classdesc
 
     // finish parsing end tag
     tok=stream.tokenNoEOF();
-    if (scope.length()-scope.rfind(tok)!=tok.length()) //tok matches last part of scope
+    // scope is the parent's indexed scope, a '.', and the element name
+    std::string::size_type start=scope.rfind('#');
+    start=start==std::string::npos? 0: scope.find('.',start)+1;
+    if (scope.compare(start,std::string::npos,tok)!=0)
       throw xml_pack_error("unexpected end tag");
     for (; !stream.isMarkup(tok,">"); tok=stream.tokenNoEOF()); //skip rest of end tag
   }
-- 
2.43.0


From 38b0d0b709f975b25c89e753e58b204e22409ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 21/66] fix: signed and unsigned chars are quoted in XML, and
 bytes of multibyte characters are not written as negative character
 references

---
 xml_pack_base.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index eeb7828..d511cbd 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -37,7 +37,8 @@ namespace classdesc
       case '\'': return "&apos;";
       case '"': return "&quot;";
       }
-    if (!isgraph(c))
+    // bytes of multibyte characters are passed through unchanged
+    if (static_cast<unsigned char>(c)<0x80 && !isgraph(c))
       {
         std::ostringstream s;
         s<<"&#"<<std::setfill('0')<<std::setw(4)<<int(c)<<";";
@@ -177,6 +178,12 @@ namespace classdesc
   template <> inline void xml_packp(xml_pack_t& x,const string& d, char& a)
   {x.pack(d,classdesc::xml_quote(a));}
 
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, signed char& a)
+  {x.pack(d,classdesc::xml_quote(static_cast<char>(a)));}
+
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, unsigned char& a)
+  {x.pack(d,classdesc::xml_quote(static_cast<char>(a)));}
+
   /**
      handle enums
   */
-- 
2.43.0


From 66136fdbab7e4f577d0ee213a08d39ea9820310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 22/66] fix: empty strings and white space characters are read
 back from XML

---
 xml_unpack_base.h | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 29f9f89..0fb7bf1 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -353,6 +353,15 @@ namespace classdesc
         throw xml_pack_error(key+" is missing in XML data stream");
     }
 
+    // return true if the element \a key was read, but has no content
+    bool isEmptyElement(const std::string& key) const
+    {
+      std::string::size_type hash=key.rfind('#');
+      std::map<std::string,unsigned>::const_iterator it=tokenCount.find(key.substr(0,hash));
+      return it!=tokenCount.end() && !contentMap.count(key) &&
+        std::strtoul(key.c_str()+hash+1,NULL,10)<it->second;
+    }
+
     // add "#0" to components if no # label present
     std::string addHashNoughts(const std::string& key)
     {
@@ -417,6 +426,15 @@ namespace classdesc
       std::istringstream is(s);  
       is>>x;
     }
+    // a character can be white space
+    template <class T> void istoChar(const std::string& s, T& x)
+    {
+      std::istringstream is(s);  
+      if (!(is>>x) && !s.empty()) x=static_cast<T>(s[0]);
+    }
+    void istoT(const std::string& s, char& x) {istoChar(s,x);}
+    void istoT(const std::string& s, signed char& x) {istoChar(s,x);}
+    void istoT(const std::string& s, unsigned char& x) {istoChar(s,x);}
 #if defined(__cplusplus) && __cplusplus>=201103L
     void stoT(const std::string& s, float& x)
       try {x=std::stof(s);}
@@ -453,7 +471,13 @@ namespace classdesc
     }
     /// string deserialisation 
     void unpack(std::string key, std::string& var) {
-      key=addHashNoughts(key); checkKey(key);  
+      key=addHashNoughts(key);
+      if (isEmptyElement(key))
+        {
+          var.clear();
+          return;
+        }
+      checkKey(key);  
       std::map<std::string,std::string>::const_iterator it=contentMap.find(key);
       if (it != contentMap.end())
         var=it->second; 
-- 
2.43.0


From c010f001495199ae7b4cad5a4eebd89256060794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 23/66] fix: % and %= of excluded members compile (mod was
 declared too late)

---
 classdesc.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index f465f7c..7637256 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -985,6 +985,10 @@ namespace classdesc
     
   };
 
+  template <class T, class U> T mod(T x, U y) {return x%y;}
+  template <class U> float mod(float x, U y) {return std::fmod(x,y);}
+  template <class U> double mod(double x, U y) {return std::fmod(x,y);}
+
   template <class T>
   struct ExcludeFundamental
   {                           
@@ -1064,10 +1068,6 @@ namespace classdesc
   std::ptrdiff_t operator-(T* x, const Exclude<T*> y)
   {return x-static_cast<T*>(y);}
 
-  template <class T, class U> T mod(T x, U y) {return x%y;}
-  template <class U> float mod(float x, U y) {return std::fmod(x,y);}
-  template <class U> double mod(double x, U y) {return std::fmod(x,y);}
-
 
   // handle fundamental types
   template <>
-- 
2.43.0


From ea1e0ad3c83777e71ccbc2049c00ca79c68554d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 24/66] fix: XML element names of arrays of template types have
 their arguments trimmed

---
 xml_pack_base.h   | 1 +
 xml_unpack_base.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index d511cbd..7146542 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -223,6 +223,7 @@ namespace classdesc
 
     // element name is given by the type name
     string eName=typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 0fb7bf1..a664d15 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -590,6 +590,7 @@ namespace classdesc
     va_end(ap);
 
     classdesc::string eName=classdesc::typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-- 
2.43.0


From 1063f867f7a61d4a903a90bcb7ddf81d63fa09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 25/66] fix: CDATA sections containing their own terminator

---
 xml_pack_base.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 7146542..43e4853 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -48,7 +48,15 @@ namespace classdesc
   }
 
   inline std::ostream& operator<<(std::ostream& o, const CDATA& x)
-  {return o<<"<![CDATA["<<static_cast<const std::string&>(x)<<"]]>";}
+  {
+    // a CDATA section cannot contain its own terminator, so start a new
+    // section in the middle of any that occur
+    std::string::size_type start=0, end;
+    o<<"<![CDATA[";
+    for (; (end=x.find("]]>",start))!=std::string::npos; start=end+2)
+      o<<x.substr(start,end+2-start)<<"]]><![CDATA[";
+    return o<<x.substr(start)<<"]]>";
+  }
   
   /**
      XML serialisation object
-- 
2.43.0


From 8664dde42b7cf54f0a2ca9943e4c1546f1b5ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 26/66] fix: pretty printing does not add white space to CDATA

---
 xml_pack_base.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 43e4853..335a851 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -219,6 +219,13 @@ namespace classdesc
   inline void xml_pack(xml_pack_t& x,const string& d, const std::string& a) 
   {xml_pack(x,d,const_cast<std::string&>(a));}
 
+  // white space is significant in CDATA, so no extra layout when pretty printing
+  inline void xml_pack(xml_pack_t& x,const string& d, const CDATA& a) 
+  {x.pack(d,a);}
+
+  inline void xml_pack(xml_pack_t& x,const string& d, CDATA& a) 
+  {x.pack(d,a);}
+
   /* now define the array version  */
   template <class T> void xml_pack(xml_pack_t& x,const string& d,is_array ia,
                                      T& a, int dims,size_t ncopies,...) 
-- 
2.43.0


From fb5ec105ae49cd44e493dd422635fc5d85bb0a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 27/66] fix: containers absent from the XML are not updated

---
 xml_unpack_base.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index a664d15..815be02 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -615,6 +615,9 @@ namespace classdesc
   enable_if<is_sequence<T>, void>::T
   xml_unpackp(xml_unpack_t& x, const string& d, T& arg, dummy<1> dum=0)
   {
+    // if not present in the XML, leave arg as is
+    if (!d.empty() && !x.exists(d)) return;
+
     string eName=typeName<typename T::value_type>().c_str();
     eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
@@ -633,6 +636,9 @@ namespace classdesc
   enable_if<is_associative_container<T>, void>::T
   xml_unpackp(xml_unpack_t& x, const string& d, T& arg, dummy<2> dum=0)
   {
+    // if not present in the XML, leave arg as is
+    if (!d.empty() && !x.exists(d)) return;
+
     string eName=typeName<typename T::value_type>().c_str();
     eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
-- 
2.43.0


From 1be57b9d527fb0fbf726ac3de96a4c081ff6f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 28/66] fix: XML floating point special values are read in
 C++98 too

---
 xml_unpack_base.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 815be02..0077678 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -445,6 +445,20 @@ namespace classdesc
     void stoT(const std::string& s, long double& x)
       try {x=std::stold(s);}
       catch(...){istoT(s,x);}    
+#else
+    // streams do not recognise the special values
+    template <class T> void stoFloat(const std::string& s, T& x)
+    {
+      char* end;
+      double r=std::strtod(s.c_str(),&end);
+      if (end!=s.c_str() && r-r!=0)
+        x=static_cast<T>(r);
+      else
+        istoT(s,x);
+    }
+    void stoT(const std::string& s, float& x) {stoFloat(s,x);}
+    void stoT(const std::string& s, double& x) {stoFloat(s,x);}
+    void stoT(const std::string& s, long double& x) {stoFloat(s,x);}
 #endif
     template <class T> void stoT(const std::string& s, T& x)
     {istoT(s,x);}
-- 
2.43.0


From 6a4e2dd06bc3db586f55ff2615b398b5b331bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 29/66] fix: enums absent from the XML are not updated

---
 xml_unpack_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 0077678..11d1d16 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -621,7 +621,8 @@ namespace classdesc
   // remove extraneous white space
   int (*isspace)(int)=std::isspace;
   std::string::iterator end=std::remove_if(tmp.begin(),tmp.end(),isspace);
-  arg=tmp.substr(0,end-tmp.begin());
+  if (end!=tmp.begin()) // otherwise there is no such tag, so leave arg as is
+    arg=tmp.substr(0,end-tmp.begin());
 }
 
 
-- 
2.43.0


From 55d15e3df63927d87c9487c0658bb84ae1cec9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 30/66] fix: enums are read from XML by the symbols they are
 written as

---
 xml_pack_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml_pack_epilogue.h b/xml_pack_epilogue.h
index d79a02b..bbe4f9c 100644
--- a/xml_pack_epilogue.h
+++ b/xml_pack_epilogue.h
@@ -151,7 +151,7 @@ namespace classdesc
   enable_if<is_enum<T>, void >::T
   xml_unpackp(xml_unpack_t& t,const string& d,T& a, dummy<1> dum=0)
   {
-    classdesc_access::access_xml_unpack<T>()(t,d,a);
+    xml_unpack(t,d,Enum_handle<T>(a));
   }
 
   // handle const arguments
-- 
2.43.0


From 4cb1575b13e4d80fcd9a384e01c62da75a123012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 31/66] fix: objects created while reading XML are initialised

---
 polyAccessXMLPack.h | 2 +-
 xml_unpack_base.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/polyAccessXMLPack.h b/polyAccessXMLPack.h
index e3c68f8..14e1b95 100644
--- a/polyAccessXMLPack.h
+++ b/polyAccessXMLPack.h
@@ -99,7 +99,7 @@ namespace classdesc
   {
     if (x.exists(d))
       {
-        a.reset(new typename T::element_type);
+        a.reset(new typename T::element_type());
         ::xml_unpack(x,d,*a);
       }
     else
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 11d1d16..d569e59 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -664,7 +664,7 @@ namespace classdesc
     string prefix=d.empty()? e: d+"."+e;
     for (size_t i=0; i<x.count(prefix); ++i) 
       {
-        typename NonConstKeyValueType<typename T::value_type>::T v;
+        typename NonConstKeyValueType<typename T::value_type>::T v=typename NonConstKeyValueType<typename T::value_type>::T();
         xml_unpack(x,idx(prefix,i),v);
         arg.insert(v);
       }
-- 
2.43.0


From 77f5e7a26c564ffe3d37e6b004b98f66dd3e23a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 32/66] fix: const and static apply to all members declared
 together, and to no later ones

---
 classdesc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 95c6d9d..69fcbd9 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -341,7 +341,6 @@ public:
         else
           actionlist.push_back(act_pair("."+name,action,memberName,is_static));
       }
-    is_static=false;
   }
 };
 
@@ -467,6 +466,9 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
   /* now handle members */
   for  (input.nexttok(); input.token!="}"; input.nexttok() )
     {
+      // const and static apply to all members declared together, and to no others
+      if (input.lasttoken==";") reg.is_static=reg.is_const=false;
+
       // handle qt macros
       if (qt)
         {
-- 
2.43.0


From fc07aa4daaf846de25319029d199e2d869a24199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 33/66] fix: vector<bool> is read from XML

---
 xml_unpack_base.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index d569e59..89fc4e0 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -626,6 +626,14 @@ namespace classdesc
 }
 
 
+  // elements of vector<bool> are not bools
+  inline void xml_unpack(xml_unpack_t& x,const string& d,std::vector<bool>::reference arg)
+  {
+    bool tmp=arg;
+    x.unpack(d,tmp);
+    arg=tmp;
+  }
+
   template <class T> typename
   enable_if<is_sequence<T>, void>::T
   xml_unpackp(xml_unpack_t& x, const string& d, T& arg, dummy<1> dum=0)
-- 
2.43.0


From 285315f211c9527b72c058d09231adb7ee48e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 34/66] fix: char arrays of const objects are XDR packed raw,
 as they are unpacked

---
 pack_base.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pack_base.h b/pack_base.h
index 7295a02..c2ac91e 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -701,6 +701,17 @@ namespace classdesc
     targ.packraw(&arg,ncopies);
   }
 
+  inline void pack(pack_t& targ, const string&, is_array, 
+                   const char &arg,int dims,size_t ncopies,...)
+  {
+    int i;
+    va_list ap;
+    va_start(ap,ncopies);
+    for (i=1; i<dims; i++) ncopies*=va_arg(ap,int);
+    va_end(ap);
+    targ.packraw(&arg,ncopies);
+  }
+
   inline void unpack(unpack_t& targ, const string&, is_array, 
                      char &arg,int dims,size_t ncopies,...)
   {
-- 
2.43.0


From ad526e55d06f39943f8f7938c170985b08845c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 35/66] fix: commas and braces in member initialisers are not
 mistaken for declarators or the end of the class

---
 classdesc.cc | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 69fcbd9..4839e93 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -315,6 +315,49 @@ string replaceShornTypes(const string& input, const string& shornType, const str
 }
 
 
+// with input at a <, returns whether this opens a list of template arguments, in which case input
+// is moved to the closing >. Otherwise it is a less than operator, and input is left unchanged.
+bool skip_template_args(tokeninput& input)
+{
+  tokeninput::mark_t mark(input);
+  for (int angle_count=0; ; input.nexttok())
+    {
+      if (input.token=="<") angle_count++;
+      else if (input.token==">") angle_count--;
+      else if (input.token==">>") angle_count-=2;
+      else if (input.token=="(") gobble_delimited(input,"(",")");
+      else if (!isIdentifierChar(input.token[0]) && input.token!="::" && input.token!="," &&
+               input.token!="*" && input.token!="&" && input.token!="&&" &&
+               input.token!="()" && input.token!="..." && input.token!="[]")
+        break;
+      if (angle_count<=0)
+        {
+          // a template-id within an expression is followed by one of these
+          tokeninput::mark_t end(input);
+          input.nexttok();
+          bool isTemplate=angle_count==0 && strchr("({:;,",input.token[0]);
+          if (!isTemplate) break;
+          input=end;
+          return true;
+        }
+    }
+  input=mark;
+  return false;
+}
+
+// skip over a bitfield specifier or initialiser, up to the ; or , that ends the declarator
+void skip_initialiser(tokeninput& input)
+{
+  while (!strchr(";,",input.token[0]))
+    {
+      if (input.token=="(") gobble_delimited(input,"(",")");
+      else if (input.token=="{") gobble_delimited(input,"{","}");
+      else if (input.token=="[") gobble_delimited(input,"[","]");
+      else if (input.token=="<") skip_template_args(input);
+      input.nexttok();
+    }
+}
+
 class register_classname
 {
   actionlist_t& actionlist;
@@ -621,7 +664,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
           if (input.token[0]=='{')
             gobble_delimited(input,"{","}");
 	  /* skip over field specifier or initializer */
-	  while (!strchr(";,",input.token[0])) input.nexttok();
+          skip_initialiser(input);
 	}
 
       /* operator members - discard these */
-- 
2.43.0


From 82365a60dae0b3f1fcb2bd32f3deb59694a24809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 36/66] fix: members declared with an elaborated type (struct X
 x;) do not make X a nested type

---
 classdesc.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 4839e93..30572e3 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -598,7 +598,15 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  else
 	    targs2=targs+targs1;
 	  input.nexttok();
-          if (!is_private && !is_template) nested[prefix].push_back(input.token);
+          if (!is_private && !is_template)
+            {
+              // struct name x; refers to a type declared elsewhere
+              tokeninput::mark_t mark(input);
+              string name=input.token;
+              input.nexttok();
+              if (input.token!="::" && strchr(":{;",input.token[0])) nested[prefix].push_back(name);
+              input=mark;
+            }
 	  /* handle new templated typename rules */
 	  if (targs.length()) input.lasttoken="typename";
 	  if (isIdentifierStart(input.token[0]))  /* named class */
-- 
2.43.0


From a895469ae5bd07fc27a8ff66cc28a4e559de13d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 37/66] fix: members following a constructor with braced member
 initialisers are no longer lost

---
 classdesc.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 30572e3..10d3079 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -736,9 +736,16 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 
           // look ahead for const or deleted specification
           bool is_const=false, deleted=false;
-	  while (!strchr(";{",input.token[0]))
+          bool initialisers=false; // within constructor initialisers
+	  while (!strchr(";{",input.token[0]) ||
+                 // skip over braced member initialisers
+                 (initialisers && input.token=="{" && 
+                  (isIdentifierChar(input.lasttoken[0]) || strchr(">.",input.lasttoken[0]))))
             {
+              if (input.token=="{") gobble_delimited(input,"{","}");
+              else if (initialisers && input.token=="(") gobble_delimited(input,"(",")");
               input.nexttok();
+              if (input.token==":") initialisers=true;
               if (input.token=="const") is_const=true;
               if (input.token=="delete") deleted=true;
             }
-- 
2.43.0


From b88e358585e6020c09513fd90a74b71b493a063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 38/66] fix: the name of a nested union is not a member

---
 classdesc.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index 10d3079..4636ec9 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -641,6 +641,22 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	}
 
 
+      /* named unions are types, not members */
+      if (input.token=="union")
+        {
+          input.nexttok();
+          if (isIdentifierStart(input.token[0]))
+            {
+              string name=input.token;
+              input.nexttok();
+              if (input.token=="{")
+                {
+                  if (!is_private) nested[prefix].push_back(name);
+                  gobble_delimited(input,"{","}");
+                }
+            }
+        }
+
       /* handle unnamed unions as a special case */
       if (input.lasttoken=="union" && input.token=="{")
 	{
-- 
2.43.0


From f878cd7de2f5c0ef99b9a16e6c4cc9d9377a338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 39/66] fix: opaque enum declarations are not members, and
 private members of enum type do not hide what follows

---
 classdesc.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 4636ec9..a0eb760 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -262,6 +262,8 @@ void assign_enum_action(tokeninput& input, string prefix)
   if (input.token==":") // type specification supplied, so skip it
     while (!strchr(";{",input.token[0])) input.nexttok();
 
+  if (input.token==";") // opaque declaration, there is no declarator
+    input.lasttoken=";";
 
   if (input.token=="{") /* only assign action if definition, not declaration */
     {
@@ -631,10 +633,20 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
       if (input.token=="enum")
 	{
 	  input.nexttok();
-	  if (!is_private && 
-              isIdentifierStart(input.token[0]))  /* named enum */
+	  if (isIdentifierStart(input.token[0]))  /* named enum */
             {
-              assign_enum_action(input,prefix);
+              if (!is_private)
+                assign_enum_action(input,prefix);
+              else
+                {
+                  // skip definition, if this is one
+                  if (input.token=="class" || input.token=="struct") input.nexttok();
+                  input.nexttok();
+                  if (input.token==":")
+                    while (!strchr(";{",input.token[0])) input.nexttok();
+                  if (input.token=="{") gobble_delimited(input,"{","}");
+                  else if (input.token==";") input.lasttoken=";";
+                }
             }
           else
             gobble_delimited(input,"","}");
-- 
2.43.0


From 50e7645c89e63e1b22cf709259c7d83b5911b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 40/66] fix: friend functions defined within a class do not end
 the class

---
 classdesc.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index a0eb760..e9e6c9b 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -727,7 +727,15 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
       if (input.token=="const") reg.is_const=true;
       if (input.token=="friend")  /* skip friend statement */
         while (input.token!=";")
-          input.nexttok();
+          {
+            if (input.token=="(") gobble_delimited(input,"(",")");
+            if (input.token=="{")
+              {
+                gobble_delimited(input,"{","}"); // friend function defined here
+                break;
+              }
+            input.nexttok();
+          }
 
       if (input.token[0]=='(') /* member functions, or function pointers */
 	{
-- 
2.43.0


From 7424e5a1f9c869889a2acd7bbe0f62e85fb476fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 41/66] fix: static_assert is not a method

---
 classdesc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index e9e6c9b..f0e2ca4 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -718,6 +718,9 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  reg.is_static=false;
 	}
 
+      if (input.token=="static_assert")
+        while (input.token!=";") input.nexttok();
+
       // alignas declarations need to be discarded
       if (input.token=="alignas") 
         {input.nexttok(); gobble_delimited(input,"(",")");}
-- 
2.43.0


From e2fe49575b1ae1627044768575c7133bc4bcd1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 42/66] fix: members declared after a function pointer in the
 same list are visited

---
 classdesc.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index f0e2ca4..b130786 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -744,6 +744,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	{
 	  string memname=input.lasttoken;        // function name
           bool is_destructor=input.tokenBeforeLast=="~";
+          bool is_pointer=false; // function pointer, other declarators may follow
           argList.erase();
 
 	  /* check ahead for function pointers */
@@ -761,6 +762,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 		{
 		  input.nexttok();
 		  memname=input.token;
+                  is_pointer=true;
 		  gobble_delimited(input,"(",")");
 		  while (input.token[0]!='(') input.nexttok();
 		  gobble_delimited(input,"(",")");
@@ -776,7 +778,9 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
           // look ahead for const or deleted specification
           bool is_const=false, deleted=false;
           bool initialisers=false; // within constructor initialisers
-	  while (!strchr(";{",input.token[0]) ||
+          if (is_pointer)
+            skip_initialiser(input);
+	  else while (!strchr(";{",input.token[0]) ||
                  // skip over braced member initialisers
                  (initialisers && input.token=="{" && 
                   (isIdentifierChar(input.lasttoken[0]) || strchr(">.",input.lasttoken[0]))))
@@ -867,7 +871,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                   reg.register_class(memname, varname, action);
               }
 	    }
-	  reg.is_static=reg.is_const=false;
+          if (!is_pointer)
+            reg.is_static=reg.is_const=false;
 	  is_virtual=0;
 	  is_template=false;
 	}
-- 
2.43.0


From 5247a60a62d9abd2ea834a810a9e60f662da0a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 43/66] fix: [[ within a string or comment is not an attribute,
 and insert-friend keeps attributes

---
 tokeninput.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index 784daaa..7662a18 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -45,17 +45,6 @@ class tokeninput
         else {ungetc(c,inputstream); c='\\';}
         break;
 
-      case '[':
-        c=fgetc(inputstream); 
-        if (c=='[') // attribute leadin - discard attribute
-          {
-            char lc=c;
-            while ((c=fgetc(inputstream)) != ']' || lc!=']') lc=c;
-            getnextc();
-          }
-        else
-          {ungetc(c,inputstream); c='[';}
-        break;
       case EOF:
         throw eof();
         break;
@@ -178,6 +167,12 @@ public:
                  for use with operator */ 
               
             case '[':
+              if (c=='[') // attribute leadin - discard attribute
+                {
+                  for (lc=getnextc(), getnextc(); lc!=']' || c!=']'; lc=c, getnextc());
+                  getnextc();
+                  goto nexttok_again;
+                }
               if (c==']')
                 {
                   token+=c;
-- 
2.43.0


From fecd8a585c7f7e93010d19e332cc9671baf90eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 44/66] fix: the processor reads digit separators and raw
 strings

---
 tokeninput.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tokeninput.h b/tokeninput.h
index 7662a18..da1a448 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -219,6 +219,17 @@ public:
           {
             token+=c;
             getnextc();
+            if (c=='\'' && isdigit(token[0])) getnextc(); // digit separator
+          }
+        if (c=='"' && (token=="R" || token=="LR" || token=="uR" || token=="UR" || token=="u8R"))
+          { /* raw string */
+            string end=")";
+            for (getnextc(); c!='('; getnextc()) end+=c;
+            end+='"';
+            token="\"";
+            while (token.length()<=end.length() || token.substr(token.length()-end.length())!=end)
+              token+=getnextc();
+            getnextc();
           }
       }
   }
-- 
2.43.0


From 85d29d17aeab4e11aca976bcbd38cee967ecce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 45/66] fix: classes declared final are described

---
 classdesc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index b130786..b1b33f3 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -606,7 +606,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
               tokeninput::mark_t mark(input);
               string name=input.token;
               input.nexttok();
-              if (input.token!="::" && strchr(":{;",input.token[0])) nested[prefix].push_back(name);
+              if (input.token!="::" && (strchr(":{;",input.token[0]) || input.token=="final")) nested[prefix].push_back(name);
               input=mark;
             }
 	  /* handle new templated typename rules */
@@ -1114,6 +1114,7 @@ void assign_class_action(tokeninput& input, string prefix, string targs, string
       input.nexttok();
       classname+="::"+input.token;
     }
+  if (input.token=="final") input.nexttok();
   if (strchr(":{",input.token[0]))
     {
       action_t action(classtok+classname,
-- 
2.43.0


From 0aac045e742ab477ad95d01a7b3157fc22dacaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 46/66] fix: insert-friend handles classes declared final

---
 insert-friend.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/insert-friend.cc b/insert-friend.cc
index ed2191a..7573b60 100644
--- a/insert-friend.cc
+++ b/insert-friend.cc
@@ -85,6 +85,7 @@ void insert_friend(tokeninput& input, string prefix, string targs,
   input.nexttok();
   if (input.token=="<") /* template specialisation */
     classname += get_template_args(input);
+  if (input.token=="final") input.nexttok();
   if (strchr(":{",input.token[0]))
     {
       for (;input.token!="{"; input.nexttok() );
-- 
2.43.0


From 525bdf5f1ca6512c72088fb2370ff80ab39cea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 47/66] fix: default template arguments ending in >>, member
 enums of templates, enumerator values with commas

---
 classdesc.cc | 87 +++++++++++++++++++++++++++-------------------------
 tokeninput.h | 34 +++++++++++++++-----
 2 files changed, 72 insertions(+), 49 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index b1b33f3..e4d75f7 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -247,10 +247,40 @@ set<string> token_set(const string& s)
   return r;
 }
 
-void assign_enum_action(tokeninput& input, string prefix)
+// with input at a <, returns whether this opens a list of template arguments, in which case input
+// is moved to the closing >. Otherwise it is a less than operator, and input is left unchanged.
+bool skip_template_args(tokeninput& input)
+{
+  tokeninput::mark_t mark(input);
+  for (int angle_count=0; ; input.nexttok())
+    {
+      if (input.token=="<") angle_count++;
+      else if (input.token==">") angle_count--;
+      else if (input.token==">>") angle_count-=2;
+      else if (input.token=="(") gobble_delimited(input,"(",")");
+      else if (!isIdentifierChar(input.token[0]) && input.token!="::" && input.token!="," &&
+               input.token!="*" && input.token!="&" && input.token!="&&" &&
+               input.token!="()" && input.token!="..." && input.token!="[]")
+        break;
+      if (angle_count<=0)
+        {
+          // a template-id within an expression is followed by one of these
+          tokeninput::mark_t end(input);
+          input.nexttok();
+          bool isTemplate=angle_count==0 && strchr("({:;,",input.token[0]);
+          if (!isTemplate) break;
+          input=end;
+          return true;
+        }
+    }
+  input=mark;
+  return false;
+}
+
+void assign_enum_action(tokeninput& input, string prefix, bool in_template=false)
 {
   string enumname="enum ";
-  if (input.token=="class")
+  if (input.token=="class" || input.token=="struct")
     {
       input.nexttok();
       enumname+="class ";
@@ -269,17 +299,19 @@ void assign_enum_action(tokeninput& input, string prefix)
     {
       nested[prefix].push_back(bareEnumName);
       // load up the list of enum symbols
-      for ( ; input.token != ";"; input.nexttok())
-        {
-          if (input.token == "=" || input.token == "," || input.token=="}")
-            if (input.lasttoken!=",") //not sure if this is correct C++, but
-              //compilers accept blank enumerator-definitions
-              enum_keys[enumname].push_back(input.lasttoken);
-          if (input.token == "=") {
-            for (input.nexttok(); input.token!="," && input.token!="}";
-                 input.nexttok()); //skip value
+      for (input.nexttok(); input.token != "}"; input.nexttok())
+        if (isIdentifierStart(input.token[0]))
+          {
+            enum_keys[enumname].push_back(input.token);
+            //skip value
+            for (input.nexttok(); input.token!="," && input.token!="}"; input.nexttok())
+              if (input.token=="(") gobble_delimited(input,"(",")");
+              else if (input.token=="{") gobble_delimited(input,"{","}");
+              else if (input.token=="<") skip_template_args(input);
+            if (input.token=="}") break;
           }
-        }
+      // members of a template are dependent types, which specialisations cannot be deduced for
+      if (in_template) return;
       actionlist_t actionlist;
       if (typeName)
         actionlist.push_back(act_pair("","classdesc::enum_handle(arg)"));
@@ -317,35 +349,6 @@ string replaceShornTypes(const string& input, const string& shornType, const str
 }
 
 
-// with input at a <, returns whether this opens a list of template arguments, in which case input
-// is moved to the closing >. Otherwise it is a less than operator, and input is left unchanged.
-bool skip_template_args(tokeninput& input)
-{
-  tokeninput::mark_t mark(input);
-  for (int angle_count=0; ; input.nexttok())
-    {
-      if (input.token=="<") angle_count++;
-      else if (input.token==">") angle_count--;
-      else if (input.token==">>") angle_count-=2;
-      else if (input.token=="(") gobble_delimited(input,"(",")");
-      else if (!isIdentifierChar(input.token[0]) && input.token!="::" && input.token!="," &&
-               input.token!="*" && input.token!="&" && input.token!="&&" &&
-               input.token!="()" && input.token!="..." && input.token!="[]")
-        break;
-      if (angle_count<=0)
-        {
-          // a template-id within an expression is followed by one of these
-          tokeninput::mark_t end(input);
-          input.nexttok();
-          bool isTemplate=angle_count==0 && strchr("({:;,",input.token[0]);
-          if (!isTemplate) break;
-          input=end;
-          return true;
-        }
-    }
-  input=mark;
-  return false;
-}
 
 // skip over a bitfield specifier or initialiser, up to the ; or , that ends the declarator
 void skip_initialiser(tokeninput& input)
@@ -636,7 +639,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  if (isIdentifierStart(input.token[0]))  /* named enum */
             {
               if (!is_private)
-                assign_enum_action(input,prefix);
+                assign_enum_action(input,prefix,!targs.empty());
               else
                 {
                   // skip definition, if this is one
diff --git a/tokeninput.h b/tokeninput.h
index da1a448..926148b 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -304,19 +304,39 @@ string gobble_delimited(tokeninput& input, const char *left,
 string get_template_args(tokeninput& input)
 {
   string targs;
-  size_t angle_count=0;       
+  size_t angle_count=0, paren_count=0;
   do
     {
       /* strip out default arguments */
       if (input.token[0]=='=')
-        while (!strchr(">,",input.token[0]))
-          {
-            if (input.token[0]=='<') gobble_delimited(input,"<",">");
-            input.nexttok();
-          }
+        {
+          size_t depth=0;
+          for (;;)
+            {
+              input.nexttok();
+              if (input.token=="(") gobble_delimited(input,"(",")");
+              else if (input.token=="{") gobble_delimited(input,"{","}");
+              else if (input.token=="<") depth++;
+              else if (input.token==">" || input.token==">>")
+                {
+                  if (input.token.length()>depth) 
+                    {
+                      // what closes the template argument list itself
+                      input.token.erase(0,depth);
+                      break;
+                    }
+                  depth-=input.token.length();
+                }
+              else if (input.token=="," && depth==0) break;
+            }
+        }
       targs += input.token;
       if (input.token!=".") targs+=" ";
-      if (input.token[0]=='<') angle_count+=input.token.length();
+      // operators within parentheses do not delimit template arguments
+      if (input.token=="(") paren_count++;
+      else if (input.token==")") paren_count--;
+      else if (paren_count>0);
+      else if (input.token[0]=='<') angle_count+=input.token.length();
       else if (input.token[0]=='>') 
         angle_count-=input.token.length();
       input.nexttok();
-- 
2.43.0


From d6e5e3e2f62f4d00952d1a90b263fe182483065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 48/66] fix: function bodies at namespace scope are skipped,
 typedef'd structs belong to their namespace, bases may begin with ::

---
 classdesc.cc | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index e4d75f7..ee43bbc 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -321,7 +321,7 @@ void assign_enum_action(tokeninput& input, string prefix, bool in_template=false
     }
 }
   
-void parse_typedef(tokeninput& input, string prefix="");
+void parse_typedef(tokeninput& input, string prefix="", bool in_template=false);
 void assign_class_action(tokeninput& input, string prefix,
 			 string template_args, string classargs, 
                          bool is_private);
@@ -490,7 +490,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  if (!respect_private || !is_private)
             actionlist.push_back
               (act_pair("", 
-                        "classdesc::base_cast<"+
+                        string("classdesc::base_cast<")+
+                        (baseclass[0]==':'? " ": "")+ // <: is a digraph
                         // look for member qualification in a template context
                         string(typename_needed? "typename ": "")+
                         baseclass+" >::cast("+varname+")",
@@ -515,7 +516,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
   for  (input.nexttok(); input.token!="}"; input.nexttok() )
     {
       // const and static apply to all members declared together, and to no others
-      if (input.lasttoken==";") reg.is_static=reg.is_const=false;
+      if (input.lasttoken==";") reg.is_static=reg.is_const=is_template=false;
 
       // handle qt macros
       if (qt)
@@ -563,7 +564,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
           if (isIdentifierStart(input.lasttoken[0]) && !is_private) //ignore any strange function type typedefs
             nested[prefix].push_back(input.lasttoken);
           input=mark;
-	  parse_typedef(input,prefix);
+	  parse_typedef(input,prefix,!targs.empty());
           while (input.token!=";") input.nexttok();
 	  continue;
 	}
@@ -631,6 +632,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 #endif
 	    }
 	  targs1.erase();
+          is_template=false;
 	  continue;
 	}
       if (input.token=="enum")
@@ -859,6 +861,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                     al=replaceShornTypes(al,sprefix,fullType);
                   }
 
+                // const qualifies what a method returns
+                if (!is_pointer) reg.is_const=false;
                 if (objc) { action += ", \"" + rType + "\", " + "\"" + argList + "\""; }
                 rType.erase();
                 if (overloadingAllowed && !reg.is_private)
@@ -966,7 +970,7 @@ string get_typedef_name(tokeninput& input)
   return input.lasttoken;
 }
 
-void parse_typedef(tokeninput& input, string prefix)
+void parse_typedef(tokeninput& input, string prefix, bool in_template)
 {
   actionlist_t actionlist;
   input.nexttok();
@@ -1010,15 +1014,20 @@ void parse_typedef(tokeninput& input, string prefix)
 	    }
 	}
       input=mark;
+      size_t outerActions=actions.size();
       while (!strchr(";:{",input.token[0])) input.nexttok();
       // if a struct or class name has been provided, use that in
       // preference to the typedef name - see ticket #11
       if (!structname.empty()) name=prefix+structname;
       actionlist=parse_class(input,is_class,name+"::");
       type_defined.defined(structname);
-      actions.push_back(action_t(name,actionlist,namespace_name));
+      // members of a template are dependent types, which specialisations cannot be deduced for
+      if (in_template)
+        actions.erase(actions.begin()+outerActions,actions.end());
+      else
+        actions.push_back(action_t(name,actionlist,namespace_name));
     }
-  else if (input.token=="union")
+  else if (input.token=="union" && !in_template)
     {
       actionlist.push_back(
 		     act_pair("","classdesc::is_array(),(char&)arg,1,sizeof(arg)"));
@@ -1419,7 +1428,15 @@ int main(int argc, char* argv[])
             }
 	  /* end namespace support */
 
-	  if (input.token=="typedef") parse_typedef(input);
+	  else if (input.token=="{" && input.lasttoken[0]!='"')
+            /* function bodies may contain local classes, which aren't described. extern "C" blocks are not functions. */
+            {
+              tokeninput::mark_t here(input);
+              try {gobble_delimited(input,"{","}");}
+              catch (tokeninput::eof) {input=here;}
+            }
+
+	  if (input.token=="typedef") parse_typedef(input,namespace_name=="::"? "": namespace_name);
 	  if (input.token=="template")
 	    {
 	      input.nexttok();
-- 
2.43.0


From 0f945d28d2aea37aa46a2d43a9936f12c1440e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 49/66] fix: insert-friend inserts into the classes that need
 it, nested ones included, and nowhere else

---
 insert-friend.cc | 218 +++++++++++++++--------------------------------
 tokeninput.h     |   6 +-
 2 files changed, 74 insertions(+), 150 deletions(-)

diff --git a/insert-friend.cc b/insert-friend.cc
index 7573b60..c9cbd4d 100644
--- a/insert-friend.cc
+++ b/insert-friend.cc
@@ -23,174 +23,98 @@ friend void pack(pack_t *,eco_string,type&);
 using namespace std;
 #include "tokeninput.h"
 
-/* mapping of template arguments as how insert-friend sees them, to
-   how they should really be */
-hash_map<string,string> targ_map;
-
-/* create list of arguments used in a template */
-string extract_targs(string targs)
-{
-  if (targs.empty()) return targs; /* nothing to do */
-  string r="<", tok;
-  const char *targsptr=targs.c_str()+1;
-  for (; *targsptr; targsptr++)
-    {
-      if (isalnum(*targsptr)||*targsptr=='_') tok+=*targsptr;
-      else  
-	{
-	  while (isspace(*targsptr)) targsptr++;/* skip any spaces */
-	  if (*targsptr=='<')  /* skip over stuff between <..> */
-	    {
-	      int angle_count=1;
-	      while (angle_count)
-		{
-		  targsptr++;
-		  if (*targsptr=='<') angle_count++;
-		  else if (*targsptr=='>') angle_count--;
-		}
-	    }
-	  else if (*targsptr=='=') 
-	    {
-	      for (int angle_count=0; 
-		   !strchr(">,",*(targsptr)) || angle_count; targsptr++)
-		if (*targsptr=='<') angle_count++;
-		else if (*targsptr=='>') angle_count--;
-	      r+=tok+*targsptr;
-	    }
-	  else if (strchr(">,",*targsptr))  r+=tok+*targsptr;
-	  else if (isalnum(*targsptr)||*targsptr=='_') 
-	    targsptr--;  /* rewind ptr so next loop starts token */
-	  tok.erase();
-	}
-    }
-  return r;
-}
-
-void deal_with_commas(string& classname)
+/* a class whose definition is being read */
+struct Class
 {
-  if (classname.find(',')!=classname.npos) 
-    {       // must deal with typenames containing ','
-      static int cnt=0;
-      char tname[20];
-      sprintf(tname,"___ecotif%-10d",cnt++);
-      printf("typedef %s %s;\n",classname.c_str(),tname);
-      classname=tname;
-    }
-}
-
-void insert_friend(tokeninput& input, string prefix, string targs, 
-		   int is_struct)
+  string name;   // empty if anonymous
+  bool inserted; // no (further) friend declaration is needed
+  Class(const string& name): name(name), inserted(name.empty()) {}
+  void insert_friend()
+  {
+    if (inserted) return;
+    /* within a template, or a specialisation, the bare name refers to the type being defined */
+    printf("\nCLASSDESC_ACCESS(%s);\n",name.c_str());
+    inserted=true;
+  }
+};
+
+/* parse up to the { of a class definition, if that is what this is. Returns true if so */
+bool parse_class_head(tokeninput& input, vector<Class>& scopes)
 {
-  string classname = prefix + input.token;
+  bool is_class=input.token=="class";
+  string name;
   input.nexttok();
-  if (input.token=="<") /* template specialisation */
-    classname += get_template_args(input);
-  if (input.token=="final") input.nexttok();
-  if (strchr(":{",input.token[0]))
+#if (defined(__osf__) && !defined(__GNUC__))
+  /* handle a rogue wave hack for Windoze support - aarrgh! */
+  if (input.token.substr(0,12)=="_RWSTDExport") input.nexttok();
+#endif
+  if (isalpha(input.token[0])) 
     {
-      for (;input.token!="{"; input.nexttok() );
-      /* structs are complicated by the possibility of protected and
-         private members - if none, then no friend statement is
-         necessary */
-      if (is_struct)
-	{	
-	  int numbraces=0;
-	  for (input.nexttok(); 
-	       input.token!="}" || numbraces>0; 
-	       input.nexttok() )
-	    {
-	      if (input.token=="{") numbraces++; 
-	      if (input.token=="}") numbraces--;
-	      if (input.token==":" && 
-		  (input.lasttoken=="protected" || input.lasttoken=="private"))
-		goto really_insert_friend;
-	    }
-	  return;   
-	  /* struct has no protected or private members, nothing to do */
-	}
-
-    really_insert_friend:
-      puts("");
-      /* check if typename is mapped to something else */
-      if (targ_map.count(classname)) classname=targ_map[classname];
-      deal_with_commas(classname);
-      if (targs=="")
-	printf("CLASSDESC_ACCESS(%s);\n",classname.c_str());
-      else
-	printf("CLASSDESC_ACCESS_TEMPLATE(%s);\n",classname.c_str());
-      /* emit a CLASSDESC_FDEF to handle g++'s requirements */
-      if (targs.size())
-	{
-	  /* advance to end of class definition */
-	  if (input.token!="}") gobble_delimited(input,"{","}");
-	  printf("\n#define CLASSDESC_TDEC template%s\n",targs.c_str());
-	  if (classname.find('<')==classname.npos) 
-	    classname += extract_targs(targs);
-	  deal_with_commas(classname);
-	  printf("CLASSDESC_FDEF(%s);\n",classname.c_str());
-	}
+      name=input.token;
+      input.nexttok();
+      if (input.token=="<") /* template specialisation */
+        get_template_args(input);
+      if (input.token=="final") input.nexttok();
     }
+  if (input.token!=":" && input.token!="{") return false;
+  Class c(name);
+  /* structs are complicated by the possibility of protected and
+     private members and bases - if none, then no friend statement is
+     necessary */
+  bool need_friend=is_class;
+  for (; input.token!="{"; input.nexttok())
+    {
+      if (input.token==";") return false; // bitfield
+      if (input.token=="private" || input.token=="protected") need_friend=true;
+    }
+  if (need_friend) c.insert_friend();
+  scopes.push_back(c);
+  return true;
 }
 
-
 int main(int argc, char* argv[])
 {
   
   tokeninput input(stdin,stdout);
 
-  string targs;
-
-  while (argc>1 && argv[1][0]=='-')  /* process options */
-    {
-//      if (strcmp(argv[1],"-targ_map")==0)  /* read in targ map */
-//	{
-//	  ifstream targmapfile(argv[2]);
-//	  string guessed_type, real_type;
-//	  while (targmapfile>>guessed_type>>real_type)
-//	    targ_map[guessed_type]=real_type;	
-//	  argc-=2; argv+=2;
-//	}
-    }
-  
+  vector<Class> scopes; // namespaces etc are represented as anonymous classes
+  bool scope_next=false;  // a namespace definition has been started
 
   try
     {
-      for (;;)
+      for (;; input.nexttok())
 	{
 	  if (input.token=="template")
 	    {
 	      input.nexttok();
-	      if (input.token!="<") /* g++'s explicit instantiation syntax */
-		{ /* we must parse until end of declaration */
-		  for (int nbraces=0; nbraces>0 || input.token!=";"; 
-		       input.nexttok())
-		    {
-		      if (input.token=="{") nbraces++;
-		      if (input.token=="}") nbraces--;
-		    }
-		  continue;
-		}
-	      targs=get_template_args(input);
-	      
-	      if (input.token!="class" && input.token!="struct") 
-		{
-		  targs.erase();  /* not a template class */
-		  continue;
-		}
+	      if (input.token=="<") get_template_args(input);
+              else continue; /* explicit instantiation syntax */
 	    }
+          if (input.token=="enum")
+            {
+              // don't confuse enum class with class
+              input.nexttok();
+              if (input.token=="class" || input.token=="struct") input.nexttok();
+            }
+          if (input.token=="namespace") scope_next=true;
  	  if ((input.token=="class" || input.token=="struct") &&
-	      input.lasttoken!="friend") 
-	    {
-	      input.nexttok();
-#if (defined(__osf__) && !defined(__GNUC__))
-	      /* handle a rogue wave hack for Windoze support - aarrgh! */
-	      if (input.token.substr(0,12)=="_RWSTDExport") input.nexttok();
-#endif
-	      if (isalpha(input.token[0]))  /* named class */
-		insert_friend(input,"",targs,input.lasttoken=="struct");
-	      targs.erase();
-	    }
-	  input.nexttok();
+	      input.lasttoken!="friend" && parse_class_head(input, scopes)) 
+            continue;
+          if (input.token==";") scope_next=false; // using namespace, or alias
+          if (input.token=="{")
+            {
+              if (scope_next || input.lasttoken[0]=='"' /* extern "C" */)
+                scopes.push_back(Class(""));
+              else
+                /* function bodies, enums, unions and initialisers */
+                gobble_delimited(input,"{","}");
+              scope_next=false;
+            }
+          else if (input.token=="}" && scopes.size()>0) 
+            scopes.pop_back();
+          else if (input.token==":" && scopes.size()>0 && 
+                   (input.lasttoken=="protected" || input.lasttoken=="private"))
+            scopes.back().insert_friend();
 	}
     }
 
diff --git a/tokeninput.h b/tokeninput.h
index 926148b..fa8567b 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -27,6 +27,8 @@ class tokeninput
   int lineno;
   char getnextc() 
   {
+    // copy characters as they're consumed, c itself has yet to be
+    if (outputstream && c!=EOF) fputc(c,outputstream); 
     c=fgetc(inputstream); 
     switch (c)
       {
@@ -49,15 +51,13 @@ class tokeninput
         throw eof();
         break;
       }
-    if (outputstream &&!feof(inputstream)) 
-      fputc(c,outputstream); 
     return c;
   }
 public:
   struct eof {};  /* signal end of input */
   string token, lasttoken, tokenBeforeLast;
   tokeninput(FILE* in, FILE* out=NULL) 
-  {inputstream=in; outputstream=out; getnextc(); lineno=1;}
+  {inputstream=in; outputstream=out; c=EOF; getnextc(); lineno=1;}
 
   int line() const {return lineno;}
 
-- 
2.43.0


From 407eed1be26b385b6b4695a970c053f0fdf44394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 50/66] fix: descriptors of enums with an underlying type
 access that type, rather than an int in its place

---
 classdesc.cc | 6 ++++--
 classdesc.h  | 9 ++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index ee43bbc..8650b33 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -289,7 +289,8 @@ void assign_enum_action(tokeninput& input, string prefix, bool in_template=false
   string bareEnumName=input.token;
   input.nexttok();
 
-  if (input.token==":") // type specification supplied, so skip it
+  bool typed=input.token==":";
+  if (typed) // type specification supplied, so skip it
     while (!strchr(";{",input.token[0])) input.nexttok();
 
   if (input.token==";") // opaque declaration, there is no declarator
@@ -316,7 +317,8 @@ void assign_enum_action(tokeninput& input, string prefix, bool in_template=false
       if (typeName)
         actionlist.push_back(act_pair("","classdesc::enum_handle(arg)"));
       else
-        actionlist.push_back(act_pair("","(int&)arg"));
+        // the size of an enum with a specified type need not be that of an int
+        actionlist.push_back(act_pair("",typed? "classdesc::enum_ref(arg)": "(int&)arg"));
       actions.push_back(action_t(enumname,actionlist,namespace_name));
     }
 }
diff --git a/classdesc.h b/classdesc.h
index 7637256..a68182b 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -796,7 +796,7 @@ namespace classdesc
     }
     std::string operator()(T val) const {return operator()(int(val));}
 
-    bool has(T val) const {return v2s.count(val);}
+    bool has(T val) const {return v2s.count(int(val));}
     bool has(const std::string& s) const {return s2v.count(s);}
     
     // use these to iterate of the enum's keys
@@ -921,6 +921,13 @@ namespace classdesc
   };
 
   
+#if defined(__cplusplus) && __cplusplus>=201103L
+  /// returns \a x as a reference to its underlying integral type
+  template <class E>
+  typename std::underlying_type<typename remove_const<E>::type>::type& enum_ref(E& x)
+  {return (typename std::underlying_type<typename remove_const<E>::type>::type&)(x);}
+#endif
+
   /** support for constant sized arrays  */
   class is_array {};
 
-- 
2.43.0


From e0666ef73354d3dcb3031589f180c7e2be0fe583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 51/66] fix: enum values without a symbol are written as
 integers, rather than as an empty string

---
 classdesc.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index a68182b..03d2d54 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -874,15 +874,32 @@ namespace classdesc
   public:
     T& ref;
     Enum_handle(T& arg): ref(arg) {}
+    /// symbolic form, or the decimal value if there is no such symbol
     operator std::string() const {
-      return enumKey<typename remove_const<T>::type>(static_cast<int>(ref));
+      std::string r=enumKey<typename remove_const<T>::type>(static_cast<int>(ref));
+      if (r.empty())
+        {
+          std::ostringstream os;
+          os<<static_cast<int>(ref);
+          r=os.str();
+        }
+      return r;
     }
     Enum_handle(const Enum_handle& x): ref(x.ref) {}
     operator int() const {return static_cast<int>(ref);}
     const Enum_handle& operator=(T x) {ref=x; return *this;}
     const Enum_handle& operator=(int x) {ref=T(x); return *this;}
     const Enum_handle& operator=(const std::string& x) 
-    {ref=T(enumKey<T>(x)); return *this;}
+    {
+      // symbols never start with a digit or sign
+      std::istringstream is(x);
+      int value;
+      if (is>>value)
+        ref=T(value);
+      else
+        ref=T(enumKey<T>(x));
+      return *this;
+    }
   };
 
   template <class T>
-- 
2.43.0


From c044f6d8a77c220c125a4b4056a3f6d4f8750b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 52/66] fix: typedef'd enums have descriptors, typedef names
 may begin with class, struct, enum or typename

---
 classdesc.cc | 55 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 8650b33..e5284e6 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -183,6 +183,7 @@ struct type_defined_t: hash_map<string,int>
 } type_defined;
 
 std::map<std::string, std::vector<std::string> > enum_keys;
+std::set<std::string> typedef_enums; // enums only known by a typedef
 
 // insert a typename keyword on types with :: qualification
 string insertTypename(string type)
@@ -277,7 +278,8 @@ bool skip_template_args(tokeninput& input)
   return false;
 }
 
-void assign_enum_action(tokeninput& input, string prefix, bool in_template=false)
+// name need only be given if the enum doesn't have one of its own
+void assign_enum_action(tokeninput& input, string prefix, bool in_template=false, string name="")
 {
   string enumname="enum ";
   if (input.token=="class" || input.token=="struct")
@@ -285,9 +287,13 @@ void assign_enum_action(tokeninput& input, string prefix, bool in_template=false
       input.nexttok();
       enumname+="class ";
     }
-  enumname+=prefix + input.token;
-  string bareEnumName=input.token;
-  input.nexttok();
+  if (name.empty())
+    {
+      name=input.token;
+      input.nexttok();
+    }
+  enumname+=prefix + name;
+  string bareEnumName=name;
 
   bool typed=input.token==":";
   if (typed) // type specification supplied, so skip it
@@ -323,7 +329,7 @@ void assign_enum_action(tokeninput& input, string prefix, bool in_template=false
     }
 }
   
-void parse_typedef(tokeninput& input, string prefix="", bool in_template=false);
+void parse_typedef(tokeninput& input, string prefix="", bool in_template=false, bool is_private=false);
 void assign_class_action(tokeninput& input, string prefix,
 			 string template_args, string classargs, 
                          bool is_private);
@@ -566,7 +572,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
           if (isIdentifierStart(input.lasttoken[0]) && !is_private) //ignore any strange function type typedefs
             nested[prefix].push_back(input.lasttoken);
           input=mark;
-	  parse_typedef(input,prefix,!targs.empty());
+	  parse_typedef(input,prefix,!targs.empty(),is_private);
           while (input.token!=";") input.nexttok();
 	  continue;
 	}
@@ -972,7 +978,7 @@ string get_typedef_name(tokeninput& input)
   return input.lasttoken;
 }
 
-void parse_typedef(tokeninput& input, string prefix, bool in_template)
+void parse_typedef(tokeninput& input, string prefix, bool in_template, bool is_private)
 {
   actionlist_t actionlist;
   input.nexttok();
@@ -1044,6 +1050,26 @@ void parse_typedef(tokeninput& input, string prefix, bool in_template)
 	  actions.push_back(action_t(prefix+input.lasttoken,actionlist,namespace_name));
 	}
      }
+  else if (input.token=="enum" && !in_template && !is_private)
+    {
+      if (prefix.empty()) prefix=namespace_name;
+      input.nexttok();
+      if (isIdentifierStart(input.token[0]))
+        assign_enum_action(input,prefix);
+      else /* unnamed, so known by its typedef */
+        {
+          tokeninput::mark_t mark=input;
+          try 
+            {
+              string name=get_typedef_name(input);
+              input=mark;
+              typedef_enums.insert("enum "+prefix+name);
+              assign_enum_action(input,prefix,false,name);
+            }
+          catch (is_ptr) {}
+        }
+      while (input.token!=";") input.nexttok();
+    }
   else
       while (input.token!=";") input.nexttok();
 #if 0  /* what was I thinking here !!! */
@@ -1214,11 +1240,11 @@ struct GuardMacro
 
 string type_qualifier(const string& type)
 {
-  if (leadeq(type,"class")) return "class";
-  if (leadeq(type,"struct")) return "struct";
-  if (leadeq(type,"enum class")) return "enum class";
-  if (leadeq(type,"enum")) return "enum";
-  if (leadeq(type,"typename")) return "typename";
+  if (leadeq(type,"class ")) return "class";
+  if (leadeq(type,"struct ")) return "struct";
+  if (leadeq(type,"enum class ")) return "enum class";
+  if (leadeq(type,"enum ")) return "enum";
+  if (leadeq(type,"typename ")) return "typename";
   return string();
 }
 
@@ -1552,7 +1578,7 @@ int main(int argc, char* argv[])
               }
             
             /* For enums, print out a value name table */
-            if (leadeq(actions[i].type,"enum")) 
+            if (leadeq(actions[i].type,"enum ")) 
               {
                 vector<string>& keys=enum_keys[actions[i].type];
                 {
@@ -1562,7 +1588,7 @@ int main(int argc, char* argv[])
                       printf("template <> EnumKey enum_keysData< %s >::keysData[]=\n {\n",n.c_str());
                       // enum constant qualifier - set blank if enum is global ns
                       string k;
-                      if (leadeq(actions[i].type,"enum class"))
+                      if (leadeq(actions[i].type,"enum class "))
                         k=n; // newer enum class constants are in their own namespace
                       else // old enum constants are in the external namespace
                         k=n.find("::")==string::npos? "":
@@ -1684,6 +1710,7 @@ int main(int argc, char* argv[])
                 string type_arg_name;
                 type_arg_name = (type_qualifier(actions[i].type)=="enum class")?
                   "enum": type_qualifier(actions[i].type);
+                if (typedef_enums.count(actions[i].type)) type_arg_name.erase();
                 type_arg_name+=" "+/*" ::"+actions[i].namespace_name+
                                  (actions[i].namespace_name.size()?"::":"") +*/ 
                   without_type_qualifier(actions[i].type);
-- 
2.43.0


From 54cf1bbae03ca4a818bc940edf3a4de3acdbaff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:50 +0000
Subject: [PATCH 53/66] fix: type names of templates include the values of
 their arguments, and the arguments of specialisations

---
 classdesc.cc | 113 +++++++++++++++++++++++++++++++++------------------
 classdesc.h  |  39 +++++++++++++++++-
 2 files changed, 111 insertions(+), 41 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index e5284e6..1edff38 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -75,6 +75,8 @@ struct act_pair
 
 typedef vector<act_pair> actionlist_t;
 
+string extract_targs(string targs);
+
 struct action_t
 {
   string type, templ, tnTempl, namespace_name;
@@ -88,48 +90,79 @@ struct action_t
     // ignore the problem in a syntactically valid way
     if (templ.find("template")!=string::npos)
       tnTempl=templ;
-    else
-      // extract template typename parameters from templ, and replace with typename calls
-      for (size_t i=0; i<templ.size(); )
+    else if (!templ.empty())
+      tnTempl=argumentNames();
+  }
+
+private:
+  // split the contents of an angle bracketed list into its items
+  static vector<string> split(const string& x)
+  {
+    vector<string> r(1);
+    int depth=0;
+    for (size_t i=x.find('<')+1; i<x.rfind('>'); ++i)
+      if (x[i]==',' && depth==0)
+        r.push_back("");
+      else
         {
-          // pick first of class or template
-          size_t j=templ.find("class",i);
-          if (j==string::npos) j=templ.size();
-          size_t jj=templ.find("typename",i);
-          if (jj!=string::npos && jj<j)
-            j=jj;
-          tnTempl+=te.substr(i,j-i);
-        
-          j=templ.find_first_of(" \t.",j);  // . for handling variadic arguments
-          if (j==string::npos) break; // we're done
-          j=templ.find_first_not_of(" \t",j);
-          bool variadic=templ.substr(j,3)=="...";
-          j=templ.find_first_not_of(" \t.",j);  // . for handling variadic arguments
-          if (j==string::npos) break; // we're done
-          int braces=0;
-          // grab out full type name
-          for (i=j; i<templ.size(); ++i)
-            {
-              switch(templ[i])
-                {
-                case '<':
-                  ++braces; continue;
-                case '>':
-                  if (--braces==0) break;
-                  continue;
-                default:
-                  if (isalnum(templ[i]) || templ[i]=='_' || braces>0)
-                    continue;
-                  else
-                    break;
-                }
-              break;
-            }
-          if (variadic)
-            tnTempl+="\"+varTn<"+templ.substr(j,i-j)+"...>()+\"";
-          else
-            tnTempl+="\"+typeName<"+templ.substr(j,i-j)+">()+\"";
+          if (strchr("<({[",x[i])) depth++;
+          if (strchr(">)}]",x[i])) depth--;
+          r.back()+=x[i];
         }
+    return r;
+  }
+
+  static string trim(string x)
+  {
+    x.erase(0,x.find_first_not_of(" \t\n"));
+    x.erase(x.find_last_not_of(" \t\n")+1);
+    return x;
+  }
+
+  // code generating the names of this type's template arguments, with
+  // the quote marks appropriate for its use within a string literal
+  string argumentNames() const
+  {
+    vector<string> params=split(templ), args;
+    set<string> values; // parameters that are not types
+    for (size_t i=0; i<params.size(); ++i)
+      {
+        string p=params[i].substr(0,params[i].find('='));
+        string::size_type ellipsis=p.find("...");
+        if (ellipsis!=string::npos) p.replace(ellipsis,3," ");
+        p=trim(p);
+        string::size_type nameStart=p.size();
+        while (nameStart>0 && isIdentifierChar(p[nameStart-1])) nameStart--;
+        string name=p.substr(nameStart), kind=trim(p.substr(0,nameStart));
+        if (kind!="class" && kind!="typename") values.insert(name);
+        args.push_back(name+(ellipsis!=string::npos? "...": ""));
+      }
+
+    if (type.find('<')!=string::npos && type!=type.substr(0,type.find('<'))+extract_targs(templ))
+      args=split(type); // partial specialisation
+
+    string r="< ";
+    for (size_t i=0; i<args.size(); ++i)
+      {
+        string a=trim(args[i]);
+        bool pack=a.size()>3 && a.substr(a.size()-3)=="...";
+        string bare=trim(pack? a.substr(0,a.size()-3): a);
+        bool value=values.count(bare) || strchr("-!~('\"",bare[0]) || isdigit(bare[0]) ||
+          bare=="true" || bare=="false";
+        if (pack && i>0) // separator only needed if there is something to separate
+          r+="\"+classdesc::"+string(value? "varValueArgs(": "varTnArgs<")+bare+(value? "...)": "...>()")+"+\"";
+        else
+          {
+            if (i>0) r+=" , ";
+            if (pack)
+              r+="\"+classdesc::"+string(value? "varValue(": "varTn<")+bare+(value? "...)": "...>()")+"+\"";
+            else if (value)
+              r+="\"+classdesc::valueName("+bare+")+\"";
+            else
+              r+="\"+typeName<"+bare+(bare[bare.size()-1]=='>'? " ": "")+">()+\"";
+          }
+      }
+    return r+" > ";
   }
 };
 
diff --git a/classdesc.h b/classdesc.h
index 03d2d54..2bcea3d 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -581,8 +581,45 @@ namespace classdesc
 
 #if defined(__cplusplus) && __cplusplus>=201103L
   // handle variadic arguments
-  template <class T, class... A> std::string varTn() {return typeName<T>()+","+varTn<A...>();}
+  template <class... A>
+  typename std::enable_if<sizeof...(A)==0,std::string>::type varTn() {return "";}
   template <class T> std::string varTn() {return typeName<T>();}
+  template <class T, class U, class... A> std::string varTn()
+  {return typeName<T>()+","+varTn<U,A...>();}
+  // as above, preceded by a separator if not empty
+  template <class... A> std::string varTnArgs()
+  {return sizeof...(A)? " , "+varTn<A...>(): "";}
+#endif
+
+  /// @{ name of a template argument that is a value
+  template <class T>
+  typename enable_if<is_integral<T>, std::string>::T valueName(T x)
+  {
+    std::ostringstream os;
+    os << +x; // promote, as we don't want characters
+    return os.str();
+  }
+  inline std::string valueName(bool x) {return x? "true": "false";}
+  template <class T>
+  typename enable_if<is_enum<T>, std::string>::T valueName(T x)
+  {
+    std::ostringstream os;
+    os << "(" << typeName<T>() << ")" << int(x);
+    return os.str();
+  }
+  template <class T>
+  typename enable_if<And<Not<is_integral<T> >, Not<is_enum<T> > >, std::string>::T
+  valueName(T x) {return "<value>";}
+  /// @}
+
+#if defined(__cplusplus) && __cplusplus>=201103L
+  inline std::string varValue() {return "";}
+  template <class T, class... A> std::string varValueArgs(T x, A... a);
+  inline std::string varValueArgs() {return "";}
+  template <class T, class... A> std::string varValue(T x, A... a)
+  {return valueName(x)+varValueArgs(a...);}
+  template <class T, class... A> std::string varValueArgs(T x, A... a)
+  {return " , "+varValue(x,a...);}
 #endif
   
   ///@{ a string representation of the type
-- 
2.43.0


From 23e5cbe733273326167315fe5912907cee6a7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 54/66] fix: type names of const pointers, multidimensional
 arrays, rvalue references, wchar_t, long long and auto_ptr are theirs

---
 classdesc.h         | 26 +++++++++++++++++++++++---
 typeName_epilogue.h | 15 ++++++++++++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index 2bcea3d..50af133 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -626,6 +626,7 @@ namespace classdesc
   template <> inline std::string typeName<void>()    {return "void";}
   template <> inline std::string typeName<bool>()    {return "bool";}
   template <> inline std::string typeName<char>()    {return "char";}
+  template <> inline std::string typeName<wchar_t>() {return "wchar_t";}
   template <> inline std::string typeName<short>() {return "short";}
   template <> inline std::string typeName<int>()   {return "int";}
   template <> inline std::string typeName<long>()  {return "long";}
@@ -652,6 +653,10 @@ namespace classdesc
 
   // handle C++ new fixed width types
 #if __cplusplus>=201103L
+#ifndef HAVE_LONGLONG
+  template <> inline std::string typeName<long long>()                {return "long long";}
+  template <> inline std::string typeName<unsigned long long>()       {return "unsigned long long";}
+#endif
   template <> inline std::string typeName<char16_t>()    {return "char16_t";}
   template <> inline std::string typeName<char32_t>()    {return "char32_t";}
 #endif
@@ -697,7 +702,7 @@ namespace classdesc
   template <class T> struct tn<std::auto_ptr<T> >
   {
     static std::string name()
-    {return "auto_ptr<"+typeName<T>()+">";}
+    {return "std::auto_ptr<"+typeName<T>()+">";}
   };
 #if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
 #pragma GCC diagnostic pop
@@ -966,10 +971,25 @@ namespace classdesc
   
   template <class T,int n> struct tn<T [n]>
   {
-    static std::string name()
+    static std::string name() {return elementName()+bounds();}
+    static std::string elementName() {return typeName<T>();}
+    static std::string bounds()
+    {
+      std::ostringstream os;
+      os << "["<<n<<"]";
+      return os.str();
+    }
+  };
+
+  // the first bound of a multidimensional array comes first
+  template <class T,int n,int m> struct tn<T [n][m]>
+  {
+    static std::string name() {return elementName()+bounds();}
+    static std::string elementName() {return tn<T[m]>::elementName();}
+    static std::string bounds()
     {
       std::ostringstream os;
-      os << typeName<T>()<<"["<<n<<"]";
+      os << "["<<n<<"]"<<tn<T[m]>::bounds();
       return os.str();
     }
   };
diff --git a/typeName_epilogue.h b/typeName_epilogue.h
index d5768a9..8aa947d 100644
--- a/typeName_epilogue.h
+++ b/typeName_epilogue.h
@@ -13,6 +13,10 @@
 
 namespace classdesc
 {
+  // const types, other than arrays, whose elements are const rather
+  template <class T> struct is_const_object: public is_const<T> {};
+  template <class T, int n> struct is_const_object<const T[n]>: public false_type {};
+  
   // generically handle new integral types
   template <class T> typename 
   enable_if< Not<is_const<T> >,std::string>::T  
@@ -38,15 +42,20 @@ namespace classdesc
   template <class T> typename
   enable_if<
     And<
-      And<Not<is_const<T> >,Not<is_integral<T> > >,
+      And<Not<is_const_object<T> >,Not<is_integral<T> > >,
       Not<is_function<T> >
       >,std::string>::T
   typeNamep() {return tn<T>::name();}
 
   template <class T> typename
-  enable_if<is_const<T>,std::string>::T
+  enable_if<And<is_const_object<T>,Not<is_pointer<T> > >,std::string>::T
   typeNamep() {return "const "+typeName<typename remove_const<T>::type>();}
 
+  // it's the pointer that's const, not what it points to
+  template <class T> typename
+  enable_if<And<is_const_object<T>,is_pointer<T> >,std::string>::T
+  typeNamep() {return typeName<typename remove_const<T>::type>()+" const";}
+
   template <class T>
   typename enable_if<And<Not<is_function<T> >,Not<is_member_function_pointer<T> > >,  std::string>::T
   typeName() {return typeNamep<T>();}
@@ -55,7 +64,7 @@ namespace classdesc
   template <class T>
   struct tn<T&&>
   {
-    static std::string name() {return typeName<T>();}
+    static std::string name() {return typeName<T>()+"&&";}
   };
 #endif
 }
-- 
2.43.0


From dbf6115f2644e08a897a8c23534edd015f4e1796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 55/66] fix: type names of pointers to void compile in C++17

---
 typeName_epilogue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typeName_epilogue.h b/typeName_epilogue.h
index 8aa947d..a492971 100644
--- a/typeName_epilogue.h
+++ b/typeName_epilogue.h
@@ -32,8 +32,9 @@ namespace classdesc
   typeNamep() {return integralTypeName<T>();}
 
 #if defined(__cplusplus) && __cplusplus>=201103L  
+  // iterators of other types than pointers, whose names are those of what they point to
   template <class T>
-  struct tn<T, void_t<typename std::iterator_traits<T>::value_type>>
+  struct tn<T, void_t<typename std::iterator_traits<typename std::conditional<is_pointer<T>::value,void,T>::type>::value_type>>
   {
     static std::string name() {return "iterator";}
   };
-- 
2.43.0


From 97388d060a453f9db4fbeb888999ed667a5a4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 56/66] fix: containers read through BinStream are replaced,
 not added to; std::array and vector<bool> are streamed

---
 pack_base.h | 23 ++++++++++++++++++++++-
 pack_stl.h  | 22 ++++++++++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index c2ac91e..0be3729 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -419,6 +419,7 @@ namespace classdesc
       size_t s;
       (*this)>>s;
       typename T::value_type v;
+      o.clear();
       for (size_t i=0; i<s; ++i)
         {
           (*this)>>v;
@@ -434,6 +435,7 @@ namespace classdesc
       size_t s;
       (*this)>>s;
       typename T::value_type v;
+      o.clear();
       for (size_t i=0; i<s; ++i)
         {
           (*this)>>v;
@@ -448,7 +450,26 @@ namespace classdesc
 
     template <class T, class A> 
     inline BinStream& operator>>(std::vector<T,A>& o);
-    
+
+    /// vector<bool> does not store bools
+    template <class A> 
+    inline BinStream& operator<<(const std::vector<bool,A>& o);
+
+    template <class A> 
+    inline BinStream& operator>>(std::vector<bool,A>& o);
+
+#if defined(__cplusplus) && __cplusplus>=201103L
+    /// the size of a std::array is fixed
+    template <class T, std::size_t N> 
+    BinStream& operator>>(std::array<T,N>& o)
+    {
+      size_t s;
+      (*this)>>s;
+      if (s!=N) throw pack_error("array of a different size");
+      for (auto& i: o) (*this)>>i;
+      return *this;
+    }
+#endif
   };
 
   /**
diff --git a/pack_stl.h b/pack_stl.h
index 142860f..494a524 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -110,6 +110,28 @@ namespace classdesc
     return *this;
   }
 
+  template <class A>
+  BinStream& BinStream::operator<<(const std::vector<bool,A>& x)
+  {
+    (*this) << uint64(x.size());
+    for (size_t i=0; i<x.size(); ++i)
+      (*this) << bool(x[i]);
+    return *this;
+  }
+  template <class A>
+  BinStream& BinStream::operator>>(std::vector<bool,A>& x)
+  {
+    uint64 sz;
+    (*this) >> sz;
+    x.clear();
+    for (uint64 i=0; i<sz; ++i)
+      {
+        bool v;
+        (*this) >> v;
+        x.push_back(v);
+      }
+    return *this;
+  }
 
   template <class T>
   typename enable_if<is_container<T>, void>::T
-- 
2.43.0


From 21077b339290c20794abefdf728166b5ac684302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 57/66] fix: unpacking object pointers checks the type id and
 the type, and null replaces what was there

---
 object.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/object.h b/object.h
index 53ef9aa..a90e958 100644
--- a/object.h
+++ b/object.h
@@ -47,7 +47,8 @@ namespace classdesc
   // it would be nice for this to be a static method of object, but it
   // appears static methods cannot be inlined
   inline object* object::create(object::TypeID t) {// factory
-    assert(t<object::TypeID(factory().size()) && t>=0);
+    if (t<0 || t>=object::TypeID(factory().size()) || !factory()[t])
+      throw exception("unknown object type");
     return factory()[t]->clone();
   }
 
@@ -129,8 +130,11 @@ unpack(classdesc::unpack_t& b, const classdesc::string& d, classdesc::shared_ptr
 #else
       a=classdesc::dynamic_pointer_cast<T>(tmp);
 #endif
+      if (!a) throw classdesc::exception("object type does not match its pointer");
       a->unpack(b);
     }
+  else
+    a.reset();
 }
 
 template <class T> typename
-- 
2.43.0


From e741fd20c7385b1814fe1067bb4430d59a19f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 58/66] fix: Factory::registerType compiles in C++98 for any
 key type

---
 factory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factory.h b/factory.h
index 39c3a43..f422d17 100644
--- a/factory.h
+++ b/factory.h
@@ -38,7 +38,7 @@ namespace classdesc
     void registerType(const Type& t)
     {
       fmap.insert
-        (make_pair(t, shared_ptr<CreatorBase>(new Creator<T>)));
+        (std::make_pair(t, shared_ptr<CreatorBase>(new Creator<T>)));
     }
     /// convenience method for registering a type. 
     template <class T> void registerType()
-- 
2.43.0


From f09ddf8d40fd3b29d6749c66767e46a617498800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 59/66] fix: MultiArray of rank three and more compiles and has
 the right strides, sizes of zero are allowed

---
 multiArray.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/multiArray.h b/multiArray.h
index 0feacac..0bd8f1d 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -8,7 +8,11 @@
 
 #ifndef CLASSDESC_MULTIARRAY_H
 #define CLASSDESC_MULTIARRAY_H
+#include "classdesc.h"
 #include <assert.h>
+#include <string.h>
+#include <cstddef>
+#include <iterator>
 
 namespace classdesc
 {
@@ -28,20 +32,26 @@ namespace classdesc
     size_t m_stride=1;
 
     friend void advance<T,Rank>(MultiArray<T,Rank>&,std::ptrdiff_t);
+
+    /// distance between consecutive elements of the last dimension
+    void calcStride()
+    {
+      m_stride=1;
+      for (int i=0; i<Rank-1; ++i) m_stride*=dim[i];
+    }
+    /// dimensions, as an array argument to the constructor
+    const size_t* dims() const {return dim;}
     
 #if defined(__cplusplus) && __cplusplus>=201703L
     void constructDim(size_t& d, size_t dd)
     {
       dim[d++]=dd;
-      m_stride*=dd;
     }
     template <class... Args>
     void constructDims(size_t d, Args... args)
     {
-      m_stride=1;
       (constructDim(d,args),...);
-      // fold expression multiplies m_stride by one too many dimensions
-      if (d>0) m_stride/=dim[d-1];
+      calcStride();
     }
 #else
 
@@ -49,12 +59,12 @@ namespace classdesc
     {
       assert(d==Rank-1);
       dim[d]=d1;
+      calcStride();
     }
     template <class... Args>
     void constructDims(size_t d, size_t d1, Args... args)
     {
       dim[d]=d1;
-      m_stride*=d1;
       constructDims(d+1, args...);
     }
 #endif
@@ -76,15 +86,16 @@ namespace classdesc
     MultiArray(T* data, const size_t a_dim[]): m_data(data)
     {
       memcpy(dim, a_dim, sizeof(dim));
+      calcStride();
     }
     
     size_t size() const {return dim[Rank-1];}
     size_t stride() const {return m_stride;}
     const MultiArray<T,Rank-1> operator[](size_t i) const {
-      return MultiArray<T,Rank-1>(m_data+i*m_stride, dim);
+      return MultiArray<T,Rank-1>(m_data+i*m_stride, dims());
     }
     MultiArray<T,Rank-1> operator[](size_t i)  {
-      return MultiArray<T,Rank-1>(m_data+i*m_stride, dim);
+      return MultiArray<T,Rank-1>(m_data+i*m_stride, dims());
     }
 
     /// return if this refers to the same memory location as x
@@ -102,7 +113,7 @@ namespace classdesc
       
       MultiArray<T,Rank-1> array;
       size_t stride;
-      iterator(const MultiArray& array): array(array.m_data,array.dim),
+      iterator(const MultiArray& array): array(array.m_data,array.dims()),
                                          stride(array.stride()) {}
       iterator operator++() {advance(array,stride); return *this;}
       iterator operator++(int)
-- 
2.43.0


From fee52970d50cdd77a4fe112cc83bfb65ceeebe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 60/66] fix: copying an MPIbuf waited on an uninitialised
 request, appended to the target and lost settings

---
 classdescMP.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 0d9d930..539a7d0 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -102,10 +102,10 @@ namespace classdesc
     MPIbuf()
     {
       request=MPI_REQUEST_NULL;
-      Communicator=MPI_COMM_WORLD; const_buffer=0;
+      Communicator=MPI_COMM_WORLD; const_buffer=0; proc=tag=0;
       offsets=new int[nprocs()+1]; offsctr=1; offsets[0]=0;
     }
-    MPIbuf(const MPIbuf& x): offsets(NULL) {*this=x;}
+    MPIbuf(const MPIbuf& x): MPIbuf_base(), offsets(NULL), request(MPI_REQUEST_NULL) {*this=x;}
     ~MPIbuf() 
     {
       if (request!=MPI_REQUEST_NULL) wait(); //MPI_Request_free(&request);
@@ -113,12 +113,16 @@ namespace classdesc
     }
     const MPIbuf& operator=(const MPIbuf& x)
     { 
+      if (this==&x) return *this;
+      if (request!=MPI_REQUEST_NULL) wait(); // buffer is still being sent
       Communicator=x.Communicator;
+      const_buffer=x.const_buffer;
+      proc=x.proc; tag=x.tag;
       delete [] offsets;
       offsets=new int[nprocs()+1];
       offsctr=x.offsctr;
       for (unsigned i=0; i<offsctr; i++) offsets[i]=x.offsets[i];
-      request=MPI_REQUEST_NULL;
+      reseti();
       packraw(x.data(),x.size());
       return *this;
     }
-- 
2.43.0


From 168c2e5d612d235d91af3ecf27dc15ed807c99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 61/66] fix: MPIbuf_array left completed requests in the
 buffers, and returned a negative number of indices when nothing was
 outstanding

---
 classdescMP.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 539a7d0..00df8d7 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -179,6 +179,12 @@ namespace classdesc
   {
     std::vector<MPIbuf> bufs;
     std::vector<MPI_Request> requests;
+    void getRequests() {for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;}
+    /// MPI sets requests that have completed to MPI_REQUEST_NULL
+    void setRequests() {for (size_t i=0; i<bufs.size(); i++) bufs[i].request=requests[i];}
+    /// \a count is MPI_UNDEFINED if there is nothing outstanding
+    static std::vector<int> completed(const std::vector<int>& index, int count)
+    {return std::vector<int>(index.begin(),index.begin()+(count==MPI_UNDEFINED? 0: count));}
   public:
     
     MPIbuf_array(unsigned n): bufs(n), requests(n) {}
@@ -189,16 +195,18 @@ namespace classdesc
     bool testall()
     {
       int flag;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Testall(bufs.size(),requests.data(),&flag,MPI_STATUSES_IGNORE);
+      setRequests();
       return flag;
     }
     /// return the index of any request that has completed, or MPI_UNDEFINED if none  
     int testany()
     {
       int flag,index;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Testany(bufs.size(),requests.data(),&index,&flag,MPI_STATUS_IGNORE);
+      setRequests();
       return index;
     }
     /// return the index of the requests that have completed
@@ -206,22 +214,25 @@ namespace classdesc
     {
       int count;
       std::vector<int> index(bufs.size());
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Testsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUSES_IGNORE);
-      return std::vector<int>(index.begin(),index.begin()+count);
+      setRequests();
+      return completed(index,count);
     }
     /// wait for all outstanding requests to complete
     void waitall() 
     {
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Waitall(bufs.size(),requests.data(),MPI_STATUSES_IGNORE);
+      setRequests();
     }
     /// wait for any outstanding request to complete, returning index of completed request
     int waitany()
     {
       int index;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Waitany(bufs.size(),requests.data(),&index,MPI_STATUSES_IGNORE);
+      setRequests();
       return index;
     }
     /// wait for some outstanding requests to complete, returning an array of request indices
@@ -229,9 +240,10 @@ namespace classdesc
     {
       int count;
       std::vector<int> index(bufs.size());
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Waitsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUS_IGNORE);
-      return std::vector<int>(index.begin(),index.begin()+count);
+      setRequests();
+      return completed(index,count);
     }
   };
     
-- 
2.43.0


From 31b4e72d47f5e37150738bac27cc9b98ed135771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 62/66] fix: MPIbuf::send_recv probed for the tag of the
 message it sends

---
 classdescMP.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 00df8d7..f4f3bf0 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -305,16 +305,17 @@ namespace classdesc
     MPI_Request r1;
 
     MPI_Isend(data(), size(), MPI_CHAR, dest, sendtag, Communicator, &r1);
-    MPI_Probe(source, sendtag, Communicator, &status);
+    MPI_Probe(source, recvtag, Communicator, &status);
     MPI_Get_count(&status, MPI_CHAR, &tempsize);
+    proc=status.MPI_SOURCE;
+    tag=status.MPI_TAG;
     
     char *tempdata=realloc(NULL, tempsize);
-    MPI_Recv(tempdata,tempsize, MPI_CHAR,source,recvtag,Communicator,&status);
+    // receive the message probed for, rather than any other that matches
+    MPI_Recv(tempdata,tempsize, MPI_CHAR,proc,tag,Communicator,&status);
     
     MPI_Wait(&r1,&status); // ensure data is actually sent before deleting storage
     realloc(0); m_data=tempdata; m_size=tempsize;
-    proc=status.MPI_SOURCE;
-    tag=status.MPI_TAG;
     reseto();
   }
 
-- 
2.43.0


From 338a6d99ea21838980b2fbf275b7ceba699717f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 63/66] fix: gathering MPIbufs of constant length reported one
 process's size for the whole

---
 classdescMP.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index f4f3bf0..440cd72 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -364,8 +364,8 @@ namespace classdesc
     }
     else
       {
-        rootsz=size();
-        if (myid()==root) rootdata=realloc(NULL,size()*nprocs());
+        rootsz=size()*nprocs();
+        if (myid()==root) rootdata=realloc(NULL,rootsz);
         MPI_Gather(data(),size(),MPI_CHAR,rootdata,size(),
                    MPI_CHAR,root,Communicator);
       }
-- 
2.43.0


From 82d031822222bb88eeb1ac1c8ef83a33ef044f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 64/66] fix: MPIbuf marks and read position survived reset and
 scatter

---
 classdescMP.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 440cd72..76295f5 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -152,7 +152,7 @@ namespace classdesc
     /// scatter \a root's data (that has been marked with \c mark)
     MPIbuf& scatter(unsigned root); 
     /// reset the buffer to send or receive a new message
-    MPIbuf& reset() {reseti(); reseto(); tag=1; return *this;}
+    MPIbuf& reset() {reseti(); reseto(); tag=1; offsctr=1; return *this;}
     /// is there a message waiting to be received into the buffe
     bool msg_waiting(int source=MPI_ANY_SOURCE, int tag=MPI_ANY_TAG);
 
@@ -400,6 +400,8 @@ namespace classdesc
         free(rootdata); delete [] sizes;
         for (int i=0; i<np; offsets[i++]=0);
       }
+    offsctr=1; // marks have been used up
+    reseto();
     return *this;
   }
 
-- 
2.43.0


From 549d99ccf093e3879f8f1fa9f01e42756e34312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 65/66] fix: MPIslave::operator<< called itself for ever, and
 bcast sent the wrong buffer

---
 classdescMP.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 76295f5..c742e26 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -433,7 +433,7 @@ namespace classdesc
       return *this;
     }
     template <class T> MPIbuf& operator<<(const T& x)
-    {reseti(); return (*this) << x;}
+    {reseti(); MPIbuf& b=*this; return b << x;}
     /// send a request to the next available slave
     void exec(MPIbuf& x) {x.send(idle.back(),0); idle.pop_back();}
     /// process a return value
@@ -489,7 +489,7 @@ namespace classdesc
   inline void MPIslave<S>::bcast(MPIbuf& c)
   {
     for (unsigned i=1; i<nprocs(); i++) 
-    {MPI_Send(data(),size(),MPI_CHAR,i,0,c.Communicator);}
+    {MPI_Send(c.data(),c.size(),MPI_CHAR,i,0,c.Communicator);}
     c.reseti();
   }
 
-- 
2.43.0


From 86976293bce03c2f0f447c56f1f34888b6e0e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 66/66] fix: noexcept functions and methods were not recognised
 in C++17, so const noexcept methods of constants were refused

---
 function.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/function.h b/function.h
index ca65ee2..e0698e3 100644
--- a/function.h
+++ b/function.h
@@ -325,6 +325,39 @@ namespace classdesc
       static const bool value=true;
     };
 
+#if defined(__cplusplus) && __cplusplus>=201703L
+    // noexcept is part of the function's type
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_const_method<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+#endif
+
     // true if C is non const, or M is a const member function or static
     template <class C, class M>
     struct ConstCorrect: public
-- 
2.43.0

