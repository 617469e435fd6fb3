// A descriptor that writes down what it is called with.
#ifndef PROBE_BASE_H
#define PROBE_BASE_H
#include "classdesc.h"
#include <string>
#include <typeinfo>
#include <vector>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>

namespace classdesc
{
  struct probe_t
  {
    struct V {std::string path, kind, id; std::vector<size_t> dims;};
    std::vector<V> v;
    bool deep;
    std::string kinds; // calls of the type function
    probe_t(bool deep=false): deep(deep) {}
    V& rec(const std::string& d, const char* k, const std::string& id)
    {v.push_back(V()); v.back().path=d; v.back().kind=k; v.back().id=id; return v.back();}
  };

  inline std::string probeHex(const void* p, size_t n)
  {
    std::string r; char s[3];
    for (size_t i=0; i<n; ++i) {sprintf(s,"%02x",((const unsigned char*)p)[i]); r+=s;}
    return r;
  }
  template <class T> std::string probeAt(const T& x)
  {const volatile void* p=&reinterpret_cast<const volatile char&>(x); return "@"+probeHex(&p,sizeof p)+typeid(T).name();}
  template <class M> std::string probePtr(M m) {return "&"+probeHex(&m,sizeof m);}
  template <class T> std::string probeVal(T x) {return "="+probeHex(&x,sizeof x);}
}

namespace classdesc_access
{
  template <class T> struct access_probe
  {
    template <class U> void operator()(classdesc::probe_t&, const classdesc::string&, U&) {}
  };
}

namespace classdesc
{
  template <class T>
  void probe_members(probe_t& t, const string& d, T& a)
  {if (t.deep) classdesc_access::access_probe<typename remove_const<T>::type>()(t,d,a);}

  // anything of itself: a scalar member, or a base class
  template <class T>
  void probe(probe_t& t, const string& d, T& a)
  {t.rec(d,"v",probeAt(a)); probe_members(t,d,a);}
  template <class T>
  void probe_onbase(probe_t& t, const string& d, T& a)
  {t.rec(d,"b",probeAt(a)); probe_members(t,d,a);}

  // what an enum describes itself as
  template <class E> void probe(probe_t& t, const string& d, Enum_handle<E> e) {}

  // arrays
  template <class T>
  void probe(probe_t& t, const string& d, is_array, T& a, int dims, size_t n, ...)
  {
    std::vector<size_t> ds(1,n);
    va_list ap; va_start(ap,n);
    for (int i=1; i<dims; ++i) ds.push_back(va_arg(ap,int));
    va_end(ap);
    t.rec(d,"a",probeAt(a)).dims=ds;
  }
  // static constants
  template <class T>
  void probe(probe_t& t, const string& d, is_const_static, T a)
  {t.rec(d,"c",probeVal(a));}
  template <class T>
  void probe(probe_t& t, const string& d, is_const_static, const T* p)
  {t.rec(d,"c",probeVal(*p));}
  template <class C, class T>
  void probe(probe_t& t, const string& d, is_const_static, C&, T* p)
  {t.rec(d,"c",probeVal(*p));}

  // static methods
  template <class T>
  typename enable_if<is_function<T>, void>::T
  probe(probe_t& t, const string& d, T* m)
  {t.rec(d,"m",probePtr(m));}

  // member and method pointers
  template <class C, class B, class T>
  typename enable_if<Not<is_function<T> >, void>::T
  probe(probe_t& t, const string& d, C& o, T B::*m)
  {t.rec(d,"v",probeAt(o.*m)); probe_members(t,d,o.*m);}
  template <class C, class B, class T>
  typename enable_if<is_function<T>, void>::T
  probe(probe_t& t, const string& d, C& o, T B::*m)
  {t.rec(d,"m",probePtr(m));}
  template <class C, class T>
  typename enable_if<Not<is_function<T> >, void>::T
  probe(probe_t& t, const string& d, C& o, T* m)
  {t.rec(d,"v",probeAt(*m)); probe_members(t,d,*m);}
  template <class C, class T>
  typename enable_if<is_function<T>, void>::T
  probe(probe_t& t, const string& d, C& o, T* m)
  {t.rec(d,"m",probePtr(m));}

  template <class C, class M> void probe_type(probe_t& t, const string& d, M m)
  {t.rec(d,"t",probePtr(m));}
  template <class C, class M> void probe_type(probe_t& t, const string& d, is_const_static, M m)
  {t.rec(d,"t","");}
}
using classdesc::probe;
using classdesc::probe_onbase;
#endif
