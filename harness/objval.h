// Setting and observing objects of any supported type, without the library's help.
// Values: hex strings for scalars and strings, lists for everything else.
#ifndef VH_OBJVAL_H
#define VH_OBJVAL_H
#include "common.h"
#include <set>
#include <list>
#include <deque>
#include <algorithm>
#include <new>
#include <stdlib.h>
#if __cplusplus>=201103L
#include <memory>
#include <array>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#endif
// allocation of absurd amounts fails, as it would without a sanitiser
#ifndef VH_MAX_ALLOC
#define VH_MAX_ALLOC (size_t(1)<<28)
#endif
static void* vh_alloc(size_t n) {if (n>VH_MAX_ALLOC) throw std::bad_alloc(); void* p=malloc(n?n:1); if (!p) throw std::bad_alloc(); return p;}
void* operator new(size_t n) {return vh_alloc(n);}
void* operator new[](size_t n) {return vh_alloc(n);}
void operator delete(void* p) throw() {free(p);}
void operator delete[](void* p) throw() {free(p);}
#if __cplusplus>=201402L
void operator delete(void* p, size_t) throw() {free(p);}
void operator delete[](void* p, size_t) throw() {free(p);}
#endif

struct J
{
  bool list; std::string s; std::vector<J> l;
  J(): list(false) {}
  const J& operator[](size_t i) const {return l.at(i);}
  size_t size() const {return l.size();}
  static J parse(const char*& p)
  {
    J j;
    while (*p==' '||*p==',') ++p;
    if (*p=='[')
      {
        j.list=true; ++p;
        while (true)
          {
            while (*p==' '||*p==',') ++p;
            if (*p==']') {++p; return j;}
            if (!*p) throw std::runtime_error("bad value");
            j.l.push_back(parse(p));
          }
      }
    if (*p!='"') throw std::runtime_error("bad value");
    for (++p; *p!='"'; ++p) j.s+=*p;
    ++p;
    return j;
  }
  static J parse(const std::string& s) {const char* p=s.c_str(); return parse(p);}
};

inline const char* sep(int i) {return i? ",": "";}

// scalars, enums
template <class T> struct V
{
  static std::string get(const T& x) {return "\""+vh::hex(std::string((const char*)&x,sizeof(T)))+"\"";}
  static void set(T& x, const J& j) {std::string b=vh::unhex(j.s); memcpy((void*)&x,b.data(),std::min(sizeof(T),b.size()));}
};
template <class T> std::string look(const T& x) {return V<T>::get(x);}
template <class T> void assign(T& x, const J& j) {V<T>::set(x,j);}
template <class T> void assign(const T& x, const J& j) {}
template <class T, size_t N> std::string look(const T (&x)[N])
{
  std::string s="[";
  for (size_t i=0; i<N; ++i) s+=sep(i)+look(x[i]);
  return s+"]";
}
template <class T, size_t N> void assign(T (&x)[N], const J& j) {for (size_t i=0; i<N; ++i) assign(x[i],j[i]);}

template <class C> struct V<std::basic_string<C> >
{
  typedef std::basic_string<C> T;
  static std::string get(const T& x) {return "\""+vh::hex(std::string((const char*)x.data(),x.size()*sizeof(C)))+"\"";}
  static void set(T& x, const J& j) {std::string b=vh::unhex(j.s); x=T(b.size()/sizeof(C),C()); if (!b.empty()) memcpy((void*)&x[0],b.data(),x.size()*sizeof(C));}
};
template <class T> struct VSeq
{
  static std::string get(const T& x)
  {
    std::string s="["; int n=0;
    for (typename T::const_iterator i=x.begin(); i!=x.end(); ++i) s+=sep(n++)+V<typename T::value_type>::get(*i);
    return s+"]";
  }
  static void set(T& x, const J& j)
  {
    x.clear();
    for (size_t i=0; i<j.size(); ++i) {typename T::value_type v=typename T::value_type(); V<typename T::value_type>::set(v,j[i]); x.insert(x.end(),v);}
  }
};
template <class T> struct VMap
{
  static std::string entry(const typename T::value_type& v)
  {return "["+V<typename T::key_type>::get(v.first)+","+V<typename T::mapped_type>::get(v.second)+"]";}
  static std::string get(const T& x)
  {
    std::string s="["; int n=0;
    for (typename T::const_iterator i=x.begin(); i!=x.end(); ++i) s+=sep(n++)+entry(*i);
    return s+"]";
  }
  static void set(T& x, const J& j)
  {
    x.clear();
    for (size_t i=0; i<j.size(); ++i)
      {
        std::pair<typename T::key_type, typename T::mapped_type> v;
        V<typename T::key_type>::set(v.first,j[i][0]); V<typename T::mapped_type>::set(v.second,j[i][1]);
        x.insert(v);
      }
  }
};
// order does not matter
template <class T, class B> struct VUnordered: public B
{
  static std::string get(const T& x)
  {
    std::vector<std::string> e;
    for (typename T::const_iterator i=x.begin(); i!=x.end(); ++i) e.push_back(one(*i));
    std::sort(e.begin(),e.end());
    std::string s="[";
    for (size_t i=0; i<e.size(); ++i) s+=sep(i)+e[i];
    return s+"]";
  }
  template <class K, class W> static std::string one(const std::pair<K,W>& v) {return "["+V<K>::get(v.first)+","+V<W>::get(v.second)+"]";}
  template <class K> static std::string one(const K& v) {return V<K>::get(v);}
};
template <class T> struct V<const T>: public V<T> {};
template <class T> struct V<std::vector<T> >: public VSeq<std::vector<T> > {};
template <class T> struct V<std::deque<T> >: public VSeq<std::deque<T> > {};
template <class T> struct V<std::list<T> >: public VSeq<std::list<T> > {};
template <class T> struct V<std::set<T> >: public VSeq<std::set<T> > {};
template <class T> struct V<std::multiset<T> >: public VSeq<std::multiset<T> > {};
template <class K, class T> struct V<std::map<K,T> >: public VMap<std::map<K,T> > {};
template <class K, class T> struct V<std::multimap<K,T> >: public VMap<std::multimap<K,T> > {};
template <class A, class B> struct V<std::pair<A,B> >
{
  static std::string get(const std::pair<A,B>& x) {return "["+look(x.first)+","+look(x.second)+"]";}
  static void set(std::pair<A,B>& x, const J& j) {assign(x.first,j[0]); assign(x.second,j[1]);}
};
template <class T> struct VPtr
{
  static std::string get(const T& x) {return x.get()? "["+look(*x)+"]": std::string("[]");}
  static void set(T& x, const J& j) {if (j.size()) {x.reset(new typename T::element_type()); assign(*x,j[0]);} else x.reset();}
};
template <class T> struct V<classdesc::shared_ptr<T> >: public VPtr<classdesc::shared_ptr<T> > {};
template <class T> struct V<classdesc::Exclude<T> >
{
  static std::string get(const classdesc::Exclude<T>& x) {return look(static_cast<const T&>(x));}
  static void set(classdesc::Exclude<T>& x, const J& j) {T t=T(); assign(t,j); x=t;}
};
#if __cplusplus>=201703L
template <class... A> struct V<std::tuple<A...> >
{
  typedef std::tuple<A...> T;
  static std::string get(const T& x) {std::string s="["; int n=0; std::apply([&](const auto&... e) {((s+=sep(n++)+look(e)),...);},x); return s+"]";}
  static void set(T& x, const J& j) {int n=0; std::apply([&](auto&... e) {((assign(e,j[n++])),...);},x);}
};
#endif
#if __cplusplus>=201103L
template <class T> struct V<std::unique_ptr<T> >: public VPtr<std::unique_ptr<T> > {};
template <class T, size_t N> struct V<std::array<T,N> >
{
  static std::string get(const std::array<T,N>& x) {std::string s="["; for (size_t i=0; i<N; ++i) s+=sep(i)+look(x[i]); return s+"]";}
  static void set(std::array<T,N>& x, const J& j) {for (size_t i=0; i<N; ++i) assign(x[i],j[i]);}
};
template <class T> struct V<std::unordered_set<T> >: public VUnordered<std::unordered_set<T>,VSeq<std::unordered_set<T> > > {};
template <class T> struct V<std::unordered_multiset<T> >: public VUnordered<std::unordered_multiset<T>,VSeq<std::unordered_multiset<T> > > {};
template <class K, class T> struct V<std::unordered_map<K,T> >: public VUnordered<std::unordered_map<K,T>,VMap<std::unordered_map<K,T> > > {};
template <class K, class T> struct V<std::unordered_multimap<K,T> >: public VUnordered<std::unordered_multimap<K,T>,VMap<std::unordered_multimap<K,T> > > {};
#endif
#endif
