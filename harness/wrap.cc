// Driver: excluded members used as ordinary variables.
#include "pack_base.h"
#include "pack_stl.h"
#include "common.h"
#include "classdesc_epilogue.h"
#include <list>
using namespace vh;
using classdesc::Exclude;

struct Pod {int v; std::string s; Pod(int v=0): v(v), s(str(v)) {} bool operator==(const Pod& p) const {return v==p.v && s==p.s;}};
int arr[6];
enum Colour {red, green, blue, grey};

// the wrapped type's own values
template <class T> struct Val {static T of(int i) {return T(i);} static long at(const T& x) {return long(x);}};
template <> struct Val<int*> {static int* of(int i) {return i<0? 0: arr+i;} static long at(int* x) {return x? x-arr: -1;}};
template <> struct Val<std::string> {static std::string of(int i) {return std::string(i*9,'a'+i);} static long at(const std::string& x) {return x.size()/9;}};
template <> struct Val<std::vector<int> > {static std::vector<int> of(int i) {return std::vector<int>(i,i);} static long at(const std::vector<int>& x) {return x.size() && x[0]!=int(x.size())? -99: long(x.size());}};
template <> struct Val<Pod> {static Pod of(int i) {return Pod(i);} static long at(const Pod& x) {return str(x.v)==x.s? x.v: -99;}};

template <class T> std::string state(const Exclude<T>& x, const Exclude<T>& y)
{return "\"x\":"+str(Val<T>::at(static_cast<const T&>(x)))+",\"y\":"+str(Val<T>::at(static_cast<const T&>(y)));}
template <> std::string state(const Exclude<int*>& x, const Exclude<int*>& y) {int *p=x, *q=y; return "\"x\":"+str(Val<int*>::at(p))+",\"y\":"+str(Val<int*>::at(q));}
std::string kv(const char* k, long v) {return std::string(",\"")+k+"\":"+str(v);}

struct AnyTag {}; struct NumTag {}; struct BoolTag {}; struct PtrTag {};
template <class T> std::string special(const Tokens&, Exclude<T>&, AnyTag) {return ",\"bad\":1";}
template <class T> std::string special(const Tokens& t, Exclude<T>& x, NumTag)
{
  const Exclude<T>& c=x;
  std::string o=t[1]; T v=T(num(t[2])), r;
  if (t[0]=="bin") r=o=="add"? c+v: o=="sub"? c-v: o=="mul"? c*v: o=="div"? c/v: T(c%v);
  else r=o=="add"? x+=v: o=="sub"? x-=v: o=="mul"? x*=v: o=="div"? x/=v: x%=v;
  return kv("r",long(r));
}
// division of floating point numbers has fractions: compare the truncated result
std::string special(const Tokens& t, Exclude<bool>& x, BoolTag)
{
  if (t[0]=="logic") {bool v=num(t[1]); return kv("a",x&&v)+kv("or",x||v)+kv("n",!x);}
  bool v=num(t[2]);
  if (t[1]=="and") x&=v; else x|=v;
  return "";
}
std::string special(const Tokens& t, Exclude<int*>& x, PtrTag)
{
  const Exclude<int*>& c=x;
  if (t[0]=="offset") {int n=num(t[1]); return kv("r",(num(t[1])%2? x+n: const_cast<int*>(c+n))-arr)+kv("l",(n+x)-arr);}
  if (t[0]=="dist") {int* v=Val<int*>::of(num(t[1])); const int* cv=v; return kv("r",x-cv)+kv("l",num(t[1])%2? v-x: cv-x);}
  const Exclude<Pod*> pp; static Pod pod; Exclude<Pod*> p2; p2=&pod; pod.v=*x;
  return kv("r",*c)+kv("a",p2->v);
}
// comparison of the wrapper as such, where the wrapper has it, otherwise of the object inside
template <class T> bool eqv(const Exclude<T>& x, const T& v) {return x==v;}
template <class T> bool eqx(const Exclude<T>& x, const Exclude<T>& y) {return x==y;}
template <class T> bool nev(const Exclude<T>& x, const T& v) {return x!=v;}
#define PLAIN(T) template <> bool eqv(const Exclude<T >& x, const T& v) {return static_cast<const T&>(x)==v;} \
  template <> bool eqx(const Exclude<T >& x, const Exclude<T >& y) {return static_cast<const T&>(x)==static_cast<const T&>(y);} \
  template <> bool nev(const Exclude<T >& x, const T& v) {return !(static_cast<const T&>(x)==v);}
PLAIN(bool) PLAIN(std::string) PLAIN(std::vector<int>) PLAIN(Pod)
template <class T> void through(Exclude<T>& x, const T& v) {T& r=x; r=v;}
template <> void through(Exclude<int*>& x, int* const& v) {x.val=v;}
template <class T> long assigned(Exclude<T>& x, const T& v) {return Val<T>::at(x=v);}
// assigning a null pointer yields a reference to nothing
template <> long assigned(Exclude<int*>& x, int* const& v) {if (v) return &(x=v)-arr; x=v; return -1;}
template <class T> long conv(const Exclude<T>& x) {T t=static_cast<const T&>(x); return Val<T>::at(t);}
template <> long conv(const Exclude<int*>& x) {const int* t=x; return t? t-arr: -1;}
template <> long conv(const Exclude<int>& x) {long t=x; return t;}
template <> long conv(const Exclude<short>& x) {double t=x; return long(t);}

template <class T, class Tag> int run(int lo)
{
  Exclude<T> *x=new Exclude<T>(Val<T>::of(lo)), *y=new Exclude<T>(Val<T>::of(lo));
  std::string line;
  while (std::getline(std::cin,line))
    {
      Tokens t=split(line);
      const std::string& o=t[0]; std::string more;
      if (o=="restart") {delete x; delete y; x=new Exclude<T>(Val<T>::of(lo)); y=new Exclude<T>(Val<T>::of(lo)); say("{}"); continue;}
      if (o=="assign") {T v=Val<T>::of(num(t[1])); more=kv("r",assigned(*x,v));}
      else if (o=="make") {delete x; x=0; x=new Exclude<T>(Val<T>::of(num(t[1])));}
      else if (o=="copy") *x=*y;
      else if (o=="copymake") {Exclude<T>* n=new Exclude<T>(*x); delete y; y=n;}
      else if (o=="swap") std::swap(*x,*y);
      else if (o=="through") through(*x,Val<T>::of(num(t[1])));
      else if (o=="ask") {T v=Val<T>::of(num(t[1])); more=kv("eqv",eqv(*x,v))+kv("nev",nev(*x,v))+kv("eq",eqx(*x,*y))+kv("conv",conv(*x));}
      else more=special(t,*x,Tag());
      say("{"+state(*x,*y)+more+"}");
    }
  say("{\"end\":1}");
  return 0;
}

int main(int argc, char** argv)
{
  for (int i=0; i<6; ++i) arr[i]=10*i;
  std::string k=argv[1]; int lo=num(argv[2]);
  if (k=="int") return run<int,NumTag>(lo);
  if (k=="short") return run<short,NumTag>(lo);
  if (k=="long") return run<long,NumTag>(lo);
  if (k=="longlong") return run<long long,NumTag>(lo);
  if (k=="uchar") return run<unsigned char,NumTag>(lo);
  if (k=="unsigned") return run<unsigned,NumTag>(lo);
  if (k=="float") return run<float,NumTag>(lo);
  if (k=="double") return run<double,NumTag>(lo);
  if (k=="bool") return run<bool,BoolTag>(lo);
  if (k=="intptr") return run<int*,PtrTag>(lo);
  if (k=="string") return run<std::string,AnyTag>(lo);
  if (k=="vector") return run<std::vector<int>,AnyTag>(lo);
  if (k=="class") return run<Pod,AnyTag>(lo);
  if (k=="enum") return run<Colour,AnyTag>(lo);
  return 1;
}
