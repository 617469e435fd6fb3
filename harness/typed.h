// Typed access to a buffer by kind name; values travel as the bytes of the host representation.
#ifndef VH_TYPED_H
#define VH_TYPED_H
template <class T> std::string repr(const T& x) {return std::string((const char*)&x,sizeof(T));}
template <class T> void unrepr(const std::string& s, T& x) {memcpy(&x,s.data(),sizeof(T));}

template <class T> struct Typed
{
  static void write(Buf& b, const std::string& v) {T x; unrepr(v,x); b<<x;}
  static void writeArr(Buf& b, const std::string& v, int n) {
    std::vector<T> xs(n+1); size_t w=n? v.size()/n: 0;
    for (int i=0; i<n; ++i) unrepr(v.substr(i*w,w),xs[i]);
    pack(b,std::string(),classdesc::is_array(),*(T*)&xs[0],1,n);
  }
  static std::string readArr(Buf& b, int n)
  {
    std::vector<T> xs(n+1);
    T& last=xs[n]; memset(&last,0x25,sizeof(T)); T copy; memset(&copy,0x25,sizeof(T));
    unpack(b,std::string(),classdesc::is_array(),*(T*)&xs[0],1,n);
    std::string r;
    for (int i=0; i<n; ++i) r+=repr(xs[i]);
    if (memcmp(&last,&copy,sizeof(T))) r+="overrun";
    return r;
  }
  static std::string read(Buf& b, std::string& left)
  {
    T x; memset(&x,0x25,sizeof(T)); T y; memset(&y,0x25,sizeof(T));
    try {b>>x;}
    catch (...) {if (memcmp(&x,&y,sizeof(T))!=0) left=repr(x); throw;}
    return repr(x);
  }
};
// bool vectors are packed differently, so arrays of bool are not built from std::vector<bool>
template <> std::string Typed<bool>::read(Buf& b, std::string& left);
template <> void Typed<bool>::writeArr(Buf& b, const std::string& v, int n)
{for (int i=0; i<n; ++i) write(b,v.substr(i*(v.size()/n),v.size()/n));}
template <> std::string Typed<bool>::readArr(Buf& b, int n)
{std::string r, l; for (int i=0; i<n; ++i) r+=read(b,l); return r;}
template <> std::string Typed<bool>::read(Buf& b, std::string& left)
{
  bool x=true;
  try {b>>x;}
  catch (...) {if (!x) left="\1"; throw;}
  return repr(x);
}

#define KINDS(X) X("bool",bool) X("char",char) X("schar",signed char) X("uchar",unsigned char) X("short",short) \
  X("ushort",unsigned short) X("int",int) X("uint",unsigned) X("long",long) X("ulong",unsigned long) \
  X("llong",long long) X("ullong",unsigned long long) X("float",float) X("double",double) X("wchar",wchar_t)

void write(Buf& b, const std::string& k, const std::string& v)
{
#define X(n,T) if (k==n) {Typed<T>::write(b,v); return;}
  KINDS(X)
#undef X
  throw std::logic_error("kind");
}
void writeArr(Buf& b, const std::string& k, const std::string& v, int n)
{
#define X(nm,T) if (k==nm) {Typed<T>::writeArr(b,v,n); return;}
  KINDS(X)
#undef X
}
std::string readArr(Buf& b, const std::string& k, int n)
{
#define X(nm,T) if (k==nm) return Typed<T>::readArr(b,n);
  KINDS(X)
#undef X
  return "";
}
std::string read(Buf& b, const std::string& k, std::string& left)
{
#define X(n,T) if (k==n) return Typed<T>::read(b,left);
  KINDS(X)
#undef X
  return "";
}

#endif
