// Helpers shared by the conformance drivers: hex, tokens, JSON output.
#ifndef VH_COMMON_H
#define VH_COMMON_H
#include <string>
#include <vector>
#include <map>
#include <iostream>
#include <sstream>
#include <cstring>
#include <cstdio>
#include <stdint.h>
#include <limits>
namespace vh
{
  typedef std::vector<std::string> Tokens;
  inline Tokens split(const std::string& s, char sep=' ')
  {
    Tokens r; std::string cur; 
    for (size_t i=0; i<=s.size(); ++i)
      if (i==s.size() || s[i]==sep) {r.push_back(cur); cur.clear();} else cur+=s[i];
    return r;
  }
  inline int hexv(char c) {return c<='9'? c-'0': c-'a'+10;}
  inline std::string unhex(const std::string& h)
  {
    std::string r;
    if (h=="-") return r;
    for (size_t i=0; i+1<h.size(); i+=2) r+=char(hexv(h[i])*16+hexv(h[i+1]));
    return r;
  }
  inline std::string hex(const std::string& s)
  {
    static const char* d="0123456789abcdef"; std::string r;
    for (size_t i=0; i<s.size(); ++i) {r+=d[(unsigned char)(s[i])>>4]; r+=d[s[i]&15];}
    return r.empty()? "-": r;
  }
  template <class T> std::string str(const T& x) {std::ostringstream o; o<<x; return o.str();}
  // JSON
  inline std::string bytes(const std::string& s)
  {
    std::string r="["; 
    for (size_t i=0; i<s.size(); ++i) {if (i) r+=","; r+=str(int((unsigned char)(s[i])));}
    return r+"]";
  }
  inline std::string quote(const std::string& s)
  {
    std::string r="\""; char b[16];
    for (size_t i=0; i<s.size(); ++i)
      {
        unsigned char c=s[i];
        if (c=='"' || c=='\\') {r+='\\'; r+=c;}
        else if (c<0x20 || c>=0x7f) {sprintf(b,"\\u%04x",c); r+=b;}
        else r+=c;
      }
    return r+"\"";
  }
  inline long num(const std::string& s) {return atol(s.c_str());}
  inline void say(const std::string& s) {std::cout<<s<<"\n"; std::cout.flush();}
}
#endif
