// Driver: objects of many types written to and read back from one serialisation buffer.
#ifdef POLY
#include "poly_headers.h"
#endif
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_access.h"
#include <unistd.h>
#include "objval.h"
#ifdef POLY
#include "poly_headers.h"
#endif
#include "universe.h"
#include "classdesc_epilogue.h"
#include "universe_probe.h"
#include "pack_base.h"
using namespace vh;
using classdesc::pack_t;
using classdesc::xdr_pack;
#ifdef POLY
#include "polyops.h"
#endif

struct Slot
{
  virtual ~Slot() {}
  virtual void set(const J& j)=0;
  virtual std::string get() const=0;
  virtual void put(pack_t& b)=0;
  virtual void take(pack_t& b)=0;
  virtual Slot* dup() const=0;
  virtual int cmp(const Slot& o) const=0;
#ifdef POLY
  virtual Root* root()=0;
  virtual void reset(Root*)=0;
  virtual int self() const=0;    // is it an object itself?
#endif
};
#ifdef BINSTREAM
// objects written through the adaptor, and those of type Packed<T> to the buffer itself
using classdesc::BinStream;
using classdesc::BinStreamT;
BinStream* adaptor=0;
template <class T> struct Packed {typedef T type;};
template <class T> struct SlotB: public Slot
{
  T x;
  SlotB(): x() {}
  void set(const J& j) {assign(x,j);}
  std::string get() const {return look(x);}
  int cmp(const Slot&) const {return 0;}
  template <class S> Slot* same() const {S* s=new S; s->set(J::parse(get())); return s;}
};
template <class T> struct SlotT: public SlotB<T>
{
  void put(pack_t& b) {if (adaptor) (*adaptor)<<this->x; else {BinStream s(b); s<<this->x;}}
  void take(pack_t& b) {if (adaptor) (*adaptor)>>this->x; else {BinStream s(b); s>>this->x;}}
  Slot* dup() const {return this->template same<SlotT>();}
};
template <class T> struct SlotT<Packed<T> >: public SlotB<T>
{
  void put(pack_t& b) {b<<this->x;}
  void take(pack_t& b) {b>>this->x;}
  Slot* dup() const {return this->template same<SlotT>();}
};
#else
template <class T> struct SlotT: public Slot
{
  T x;
  SlotT(): x() {}
  void set(const J& j) {V<T>::set(x,j);}
  std::string get() const {return V<T>::get(x);}
  void put(pack_t& b) {b<<x;}
  void take(pack_t& b) {b>>x;}
  Slot* dup() const {SlotT* s=new SlotT; s->set(J::parse(get())); return s;}
#ifdef POLY
  Root* root() {return PtrOf<T>::get(x);}
  void reset(Root* r) {PtrOf<T>::put(x,r);}
  int self() const {return classdesc::is_base_of<Root,T>::value;}
  int cmp(const Slot&) const {return 0;}
#else
  int cmp(const Slot& o) const {return classdesc::deepEq(const_cast<T&>(x),const_cast<T&>(dynamic_cast<const SlotT&>(o).x));}
#endif
};
#endif
#include "universe_roots.h"   // Slot* make(int)

std::string fname;
bool xdr;
pack_t* mk() {return xdr? new xdr_pack: new pack_t;}
pack_t* mk(const char* mode) {return xdr? new xdr_pack(fname.c_str(),mode): new pack_t(fname.c_str(),mode);}
std::string content(pack_t& b) {return std::string(b.data(),b.size());}
// a buffer holding the given bytes
void fill(pack_t& b, const std::string& s) {if (!s.empty()) {b.resize(s.size()); memcpy(b.data(),s.data(),s.size());}}

int main(int argc, char** argv)
{
  std::string line; 
  xdr=argc>1 && std::string(argv[1])=="xdr";
  bool file=argc>2 && std::string(argv[2])=="file";
  fname="objstream.dat";
  std::vector<Slot*> slots; std::vector<int> types;
  pack_t* b=0; std::vector<std::string> items; size_t rd=0; std::vector<size_t> bounds;
  pack_t* fw=0;
  std::map<std::string,int> ids;
#ifdef POLY
  registerAll();
  long baseline=liveCount();
#endif
  while (std::getline(std::cin,line))
    {
      Tokens t=split(line);
#ifdef POLY
      if (t[0]!="restart" && polyOp(t,line,slots,baseline)) continue;
#endif
      if (t[0]=="restart")
        {
          for (size_t i=0; i<slots.size(); ++i) delete slots[i];
          slots.clear(); types.clear(); delete b; delete fw; fw=0;
          b=mk(); items.clear(); rd=0; bounds.assign(1,0);
          if (file) fw=mk("w");
          say("{}");
          continue;
        }
      if (t[0]=="slot")
        {
          int ty=num(t[1]);
          slots.push_back(make(ty)); types.push_back(ty);
          say("{\"val\":"+slots.back()->get()+"}");
          continue;
        }
      if (t[0]=="set")
        {
          Slot& s=*slots.at(num(t[1]));
          s.set(J::parse(line.substr(t[0].size()+t[1].size()+2)));
          say("{\"val\":"+s.get()+"}");
          continue;
        }
      if (t[0]=="put")
        {
          Slot& s=*slots.at(num(t[1]));
          std::string ret="ok";
          size_t before=b->size();
          try {s.put(*b); if (fw) s.put(*fw);}
          catch (const std::exception& e) {ret="err";}
          bounds.push_back(b->size());
          std::string bytes=content(*b).substr(before);
          items.push_back(bytes);
          // writing is a function of the object alone: a fresh buffer gets the same bytes
          pack_t* c=mk(); s.put(*c);
          bool same=content(*c)==bytes;
          delete c;
          std::string key=str(types[num(t[1])])+":"+bytes;
          if (!ids.count(key)) {int n=ids.size(); ids[key]=n;}
          say("{\"ret\":\""+ret+"\",\"val\":"+s.get()+",\"same\":"+(same?"1":"0")+",\"id\":"+str(ids[key])+",\"n\":"+str(items.size())+"}");
          continue;
        }
      if (t[0]=="get")
        {
          Slot& s=*slots.at(num(t[1]));
          std::string ret="ok";
          size_t p=b->pos();
          try {s.take(*b);}
          catch (const std::exception& e) {ret="err";}
          if (ret=="ok") {++rd;
            say("{\"ret\":\"ok\",\"val\":"+s.get()+",\"at\":"+str(b->pos()==bounds.at(rd)? long(rd): -1L)+"}");}
          else
            {
              Slot* n=make(types[num(t[1])]); delete slots[num(t[1])]; slots[num(t[1])]=n;
              b->seeko(long(p)-long(b->pos()));
              say("{\"ret\":\"err\",\"val\":"+n->get()+",\"at\":"+str(b->pos()==bounds.at(rd)? long(rd): -1L)+"}");
            }
          continue;
        }
      if (t[0]=="rewind") {b->reseto(); rd=0; say("{\"at\":0}"); continue;}
      if (t[0]=="clear") {b->clear(); b->reseto(); items.clear(); rd=0; bounds.assign(1,0); if (fw) {delete fw; fw=mk("w");} say("{\"at\":0}"); continue;}
      if (t[0]=="cut")
        { // decode every strict prefix of the next item
          Slot& s=*slots.at(num(t[1]));
          const std::string& item=items.at(rd);
          int accepted=0;
          size_t step=item.size()>400? item.size()/200: 1;
          for (size_t n=0; n<item.size(); n+=(n>100? step: 1))
            {
              // exactly n bytes of storage
              pack_t* c=mk(); fill(*c,item.substr(0,n));
              Slot* d=n%16==0? s.dup(): make(types[num(t[1])]);
              try {d->take(*c); ++accepted;}
              catch (const std::exception& e) {}
              delete d; delete c;
            }
          say("{\"accepted\":"+str(accepted)+"}");
          continue;
        }
      if (t[0]=="corrupt")
        { // damage parts of the next item: any result or exception will do, but nothing outside may be touched
          Slot& s=*slots.at(num(t[1]));
          bool len=num(t[2]);
          const std::string& item=items.at(rd);
          static const unsigned char pat[][8]={{255,255,255,255,255,255,255,255},{255,255,255,255,255,255,255,127},{0,0,0,0,0,0,0,128},
                                               {0,0,0,0,0,0,0,64},{0,0,0,0,0,0,0,32},{0,0,0,0,1,0,0,0},{255,255,255,127,0,0,0,0},{254,255,255,255,255,255,255,255}};
          size_t step=item.size()>200? item.size()/100: 1;
          int accepted=0;
          // byte order of the length: BinStream writes native numbers into XDR buffers, too
          bool msb=false;
          if (xdr && len && item.size()>=8)
            { // lengths are small, so that the smaller reading is the right one
              unsigned long long le=0, be=0;
              for (int q=0; q<8; ++q) {be=be*256+(unsigned char)item[q]; le=le*256+(unsigned char)item[7-q];}
              msb=be<le;
            }
          else msb=xdr;
          for (size_t n=0; n<item.size(); n+=(n>64? step: 1))
            for (size_t k=0; k<sizeof(pat)/8; ++k)
              {
                if (n>16 && (n+k)%4) continue;
                std::string d=item;
                for (int q=0; q<8 && n+q<d.size(); ++q) d[n+q]=pat[k][msb? 7-q: q];
                pack_t* c=mk(); fill(*c,d);
                Slot* e=(n+k)%16==0? s.dup(): make(types[num(t[1])]);
                try {e->take(*c); if (len && n==0) ++accepted;}
                catch (const std::exception& x) {}
                delete e; delete c;
              }
          // one more entry than there is data for, and nothing behind (characters are padded to
          // a multiple of four in XDR, so that one more of them may be the padding)
          if (len && item.size()>=8)
            for (int more=0; more<(xdr? 4: 1); ++more)
            {
              static std::string d;
              if (more==0) d=item;
              for (int q=0; q<8; ++q) {int at=msb? 7-q: q; d[at]=char(d[at]+1); if (d[at]) break;}
              if (xdr && more<3) continue;
              pack_t* c=mk(); fill(*c,d);
              Slot* e=s.dup();
              try {e->take(*c); ++accepted;}
              catch (const std::exception& x) {}
              delete e; delete c;
            }
          say("{\"accepted\":"+str(accepted)+"}");
          continue;
        }
      if (t[0]=="flush")
        { // close the file and read everything back from it
          delete fw; fw=0;
#ifdef BINSTREAM
          BinStreamT<pack_t>* bn=0; BinStreamT<xdr_pack>* bx=0; pack_t* f;
          if (xdr) {bx=new BinStreamT<xdr_pack>(fname.c_str(),"r"); adaptor=bx; f=&bx->thePack;}
          else {bn=new BinStreamT<pack_t>(fname.c_str(),"r"); adaptor=bn; f=&bn->thePack;}
#else
          pack_t* f=mk("r"); 
#endif
          std::string out; int good=0;
          for (size_t i=1; i<t.size(); ++i)
            {
              Slot* d=make(num(t[i]));
              try {d->take(*f); if (i>1) out+=","; out+=d->get();}
              catch (const std::exception& e) {out+="\"exception\"";}
              delete d;
            }
#ifdef BINSTREAM
          adaptor=0; delete bn; delete bx;
#else
          delete f;
#endif
          say("{\"vals\":["+out+"]}");
          fw=mk("w"); 
          delete b; b=mk(); items.clear(); rd=0; bounds.assign(1,0);
          continue;
        }
      if (t[0]=="eq")
        {
          say("{\"eq\":"+str(slots.at(num(t[1]))->cmp(*slots.at(num(t[2]))))+"}");
          continue;
        }
      say("{\"bad\":1}");
    }
  say("{\"end\":1}");
  _exit(0);
}
