// A stand-in for MPI in which every freedom the MPI standard leaves is a recorded choice:
// which process runs next, whether a send is buffered or waits for its receiver, which of
// several senders a wildcard matches, and when a process joins a collective call.
#ifndef VH_MPI_H
#define VH_MPI_H
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <cstring>
#include <cstdlib>
#include <random>

typedef int MPI_Comm;
typedef int MPI_Request;
typedef int MPI_Datatype;
struct MPI_Status {int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t len;};
#define MPI_VERSION 3
enum {MPI_COMM_WORLD=0, MPI_COMM_OTHER=1};
enum {MPI_REQUEST_NULL=0};
enum {MPI_CHAR=1, MPI_INT=4};
enum {MPI_ANY_SOURCE=-2, MPI_ANY_TAG=-1, MPI_UNDEFINED=-32766, MPI_SUCCESS=0};
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)

namespace mock
{
  struct Message
  {
    int src, dst, tag, comm; 
    std::string data; 
    bool held;           // still in the sender's memory
    const char* at; size_t len; 
    int request;         // 0 of a blocking send
    bool taken;
  };
  struct Request {bool active, done; size_t msg; int rank;};
  struct Collective
  {
    std::string kind; int root; 
    std::map<int,std::string> in; 
    std::vector<int> counts, displs;
    std::vector<bool> joined;
  };
  struct World
  {
    int n; 
    std::mutex m; 
    std::condition_variable cv;
    int current;
    std::vector<std::function<bool()> > ready; 
    std::vector<bool> finished, finalised;
    std::vector<Message> messages;
    std::vector<Request> requests;
    std::map<int,std::vector<Collective> > coll; 
    std::map<int,std::vector<int> > seen;  // by communicator, how many collective calls each process made
    std::vector<int> prefix; size_t next; 
    std::vector<std::pair<int,int> > choices; 
    std::mt19937 rng; bool randomly;
    std::function<void(const std::string&)> error;   // misuse of MPI
    std::function<void()> stuck;                     // no process can go on
    World(): n(1), current(0), next(0), randomly(true) {requests.push_back(Request());}
    int choose(int k)
    {
      if (k<=1) return 0;
      int c= next<prefix.size()? prefix[next]%k: randomly? int(rng()%k): 0;
      ++next; 
      choices.push_back(std::make_pair(k,c));
      return c;
    }
    void pick()
    {
      std::vector<int> able;
      bool all=true;
      for (int i=0; i<n; ++i) if (!finished[i]) {all=false; if (ready[i]()) able.push_back(i);}
      if (all) {current=-1; cv.notify_all(); return;}
      if (able.empty()) {stuck(); return;}
      current=able[choose(able.size())];
      cv.notify_all();
    }
  };
  inline World& world() {static World w; return w;}
  inline int& me() {static thread_local int r=0; return r;}
  // let others run, until it is this process's turn and what it waits for has come about
  inline void pause(const std::function<bool()>& ready=[]{return true;})
  {
    World& w=world();
    std::unique_lock<std::mutex> l(w.m);
    w.ready[me()]=ready;
    w.pick();
    const int r=me();
    w.cv.wait(l,[&]{return w.current==r;});
  }
  inline void begin(int rank)
  {
    me()=rank;
    World& w=world();
    std::unique_lock<std::mutex> l(w.m);
    w.cv.wait(l,[&]{return w.current==rank;});
  }
  inline void end()
  {
    World& w=world();
    std::unique_lock<std::mutex> l(w.m);
    w.finished[me()]=true;
    w.pick();
  }
  template <class F> void run(int n, F f)
  {
    World& w=world();
    w.n=n; w.ready.assign(n,[]{return true;}); w.finished.assign(n,false); w.finalised.assign(n,false);
    w.current=-2;
    std::vector<std::thread> t;
    for (int i=0; i<n; ++i) t.push_back(std::thread([=]{begin(i); f(i); end();}));
    {std::unique_lock<std::mutex> l(w.m); w.pick();}
    for (auto& i: t) i.join();
  }
  inline void check(bool ok, const char* what) {if (!ok) world().error(what);}
  inline void alive() {check(!world().finalised[me()],"call after MPI_Finalize");}
  inline void take(Message& m)
  {
    if (m.held) {m.data.assign(m.at? m.at: "",m.len); m.held=false;}
    if (m.request) world().requests[m.request].done=true;
  }
  inline bool matches(const Message& m, int src, int tag, int comm)
  {
    return !m.taken && m.dst==me() && m.comm==comm && (src==MPI_ANY_SOURCE || m.src==src) && (tag==MPI_ANY_TAG || m.tag==tag);
  }
  // the first matching message of each sender
  inline std::vector<size_t> matching(int src, int tag, int comm)
  {
    std::vector<size_t> r; std::map<int,bool> had;
    const std::vector<Message>& q=world().messages;
    for (size_t i=0; i<q.size(); ++i)
      if (matches(q[i],src,tag,comm) && !had[q[i].src]) {had[q[i].src]=true; r.push_back(i);}
    return r;
  }
  inline void status(MPI_Status* s, const Message& m) {if (s) {s->MPI_SOURCE=m.src; s->MPI_TAG=m.tag; s->len=m.len;}}
  inline void post(const void* b, int count, int dst, int tag, int comm, int request)
  {
    alive();
    World& w=world();
    check(dst>=0 && dst<w.n,"destination out of range");
    check(tag>=0,"tag out of range");
    check(count>=0,"negative count");
    Message m; m.src=me(); m.dst=dst; m.tag=tag; m.comm=comm; m.at=static_cast<const char*>(b); m.len=count; m.held=true; m.request=request; m.taken=false;
    w.messages.push_back(m);
  }
  inline Request& request(int r)
  {
    World& w=world();
    check(r>0 && r<int(w.requests.size()) && w.requests[r].active && w.requests[r].rank==me(),"request that is not active");
    return w.requests[r];
  }
  inline bool done(int r) {return request(r).done;}
  inline void release(MPI_Request* r) {request(*r).active=false; *r=MPI_REQUEST_NULL;}
  inline Collective& join(const char* kind, int root, int comm)
  {
    alive();
    World& w=world();
    std::vector<int>& s=w.seen[comm]; s.resize(w.n);
    size_t i=s[me()]++;
    std::vector<Collective>& c=w.coll[comm];
    if (c.capacity()<4096) c.reserve(4096);
    if (i>=c.size()) {c.push_back(Collective()); c[i].kind=kind; c[i].root=root; c[i].joined.assign(w.n,false);}
    check(c[i].kind==kind && c[i].root==root,"mismatched collective calls");
    c[i].joined[me()]=true;
    return c[i];
  }
  inline bool all(const Collective& c) {for (size_t i=0; i<c.joined.size(); ++i) if (!c.joined[i]) return false; return true;}
  // a process that needs nothing from the others may still be kept till all have joined
  inline void linger(Collective& c) {if (world().choose(2)) pause([&c]{return all(c);}); else pause();}
}

inline int MPI_Initialized(int* f) {*f=1; return 0;}
inline int MPI_Finalized(int* f) {*f=mock::world().finalised.size()>size_t(mock::me()) && mock::world().finalised[mock::me()]; return 0;}
inline int MPI_Init(int*,char***) {return 0;}
inline int MPI_Finalize() {mock::alive(); mock::world().finalised[mock::me()]=true; return 0;}
inline int MPI_Comm_rank(MPI_Comm,int* r) {mock::alive(); *r=mock::me(); return 0;}
inline int MPI_Comm_size(MPI_Comm,int* n) {mock::alive(); *n=mock::world().n; return 0;}
inline int MPI_Barrier(MPI_Comm c) {mock::Collective& k=mock::join("barrier",0,c); mock::pause([&]{return mock::all(k);}); return 0;}
inline int MPI_Send(const void* b,int count,MPI_Datatype,int dst,int tag,MPI_Comm comm)
{
  mock::pause();
  mock::post(b,count,dst,tag,comm,0);
  mock::World& w=mock::world();
  const size_t i=w.messages.size()-1;
  if (w.choose(2)) mock::pause([i]{return mock::world().messages[i].taken;});
  else mock::take(w.messages[i]);
  return 0;
}
inline int MPI_Isend(const void* b,int count,MPI_Datatype,int dst,int tag,MPI_Comm comm,MPI_Request* r)
{
  mock::pause();
  mock::World& w=mock::world();
  mock::Request q; q.active=true; q.done=false; q.msg=w.messages.size(); q.rank=mock::me();
  w.requests.push_back(q);
  *r=w.requests.size()-1;
  mock::post(b,count,dst,tag,comm,*r);
  if (!w.choose(2)) mock::take(w.messages.back());
  return 0;
}
inline int MPI_Probe(int src,int tag,MPI_Comm comm,MPI_Status* s)
{
  mock::alive();
  mock::pause([=]{return true;});
  const int r=mock::me();
  mock::pause([=]{int k=mock::me(); mock::me()=r; bool ok=!mock::matching(src,tag,comm).empty(); mock::me()=k; return ok;});
  std::vector<size_t> c=mock::matching(src,tag,comm);
  mock::status(s,mock::world().messages[c[mock::world().choose(c.size())]]);
  return 0;
}
inline int MPI_Iprobe(int src,int tag,MPI_Comm comm,int* f,MPI_Status* s)
{
  mock::pause(); mock::alive();
  std::vector<size_t> c=mock::matching(src,tag,comm);
  *f=!c.empty();
  if (*f) mock::status(s,mock::world().messages[c[mock::world().choose(c.size())]]);
  return 0;
}
inline int MPI_Get_count(const MPI_Status* s,MPI_Datatype t,int* n) {*n=s->len/t; return 0;}
inline int MPI_Recv(void* b,int count,MPI_Datatype,int src,int tag,MPI_Comm comm,MPI_Status* s)
{
  mock::alive();
  const int r=mock::me();
  mock::pause([=]{int k=mock::me(); mock::me()=r; bool ok=!mock::matching(src,tag,comm).empty(); mock::me()=k; return ok;});
  std::vector<size_t> c=mock::matching(src,tag,comm);
  mock::Message& m=mock::world().messages[c[mock::world().choose(c.size())]];
  mock::check(m.len<=size_t(count),"message truncated");
  mock::take(m); m.taken=true;
  memcpy(b,m.data.data(),m.data.size());
  mock::status(s,m);
  return 0;
}
inline int MPI_Test(MPI_Request* r,int* f,MPI_Status*)
{
  mock::pause(); mock::alive();
  *f= *r==MPI_REQUEST_NULL || mock::done(*r);
  if (*f && *r!=MPI_REQUEST_NULL) mock::release(r);
  return 0;
}
inline int MPI_Wait(MPI_Request* r,MPI_Status* s)
{
  mock::alive();
  if (s) {s->MPI_SOURCE=-77; s->MPI_TAG=-77; s->len=0;}  // of a send, without meaning
  if (*r==MPI_REQUEST_NULL) return 0;
  mock::request(*r);
  const int q=*r;
  mock::pause([q]{return mock::world().requests[q].done;});
  mock::release(r);
  return 0;
}
namespace mock
{
  inline std::vector<int> active(int n,MPI_Request* r) {std::vector<int> v; for (int i=0; i<n; ++i) if (r[i]!=MPI_REQUEST_NULL) {request(r[i]); v.push_back(i);} return v;}
  inline std::vector<int> complete(int n,MPI_Request* r) {std::vector<int> v; for (int i=0; i<n; ++i) if (r[i]!=MPI_REQUEST_NULL && world().requests[r[i]].done) v.push_back(i); return v;}
}
inline int MPI_Testall(int n,MPI_Request* r,int* f,MPI_Status*)
{
  mock::pause(); mock::alive();
  std::vector<int> a=mock::active(n,r), c=mock::complete(n,r);
  *f= a.size()==c.size();
  if (*f) for (int i: a) mock::release(r+i);
  return 0;
}
inline int MPI_Testany(int n,MPI_Request* r,int* index,int* f,MPI_Status*)
{
  mock::pause(); mock::alive();
  std::vector<int> a=mock::active(n,r), c=mock::complete(n,r);
  *f= a.empty() || !c.empty(); *index=MPI_UNDEFINED;
  if (!c.empty()) {*index=c[mock::world().choose(c.size())]; mock::release(r+*index);}
  return 0;
}
inline int MPI_Testsome(int n,MPI_Request* r,int* count,int* index,MPI_Status*)
{
  mock::pause(); mock::alive();
  std::vector<int> a=mock::active(n,r), c=mock::complete(n,r);
  *count=a.empty()? MPI_UNDEFINED: int(c.size());
  for (size_t i=0; i<c.size(); ++i) {index[i]=c[i]; mock::release(r+c[i]);}
  return 0;
}
inline int MPI_Waitall(int n,MPI_Request* r,MPI_Status*)
{
  mock::alive();
  for (int i=0; i<n; ++i) if (r[i]!=MPI_REQUEST_NULL) {const int q=r[i]; mock::request(q); mock::pause([q]{return mock::world().requests[q].done;}); mock::release(r+i);}
  return 0;
}
inline int MPI_Waitany(int n,MPI_Request* r,int* index,MPI_Status*)
{
  mock::alive();
  *index=MPI_UNDEFINED;
  if (mock::active(n,r).empty()) return 0;
  mock::pause([=]{return !mock::complete(n,r).empty();});
  std::vector<int> c=mock::complete(n,r);
  *index=c[mock::world().choose(c.size())]; mock::release(r+*index);
  return 0;
}
inline int MPI_Waitsome(int n,MPI_Request* r,int* count,int* index,MPI_Status*)
{
  mock::alive();
  *count=MPI_UNDEFINED;
  if (mock::active(n,r).empty()) return 0;
  mock::pause([=]{return !mock::complete(n,r).empty();});
  std::vector<int> c=mock::complete(n,r);
  *count=c.size();
  for (size_t i=0; i<c.size(); ++i) {index[i]=c[i]; mock::release(r+c[i]);}
  return 0;
}
inline int MPI_Bcast(void* b,int count,MPI_Datatype t,int root,MPI_Comm comm)
{
  mock::pause();
  mock::Collective& c=mock::join("bcast",root,comm);
  if (mock::me()==root) {c.in[root].assign(count? static_cast<char*>(b): "",size_t(count)*t); mock::linger(c); return 0;}
  mock::pause([&]{return c.joined[root];});
  mock::check(c.in[root].size()==size_t(count)*t,"broadcast of different sizes");
  memcpy(b,c.in[root].data(),c.in[root].size());
  return 0;
}
inline int MPI_Gatherv(const void* b,int count,MPI_Datatype t,void* out,const int* counts,const int* displs,MPI_Datatype ot,int root,MPI_Comm comm)
{
  mock::pause();
  mock::Collective& c=mock::join("gather",root,comm);
  c.in[mock::me()].assign(count? static_cast<const char*>(b): "",size_t(count)*t);
  if (mock::me()!=root) {mock::linger(c); return 0;}
  mock::pause([&]{return mock::all(c);});
  for (int i=0; i<mock::world().n; ++i)
    {
      mock::check(c.in[i].size()==size_t(counts[i])*ot,"gathering other sizes than sent");
      memcpy(static_cast<char*>(out)+size_t(displs[i])*ot,c.in[i].data(),c.in[i].size());
    }
  return 0;
}
inline int MPI_Gather(const void* b,int count,MPI_Datatype t,void* out,int n,MPI_Datatype ot,int root,MPI_Comm comm)
{
  std::vector<int> counts(mock::world().n,n), displs;
  for (int i=0; i<mock::world().n; ++i) displs.push_back(i*n);
  return MPI_Gatherv(b,count,t,out,counts.data(),displs.data(),ot,root,comm);
}
inline int MPI_Scatterv(const void* b,const int* counts,const int* displs,MPI_Datatype t,void* out,int count,MPI_Datatype ot,int root,MPI_Comm comm)
{
  mock::pause();
  mock::Collective& c=mock::join("scatter",root,comm);
  if (mock::me()==root)
    for (int i=0; i<mock::world().n; ++i)
      {
        mock::check(counts[i]>=0,"negative count");
        c.in[i].assign(counts[i]>0? static_cast<const char*>(b)+size_t(displs[i])*t: "",size_t(counts[i]<0? 0: counts[i])*t);
      }
  const int r=mock::me();
  if (r==root) mock::linger(c);
  else mock::pause([&]{return c.joined[root];});
  mock::check(c.in[r].size()==size_t(count)*ot,"scattering other sizes than received");
  memcpy(out,c.in[r].data(),c.in[r].size());
  return 0;
}
inline int MPI_Scatter(const void* b,int count,MPI_Datatype t,void* out,int n,MPI_Datatype ot,int root,MPI_Comm comm)
{
  std::vector<int> counts(mock::world().n,count), displs;
  for (int i=0; i<mock::world().n; ++i) displs.push_back(i*count);
  return MPI_Scatterv(b,counts.data(),displs.data(),t,out,n,ot,root,comm);
}
#endif
