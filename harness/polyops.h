#include <set>
// what can be done with an object behind a polymorphic pointer (see Poly.tla)
// distinct objects found behind pointers: members of clones are shared with their origin
std::set<const void*> seen;
template <class T> struct PtrOf
{
  static Root* get(T&) {return 0;}
  static void put(T&, Root*) {}
};
template <class P> struct PtrTo
{
  static Root* get(P& x) {return x.get();}
  static void put(P& x, Root* r) {x.reset(dynamic_cast<typename P::element_type*>(r));}
};
template <class U> struct PtrOf<classdesc::shared_ptr<U> >: public PtrTo<classdesc::shared_ptr<U> > {};
#if __cplusplus>=201103L
template <class U> struct PtrOf<std::unique_ptr<U> >: public PtrTo<std::unique_ptr<U> > {};
#else
template <class U> struct PtrOf<std::auto_ptr<U> >: public PtrTo<std::auto_ptr<U> > {};
#endif
template <class S> std::string allSlots(const std::vector<S*>& slots)
{
  std::string s;
  for (size_t i=0; i<slots.size(); ++i) s+=sep(i)+slots[i]->get();
  return "["+s+"]";
}
template <class S> bool polyOp(const vh::Tokens& t, const std::string& line, std::vector<S*>& slots, long base)
{
  if (t[0]=="clone")
    {
      Root* c=dynamic_cast<Root*>(slots.at(vh::num(t[1]))->root()->clone());
      slots.at(vh::num(t[2]))->reset(c);
      vh::say("{\"vals\":"+allSlots(slots)+"}");
      return true;
    }
  if (t[0]=="cast")
    {
      Root* c=castClone(*slots.at(vh::num(t[1]))->root(),vh::num(t[3]));
      slots.at(vh::num(t[2]))->reset(c);
      vh::say("{\"vals\":"+allSlots(slots)+"}");
      return true;
    }
  if (t[0]=="poke")
    {
      poke(*slots.at(vh::num(t[1]))->root(),J::parse(line.substr(t[0].size()+t[1].size()+2)));
      vh::say("{\"vals\":"+allSlots(slots)+"}");
      return true;
    }
  if (t[0]=="spare")
    {
      seen.clear(); allSlots(slots);
      long self=0;
      for (size_t i=0; i<slots.size(); ++i) self+=slots[i]->self();
      vh::say("{\"spare\":"+vh::str(liveCount()-base-self-long(seen.size()))+"}");
      return true;
    }
  return false;
}
