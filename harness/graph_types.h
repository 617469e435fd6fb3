// Node types whose links are held in different ways.
struct RM2 {typedef classdesc::ref<RM2> Link; int v; classdesc::ref<RM2> a, b; RM2(): v(0) {}};
struct RVec {typedef classdesc::ref<RVec> Link; std::vector<classdesc::ref<RVec> > l; int v; RVec(): v(0) {}};
struct RDeq {typedef classdesc::ref<RDeq> Link; int v; std::deque<classdesc::ref<RDeq> > l; RDeq(): v(0) {}};
struct RLst {typedef classdesc::ref<RLst> Link; int v; std::list<classdesc::ref<RLst> > l; RLst(): v(0) {}};
struct RMap {typedef classdesc::ref<RMap> Link; int v; std::map<int,classdesc::ref<RMap> > l; RMap(): v(0) {}};
struct RArr {typedef classdesc::ref<RArr> Link; classdesc::ref<RArr> l[2]; int v; RArr(): v(0) {}};
#pragma graphnode PM2
struct PM2 {typedef PM2* Link; int v; PM2 *a, *b; PM2(): v(0), a(0), b(0) {}};
#pragma graphnode PVec
struct PVec {typedef PVec* Link; int v; std::vector<PVec*> l; PVec(): v(0) {}};
struct FM2 {typedef FM2* Link; FM2 *a; int v; FM2 *b; FM2(): a(0), v(0), b(0) {}};
