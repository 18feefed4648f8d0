#include "payloads.h"

namespace pl
{
World world;
int pool[16];

namespace
{
  // Chained hash table over a static pool of nodes.
  struct Node
  {
    const void * p;
    int type;
    int next;
  };
  constexpr int kNodes = 1 << 16;
  constexpr int kBuckets = 1 << 12;
  Node nodes[kNodes];
  int heads[kBuckets]; // index + 1
  int freeList = 0;
  int used = 0;

  int & head(const void * p)
  {
    uintptr_t const x = reinterpret_cast<uintptr_t>(p);
    return heads[((x >> 2) ^ (x >> 14)) & (kBuckets - 1)];
  }

  int find(const void * p, int type)
  {
    for (int n = head(p); n != 0; n = nodes[n - 1].next) {
      if (nodes[n - 1].p == p && nodes[n - 1].type == type) {
        return n;
      }
    }
    return 0;
  }
} // namespace

void reg_birth(const void * p, int type)
{
  if (find(p, type)) {
    mon::failt("life", "lifetime: payload constructed at %p over a living payload", p);
    return;
  }
  int n;
  if (freeList) {
    n = freeList;
    freeList = nodes[n - 1].next;
  }
  else if (used < kNodes) {
    n = ++used;
  }
  else {
    mon::failt("life", "lifetime: more than %d living payloads", kNodes);
    return;
  }
  nodes[n - 1] = Node{p, type, head(p)};
  head(p) = n;
  ++world.liveCount;
}

void reg_death(const void * p, int type)
{
  int * link = &head(p);
  while (*link) {
    Node & nd = nodes[*link - 1];
    if (nd.p == p && nd.type == type) {
      int const n = *link;
      *link = nd.next;
      nd.next = freeList;
      freeList = n;
      --world.liveCount;
      return;
    }
    link = &nd.next;
  }
  mon::failt("life", "lifetime: destructor of a payload that is not alive (at %p)", p);
}

void reg_use(const void * p, int type, const char * what)
{
  // Types 0 and 1 (Trk<false>, Trk<true>) are interchangeable, the others are exact.
  if (type > 1 ? !find(p, type) : !reg_alive(p)) {
    mon::failt("life", "lifetime: object at %p is %s although it is not alive", p, what);
  }
}

bool reg_alive(const void * p)
{
  return find(p, 0) || find(p, 1);
}
} // namespace pl
