// A storage of five fields of different kinds, its whole state, and an independent interpreter of its log.
#pragma once
#ifndef CURRENT_STORAGE_PATCH_SUPPORT
#define CURRENT_STORAGE_PATCH_SUPPORT
#endif
#include "storage_model.h"

namespace five {

using namespace sm;
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, ByName, FD);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, ByNumber, FU);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToOrderedMany, Cell, FMM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToUnorderedMany, Cell, FOM);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedOne, Cell, FOO);

CURRENT_STORAGE(Five) {
  CURRENT_STORAGE_FIELD(d, FD);
  CURRENT_STORAGE_FIELD(u, FU);
  CURRENT_STORAGE_FIELD(mm, FMM);
  CURRENT_STORAGE_FIELD(om, FOM);
  CURRENT_STORAGE_FIELD(oo, FOO);
};

struct State {
  Model m[5];
  bool operator==(const State& x) const {
    for (int i = 0; i < 5; ++i)
      if (!(m[i] == x.m[i])) return false;
    return true;
  }
  std::string Show() const {
    std::string r;
    for (int i = 0; i < 5; ++i) r += "field " + std::to_string(i) + "\n" + m[i].Show();
    return r;
  }
};

// An interpreter of the mutations of the log, written against what they mean and not against the containers.
struct Replayer {
  State st;
  size_t mutations = 0;
  int64_t last_us = -1;
  bool increasing = true;
  template <typename US>
  void Time(const US& us) {
    if (us.count() <= last_us) increasing = false;
    last_us = us.count();
    ++mutations;
  }
  template <typename E>
  void Put(int i, const Key& k, const E& e) {
    Time(e.us);
    st.m[i].cells[k] = JSON(e.data);
    st.m[i].lm[k] = e.us.count();
  }
  template <typename E>
  void Del(int i, const Key& k, const E& e) {
    Time(e.us);
    st.m[i].cells.erase(k);
    st.m[i].lm[k] = e.us.count();
  }
  void operator()(const FDUpdated& e) { Put(0, Key(e.data.key, ""), e); }
  void operator()(const FDDeleted& e) { Del(0, Key(e.key, ""), e); }
  void operator()(const FDPatched& e) {
    const Key k(e.key, "");
    auto x = ParseJSON<ByName>(st.m[0].cells.at(k));
    x.v += e.patch.tail;
    x.list.push_back(e.patch.n);
    Time(e.us);
    st.m[0].cells[k] = JSON(x);
    st.m[0].lm[k] = e.us.count();
  }
  void operator()(const FUUpdated& e) { Put(1, Key(S(e.data.id), ""), e); }
  void operator()(const FUDeleted& e) { Del(1, Key(S(e.key), ""), e); }
  template <typename D>
  static Key CellKey(const D& c) { return Key(c.row, S(c.col)); }
  template <typename P>
  static Key PairKey(const P& c) { return Key(c.first, S(c.second)); }
  void operator()(const FMMUpdated& e) { Put(2, CellKey(e.data), e); }
  void operator()(const FMMDeleted& e) { Del(2, PairKey(e.key), e); }
  void operator()(const FOMUpdated& e) { Put(3, CellKey(e.data), e); }
  void operator()(const FOMDeleted& e) { Del(3, PairKey(e.key), e); }
  void operator()(const FOOUpdated& e) { Put(4, CellKey(e.data), e); }
  void operator()(const FOODeleted& e) { Del(4, PairKey(e.key), e); }
};

template <class FIELDS>
State DumpAll(const FIELDS& f, const State& like) {
  State r;
  auto Keys = [&](int i) {
    std::set<Key> k;
    for (auto& x : like.m[i].lm) k.insert(x.first);
    // Of the keys which the state does not have as well.
    if (i == 0) {
      for (const char* x : {"a", "b", "c", "", "A", "aa", "z"}) k.insert(Key(x, ""));
    } else if (i == 1) {
      for (int x = -1; x <= 4; ++x) k.insert(Key(std::to_string(x), ""));
    } else {
      for (const char* x : {"a", "b", "c", "", "A", "aa", "z"})
        for (int y = -1; y <= 4; ++y) k.insert(Key(x, std::to_string(y)));
    }
    return k;
  };
  r.m[0] = Dump(f.d, Keys(0));
  r.m[1] = Dump(f.u, Keys(1));
  r.m[2] = Dump(f.mm, Keys(2));
  r.m[3] = Dump(f.om, Keys(3));
  r.m[4] = Dump(f.oo, Keys(4));
  return r;
}

template <class FIELDS>
void CheckAll(pbt::Src& s, const FIELDS& f, const State& st) {
  CheckField(s, f.d, st.m[0], true, true);
  CheckField(s, f.u, st.m[1], false, false);
  CheckField(s, f.mm, st.m[2], false, true);
  CheckField(s, f.om, st.m[3], true, false);
  CheckField(s, f.oo, st.m[4], false, false);
}

}  // namespace five
