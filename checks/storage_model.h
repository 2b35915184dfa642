// A model of the containers of a storage: plain maps; random operations upon both; full comparison through every view.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>

#include "pbt.h"

#include "storage/persister/stream.h"
#include "storage/storage.h"

namespace sm {

CURRENT_STRUCT(ByNamePatch) {
  CURRENT_FIELD(tail, std::string);
  CURRENT_FIELD(n, int32_t, 0);
};
CURRENT_STRUCT(ByName) {
  CURRENT_FIELD(key, std::string);
  CURRENT_FIELD(v, std::string);
  CURRENT_FIELD(list, std::vector<int32_t>);
#ifdef CURRENT_STORAGE_PATCH_SUPPORT
  using patch_object_t = ByNamePatch;
  void PatchWith(const ByNamePatch& p) {
    v += p.tail;
    list.push_back(p.n);
  }
#endif
};
CURRENT_STRUCT(ByNumber) {
  CURRENT_FIELD(id, int64_t, 0);
  CURRENT_FIELD(v, Optional<std::string>);
  int64_t key() const { return id; }
  void set_key(int64_t k) { id = k; }
};
CURRENT_STRUCT(Cell) {
  CURRENT_FIELD(row, std::string);
  CURRENT_FIELD(col, int32_t, 0);
  CURRENT_FIELD(v, std::string);
};

using Key = std::pair<std::string, std::string>;  // The second is empty for dictionaries.

inline std::string S(const std::string& s) { return s; }
inline std::string S(int32_t s) { return std::to_string(s); }
inline std::string S(int64_t s) { return std::to_string(s); }

struct Model {
  std::map<Key, std::string> cells;  // To the JSON of the entry.
  std::map<Key, int64_t> lm;         // Of the keys removed as well.
  bool operator==(const Model& m) const { return cells == m.cells && lm == m.lm; }
  std::string Show() const {
    std::string r;
    for (auto& c : cells) r += c.first.first + "|" + c.first.second + " = " + c.second + "\n";
    for (auto& c : lm) r += c.first.first + "|" + c.first.second + " @ " + std::to_string(c.second) + "\n";
    return r;
  }
};

inline std::string Name(pbt::Src& s) {
  if (s.Chance(1, 16)) return s.Utf8(5);
  return s.Pick({"a", "b", "c", "", "A", "aa", "z", "\xd0\xbf"});
}
inline int32_t Number(pbt::Src& s) {
  if (s.Chance(1, 16)) return s.Integer<int32_t>();
  return int32_t(s.Int(-1, 4));
}

template <class T>
T RandomKey(pbt::Src& s) {
  if constexpr (std::is_same_v<T, std::string>) {
    return Name(s);
  } else {
    if (sizeof(T) == 8 && s.Chance(1, 16)) return T(s.Integer<int64_t>());
    return T(Number(s));
  }
}

template <class F>
constexpr bool IsDict = std::is_same_v<typename F::semantics_t, current::storage::semantics::Dictionary>;
template <class F>
constexpr bool IsMM = std::is_same_v<typename F::semantics_t, current::storage::semantics::ManyToMany>;
template <class F>
constexpr bool IsOM = std::is_same_v<typename F::semantics_t, current::storage::semantics::OneToMany>;
template <class F>
constexpr bool IsOO = std::is_same_v<typename F::semantics_t, current::storage::semantics::OneToOne>;

template <class F>
void RandomOp(pbt::Src& s, F& f, Model& m) {
  using us_t = std::chrono::microseconds;
  std::vector<Key> touched;
  auto Describe = [&](const std::string& t) {
    if (s.Describing()) s.Note(f.FieldName() + ": " + t);
  };
  const us_t t0 = current::time::Now();
  if constexpr (IsDict<F>) {
    using K = typename F::key_t;
    const K k = RandomKey<K>(s);
    const Key mk(S(k), "");
#ifdef CURRENT_STORAGE_PATCH_SUPPORT
    if constexpr (std::is_same_v<typename F::entry_t, ByName>) {
      if (s.Chance(1, 4)) {
        ByNamePatch p;
        p.tail = s.Utf8(3);
        p.n = Number(s);
        Describe("patch " + k + " with " + JSON(p));
        const bool there = m.cells.count(mk) > 0;
        s.Eq(there, f.Patch(k, p), "patch-result");
        if (there) {
          auto e = ParseJSON<ByName>(m.cells[mk]);
          e.v += p.tail;
          e.list.push_back(p.n);
          m.cells[mk] = JSON(e);
          const auto x = f.LastModified(k);
          s.Check(Exists(x) && Value(x).count() > t0.count(), "last-modified");
          if (Exists(x)) m.lm[mk] = Value(x).count();
        }
        return;
      }
    }
#endif
    if (s.Chance(3, 5)) {
      typename F::entry_t e;
      current::storage::sfinae::SetKey(e, k);
      if (s.Chance(2, 3)) e.v = s.Utf8(4);
      if constexpr (std::is_same_v<typename F::entry_t, ByName>) e.list = s.Bool() ? std::vector<int32_t>() : std::vector<int32_t>{Number(s)};
      Describe("add " + JSON(e));
      if (m.cells.count(mk) && s.Chance(1, 8)) {
        Describe("(itself instead)");
        f.Add(Value(f[k]));
      } else {
        f.Add(e);
        m.cells[mk] = JSON(e);
      }
      touched.push_back(mk);
    } else {
      Describe("erase " + S(k));
      if (m.cells.count(mk)) touched.push_back(mk);
      bool by_own_key = false;
      if (s.Chance(1, 4)) {
        for (auto it = f.begin(); it != f.end(); ++it) {
          if (it.key() == k) {
            f.Erase(it.key());
            by_own_key = true;
            break;
          }
        }
      }
      if (!by_own_key) f.Erase(k);
      m.cells.erase(mk);
    }
  } else {
    const std::string row = Name(s);
    const int32_t col = Number(s);
    const Key mk(row, S(col));
    const size_t op = s.Weighted({10, 3, 1, 2, 2});
    auto Gone = [&](auto pred) {
      for (auto it = m.cells.begin(); it != m.cells.end();) {
        if (pred(it->first)) {
          touched.push_back(it->first);
          it = m.cells.erase(it);
        } else {
          ++it;
        }
      }
    };
    if (op == 0) {
      Cell e;
      e.row = row;
      e.col = col;
      e.v = s.Utf8(4);
      Describe("add " + JSON(e));
      if (IsOM<F> || IsOO<F>) Gone([&](const Key& k) { return k.second == mk.second && k.first != mk.first; });
      if (IsOO<F>) Gone([&](const Key& k) { return k.first == mk.first && k.second != mk.second; });
      if (m.cells.count(mk) && s.Chance(1, 8)) {
        f.Add(Value(f.Get(row, col)));
      } else {
        f.Add(e);
        m.cells[mk] = JSON(e);
      }
      touched.push_back(mk);
    } else if (op == 1 || op == 2) {
      Describe("erase " + row + " " + S(col));
      if (op == 1) {
        f.Erase(row, col);
      } else {
        f.Erase(std::make_pair(row, col));
      }
      Gone([&](const Key& k) { return k == mk; });
    } else if (op == 3) {
      if constexpr (IsOM<F> || IsOO<F>) {
        Describe("erase the column " + S(col));
        f.EraseCol(col);
        Gone([&](const Key& k) { return k.second == mk.second; });
      }
    } else {
      if constexpr (IsOO<F>) {
        Describe("erase the row " + row);
        f.EraseRow(row);
        Gone([&](const Key& k) { return k.first == mk.first; });
      }
    }
  }
  const us_t t1 = current::time::Now();
  for (const auto& k : touched) {
    int64_t lm = -1;
    if constexpr (IsDict<F>) {
      const auto x = f.LastModified(current::FromString<typename F::key_t>(k.first));
      if (Exists(x)) lm = Value(x).count();
    } else {
      const auto x = f.LastModified(k.first, current::FromString<int32_t>(k.second));
      if (Exists(x)) lm = Value(x).count();
    }
    s.Check(lm > t0.count() && lm < t1.count(), "last-modified", [&] { return f.FieldName() + ": " + k.first + "|" + k.second + " is last modified at " + std::to_string(lm) + ", not within " + std::to_string(t0.count()) + " .. " + std::to_string(t1.count()); });
    m.lm[k] = lm;
  }
}

template <class F, class A, class M>
void CheckView(pbt::Src& s, const F& f, const char* what, const A& a, const M& expected, bool ordered, const std::vector<typename M::key_type>& probes) {
  // A view of single elements: `expected` maps the key to the JSON.
  auto Where = [&] { return f.FieldName() + ", " + what; };
  std::vector<typename M::key_type> keys;
  M got;
  for (auto it = a.begin(); it != a.end(); ++it) {
    keys.push_back(it.key());
    s.Check(got.emplace(it.key(), JSON(*it)).second, "twice-in-a-view", Where);
  }
  s.Check(got == expected, "view", [&] {
    std::string t = Where() + "\n";
    for (auto& x : got) t += "has " + x.second + "\n";
    for (auto& x : expected) t += "expected " + x.second + "\n";
    return t;
  });
  size_t n = 0;
  for (const auto& e : a) {
    JSON(e);
    ++n;
  }
  s.Eq(expected.size(), n, "range-for");
  s.Eq(expected.size(), a.Size(), "view-size");
  s.Eq(expected.empty(), a.Empty(), "view-empty");
  for (const auto& k : probes) s.Eq(expected.count(k) > 0, a.Has(k), "view-has");
  if (ordered) s.Check(std::is_sorted(keys.begin(), keys.end()), "order", Where);
  using MAP = std::decay_t<decltype(a.map_)>;
  if constexpr (!current::stl_wrappers::sfinae::is_unordered_map<MAP>::value) {
    std::vector<typename M::key_type> back;
    for (auto it = a.rbegin(); it != a.rend(); ++it) back.push_back(it.key());
    std::reverse(back.begin(), back.end());
    s.Check(back == keys, "reverse-order", Where);
    for (const auto& k : probes) {
      auto lo = a.LowerBound(k), hi = a.UpperBound(k);
      auto elo = expected.lower_bound(k), ehi = expected.upper_bound(k);
      s.Check(elo == expected.end() ? lo == a.end() : lo != a.end() && lo.key() == elo->first, "lower-bound", Where);
      s.Check(ehi == expected.end() ? hi == a.end() : hi != a.end() && hi.key() == ehi->first, "upper-bound", Where);
    }
  }
}

// Every view of the field against the model.
template <class F>
void CheckField(pbt::Src& s, const F& f, const Model& m, bool row_ordered, bool col_ordered) {
  auto Where = [&] { return f.FieldName() + "\nexpected\n" + m.Show(); };
  s.Check(f.Size() == m.cells.size(), "size", Where);
  s.Check(f.Empty() == m.cells.empty(), "empty", Where);
  if constexpr (IsDict<F>) {
    using K = typename F::key_t;
    std::map<K, std::string> got;
    std::vector<K> keys;
    for (auto it = f.begin(); it != f.end(); ++it) {
      keys.push_back(it.key());
      s.Check(got.emplace(it.key(), JSON(*it)).second, "twice", Where);
      s.Check(current::storage::sfinae::GetKey(*it) == it.key(), "key-of-the-element", Where);
    }
    if (row_ordered) s.Check(std::is_sorted(keys.begin(), keys.end()), "order", Where);
    std::map<Key, std::string> flat;
    for (auto& g : got) flat[Key(S(g.first), "")] = g.second;
    s.Check(flat == m.cells, "contents", Where);
    std::set<std::string> probes;
    for (auto& x : m.lm) probes.insert(x.first.first);
    if constexpr (std::is_same_v<K, std::string>) probes.insert("nope");
    for (const auto& p : probes) {
      const K k = current::FromString<K>(p);
      const auto it = m.cells.find(Key(p, ""));
      s.Check(f.Has(k) == (it != m.cells.end()), "has", Where);
      const auto e = f[k];
      s.Check(Exists(e) == (it != m.cells.end()), "lookup", Where);
      if (Exists(e)) s.Check(JSON(Value(e)) == it->second, "lookup-value", Where);
      const auto lm = f.LastModified(k);
      const auto lit = m.lm.find(Key(p, ""));
      s.Check(Exists(lm) == (lit != m.lm.end()) && (!Exists(lm) || Value(lm).count() == lit->second), "last-modified-of", Where);
    }
  } else {
    std::map<Key, std::string> got;
    for (auto it = f.begin(); it != f.end(); ++it) {
      s.Check(got.emplace(Key((*it).row, S((*it).col)), JSON(*it)).second, "twice", Where);
      s.Check(it.key().first == it->row && it.key().second == it->col, "key-of-the-element", Where);
    }
    s.Check(got == m.cells, "contents", Where);
    std::map<std::string, std::map<int32_t, std::string>> rows;
    std::map<int32_t, std::map<std::string, std::string>> cols;
    for (auto& c : m.cells) {
      const int32_t col = current::FromString<int32_t>(c.first.second);
      rows[c.first.first][col] = c.second;
      cols[col][c.first.first] = c.second;
    }
    std::vector<std::string> row_probes{"nope"};
    std::vector<int32_t> col_probes{777};
    {
      std::set<std::string> r;
      std::set<int32_t> c;
      for (auto& x : m.lm) {
        r.insert(x.first.first);
        c.insert(current::FromString<int32_t>(x.first.second));
      }
      row_probes.insert(row_probes.end(), r.begin(), r.end());
      col_probes.insert(col_probes.end(), c.begin(), c.end());
    }
    for (const auto& r : row_probes)
      for (const auto c : col_probes) {
        const Key k(r, S(c));
        const auto it = m.cells.find(k);
        const bool there = it != m.cells.end();
        if constexpr (!IsOO<F>) {
          s.Check(f.Has(r, c) == there && f.Has(std::make_pair(r, c)) == there, "has", Where);
        }
        const auto e1 = f.Get(r, c);
        const auto e2 = f[std::make_pair(r, c)];
        s.Check(Exists(e1) == there && Exists(e2) == there, "lookup", Where);
        if (there) s.Check(JSON(Value(e1)) == it->second && JSON(Value(e2)) == it->second, "lookup-value", Where);
        const auto lm = f.LastModified(r, c), lm2 = f.LastModified(std::make_pair(r, c));
        const auto lit = m.lm.find(k);
        s.Check(Exists(lm) == (lit != m.lm.end()) && (!Exists(lm) || Value(lm).count() == lit->second), "last-modified-of", Where);
        s.Check(Exists(lm2) == Exists(lm), "last-modified-of-pair", Where);
        if constexpr (IsOM<F> || IsOO<F>) {
          const bool free = !cols.count(c) && (IsOM<F> || !rows.count(r));
          s.Check(f.DoesNotConflict(r, c) == free && f.DoesNotConflict(std::make_pair(r, c)) == free, "does-not-conflict", Where);
        }
      }
    // Rows.
    const auto R = f.Rows();
    const auto C = f.Cols();
    s.Check(R.Size() == rows.size() && R.Empty() == rows.empty(), "rows", Where);
    s.Check(C.Size() == cols.size() && C.Empty() == cols.empty(), "cols", Where);
    for (const auto& r : row_probes) s.Check(R.Has(r) == (rows.count(r) > 0), "rows-has", Where);
    for (const auto c : col_probes) s.Check(C.Has(c) == (cols.count(c) > 0), "cols-has", Where);
    if constexpr (IsOO<F>) {
      std::map<std::string, std::string> flat;
      for (auto& r : rows) flat[r.first] = r.second.begin()->second;
      CheckView(s, f, "rows", R, flat, row_ordered, row_probes);
      for (const auto& r : row_probes) {
        const auto e = f.GetEntryFromRow(r);
        s.Check(Exists(e) == (flat.count(r) > 0) && (!Exists(e) || JSON(Value(e)) == flat[r]), "entry-from-row", Where);
      }
    } else {
      std::vector<std::string> seen;
      std::vector<int32_t> cp(col_probes);
      for (auto it = R.begin(); it != R.end(); ++it) {
        const std::string r = it.OuterKeyForPartialHypermediaCollectionView();
        seen.push_back(r);
        CheckView(s, f, "a row", *it, rows[r], col_ordered, cp);
      }
      s.Check(seen.size() == rows.size(), "rows-iteration", Where);
      if (row_ordered) s.Check(std::is_sorted(seen.begin(), seen.end()), "rows-order", Where);
      for (const auto& r : row_probes) {
        CheckView(s, f, "row of", f.Row(r), rows[r], col_ordered, cp);
        const auto v = R[r];
        s.Check(Exists(v) == !rows[r].empty(), "rows-lookup", Where);
        if (Exists(v)) s.Check(Value(v).Size() == rows[r].size(), "rows-lookup-size", Where);
      }
    }
    if constexpr (IsMM<F>) {
      std::vector<int32_t> seen;
      for (auto it = C.begin(); it != C.end(); ++it) {
        const int32_t c = it.OuterKeyForPartialHypermediaCollectionView();
        seen.push_back(c);
        CheckView(s, f, "a column", *it, cols[c], row_ordered, row_probes);
      }
      s.Check(seen.size() == cols.size(), "cols-iteration", Where);
      if (col_ordered) s.Check(std::is_sorted(seen.begin(), seen.end()), "cols-order", Where);
      for (const auto c : col_probes) {
        CheckView(s, f, "column of", f.Col(c), cols[c], row_ordered, row_probes);
        s.Check(Exists(C[c]) == !cols[c].empty(), "cols-lookup", Where);
      }
    } else {
      std::map<int32_t, std::string> flat;
      for (auto& c : cols) flat[c.first] = c.second.begin()->second;
      CheckView(s, f, "columns", C, flat, col_ordered, col_probes);
      for (const auto c : col_probes) {
        const auto e = f.GetEntryFromCol(c);
        s.Check(Exists(e) == (flat.count(c) > 0) && (!Exists(e) || JSON(Value(e)) == flat[c]), "entry-from-col", Where);
      }
    }
  }
}

// The whole state of the field, last modified times of `keys` included, from its primary view only.
template <class F>
Model Dump(const F& f, const std::set<Key>& keys) {
  Model m;
  if constexpr (IsDict<F>) {
    for (auto it = f.begin(); it != f.end(); ++it) m.cells[Key(S(it.key()), "")] = JSON(*it);
    for (const auto& k : keys) {
      const auto lm = f.LastModified(current::FromString<typename F::key_t>(k.first));
      if (Exists(lm)) m.lm[k] = Value(lm).count();
    }
  } else {
    for (auto it = f.begin(); it != f.end(); ++it) m.cells[Key((*it).row, S((*it).col))] = JSON(*it);
    for (const auto& k : keys) {
      const auto lm = f.LastModified(k.first, current::FromString<int32_t>(k.second));
      if (Exists(lm)) m.lm[k] = Value(lm).count();
    }
  }
  return m;
}

}  // namespace sm
