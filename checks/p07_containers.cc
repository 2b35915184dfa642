// P07: the containers of a storage against plain maps.
#include "storage_model.h"

PBT_CHECK("P07", "exploration",
          "A case is a random sequence of additions (of new, existing and conflicting keys, and of an element itself), "
          "removals by key, row and column, over one of the fourteen containers with a small key domain, in transactions "
          "some of which are rolled back; after every transaction each view of the container (lookups, sizes, membership, "
          "iteration and its order, rows, columns, bounds, last modified times) is compared to a model of plain maps. "
          "Non-trivial: at least eight operations, one of them a removal or an overwriting of an existing element.");

namespace {

using namespace sm;
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, ByName, FDictO);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, ByName, FDictU);
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, ByNumber, FNumO);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, ByNumber, FNumU);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToOrderedMany, Cell, FMMOO);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToUnorderedMany, Cell, FMMOU);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToOrderedMany, Cell, FMMUO);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToUnorderedMany, Cell, FMMUU);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedMany, Cell, FOMOO);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToUnorderedMany, Cell, FOMOU);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToOrderedMany, Cell, FOMUO);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedMany, Cell, FOMUU);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedOne, Cell, FOOOO);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToUnorderedOne, Cell, FOOOU);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToOrderedOne, Cell, FOOUO);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedOne, Cell, FOOUU);

CURRENT_STORAGE(Dicts) {
  CURRENT_STORAGE_FIELD(f0, FDictO);
  CURRENT_STORAGE_FIELD(f1, FDictU);
  CURRENT_STORAGE_FIELD(f2, FNumO);
  CURRENT_STORAGE_FIELD(f3, FNumU);
};
CURRENT_STORAGE(Many) {
  CURRENT_STORAGE_FIELD(f0, FMMOO);
  CURRENT_STORAGE_FIELD(f1, FMMOU);
  CURRENT_STORAGE_FIELD(f2, FMMUO);
  CURRENT_STORAGE_FIELD(f3, FMMUU);
};
CURRENT_STORAGE(OneMany) {
  CURRENT_STORAGE_FIELD(f0, FOMOO);
  CURRENT_STORAGE_FIELD(f1, FOMOU);
  CURRENT_STORAGE_FIELD(f2, FOMUO);
  CURRENT_STORAGE_FIELD(f3, FOMUU);
};
CURRENT_STORAGE(OneOne) {
  CURRENT_STORAGE_FIELD(f0, FOOOO);
  CURRENT_STORAGE_FIELD(f1, FOOOU);
  CURRENT_STORAGE_FIELD(f2, FOOUO);
  CURRENT_STORAGE_FIELD(f3, FOOUU);
};

template <class STORAGE>
void Run(pbt::Src& s) {
  auto storage = STORAGE::CreateMasterStorage();
  const size_t which = s.Draw(3);
  Model m;
  size_t ops = 0, hits = 0;
  const size_t transactions = 1 + s.Len(12);
  for (size_t t = 0; t < transactions; ++t) {
    const bool roll_back = s.Chance(1, 6);
    Model next = m;
    auto Body = [&](auto& f, bool row_ordered, bool col_ordered) {
      const size_t n = s.Len(8);
      for (size_t i = 0; i < n; ++i) {
        const size_t before = next.cells.size();
        const auto lm_before = next.lm.size();
        RandomOp(s, f, next);
        ++ops;
        if (next.cells.size() < before || (next.cells.size() == before && next.lm.size() == lm_before)) ++hits;
        if (s.Chance(1, 4)) CheckField(s, f, next, row_ordered, col_ordered);
      }
    };
    const auto result = storage->ReadWriteTransaction([&](MutableFields<STORAGE> fields) {
      switch (which) {
        case 0: Body(fields.f0, true, true); break;
        case 1: Body(fields.f1, sm::IsDict<std::decay_t<decltype(fields.f1)>> ? false : true, false); break;
        case 2: Body(fields.f2, sm::IsDict<std::decay_t<decltype(fields.f2)>> ? true : false, true); break;
        default: Body(fields.f3, false, false);
      }
      if (roll_back) CURRENT_STORAGE_THROW_ROLLBACK();
    }).Go();
    s.Eq(!roll_back, WasCommitted(result), "committed");
    if (!roll_back) m = next;
    if (roll_back && s.Describing()) s.Note("roll back");
    storage->ReadOnlyTransaction([&](ImmutableFields<STORAGE> fields) {
      // The others stay empty.
      size_t n[4] = {fields.f0.Size(), fields.f1.Size(), fields.f2.Size(), fields.f3.Size()};
      for (size_t i = 0; i < 4; ++i)
        if (i != which) s.Eq(size_t(0), n[i], "another field has changed");
      switch (which) {
        case 0: CheckField(s, fields.f0, m, true, true); break;
        case 1: CheckField(s, fields.f1, m, sm::IsDict<std::decay_t<decltype(fields.f1)>> ? false : true, false); break;
        case 2: CheckField(s, fields.f2, m, sm::IsDict<std::decay_t<decltype(fields.f2)>> ? true : false, true); break;
        default: CheckField(s, fields.f3, m, false, false);
      }
    }).Go();
  }
  if (ops >= 8 && hits) s.NonTrivial();
}

}  // namespace

PBT_PROP(dictionaries) { Run<Dicts<StreamInMemoryStreamPersister>>(s); }
PBT_PROP(many_to_many) { Run<Many<StreamInMemoryStreamPersister>>(s); }
PBT_PROP(one_to_many) { Run<OneMany<StreamInMemoryStreamPersister>>(s); }
PBT_PROP(one_to_one) { Run<OneOne<StreamInMemoryStreamPersister>>(s); }
