// P10: the REST interfaces of a storage against a dictionary.
#include "storage_model.h"
#include "httpc.h"

#include "storage/api.h"
#include "storage/rest/hypermedia.h"
#include "storage/rest/simple.h"

PBT_CHECK("P10", "exploration",
          "A case is a history of HTTP requests over loopback (GET, POST, PUT, PATCH, DELETE and other methods; with keys in the path, in the "
          "query or by the aliases; good, broken and mismatching bodies; conditional headers; CQS commands which may fail) to the plain, simple and "
          "hypermedia interfaces of one storage of two dictionaries and two matrices; every status code, reply and the whole "
          "storage after every request is compared to a dictionary model. Non-trivial: at least one request changed the storage and "
          "at least one was rejected, or a listing of two or more records was compared.");

namespace {

using namespace sm;

CURRENT_STRUCT(Rec) {
  CURRENT_FIELD(key, std::string);
  CURRENT_FIELD(v, std::string);
  CURRENT_FIELD(n, int32_t, 0);
  CURRENT_FIELD(note, Optional<std::string>);
  void InitializeOwnKey() {
    if (key.empty()) key = "own-" + std::to_string(n);
  }
};
CURRENT_STRUCT(NumBrief) {
  CURRENT_FIELD(id, int64_t, 0);
  int64_t key() const { return id; }
  void set_key(int64_t k) { id = k; }
};
CURRENT_STRUCT(Num, NumBrief) {
  CURRENT_FIELD(v, std::string);
  using brief_t = NumBrief;
};
CURRENT_STRUCT(Square) {
  CURRENT_FIELD(row, std::string);
  CURRENT_FIELD(col, int32_t, 0);
  CURRENT_FIELD(v, std::string);
  void InitializeOwnKey() {}
};
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, Rec, RD);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, Num, RU);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToUnorderedMany, Square, RM);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToOrderedMany, Square, RO);
CURRENT_STORAGE(Four) {
  CURRENT_STORAGE_FIELD(d, RD);
  CURRENT_STORAGE_FIELD(u, RU);
  CURRENT_STORAGE_FIELD(m, RM);
  CURRENT_STORAGE_FIELD(o, RO);
};

struct TheirException : current::Exception {
  using current::Exception::Exception;
};

CURRENT_STRUCT(AddMany) {
  CURRENT_FIELD(keys, std::vector<std::string>);
  CURRENT_FIELD(fail, int32_t, 0);
  template <class F>
  Response Command(F & fields, const current::storage::rest::cqs::CQSParameters&) const {
    for (const auto& k : keys) {
      Rec r;
      r.key = k;
      r.v = "cqs";
      fields.d.Add(r);
    }
    if (fail == 1) CURRENT_STORAGE_THROW_ROLLBACK();
    if (fail == 2) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(Response, "Rolled back.", HTTPResponseCode.PreconditionFailed);
    if (fail == 3) CURRENT_THROW(TheirException("theirs"));
    if (fail == 4) throw std::logic_error("native");
    return Response(current::ToString(fields.d.Size()));
  }
};
CURRENT_STRUCT(CountFrom) {
  CURRENT_FIELD(from, std::string);
  CURRENT_FIELD(at_most, uint32_t, 1000);
  template <class F>
  Response Query(const F& fields, const current::storage::rest::cqs::CQSParameters&) const {
    uint32_t n = 0;
    for (auto it = fields.d.begin(); it != fields.d.end(); ++it) n += it.key() >= from;
    return Response(current::ToString(std::min(n, at_most)));
  }
};

using storage_t = Four<StreamInMemoryStreamPersister>;
using current::storage::rest::Hypermedia;
using current::storage::rest::Simple;
using current::storage::rest::plain::Plain;

int Port() {
  static int port = [] {
    auto reserved = current::net::ReserveLocalPort();
    const int p = reserved;
    auto& server = HTTP(std::move(reserved));
    static_cast<void>(server);
    return p;
  }();
  return port;
}

std::string Enc(const std::string& x) {
  std::string r;
  for (const unsigned char c : x) {
    if (isalnum(c) || c == '-' || c == '_') {
      r += char(c);
    } else {
      char b[8];
      snprintf(b, sizeof(b), "%%%02X", c);
      r += b;
    }
  }
  return r;
}
std::string JS(const std::string& x) { return JSON(x); }

enum Dialect { kPlain, kSimple, kHyper };
const char* const kPrefix[3] = {"/plain", "/simple", "/hyper"};
const char* const kURL[3] = {"http://p", "http://s", "http://h"};

template <class STORAGE>
struct World {
  pbt::Src& s;
  current::Owned<STORAGE> storage;
  RESTfulStorage<STORAGE, Plain> plain;
  RESTfulStorage<STORAGE, Simple> simple;
  RESTfulStorage<STORAGE, Hypermedia> hyper;
  Model model[4];
  int changed = 0, rejected = 0;
  bool listed = false;
  explicit World(pbt::Src& s)
      : s(s),
        storage(STORAGE::CreateMasterStorage()),
        plain(*storage, Port(), kPrefix[0], kURL[0]),
        simple(*storage, Port(), kPrefix[1], kURL[1]),
        hyper(*storage, Port(), kPrefix[2], kURL[2]) {
    plain.template AddCQSCommand<AddMany>("add");
    plain.template AddCQSQuery<CountFrom>("count");
    hyper.template AddCQSCommand<AddMany>("add");
    hyper.template AddCQSQuery<CountFrom>("count");
  }

  httpc::Reply Ask(const std::string& method, const std::string& path, const std::string& body = "", const std::string& headers = "", bool has_body = false) {
    if (s.Describing()) s.Note(method + " " + path + (headers.empty() ? "" : " [" + pbt::Esc(headers) + "]") + (body.empty() ? "" : " " + pbt::Esc(body)));
    const auto r = httpc::Request(Port(), method, path, body, headers, has_body);
    s.Check(r.complete && !r.malformed, "no-reply", [&] { return method + " " + path; });
    if (s.Describing()) s.Note("  -> " + std::to_string(r.code) + " " + pbt::Esc(r.body));
    return r;
  }

  size_t LogSize() { return size_t(storage->UnderlyingStream()->Data()->Size()); }

  // The last-modified times of the keys touched are taken from the storage, and must have advanced.
  template <class F>
  void TakeTimes(const F& f, Model& m, const std::vector<Key>& touched) {
    for (const auto& k : touched) {
      int64_t lm = -1;
      if constexpr (IsDict<F>) {
        const auto x = f.LastModified(current::FromString<typename F::key_t>(k.first));
        if (Exists(x)) lm = Value(x).count();
      } else {
        const auto x = f.LastModified(k.first, current::FromString<int32_t>(k.second));
        if (Exists(x)) lm = Value(x).count();
      }
      s.Check(lm > 0 && (!m.lm.count(k) || lm > m.lm[k]), "last-modified-advances");
      m.lm[k] = lm;
    }
  }
  void CheckState(const std::vector<std::pair<int, Key>>& touched) {
    Value(storage
              ->ReadOnlyTransaction([&](ImmutableFields<STORAGE> f) {
                std::vector<Key> t[4];
                for (auto& x : touched) t[x.first].push_back(x.second);
                TakeTimes(f.d, model[0], t[0]);
                TakeTimes(f.u, model[1], t[1]);
                TakeTimes(f.m, model[2], t[2]);
                TakeTimes(f.o, model[3], t[3]);
                CheckField(s, f.d, model[0], true, false);
                CheckField(s, f.u, model[1], false, false);
                CheckField(s, f.m, model[2], true, false);
                CheckField(s, f.o, model[3], false, true);
                return 0;
              })
              .Go());
  }

  // The key order in which the field lists its records.
  std::vector<std::pair<Key, std::string>> Listing(int field) {
    std::vector<std::pair<Key, std::string>> r;
    Value(storage
              ->ReadOnlyTransaction([&](ImmutableFields<STORAGE> f) {
                if (field == 0) for (const auto& e : f.d) r.emplace_back(Key(e.key, ""), JSON(e));
                if (field == 1) for (const auto& e : f.u) r.emplace_back(Key(S(e.id), ""), JSON(e));
                if (field == 2) for (const auto& e : f.m) r.emplace_back(Key(e.row, S(e.col)), JSON(e));
                if (field == 3) for (const auto& e : f.o) r.emplace_back(Key(e.row, S(e.col)), JSON(e));
                return 0;
              })
              .Go());
    return r;
  }

  std::string TextKey() { return s.Pick({"a", "b", "c", "a b", "x/y", "?", "a&b=c", "100%", "+", "\xd0\xbf", "#1", "\"q\"", "A", "..", "a%20b", ";"}); }
  Key RandomKey(int field) {
    if (field == 0) return Key(TextKey(), "");
    if (field == 1) return Key(S(int64_t(Number(s))), "");
    return Key(s.Chance(3, 4) ? s.Pick({"a", "b", "c"}) : TextKey(), S(Number(s)));
  }
  std::string PlainKey(int field, const Key& k) { return field < 2 ? k.first : k.first + "/" + k.second; }
  std::string Body(int field, const Key& k) {
    if (field == 0) {
      Rec r;
      r.key = k.first;
      r.v = s.Utf8(4);
      r.n = Number(s);
      if (s.Bool()) r.note = s.Utf8(2);
      return JSON(r);
    }
    if (field == 1) {
      Num r;
      r.id = current::FromString<int64_t>(k.first);
      r.v = s.Utf8(4);
      return JSON(r);
    }
    Square r;
    r.row = k.first;
    r.col = current::FromString<int32_t>(k.second);
    r.v = s.Utf8(4);
    return JSON(r);
  }
  std::string BadBody(const std::string& good) {
    switch (s.Weighted({1, 2, 1, 1, 1})) {
      case 0: return "";
      case 1: return good.substr(0, size_t(s.Int(1, int64_t(good.size()) - 1)));
      case 2: return "[" + good + "]";
      case 3: return "\"text\"";
      default: return "{\"v\":17}";
    }
  }
  std::vector<Key> Put(int field, const Key& k, const std::string& json) {
    std::vector<Key> touched{k};
    Model& m = model[field];
    if (field == 3) {
      for (auto it = m.cells.begin(); it != m.cells.end();) {
        if (it->first.second == k.second && it->first.first != k.first) {
          touched.push_back(it->first);
          it = m.cells.erase(it);
        } else {
          ++it;
        }
      }
    }
    m.cells[k] = json;
    return touched;
  }

  // `location`: how the key is passed.
  std::string Path(Dialect d, int field, const Key& k, bool* in_path = nullptr) {
    static const char* const names[4] = {"d", "u", "m", "o"};
    std::string p = std::string(kPrefix[d]) + "/data/" + names[field];
    if (field < 2 && s.Chance(1, 5)) p += s.Pick({".key", ".0", ".K"});
    const bool path = k.first.empty() || (field >= 2 && k.second.empty()) ? false : s.Chance(3, 4);
    if (in_path) *in_path = path;
    if (path) {
      p += "/" + Enc(k.first);
      if (field >= 2) p += "/" + Enc(k.second);
      if (s.Chance(1, 8)) p += "/";
    } else if (field < 2) {
      p += "?key=" + Enc(k.first);
    } else {
      const auto n = s.Pick({"key1 key2", "row col", "1 2"});
      const auto sp = n.find(' ');
      p += "?" + n.substr(0, sp) + "=" + Enc(k.first) + "&" + n.substr(sp + 1) + "=" + Enc(k.second);
    }
    return p;
  }

  void CheckModified(const httpc::Reply& r, const Model& m, const Key& k) {
    s.Eq(S(m.lm.at(k)), r.Header("X-Current-Last-Modified"), "last-modified-header");
    s.Eq(current::FormatDateTimeAsIMFFix(std::chrono::microseconds(m.lm.at(k))), r.Header("Last-Modified"), "last-modified-date");
  }

  void OneRequest() {
    const Dialect d = Dialect(s.Weighted({2, 2, 2}));
    const int field = int(s.Weighted({3, 2, 2, 2}));
    Model& m = model[field];
    Key k = RandomKey(field);
    if (!m.cells.empty() && s.Chance(1, 2)) {  // One of those which are there.
      auto it = m.cells.begin();
      std::advance(it, s.Draw(m.cells.size() - 1));
      k = it->first;
    }
    const bool there = m.cells.count(k) > 0;
    const size_t log_size = LogSize();
    std::vector<std::pair<int, Key>> touched;
    bool may_write = false;
    // The condition.
    std::string headers;
    bool bad_condition = false, unmodified = true;
    auto Condition = [&] {
      if (d == kPlain || !s.Chance(1, 3)) return;
      const int64_t lm = m.lm.count(k) ? m.lm[k] : 1000;
      if (s.Chance(3, 4)) {
        const size_t w = s.Weighted({4, 4, 2, 1, 1, 1});
        const int64_t v = w == 0 ? lm : w == 1 ? lm - 1 : w == 2 ? lm + 1 : w == 3 ? int64_t(1) : 0;
        if (w <= 3) {
          headers = "X-Current-If-Unmodified-Since: " + S(v) + "\r\n";
          unmodified = m.lm.count(k) == 0 || m.lm[k] <= v;
        } else {
          headers = "X-Current-If-Unmodified-Since: " + std::string(w == 4 ? "0" : "yesterday") + "\r\n";
          bad_condition = true;
        }
        if (s.Chance(1, 4)) headers += "If-Unmodified-Since: nonsense\r\n";  // Is ignored.
      } else {
        const size_t w = s.Draw(2);
        headers = std::string("If-Unmodified-Since: ") + (w == 0 ? "Tue, 15 Nov 1994 08:12:31 GMT" : w == 1 ? "Tue, 15 Nov 2050 08:12:31 GMT" : "long ago") + "\r\n";
        unmodified = w == 1;
        bad_condition = w == 2;
      }
    };
    auto Rejected = [&](const httpc::Reply& r, int code, const char* tag) {
      s.Eq(code, r.code, tag);
      ++rejected;
    };
    const std::string key_text = PlainKey(field, k);
    switch (s.Weighted({3, 3, 4, 3, 3, 1, 3, 2, 1})) {
      case 0: {  // GET one.
        const auto r = Ask("GET", Path(d, field, k));
        s.Eq(there ? 200 : 404, r.code, "get-code");
        if (there) {
          const std::string& e = m.cells[k];
          if (d == kPlain) {
            s.Eq(e + "\n", r.body, "get-body");
          } else {
            const std::string data = ",\"data\":" + e + "}\n";
            s.Check(r.body.size() > data.size() && r.body.substr(r.body.size() - data.size()) == data, "get-body", [&] { return r.body + " vs " + data; });
            const std::string url = std::string(kURL[d]) + "/data/" + "dumo"[field] + "/" + key_text;
            s.Check(r.body.find("{\"success\":true,\"url\":" + JS(url) + ",") == 0, "get-url", [&] { return r.body + " vs " + url; });
            CheckModified(r, m, k);
          }
        }
        break;
      }
      case 1: {  // POST.
        Key bk = field == 0 && s.Chance(1, 4) ? Key("", "") : k;
        std::string body = Body(field, bk);
        if (field == 0 && bk.first.empty()) bk.first = "own-" + S(ParseJSON<Rec>(body).n);
        const bool bad = s.Chance(1, 6);
        if (bad) body = BadBody(body);
        const bool overwrite = s.Chance(1, 3);
        const bool with_key = s.Chance(1, 8);
        std::string path = std::string(kPrefix[d]) + "/data/" + "dumo"[field];
        if (with_key) path += "/" + std::string(field < 2 ? "k" : "k/1");
        if (overwrite) path += "?overwrite";
        const auto r = Ask("POST", path, body, "", true);
        if (with_key) {
          Rejected(r, 400, "post-with-key");
        } else if (bad) {
          Rejected(r, 400, "post-bad");
        } else if (field == 1) {
          Rejected(r, 405, "post-unsupported");
        } else if (m.cells.count(bk) && !overwrite) {
          Rejected(r, 409, "post-conflict");
        } else {
          s.Eq(201, r.code, "post-code");
          const std::string json = field == 0 ? [&] { auto e = ParseJSON<Rec>(body); e.key = bk.first; return JSON(e); }() : body;
          for (auto& t : Put(field, bk, json)) touched.emplace_back(field, t);
          may_write = true;
          CheckState(touched);
          touched.clear();
          if (d == kPlain) {
            s.Eq(PlainKey(field, bk), r.body, "post-key");
          } else {
            s.Check(r.body.find("\"resource_url\":" + JS(std::string(kURL[d]) + "/data/" + "dumo"[field] + "/" + PlainKey(field, bk))) != std::string::npos, "post-url", [&] { return r.body; });
            CheckModified(r, m, bk);
          }
          ++changed;
        }
        break;
      }
      case 2: {  // PUT.
        const bool mismatch = s.Chance(1, 6);
        const Key bk = mismatch ? RandomKey(field) : k;
        std::string body = Body(field, bk);
        const bool bad = s.Chance(1, 6);
        if (bad) body = BadBody(body);
        Condition();
        const auto r = Ask("PUT", Path(d, field, k), body, headers, true);
        if (bad_condition || bad || bk != k) {
          Rejected(r, 400, "put-bad");
        } else if (there && !unmodified) {
          Rejected(r, 412, "put-precondition");
        } else {
          s.Eq(there ? 200 : 201, r.code, "put-code");
          for (auto& t : Put(field, k, body)) touched.emplace_back(field, t);
          may_write = true;
          CheckState(touched);
          touched.clear();
          if (d == kPlain) {
            s.Eq(std::string(there ? "Updated.\n" : "Created.\n"), r.body, "put-reply");
          } else {
            s.Check(r.body.find(there ? "Resource updated." : "Resource created.") != std::string::npos, "put-reply");
            CheckModified(r, m, k);
          }
          ++changed;
        }
        break;
      }
      case 3: {  // PATCH.
        const std::string v = s.Utf8(3);
        size_t kind = s.Weighted({6, 1, 1, 1, 1});
        std::string body = kind == 0 ? "{\"v\":" + JS(v) + "}" : kind == 1 ? "{}" : kind == 2 ? "{\"v\":" : kind == 3 ? "{\"v\":{}}" : "";
        bool moves = false;
        if (kind == 4) {
          const Key other = RandomKey(field);
          moves = field < 2 ? other.first != k.first : other.first != k.first;
          body = field == 0 ? "{\"key\":" + JS(other.first) + "}" : field == 1 ? "{\"id\":" + other.first + "}" : "{\"row\":" + JS(other.first) + "}";
        }
        Condition();
        const auto r = Ask("PATCH", Path(d, field, k), body, headers, true);
        if (bad_condition) {
          Rejected(r, 400, "patch-condition");
        } else if (!there) {
          Rejected(r, 404, "patch-absent");
        } else if (!unmodified) {
          Rejected(r, 412, "patch-precondition");
        } else if (kind == 2 || kind == 3 || moves) {
          Rejected(r, 400, "patch-bad");
        } else {
          s.Eq(200, r.code, "patch-code");
          std::string json = m.cells[k];
          if (kind == 0) {
            if (field == 0) { auto e = ParseJSON<Rec>(json); e.v = v; json = JSON(e); }
            if (field == 1) { auto e = ParseJSON<Num>(json); e.v = v; json = JSON(e); }
            if (field > 1) { auto e = ParseJSON<Square>(json); e.v = v; json = JSON(e); }
          }
          for (auto& t : Put(field, k, json)) touched.emplace_back(field, t);
          may_write = true;
          CheckState(touched);
          touched.clear();
          if (d != kPlain) CheckModified(r, m, k);
          ++changed;
        }
        break;
      }
      case 4: {  // DELETE.
        Condition();
        const auto r = Ask("DELETE", Path(d, field, k), "", headers);
        if (bad_condition) {
          Rejected(r, 400, "delete-condition");
        } else if (there && !unmodified) {
          Rejected(r, 412, "delete-precondition");
        } else {
          s.Eq(200, r.code, "delete-code");
          if (there) {
            m.cells.erase(k);
            touched.emplace_back(field, k);
            may_write = true;
            ++changed;
          }
          CheckState(touched);
          touched.clear();
          if (d != kPlain) {
            s.Check(r.body.find(there ? "Resource deleted." : "Resource didn't exist.") != std::string::npos, "delete-reply");
            if (there) CheckModified(r, m, k);
          }
        }
        break;
      }
      case 5: {  // No key where there must be one, or a method there is not.
        const std::string p = std::string(kPrefix[d]) + "/data/" + "dumo"[field];
        switch (s.Draw(3)) {
          case 0: Rejected(Ask(s.Pick({"PUT", "PATCH", "DELETE"}), p, Body(field, k), "", true), 400, "no-key"); break;
          case 1: Rejected(Ask(s.Pick({"OPTIONS", "BREW", "put"}), p), 405, "method"); break;
          case 2: Rejected(Ask("GET", p + "x"), 404, "no-such-field"); break;
          default:
            if (field >= 2) Rejected(Ask(s.Pick({"PUT", "DELETE", "POST"}), p + s.Pick({".row", ".2"}) + "/a", "x", "", true), 405, "partial-method");
        }
        break;
      }
      case 6: List(d, field); break;
      case 7: {  // CQS.
        if (d == kSimple) break;
        const std::string base = std::string(kPrefix[d]) + "/cqs/";
        if (s.Bool()) {
          const std::string from = s.Pick({"", "a", "b", "z"});
          uint32_t n = 0;
          for (auto& c : model[0].cells) n += c.first.first >= from;
          const bool cap = s.Bool();
          if (cap) n = std::min(n, 2u);
          CountFrom q;
          q.from = from;
          q.at_most = cap ? 2u : 1000u;
          const auto r = s.Bool() ? Ask("GET", base + "query/count", JSON(q), "", true) : Ask("GET", base + "query/count?from=" + Enc(from) + (cap ? "&at_most=2" : ""));
          s.Eq(200, r.code, "cqs-query-code");
          s.Eq(current::ToString(n), r.body, "cqs-query");
        } else {
          AddMany a;
          const size_t n = s.Len(3);
          for (size_t i = 0; i < n; ++i) a.keys.push_back(TextKey());
          a.fail = s.Chance(1, 2) ? 0 : int32_t(s.Int(1, 4));
          const bool bad = s.Chance(1, 8);
          const std::string body = JSON(a);
          const auto r = Ask(s.Pick({"POST", "PUT", "PATCH"}), base + "command/add", bad ? body.substr(0, body.size() - 1) : body, "", true);
          if (bad) {
            Rejected(r, 400, "cqs-bad");
          } else if (a.fail) {
            s.Check(r.code >= 400 || a.fail == 1, "cqs-failure-code", [&] { return std::to_string(r.code); });
            if (a.fail == 2) s.Check(r.code == 412 && r.body == "Rolled back.", "cqs-rollback-value", [&] { return std::to_string(r.code) + r.body; });
            ++rejected;
          } else {
            s.Eq(200, r.code, "cqs-code");
            for (auto& key : a.keys) {
              Rec e;
              e.key = key;
              e.v = "cqs";
              model[0].cells[Key(key, "")] = JSON(e);
              touched.emplace_back(0, Key(key, ""));
            }
            std::sort(touched.begin(), touched.end());
            touched.erase(std::unique(touched.begin(), touched.end()), touched.end());
            s.Eq(current::ToString(model[0].cells.size()), r.body, "cqs-reply");
            if (!touched.empty()) ++changed;
            may_write = !touched.empty();
          }
        }
        break;
      }
      default: Around(d); break;
    }
    CheckState(touched);
    s.Eq(log_size + (may_write ? 1 : 0), LogSize(), "log-size");
  }

  void Around(Dialect d) {
    if (s.Bool()) {
      const auto r = Ask("GET", std::string(kPrefix[d]) + "/schema/" + s.Pick({"d", "d.h", "u.fs", "m.ts", "o.json", "u.md"}));
      s.Check(r.code == 200 && !r.body.empty(), "schema");
    } else if (d != kPlain) {
      const auto r = Ask("GET", kPrefix[d]);
      const std::string b = std::string(kURL[d]);
      std::string e = "{\"url\":\"" + b + "\",\"url_status\":\"" + b + "/status\",\"url_data\":{";
      for (auto f : {"d", "m", "o", "u"}) e += std::string(f == std::string("d") ? "" : ",") + "\"" + f + "\":\"" + b + "/data/" + f + "\"";
      e += "},\"up\":true}\n";
      s.Eq(e, r.body, "top-level");
      s.Eq(std::string("{\"up\":true}\n"), Ask("GET", std::string(kPrefix[d]) + "/status").body, "status");
    }
  }

  std::vector<std::string> Lines(const std::string& t) {
    auto v = current::strings::Split(t, '\n');
    std::sort(v.begin(), v.end());
    return v;
  }

  void List(Dialect d, int field) {
    const std::string p = std::string(kPrefix[d]) + "/data/" + "dumo"[field];
    const std::string u = std::string(kURL[d]) + "/data/" + "dumo"[field];
    const auto listing = Listing(field);
    if (listing.size() > 1) listed = true;
    const bool partial = field >= 2 && s.Bool();
    if (!partial) {
      std::vector<std::string> urls;
      for (auto& x : listing) urls.push_back(u + "/" + PlainKey(field, x.first));
      if (d == kPlain) {
        const auto r = Ask("GET", p);
        std::string e;
        for (auto& x : listing) e += x.first.first + "\t" + (field >= 2 ? x.first.second + "\t" : "") + x.second + "\n";
        s.Eq(200, r.code, "list-code");
        s.Eq(e, r.body, "list");
      } else if (d == kSimple) {
        const auto r = Ask("GET", p);
        s.Eq("{\"success\":true,\"message\":null,\"error\":null,\"url\":" + JS(u) + ",\"data\":" + JSON(urls) + "}\n", r.body, "list");
      } else if (field == 0) {
        Pages<current::storage::rest::hypermedia::HypermediaRESTFullCollectionRecord<Rec>>(p, u, listing, urls, [](auto& x) { return JSON(x.data); });
      } else if (field == 1) {
        std::vector<std::pair<Key, std::string>> brief;
        for (auto& x : listing) brief.emplace_back(x.first, "{\"id\":" + x.first.first + "}");
        Pages<current::storage::rest::hypermedia::HypermediaRESTBriefCollectionRecord<NumBrief>>(p, u, brief, urls, [](auto& x) { return JSON(x.brief); });
      } else {
        Pages<current::storage::rest::hypermedia::HypermediaRESTFullCollectionRecord<Square>>(p, u, listing, urls, [](auto& x) { return JSON(x.data); });
      }
      return;
    }
    // By row or by column.
    const bool row = s.Bool();
    const std::string alias = row ? s.Pick({".1", ".row", ".left", ".l", ".L"}) : s.Pick({".2", ".col", ".right", ".r", ".R"});
    std::map<std::string, std::vector<std::pair<Key, std::string>>> groups;
    for (auto& x : listing) groups[row ? x.first.first : x.first.second].push_back(x);
    if (s.Bool()) {  // The list of rows or columns.
      const auto r = Ask("GET", p + alias + (d == kHyper ? "?n=1000" : ""));
      s.Eq(200, r.code, "groups-code");
      std::vector<std::string> e, got;
      if (d == kPlain) {
        for (auto& g : groups) e.push_back(g.first + "\t" + std::to_string(g.second.size()));
        got = Lines(r.body);
      } else if (d == kSimple) {
        for (auto& g : groups) e.push_back(u + (row ? ".1/" : ".2/") + g.first);
        got = ParseJSON<current::storage::rest::simple::SimpleRESTContainerResponse>(r.body).data;
      } else {
        using record_t = current::storage::rest::hypermedia::HypermediaRESTFullCollectionRecord<current::storage::rest::generic::RESTSubCollection<Square>>;
        const auto page = ParseJSON<current::storage::rest::hypermedia::HypermediaRESTCollectionResponse<record_t>>(r.body);
        s.Eq(groups.size(), size_t(page.total), "groups-total");
        for (auto& g : groups) e.push_back(u + (row ? ".1/" : ".2/") + g.first + " " + std::to_string(g.second.size()));
        for (auto& x : page.data) {
          got.push_back(x.url + " " + std::to_string(x.data.total));
          s.Eq(std::min(size_t(x.data.total), size_t(3)), x.data.preview.size(), "preview-size");
          std::set<std::string> all, seen;
          for (auto& y : x.data.preview) {
            const Key k(y.row, S(y.col));
            s.Check(seen.insert(JSON(y)).second && model[field].cells.count(k) && model[field].cells[k] == JSON(y) && x.url == u + (row ? ".1/" : ".2/") + (row ? k.first : k.second), "preview");
          }
        }
      }
      std::sort(e.begin(), e.end());
      std::sort(got.begin(), got.end());
      s.Check(e == got, "groups", [&] { return JSON(e) + "\n" + JSON(got); });
    } else {
      Key k = RandomKey(field);
      if (!groups.empty() && s.Chance(3, 4)) k = listing[s.Draw(listing.size() - 1)].first;
      const std::string key = row ? k.first : k.second;
      const auto r = Ask("GET", p + alias + (s.Bool() ? "/" + Enc(key) : "?key=" + Enc(key)) + "");
      const auto it = groups.find(key);
      s.Eq(it == groups.end() ? 404 : 200, r.code, "group-code");
      if (it != groups.end()) {
        std::vector<std::string> e, got;
        if (d == kPlain) {
          for (auto& x : it->second) e.push_back(x.second);
          got = Lines(r.body);
        } else if (d == kSimple) {
          for (auto& x : it->second) e.push_back(u + "/" + PlainKey(field, x.first));
          got = ParseJSON<current::storage::rest::simple::SimpleRESTContainerResponse>(r.body).data;
        } else {
          const auto page = ParseJSON<current::storage::rest::hypermedia::HypermediaRESTCollectionResponse<current::storage::rest::hypermedia::HypermediaRESTFullCollectionRecord<Square>>>(r.body);
          s.Eq(it->second.size(), size_t(page.total), "group-total");
          if (page.total > 10) return;
          for (auto& x : it->second) e.push_back(u + "/" + PlainKey(field, x.first) + x.second);
          for (auto& x : page.data) got.push_back(x.url + JSON(x.data));
        }
        std::sort(e.begin(), e.end());
        std::sort(got.begin(), got.end());
        s.Check(e == got, "group", [&] { return JSON(e) + "\n" + JSON(got); });
      }
    }
  }

  template <class RECORD, class F>
  void Pages(const std::string& p, const std::string& u, const std::vector<std::pair<Key, std::string>>& listing, const std::vector<std::string>& urls, F&& f) {
    using page_t = current::storage::rest::hypermedia::HypermediaRESTCollectionResponse<RECORD>;
    const size_t total = listing.size();
    auto CheckPage = [&](const httpc::Reply& r, uint64_t i, uint64_t n) {
      s.Eq(200, r.code, "page-code");
      const auto page = ParseJSON<page_t>(r.body);
      s.Eq(total, size_t(page.total), "page-total");
      s.Eq(u, page.url_directory, "page-directory");
      const uint64_t from = std::min<uint64_t>(i, total), count = std::min<uint64_t>(n, total - from);
      s.Check(page.i == from && page.n == count && page.data.size() == count, "page-bounds", [&] { return r.body; });
      for (size_t x = 0; x < page.data.size(); ++x) {
        s.Eq(urls[from + x], page.data[x].url, "page-url");
        s.Eq(listing[from + x].second, f(page.data[x]), "page-record");
      }
      s.Eq(from + count < total, Exists(page.url_next_page), "page-next");
      s.Eq(from > 0, Exists(page.url_previous_page), "page-previous");
      return page;
    };
    const size_t mode = s.Weighted({2, 2, 1});
    if (mode == 0) {
      const uint64_t i = s.Chance(1, 8) ? s.U64() : s.Draw(total + 2), n = s.Chance(1, 8) ? s.U64() : s.Draw(total + 3);
      CheckPage(Ask("GET", p + "?i=" + std::to_string(i) + "&n=" + std::to_string(n)), i, n);
    } else if (mode == 1) {  // Following the links forward and back.
      const uint64_t n = s.Draw(3) + 1;
      std::string path = p + "?n=" + std::to_string(n);
      std::set<std::string> seen;
      uint64_t i = 0;
      const bool back = s.Bool();
      if (back) {
        i = total;
        path += "&i=" + std::to_string(i);
      }
      for (size_t step = 0;; ++step) {
        s.Check(step <= total + 1, "pages-do-not-end");
        const auto page = CheckPage(Ask("GET", path), i, n);
        for (auto& x : page.data) seen.insert(f(x));
        const auto& link = back ? page.url_previous_page : page.url_next_page;
        if (!Exists(link)) break;
        const std::string next = Value(link);
        s.Check(next.find(u + "?i=") == 0, "page-link", [&] { return next; });
        i = strtoull(next.c_str() + u.size() + 3, nullptr, 10);
        path = p + next.substr(u.size());
      }
      std::set<std::string> all;
      for (auto& x : listing) all.insert(x.second);
      s.Check(seen == all, "pages");
    } else {
      CheckPage(Ask("GET", p), 0, 10);
    }
  }
};

PBT_PROP(rest, o.weight = 1; o.hang_s = 60) {
  World<storage_t> w(s);
  const size_t n = 1 + s.Len(24);
  for (size_t i = 0; i < n; ++i) w.OneRequest();
  if (s.Chance(1, 6)) {
    w.plain.SwitchHTTPEndpointsTo503s();
    const auto r = w.Ask("PUT", "/plain/data/d/a", "{}", "", true);
    s.Eq(503, r.code, "switched-off");
    s.Eq(404, w.Ask("GET", "/simple/data/d/nope").code, "others-on");
    w.CheckState({});
  }
  if ((w.changed && w.rejected) || w.listed) s.NonTrivial(pbt::Hash(std::to_string(w.changed) + w.model[0].Show() + w.model[1].Show() + w.model[2].Show() + w.model[3].Show()));
}

PBT_PROBE(key_which_is_not_a_number, "DELETE, GET and PUT with a key which is not a number act on the record of the key 0") {
  World<storage_t> w(s);
  w.Ask("PUT", "/plain/data/u/0", "{\"id\":0,\"v\":\"x\"}");
  const auto r = w.Ask("DELETE", "/plain/data/u/abc");
  const auto r2 = w.Ask("GET", "/plain/data/u/0");
  s.Check(r2.code == 200 && r.code >= 400, "deleted-another-record", [&] { return std::to_string(r.code) + " " + std::to_string(r2.code); });
}

}  // namespace
