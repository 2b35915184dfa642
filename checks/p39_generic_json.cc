// P39: any JSON document can be taken apart and put together again.
#include <algorithm>
#include <cmath>
#include <map>
#include <string>
#include <vector>

#include "pbt.h"
#include "minijson.h"

#include "port.h"
#include "blocks/json/json.h"

PBT_CHECK("P39", "exploration",
          "A case is a random JSON document (nested, with odd keys, repeated keys, numbers of all magnitudes, whitespace), parsed "
          "into the generic value and printed; or a random text, which is to be refused exactly when it is not a JSON document; "
          "or a history of up to forty insertions, replacements, removals and look-ups in an object or an array, compared with a "
          "model. Non-trivial: the document has a container of at least two elements; the text is not empty; or the history "
          "replaces or removes something.");

namespace {

using namespace current::json;

// The reference: an ordered document.
struct Doc {
  enum Kind { kNull, kBool, kNumber, kString, kArray, kObject } kind = kNull;
  bool b = false;
  double number = 0;
  std::string text;
  std::vector<Doc> elements;
  std::vector<std::pair<std::string, Doc>> fields;
};

std::string RandomString(pbt::Src& s) { return s.Utf8(8); }

std::string Quote(pbt::Src& s, const std::string& x) {
  std::string r = "\"";
  for (const unsigned char c : x) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c < 0x20 || (c < 0x7f && s.Chance(1, 20))) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else {
      r += char(c);
    }
  }
  return r + "\"";
}

std::string Space(pbt::Src& s) { return s.Chance(1, 6) ? s.From(" \n\t\r", 3) : ""; }

Doc Random(pbt::Src& s, int depth, bool repeated_keys) {
  Doc d;
  switch (depth ? s.Weighted({1, 1, 3, 2, 2, 3}) : s.Weighted({1, 1, 3, 2})) {
    case 0: break;
    case 1: d.kind = Doc::kBool; d.b = s.Bool(); break;
    case 2:
      d.kind = Doc::kNumber;
      switch (s.Weighted({3, 2, 2, 2, 2})) {
        case 0: d.number = double(s.Int(-1000, 1000)); break;
        case 1: d.number = s.FiniteDouble(); break;
        case 2: d.number = double(s.I64()); break;
        case 3: d.number = double(s.U64()); break;
        case 4: d.number = std::ldexp(double(s.Int(-1000, 1000)), int(s.Int(0, 200))); break;
      }
      break;
    case 3: d.kind = Doc::kString; d.text = RandomString(s); break;
    case 4: {
      d.kind = Doc::kArray;
      const size_t n = s.Len(6);
      for (size_t i = 0; i < n; ++i) d.elements.push_back(Random(s, depth - 1, repeated_keys));
      break;
    }
    case 5: {
      d.kind = Doc::kObject;
      const size_t n = s.Len(6);
      for (size_t i = 0; i < n; ++i) {
        std::string key = s.Chance(1, 3) ? s.From("ab", 2) : RandomString(s);
        if (s.Chance(1, 30)) key = "";
        const bool repeated = std::any_of(d.fields.begin(), d.fields.end(), [&](const auto& f) { return f.first == key; });
        if (repeated && !repeated_keys) continue;
        d.fields.emplace_back(key, Random(s, depth - 1, repeated_keys));
      }
      break;
    }
  }
  return d;
}

std::string Print(pbt::Src& s, const Doc& d) {
  std::string r = Space(s);
  switch (d.kind) {
    case Doc::kNull: r += "null"; break;
    case Doc::kBool: r += d.b ? "true" : "false"; break;
    case Doc::kNumber: {
      char b[64];
      snprintf(b, sizeof(b), "%.17g", d.number);
      r += b;
      break;
    }
    case Doc::kString: r += Quote(s, d.text); break;
    case Doc::kArray:
      r += '[';
      for (size_t i = 0; i < d.elements.size(); ++i) r += (i ? "," : "") + Print(s, d.elements[i]);
      if (d.elements.empty()) r += Space(s);
      r += ']';
      break;
    case Doc::kObject:
      r += '{';
      for (size_t i = 0; i < d.fields.size(); ++i) r += (i ? "," : "") + Space(s) + Quote(s, d.fields[i].first) + Space(s) + ":" + Print(s, d.fields[i].second);
      if (d.fields.empty()) r += Space(s);
      r += '}';
      break;
  }
  return r + Space(s);
}

// With the repeated keys gone: the first place; which of the values is kept is not for the standard to say.
void Same(pbt::Src& s, const Doc& d, const JSONValue& v, const char* tag, const std::string& path = "") {
  const std::string where = "at " + pbt::Esc(path);
  switch (d.kind) {
    case Doc::kNull: s.Check(Exists<JSONNull>(v), tag, [&] { return where; }); break;
    case Doc::kBool: s.Check(Exists<JSONBoolean>(v) && Value<JSONBoolean>(v).boolean == d.b, tag, [&] { return where; }); break;
    case Doc::kNumber:
      s.Check(Exists<JSONNumber>(v) && Value<JSONNumber>(v).number == d.number, tag, [&] {
        char b[200];
        snprintf(b, sizeof(b), "%.17g vs %.17g ", d.number, Exists<JSONNumber>(v) ? Value<JSONNumber>(v).number : NAN);
        return b + where;
      });
      break;
    case Doc::kString: s.Check(Exists<JSONString>(v) && Value<JSONString>(v).string == d.text, tag, [&] { return where; }); break;
    case Doc::kArray: {
      s.Check(Exists<JSONArray>(v), tag, [&] { return where; });
      const JSONArray& a = Value<JSONArray>(v);
      s.Check(a.size() == d.elements.size() && a.empty() == d.elements.empty(), tag, [&] { return where; });
      size_t i = 0;
      for (const auto& x : a) {
        Same(s, d.elements[i], x, tag, path + "[" + std::to_string(i) + "]");
        Same(s, d.elements[i], a[i], tag, path + "[" + std::to_string(i) + "]");
        ++i;
      }
      s.Eq(d.elements.size(), i, tag);
      s.Check(Exists<JSONNull>(a[i]) && Exists<JSONNull>(a[i + 1000]), tag, [&] { return where + ", past the end"; });
      break;
    }
    case Doc::kObject: {
      s.Check(Exists<JSONObject>(v), tag, [&] { return where; });
      const JSONObject& o = Value<JSONObject>(v);
      s.Check(o.size() == d.fields.size() && o.empty() == d.fields.empty(), tag, [&] { return where + ": " + std::to_string(o.size()) + " fields instead of " + std::to_string(d.fields.size()); });
      size_t i = 0;
      for (const auto& x : o) {
        s.Check(i < d.fields.size() && x.key == d.fields[i].first, tag, [&] { return where + ", key " + pbt::Esc(x.key); });
        s.Check(o.HasKey(x.key), tag, [&] { return where; });
        Same(s, d.fields[i].second, x.value, tag, path + "." + x.key);
        Same(s, d.fields[i].second, o[x.key], tag, path + "." + x.key);
        ++i;
      }
      s.Eq(d.fields.size(), i, tag);
      s.Check(!o.HasKey("no such key") && Exists<JSONNull>(o["no such key"]), tag, [&] { return where; });
      break;
    }
  }
}

size_t Largest(const Doc& d) {
  size_t r = std::max(d.elements.size(), d.fields.size());
  for (const auto& x : d.elements) r = std::max(r, Largest(x));
  for (const auto& x : d.fields) r = std::max(r, Largest(x.second));
  return r;
}

// Drops all but one of the fields of the same name.
void Unrepeat(Doc& d, bool first) {
  for (auto& x : d.elements) Unrepeat(x, first);
  std::vector<std::pair<std::string, Doc>> fields;
  for (auto& x : d.fields) {
    Unrepeat(x.second, first);
    const auto it = std::find_if(fields.begin(), fields.end(), [&](const auto& f) { return f.first == x.first; });
    if (it == fields.end()) fields.push_back(x); else if (!first) it->second = x.second;
  }
  d.fields = fields;
}

PBT_PROP(document, o.weight = 6) {
  const Doc d = Random(s, int(s.Int(0, 4)), false);
  const std::string text = Print(s, d);
  if (s.Describing()) s.Note(text.substr(0, 400));
  JSONValue v;
  try {
    v = ParseJSONUniversally(text);
  } catch (const current::Exception& e) {
    s.Fail("a document is refused", e.what());
  }
  Same(s, d, v, "parsed");
  const std::string printed = AsJSON(v);
  if (s.Describing()) s.Note(printed.substr(0, 400));
  JSONValue v2;
  try {
    v2 = ParseJSONUniversally(printed);
  } catch (const current::Exception& e) {
    s.Fail("the printed document is refused", printed);
  }
  Same(s, d, v2, "parsed, printed, and parsed again");
  s.Eq(printed, AsJSON(v2), "printed again");
  // No space is left in what is printed, but within the strings: as JSON itself does.
  const JSONValue copy = v2;
  v2 = JSONValue(JSONNull());
  Same(s, d, copy, "a copy");
  // The generic value is a Current type as well.
  const JSONValue v3 = ParseJSON<JSONValue>(JSON(copy));
  Same(s, d, v3, "as a Current type");
  if (Largest(d) >= 2) s.NonTrivial();
}

PBT_PROP(repeated_keys, o.weight = 2) {
  const Doc d = Random(s, int(s.Int(1, 3)), true);
  const std::string text = Print(s, d);
  if (s.Describing()) s.Note(text.substr(0, 400));
  const JSONValue v = ParseJSONUniversally(text);
  Doc first = d, last = d;
  Unrepeat(first, true);
  Unrepeat(last, false);
  const bool is_first = AsJSON(v) == AsJSON(ParseJSONUniversally(Print(s, first)));
  const bool is_last = AsJSON(v) == AsJSON(ParseJSONUniversally(Print(s, last)));
  s.Check(is_first || is_last, "one of the fields of the same name is kept", [&] { return text + "\n" + AsJSON(v); });
  Same(s, is_first ? first : last, v, "one of the fields of the same name is kept");
  if (Largest(d) > Largest(first)) s.NonTrivial();
  if (Largest(d) >= 2) s.NonTrivial();
}

// Whether all the numbers fit into `double`.
bool Fits(const mj::J& j) {
  if (j.kind == mj::J::Num && !std::isfinite(strtod(j.s.c_str(), nullptr))) return false;
  for (const auto& x : j.a) if (!Fits(x)) return false;
  for (const auto& x : j.o) if (!Fits(x.second)) return false;
  return true;
}

PBT_PROP(any_text, o.weight = 3) {
  std::string text = Print(s, Random(s, int(s.Int(0, 2)), false));
  const size_t n = s.Size(0, 2);
  for (size_t i = 0; i < n; ++i) {
    const size_t at = size_t(s.Draw(text.size()));
    switch (s.Int(0, 2)) {
      case 0: text.insert(at, s.From("{}[],:\"\\ntf0123456789.-+eE /*\x01\xff", 2)); break;
      case 1: text = text.substr(0, at); break;
      case 2: if (at < text.size()) text.erase(at, 1); break;
    }
  }
  if (text.find('\0') != std::string::npos) s.Discard();
  if (s.Describing()) s.Note(pbt::Esc(text));
  bool accepted = true;
  std::string printed;
  try {
    printed = AsJSON(ParseJSONUniversally(text));
  } catch (const current::TypeSystemParseJSONException&) {
    accepted = false;
  }
  if (accepted) {
    s.Eq(printed, AsJSON(ParseJSONUniversally(printed)), "printed again");
    s.Label("accepted");
  } else {
    s.Label("refused");
  }
  mj::J j;
  bool odd = false;
  const bool valid = mj::Parse(text, j, &odd) && !odd && Fits(j);
  if (valid) s.Check(accepted, "a document is refused", [&] { return text; });
  if (!mj::Parse(text, j)) s.Check(!accepted, "what is not a document is accepted", [&] { return text + "\n" + printed; });
  if (!text.empty()) s.NonTrivial();
}

PBT_PROP(history, o.weight = 4) {
  JSONObject o;
  JSONArray a;
  Doc od, ad;
  od.kind = Doc::kObject;
  ad.kind = Doc::kArray;
  bool interesting = false;
  const size_t n = s.Size(1, 40);
  for (size_t i = 0; i < n; ++i) {
    const std::string key = s.From("abc", 2);
    const auto it = std::find_if(od.fields.begin(), od.fields.end(), [&](const auto& f) { return f.first == key; });
    switch (s.Weighted({5, 2, 2})) {
      case 0: {
        const Doc x = Random(s, int(s.Int(0, 1)), false);
        const JSONValue v = ParseJSONUniversally(Print(s, x));
        if (it != od.fields.end()) {
          od.fields.erase(it);
          interesting = true;
        }
        od.fields.emplace_back(key, x);  // The replaced one moves to the end.
        if (s.Describing()) s.Note("push_back " + key + ": " + AsJSON(v));
        JSONObject& r = o.push_back(key, v);
        s.Check(&r == &o, "chaining");
        break;
      }
      case 1: {
        if (it != od.fields.end()) {
          od.fields.erase(it);
          interesting = true;
        }
        if (s.Describing()) s.Note("erase " + key);
        JSONObject& r = o.erase(key);
        s.Check(&r == &o, "chaining");
        break;
      }
      case 2: {
        const Doc x = Random(s, 0, false);
        a.push_back(ParseJSONUniversally(Print(s, x)));
        ad.elements.push_back(x);
        break;
      }
    }
    Same(s, od, JSONValue(o), "object");
    Same(s, ad, JSONValue(a), "array");
  }
  Same(s, od, ParseJSONUniversally(AsJSON(o)), "object, printed");
  Same(s, ad, ParseJSONUniversally(AsJSON(a)), "array, printed");
  if (interesting) s.NonTrivial();
}

}  // namespace
