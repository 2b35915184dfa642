// P29: file helpers do what they say and nothing else.
//
// Everything happens inside `Scratch()/box`, owned by an unprivileged user, and with the effective user and group IDs of
// this user, so that an operation which goes astray can reach nothing but what this case has created.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>

#include "pbt.h"

#include "port.h"
#include "bricks/file/file.h"

PBT_CHECK("P29", "exploration",
          "A case is a history of up to thirty operations (write, append, read whole or by lines, rename, remove, make, scan, "
          "remove recursively, scoped removals, sizes and kinds) over a random tree with odd names and symbolic links, compared "
          "with a model of the whole tree after each operation; or a removal of a tree parts of which can not be removed; or a "
          "path to join or to take the extension of. Non-trivial: at least three operations succeeded and two failed or "
          "followed a link; or a tree of at least three nodes; or a non-empty path.");

namespace {

using current::FileSystem;

constexpr uid_t kNobody = 65534;

// The unprivileged box.
class Box {
 public:
  explicit Box(pbt::Src& s) : root_(s.Scratch() + "/box") {
    const std::string& d = s.Scratch();
    if (geteuid() == 0) {
      chmod(d.substr(0, d.rfind('/')).c_str(), 0711);
      chmod(d.c_str(), 0711);
      privileged_ = true;
    }
    if (mkdir(root_.c_str(), 0755)) s.Fail("harness", "can not create the box");
    if (privileged_) {
      if (chown(root_.c_str(), kNobody, kNobody)) s.Fail("harness", "can not give the box away");
      egid_ = getegid();
      if (setegid(kNobody) || seteuid(kNobody)) s.Fail("harness", "can not drop the privileges");
    }
  }
  ~Box() {
    if (privileged_) {
      if (seteuid(0) || setegid(egid_)) abort();
    }
  }
  const std::string& Root() const { return root_; }

 private:
  std::string root_;
  bool privileged_ = false;
  gid_t egid_ = 0;
};

struct Node {
  char type;            // 'f', 'd', 'l'.
  std::string content;  // Or the target of the link.
  bool operator==(const Node& o) const { return type == o.type && content == o.content; }
};
// The keys are the absolute paths, free of links.
using Tree = std::map<std::string, Node>;

std::string Dump(const Tree& t, const std::string& root) {
  std::string r;
  for (const auto& kv : t) {
    r += "\n    " + pbt::Esc(kv.first.substr(std::min(kv.first.size(), root.size()))) + ' ' + kv.second.type + ' ' + pbt::Esc(kv.second.content.substr(0, 60));
  }
  return r;
}

void Snapshot(const std::string& path, Tree& t) {
  struct stat st;
  if (lstat(path.c_str(), &st)) return;
  if (S_ISLNK(st.st_mode)) {
    char buf[4096];
    const ssize_t n = readlink(path.c_str(), buf, sizeof(buf));
    t[path] = Node{'l', std::string(buf, size_t(std::max<ssize_t>(n, 0)))};
  } else if (S_ISDIR(st.st_mode)) {
    t[path] = Node{'d', ""};
    if (DIR* d = opendir(path.c_str())) {
      while (dirent* e = readdir(d)) {
        const std::string n = e->d_name;
        if (n != "." && n != "..") Snapshot(path + '/' + n, t);
      }
      closedir(d);
    }
  } else {
    std::string content;
    const int fd = open(path.c_str(), O_RDONLY);
    char buf[65536];
    ssize_t n;
    while (fd >= 0 && (n = read(fd, buf, sizeof(buf))) > 0) content.append(buf, size_t(n));
    if (fd >= 0) close(fd);
    t[path] = Node{'f', content};
  }
}

size_t OpenDescriptors() {
  size_t n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    while (readdir(d)) ++n;
    closedir(d);
  }
  return n;
}

enum class E { OK, NoEnt, NotDir, Loop };
struct Where {
  E error = E::OK;
  std::string path;     // Free of links, except, possibly, for the last component.
  bool exists = false;  // If it does not, its parent directory does.
  bool linked = false;  // Has followed a link.
};

// What the path stands for.
Where Resolve(const Tree& t, const std::string& path, bool follow_last, int depth = 0) {
  Where w;
  if (depth > 40) {
    w.error = E::Loop;
    return w;
  }
  std::vector<std::string> parts;
  std::string p;
  for (char c : path + '/') {
    if (c == '/') {
      if (!p.empty()) parts.push_back(p);
      p.clear();
    } else {
      p += c;
    }
  }
  const bool trailing = !path.empty() && path.back() == '/';
  std::string at;  // The root is the empty string.
  for (size_t i = 0; i < parts.size(); ++i) {
    const bool last = i + 1 == parts.size();
    // Above the box there are only directories.
    const auto here = t.find(at);
    if (here != t.end() && here->second.type != 'd') {
      w.error = E::NotDir;
      return w;
    }
    if (parts[i] == ".") continue;
    if (parts[i] == "..") {
      const size_t slash = at.rfind('/');
      at = slash == std::string::npos ? "" : at.substr(0, slash);
      continue;
    }
    const std::string next = at + '/' + parts[i];
    const auto it = t.find(next);
    const bool above = t.begin()->first.compare(0, next.size() + 1, next + '/') == 0;
    if (it == t.end() && !above) {
      if (last && !trailing) {
        w.path = next;
        return w;
      }
      w.error = E::NoEnt;
      return w;
    }
    if (it != t.end() && it->second.type == 'l' && (!last || follow_last || trailing)) {
      const std::string& target = it->second.content;
      const std::string whole = target[0] == '/' ? target : at + '/' + target;
      Where r = Resolve(t, whole, true, depth + 1);
      w.linked = true;
      if (r.error != E::OK) {
        w.error = r.error;
        return w;
      }
      if (!r.exists) {
        if (last && !trailing) {
          w.path = r.path;
          return w;
        }
        w.error = E::NoEnt;
        return w;
      }
      at = r.path;
      continue;
    }
    at = next;
  }
  if (trailing) {
    const auto it = t.find(at);
    if (it != t.end() && it->second.type != 'd') {
      w.error = E::NotDir;
      return w;
    }
  }
  w.path = at;
  w.exists = true;
  return w;
}

bool Under(const std::string& path, const std::string& dir) {
  return path.size() > dir.size() && path.compare(0, dir.size(), dir) == 0 && path[dir.size()] == '/';
}
std::vector<std::string> Children(const Tree& t, const std::string& dir) {
  std::vector<std::string> r;
  for (const auto& kv : t) {
    if (Under(kv.first, dir) && kv.first.find('/', dir.size() + 1) == std::string::npos) r.push_back(kv.first.substr(dir.size() + 1));
  }
  return r;
}
void EraseTree(Tree& t, const std::string& path) {
  for (auto it = t.begin(); it != t.end();) {
    if (it->first == path || Under(it->first, path)) {
      it = t.erase(it);
    } else {
      ++it;
    }
  }
}

std::string Name(pbt::Src& s) {
  if (s.Chance(1, 12)) {
    const std::string n = s.FromN("ab.- *\\~$\n\"'\x01\xff", 1, 4);
    return n == "." || n == ".." ? "..." : n;
  }
  return s.Pick({"a", "b", "c", ".hidden", "..a", "a b", "-rf", "d.txt", "\xd0\xb6"});
}

std::string Content(pbt::Src& s) {
  switch (s.Weighted({6, 3, 2, 1, 1})) {
    case 0:
      return s.From("ab\n\r", 12);
    case 1:
      return s.Bytes(20);
    case 2:
      return "";
    case 3:
      return std::string(s.Size(4000, 9000), char('a' + s.Draw(3))) + '\n';
    default:
      return s.Pick({"\n", "\n\n", "a", "a\n", "\na", "a\n\nb", "\r\n", " "});
  }
}

std::string PathIn(pbt::Src& s, const Tree& t, const std::string& work) {
  // An existing one, or one next to the existing one, or within it.
  std::vector<std::string> all;
  for (const auto& kv : t) {
    if (Under(kv.first, work)) all.push_back(kv.first);
  }
  std::string p = work;
  if (!all.empty()) {
    switch (s.Weighted({3, 3, 2})) {
      case 0:
        break;
      case 1:
        p = s.OneOf(all);
        if (s.Chance(1, 12)) p += '/';
        return p;
      default:
        p = s.OneOf(all);
    }
  }
  p = p + '/' + Name(s);
  if (s.Chance(1, 8)) p = p + '/' + Name(s);
  if (s.Chance(1, 20)) p = p.substr(0, work.size()) + "/." + p.substr(work.size());
  return p;
}

enum class Outcome { OK, NoDir, NotDir, NotEmpty, CannotRead, MkDir, OtherFile, Foreign };
template <typename F>
Outcome Run(F&& f) {
  try {
    f();
    return Outcome::OK;
  } catch (const current::DirDoesNotExistException&) {
    return Outcome::NoDir;
  } catch (const current::PathNotDirException&) {
    return Outcome::NotDir;
  } catch (const current::DirNotEmptyException&) {
    return Outcome::NotEmpty;
  } catch (const current::MkDirException&) {
    return Outcome::MkDir;
  } catch (const current::CannotReadFileException&) {
    return Outcome::CannotRead;
  } catch (const current::FileException&) {
    return Outcome::OtherFile;
  }
}

using Item = std::tuple<std::string, std::string, std::string, bool, std::vector<std::string>>;

// The items the scan is to list, false if there is a cycle of links.
bool Items(const Tree& t, const std::string& dir, int params, bool recursive, std::vector<std::string> components, std::vector<Item>& out) {
  if (components.size() > 10) return false;
  const Where w = Resolve(t, dir, true);
  for (const auto& name : Children(t, w.path)) {
    const std::string path = dir.back() == '/' ? dir + name : dir + '/' + name;
    const Where n = Resolve(t, path, true);
    const bool is_dir = n.error == E::OK && n.exists && t.at(n.path).type == 'd';
    if (params & (is_dir ? 2 : 1)) out.emplace_back(dir, name, path, is_dir, components);
    if (is_dir && recursive) {
      auto c = components;
      c.push_back(name);
      if (out.size() > 2000 || !Items(t, path, params, true, c, out)) return false;
    }
  }
  return true;
}

struct StopScan {};

struct History {
  pbt::Src& s;
  Tree t;
  std::string root, work, outside;
  size_t succeeded = 0, interesting = 0;

  void Verify(const std::string& op, const Tree* alternative = nullptr) {
    Tree actual;
    Snapshot(root, actual);
    if (alternative && actual == *alternative) {
      t = actual;
      return;
    }
    s.Check(actual == t, "the tree is what the operations make it",
            [&] { return op + "\n  expected:" + Dump(t, root) + "\n  actual:" + Dump(actual, root); });
  }

  void Did(Outcome o, const Where& w) {
    succeeded += o == Outcome::OK;
    interesting += o != Outcome::OK || w.linked;
    s.LabelIf(w.linked, "a link followed");
    s.LabelIf(o != Outcome::OK, "the operation failed");
  }

  void Write(const std::string& path, const std::string& content, bool append) {
    const Where w = Resolve(t, path, true);
    const bool ok = w.error == E::OK && (!w.exists || t.at(w.path).type == 'f') && path.back() != '/';
    const Outcome o = Run([&] { FileSystem::WriteStringToFile(content, path.c_str(), append); });
    s.Check(ok == (o == Outcome::OK), "writing succeeds if it can and throws if it can not", [&] { return pbt::Esc(path); });
    if (ok) {
      Node& n = t[w.path];
      n.type = 'f';
      n.content = append ? n.content + content : content;
    }
    Did(o, w);
    Verify("write " + pbt::Esc(path));
  }

  void Read(const std::string& path) {
    const Where w = Resolve(t, path, true);
    const bool ok = w.error == E::OK && w.exists && t.at(w.path).type == 'f';
    std::string got;
    const Outcome o = Run([&] { got = FileSystem::ReadFileAsString(path); });
    s.Check(o == (ok ? Outcome::OK : Outcome::CannotRead), "reading succeeds if it can and throws if it can not",
            [&] { return pbt::Esc(path); });
    std::vector<std::string> lines;
    const Outcome o2 = Run([&] { FileSystem::ReadFileByLines(path, [&](std::string&& l) { lines.push_back(std::move(l)); }); });
    s.Check(o2 == (ok ? Outcome::OK : Outcome::CannotRead), "reading by lines succeeds if it can and throws if it can not",
            [&] { return pbt::Esc(path); });
    if (ok) {
      const std::string& content = t.at(w.path).content;
      s.Check(got == content, "the bytes read are the ones written", [&] { return pbt::Esc(got) + " vs. " + pbt::Esc(content); });
      std::vector<std::string> expected;
      std::string line;
      for (char c : content) {
        if (c == '\n') {
          expected.push_back(line);
          line.clear();
        } else {
          line += c;
        }
      }
      if (!line.empty()) expected.push_back(line);
      s.Check(expected == lines, "the lines read are the ones written", [&] { return pbt::Esc(content); });
    } else {
      s.Check(lines.empty(), "no lines of what can not be read");
    }
    // The size, and the kind.
    uint64_t size = 0;
    const Outcome o3 = Run([&] { size = FileSystem::GetFileSize(path); });
    s.Check((o3 == Outcome::OK) == ok, "the size is known of files only", [&] { return pbt::Esc(path); });
    if (ok) s.Eq(t.at(w.path).content.size(), size, "the size");
    bool dir = false;
    const bool exists = w.error == E::OK && w.exists;
    const Outcome o4 = Run([&] { dir = FileSystem::IsDir(path); });
    s.Check((o4 == Outcome::OK) == exists, "the kind is known of what exists only", [&] { return pbt::Esc(path); });
    if (exists) s.Eq(t.at(w.path).type == 'd', dir, "the kind");
    Did(o, w);
    Verify("read " + pbt::Esc(path));
  }

  void MkDir(const std::string& path, bool silent) {
    const Where w = Resolve(t, path.back() == '/' ? path.substr(0, path.size() - 1) : path, false);
    const bool ok = w.error == E::OK && !w.exists;
    const Outcome o = Run([&] {
      FileSystem::MkDir(path, silent ? FileSystem::MkDirParameters::Silent : FileSystem::MkDirParameters::ThrowExceptionOnError);
    });
    s.Check(o == (ok || silent ? Outcome::OK : Outcome::MkDir), "making a directory succeeds if it can and throws if it can not",
            [&] { return pbt::Esc(path); });
    if (ok) t[w.path] = Node{'d', ""};
    Did(ok ? Outcome::OK : Outcome::MkDir, w);
    Verify("mkdir " + pbt::Esc(path));
  }

  void Rename(const std::string& from, const std::string& to) {
    // The semantics of rename(2).
    if (from.back() == '/' || to.back() == '/') return;
    const Where f = Resolve(t, from, false), g = Resolve(t, to, false);
    bool ok = f.error == E::OK && f.exists && g.error == E::OK;
    if (ok && f.path != g.path) {
      const bool fd = t.at(f.path).type == 'd';
      if (Under(g.path, f.path) || Under(f.path, g.path)) ok = false;
      if (ok && g.exists) {
        const bool gd = t.at(g.path).type == 'd';
        if (fd != gd || (gd && !Children(t, g.path).empty())) ok = false;
      }
    }
    const Outcome o = Run([&] { FileSystem::RenameFile(from, to); });
    s.Check(o == (ok ? Outcome::OK : Outcome::OtherFile), "renaming succeeds if it can and throws if it can not",
            [&] { return pbt::Esc(from) + " to " + pbt::Esc(to); });
    if (ok && f.path != g.path) {
      Tree moved;
      for (const auto& kv : t) {
        if (kv.first == f.path || Under(kv.first, f.path)) moved[g.path + kv.first.substr(f.path.size())] = kv.second;
      }
      EraseTree(t, f.path);
      t.erase(g.path);
      t.insert(moved.begin(), moved.end());
    }
    Did(o, f);
    Verify("rename " + pbt::Esc(from) + " to " + pbt::Esc(to));
  }

  // Returns whether the file is to be removed.
  bool ModelRmFile(const std::string& path, Where& w, Tree* alternative) {
    w = Resolve(t, path, false);
    if (w.error != E::OK || !w.exists) return false;
    if (t.at(w.path).type == 'd') {
      // An empty directory may or may not be removed as a file.
      if (Children(t, w.path).empty()) alternative->erase(w.path);
      return false;
    }
    return true;
  }
  void RmFile(const std::string& path, bool silent) {
    Tree alternative = t;
    Where w;
    const bool ok = ModelRmFile(path, w, &alternative);
    const Outcome o = Run([&] {
      FileSystem::RmFile(path, silent ? FileSystem::RmFileParameters::Silent : FileSystem::RmFileParameters::ThrowExceptionOnError);
    });
    if (ok || silent) s.Check(o == Outcome::OK, "removing a file succeeds if it can", [&] { return pbt::Esc(path); });
    if (!ok && !silent && alternative == t) s.Check(o == Outcome::OtherFile, "removing no file throws", [&] { return pbt::Esc(path); });
    if (ok) t.erase(w.path);
    Did(ok ? Outcome::OK : Outcome::OtherFile, w);
    Verify("rmfile " + pbt::Esc(path), &alternative);
  }

  // What recursive removal makes of the tree.
  Outcome ModelRmDir(const std::string& path, bool recursive, Tree& after, Where& w) {
    w = Resolve(t, path, false);
    if (w.error == E::NotDir) return Outcome::NotDir;
    if (w.error == E::Loop) return Outcome::OtherFile;
    if (w.error != E::OK || !w.exists) return Outcome::NoDir;
    if (t.at(w.path).type != 'd') return Outcome::NotDir;
    if (!recursive && !Children(t, w.path).empty()) return Outcome::NotEmpty;
    EraseTree(after, w.path);
    return Outcome::OK;
  }
  void RmDir(const std::string& path, bool silent, bool recursive) {
    // With the trailing slash the link is, to the system, the directory it leads to.
    if (path.back() == '/') return;
    Tree after = t;
    Where w;
    const Outcome expected = ModelRmDir(path, recursive, after, w);
    const Outcome o = Run([&] {
      FileSystem::RmDir(path,
                        silent ? FileSystem::RmDirParameters::Silent : FileSystem::RmDirParameters::ThrowExceptionOnError,
                        recursive ? FileSystem::RmDirRecursive::Yes : FileSystem::RmDirRecursive::No);
    });
    if (silent || expected == Outcome::OK) {
      s.Check(o == Outcome::OK, "removing a directory succeeds if it can", [&] { return pbt::Esc(path); });
    } else if (expected == Outcome::NoDir || expected == Outcome::NotEmpty) {
      s.Check(o == expected, "removing what is not there, or is not empty, throws the respective exception", [&] { return pbt::Esc(path); });
    } else {
      s.Check(o != Outcome::OK, "removing what is not a directory throws", [&] { return pbt::Esc(path); });
    }
    t = after;
    s.LabelIf(recursive && expected == Outcome::OK, "removed a tree");
    Did(expected, w);
    Verify("rmdir " + pbt::Esc(path) + (recursive ? " recursively" : ""));
  }

  void Scan(const std::string& path) {
    const int params = 1 + int(s.Draw(2));
    const bool recursive = s.Bool();
    const Where w = Resolve(t, path, true);
    const bool exists = w.error == E::OK && w.exists;
    Outcome expected = Outcome::OK;
    if (w.error == E::NotDir || (exists && t.at(w.path).type != 'd')) {
      expected = Outcome::NotDir;
    } else if (w.error == E::Loop) {
      expected = Outcome::OtherFile;
    } else if (!exists) {
      expected = Outcome::NoDir;
    }
    std::vector<Item> items;
    if (expected == Outcome::OK && !Items(t, path, params, recursive, {}, items)) {
      s.Label("a cycle of links");
      return;
    }
    const size_t kind = s.Weighted({3, 2, 1});
    const size_t limit = kind ? s.Draw(items.size()) : 0;
    std::vector<Item> got;
    bool stopped = false;
    const auto add = [&](const FileSystem::ScanDirItemInfo& i) {
      got.emplace_back(i.dirname, i.basename, i.pathname, i.is_directory, i.path_components_cref);
    };
    const auto p = static_cast<FileSystem::ScanDirParameters>(params);
    const auto r = recursive ? FileSystem::ScanDirRecursive::Yes : FileSystem::ScanDirRecursive::No;
    Outcome o;
    if (kind == 0) {
      o = Run([&] { FileSystem::ScanDir(path, add, p, r); });
    } else if (kind == 1) {
      o = Run([&] {
        FileSystem::ScanDirUntil(
            path,
            [&](const FileSystem::ScanDirItemInfo& i) {
              add(i);
              return got.size() <= limit;
            },
            p,
            r);
      });
    } else {
      o = Run([&] {
        try {
          FileSystem::ScanDir(
              path,
              [&](const FileSystem::ScanDirItemInfo& i) {
                add(i);
                if (got.size() > limit) throw StopScan();
              },
              p,
              r);
        } catch (const StopScan&) {
          stopped = true;
        }
      });
      s.Eq(limit < items.size(), stopped, "what the handler has thrown is passed on");
    }
    const auto show = [&] {
      std::string d = "of " + pbt::Esc(path) + (recursive ? ", recursive" : "") + ", expected:";
      for (const auto& i : items) d += "\n    " + pbt::Esc(std::get<2>(i));
      d += "\n  actual:";
      for (const auto& i : got) d += "\n    " + pbt::Esc(std::get<2>(i));
      return d;
    };
    s.Check(o == expected, "scanning succeeds if it can and throws the respective exception if it can not", show);
    std::sort(got.begin(), got.end());
    std::sort(items.begin(), items.end());
    if (kind == 0) {
      s.Check(got == items, "scanning lists every entry exactly once", show);
    } else {
      s.Eq(std::min(limit + 1, items.size()), got.size(), "scanning stops when told to");
      s.Check(std::unique(got.begin(), got.end()) == got.end() && std::includes(items.begin(), items.end(), got.begin(), got.end()),
              "scanning lists no entry twice and none which is not there", show);
    }
    s.LabelIf(recursive && items.size() > 2, "scanned a tree");
    Did(o, w);
    Verify("scan " + pbt::Esc(path));
  }

  void ScopedFile(const std::string& path, bool now, const std::string& content) {
    Tree alternative = t;
    Where w;
    {
      if (now && ModelRmFile(path, w, &alternative)) {
        t.erase(w.path);
        alternative = t;
      }
      const FileSystem::ScopedRmFile scoped(path, now);
      Verify("scoped file, before, " + pbt::Esc(path), &alternative);
      Write(path, content, false);
      alternative = t;
      if (ModelRmFile(path, w, &alternative)) {
        t.erase(w.path);
        alternative = t;
      }
    }
    Verify("scoped file, after, " + pbt::Esc(path), &alternative);
  }

  void ScopedDir(const std::string& path, bool now, bool recursive) {
    if (path.back() == '/') return;
    Where w;
    const auto r = recursive ? FileSystem::RmDirRecursive::Yes : FileSystem::RmDirRecursive::No;
    {
      if (now) {
        Tree after = t;
        ModelRmDir(path, recursive, after, w);
        t = after;
      }
      const FileSystem::ScopedRmDir scoped(path, now, r);
      Verify("scoped directory, before, " + pbt::Esc(path));
      MkDir(path, true);
      if (s.Bool()) Write(path + "/inner", "x", false);
      Tree after = t;
      ModelRmDir(path, recursive, after, w);
      t = after;
    }
    Verify("scoped directory, after, " + pbt::Esc(path));
  }

  void Link(const std::string& path) {
    const Where w = Resolve(t, path, false);
    if (w.error != E::OK || w.exists || path.back() == '/') return;
    std::string target;
    switch (s.Draw(4)) {
      case 0:
        target = outside;
        break;
      case 1:
        target = outside + "/keep/me";
        break;
      case 2:
        target = Name(s);
        break;
      case 3:
        target = "../" + Name(s);
        break;
      default:
        target = PathIn(s, t, work);
    }
    if (symlink(target.c_str(), path.c_str())) return;
    t[w.path] = Node{'l', target};
  }
};

}  // namespace

PBT_PROP(history_of_operations, o.weight = 12) {
  Box box(s);
  const size_t fds = OpenDescriptors();
  History h{s, {}, box.Root(), box.Root() + "/work", box.Root() + "/outside"};
  mkdir(h.work.c_str(), 0755);
  mkdir(h.outside.c_str(), 0755);
  mkdir((h.outside + "/keep").c_str(), 0755);
  FILE* f = fopen((h.outside + "/keep/me").c_str(), "w");
  if (!f) s.Fail("harness", "can not create a file");
  fputs("precious", f);
  fclose(f);
  Snapshot(h.root, h.t);
  const size_t n = s.Len(30);
  for (size_t i = 0; i < n; ++i) {
    const std::string p = PathIn(s, h.t, h.work);
    const size_t op = s.Weighted({5, 5, 4, 3, 2, 1, 3, 3, 2, 2, 2});
    if (s.Describing()) {
      static const char* names[] = {"write", "mkdir", "link", "read", "rename", "rmfile", "rmdir", "scan", "scoped file", "scoped dir", "append"};
      s.Note(std::string(names[op]) + ' ' + pbt::Esc(p.substr(h.root.size())));
    }
    switch (op) {
      case 0:
        h.Write(p, Content(s), false);
        break;
      case 1:
        h.MkDir(p, s.Bool());
        break;
      case 2:
        h.Link(p);
        break;
      case 3:
        h.Read(p);
        break;
      case 4:
        h.Rename(p, PathIn(s, h.t, h.work));
        break;
      case 5:
        h.RmFile(p, s.Bool());
        break;
      case 6:
        h.RmDir(p, s.Chance(1, 3), s.Chance(2, 3));
        break;
      case 7:
        h.Scan(s.Chance(1, 3) ? h.work : p);
        break;
      case 8:
        h.ScopedFile(p, s.Bool(), Content(s));
        break;
      case 9:
        h.ScopedDir(p, s.Bool(), s.Bool());
        break;
      default:
        h.Write(p, Content(s), true);
    }
    mkdir(h.work.c_str(), 0755);  // In case it is the one removed.
    if (!h.t.count(h.work)) h.t[h.work] = Node{'d', ""};
  }
  s.Eq(fds, OpenDescriptors(), "no descriptors are left open");
  if (h.succeeded >= 3 && h.interesting >= 2) s.NonTrivial();
}

// Parts of the tree can not be removed.
PBT_PROP(removal_which_fails, o.weight = 3) {
  Box box(s);
  const size_t fds = OpenDescriptors();
  const std::string work = box.Root() + "/work", outside = box.Root() + "/outside";
  mkdir(work.c_str(), 0755);
  mkdir(outside.c_str(), 0755);
  FILE* f = fopen((outside + "/me").c_str(), "w");
  if (!f) s.Fail("harness", "can not create a file");
  fputs("precious", f);
  fclose(f);
  std::vector<std::string> dirs{work};
  const size_t n = 1 + s.Len(12);
  for (size_t i = 0; i < n; ++i) {
    const std::string p = s.OneOf(dirs) + '/' + Name(s);
    switch (s.Weighted({3, 3, 2})) {
      case 0:
        if (!mkdir(p.c_str(), 0755)) dirs.push_back(p);
        break;
      case 1:
        if (FILE* g = fopen(p.c_str(), "wx")) {
          fputs("x", g);
          fclose(g);
        }
        break;
      default:
        if (symlink(s.Bool() ? outside.c_str() : (outside + "/me").c_str(), p.c_str())) continue;
    }
  }
  Tree before;
  Snapshot(box.Root(), before);
  std::vector<std::string> locked;
  bool stuck = false;
  for (size_t i = 1; i < dirs.size(); ++i) {
    if (s.Chance(1, 3)) {
      locked.push_back(dirs[i]);
      chmod(dirs[i].c_str(), 0555);
      stuck |= !Children(before, dirs[i]).empty();
    }
  }
  const bool silent = s.Bool();
  if (s.Describing()) s.Note(Dump(before, box.Root()) + "\n  locked: " + std::to_string(locked.size()));
  const Outcome o = Run([&] {
    FileSystem::RmDir(work,
                      silent ? FileSystem::RmDirParameters::Silent : FileSystem::RmDirParameters::ThrowExceptionOnError,
                      FileSystem::RmDirRecursive::Yes);
  });
  if (getuid() != 0 || geteuid() != 0) {
    s.Eq(!stuck || silent, o == Outcome::OK, "the failure to remove is reported, unless silent");
  }
  for (const auto& d : locked) chmod(d.c_str(), 0755);
  Tree after;
  Snapshot(box.Root(), after);
  for (const auto& kv : before) {
    const auto it = after.find(kv.first);
    const bool inside = kv.first == work || Under(kv.first, work);
    s.Check(it == after.end() ? inside : it->second == kv.second, "nothing outside of the tree is touched, and nothing altered",
            [&] { return pbt::Esc(kv.first); });
  }
  s.Check(after.size() <= before.size(), "nothing is created");
  s.Check(stuck == (after.count(work) != 0), "the tree is removed if it can be", [&] { return Dump(after, box.Root()); });
  s.Eq(fds, OpenDescriptors(), "no descriptors are left open");
  s.LabelIf(stuck, "could not be removed");
  if (before.size() >= 6) s.NonTrivial();
}

PBT_PROP(no_space_left, o.weight = 1) {
  Box box(s);
  const std::string content(1 + s.Weighted({1, 1}) * s.Draw(100000), 'x');
  const bool append = s.Bool();
  s.Check(Run([&] { FileSystem::WriteStringToFile(content, "/dev/full", append); }) == Outcome::OtherFile,
          "the failure to write is reported", [&] { return std::to_string(content.size()) + " bytes"; });
  s.NonTrivial();
}

PBT_PROP(temporary_files, o.weight = 1) {
  Box box(s);
  const std::string a = Content(s), b = Content(s);
  const std::string fa = FileSystem::WriteStringToTmpFile(a), fb = FileSystem::WriteStringToTmpFile(b);
  const FileSystem::ScopedRmFile ra(fa, false), rb(fb, false);
  s.Check(fa != fb, "the names of temporary files differ");
  s.Check(FileSystem::ReadFileAsString(fa) == a && FileSystem::ReadFileAsString(fb) == b, "temporary files hold what was written");
  s.NonTrivial();
}

PBT_PROP(paths, o.weight = 3) {
  const std::string alphabet = "ab./\\-";
  const std::string dir = s.From(alphabet, 8), base = s.From(alphabet, 8);
  if (base.empty()) {
    s.Check(Run([&] { FileSystem::JoinPath(dir, base); }) == Outcome::OtherFile, "an empty name can not be joined");
  } else {
    s.Eq((std::filesystem::path(dir) / base).string(), FileSystem::JoinPath(dir, base), "the joined path");
    // Taken apart, the path gives back what it was joined from.
    if (base.find('/') == std::string::npos && !dir.empty() && dir.back() != '/') {
      const std::filesystem::path joined(FileSystem::JoinPath(dir, base));
      s.Eq(base, joined.filename().string(), "the name of the joined path");
      s.Eq(std::filesystem::path(dir).string(), joined.parent_path().string(), "the directory of the joined path");
    }
  }
  std::string extension;
  for (size_t i = base.size(); i--;) {
    if (base[i] == '/' || base[i] == '\\') break;
    if (base[i] == '.') {
      extension = base.substr(i + 1);
      break;
    }
  }
  s.Eq(extension, FileSystem::GetFileExtension(base), "the extension");
  if (!dir.empty() && !base.empty()) s.NonTrivial();
}
