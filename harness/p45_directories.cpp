// P45: CreateDirectory, for every state of the path, every failure of the system and every action of another process.
#include "trap.hpp"

#include <dirent.h>
#include <errno.h>

#include <arc_utilities/filesystem.hpp>

// ------------------------------------------------------------------ system calls under control
static std::function<int(const char*)> on_mkdir;  // 0: go on, else the error
static std::function<void()> on_call;
extern "C" int mkdir(const char* path, mode_t mode) {
  if (on_call) on_call();
  if (on_mkdir) {
    const int e = on_mkdir(path);
    if (e) {
      errno = e;
      return -1;
    }
  }
  return (int)syscall(83 /* mkdir */, path, mode);
}
extern "C" int statx(int fd, const char* path, int flags, unsigned mask, struct statx* st) noexcept {
  if (on_call) on_call();
  return (int)syscall(332 /* statx */, fd, path, flags, mask, st);
}

static const struct Quiet {
  std::ostringstream sink;
  Quiet() { std::cout.rdbuf(sink.rdbuf()); }
} quiet;

typedef std::string Str;
static void wipe(const Str& d) {
  if (DIR* h = opendir(d.c_str())) {
    while (dirent* e = readdir(h)) {
      const Str n = e->d_name;
      if (n == "." || n == "..") continue;
      const Str p = d + "/" + n;
      struct stat s;
      if (lstat(p.c_str(), &s)) continue;
      if (S_ISDIR(s.st_mode)) {
        wipe(p);
        rmdir(p.c_str());
      } else unlink(p.c_str());
    }
    closedir(h);
  }
}
struct Box {  // a fresh directory per execution, removed afterwards
  Str dir;
  Box() {
    static int k = 0;
    dir = mc::cat("/tmp/verif-p45-", getpid(), "-", ++k);
    wipe(dir);
    rmdir(dir.c_str());
    if (syscall(83, dir.c_str(), 0700)) abort();
    if (chdir(dir.c_str())) abort();
  }
  ~Box() {
    on_mkdir = nullptr;
    on_call = nullptr;
    if (chdir("/tmp")) abort();
    wipe(dir);
    rmdir(dir.c_str());
  }
};
static void make_dir(const Str& p) { syscall(83, p.c_str(), 0755); }
static void make_file(const Str& p) {
  std::ofstream f(p);
  f << "contents of " << p;
}
static bool is_dir(const Str& p) {
  struct stat s;
  return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
}
static void list(const Str& d, const Str& rel, std::map<Str, Str>& out) {
  if (DIR* h = opendir(d.c_str())) {
    while (dirent* e = readdir(h)) {
      const Str n = e->d_name;
      if (n == "." || n == "..") continue;
      const Str p = d + "/" + n, q = rel.empty() ? n : rel + "/" + n;
      struct stat s;
      if (lstat(p.c_str(), &s)) continue;
      if (S_ISDIR(s.st_mode)) {
        out[q] = "dir";
        list(p, q, out);
      } else if (S_ISLNK(s.st_mode)) {
        char b[256] = {0};
        if (readlink(p.c_str(), b, 255) < 0) b[0] = 0;
        out[q] = Str("link ") + b;
      } else {
        std::ifstream f(p);
        std::stringstream c;
        c << f.rdbuf();
        out[q] = "file " + c.str();
      }
    }
    closedir(h);
  }
}
static Str show(const std::map<Str, Str>& t) {
  Str s = "{";
  for (auto& e : t) s += e.first + ":" + e.second.substr(0, 4) + " ";
  return s + "}";
}
static bool create(const Str& p) {  // true: returned normally
  try {
    arc_utilities::CreateDirectory(p);
  } catch (const mc::Violation&) {
    throw;
  } catch (const std::exception&) {
    return false;
  }
  return true;
}
// the path asked for, in one of several spellings
static Str spell(mc::Run& r, const Str& base, const std::vector<Str>& parts) {
  const int form = r.choose(7, "spelling");
  Str p;
  for (size_t i = 0; i < parts.size(); i++) p += (i ? "/" : "") + parts[i];
  switch (form) {
    case 0: return base + "/" + p;
    case 1: return base + "/" + p + "/";
    case 2: return p;
    case 3: return "./" + p;
    case 4: return base + "//" + p;
    case 5: return p + "/";
    default: return base + "/./" + p;
  }
}
MC_SCENARIO(trees, "paths of one to three (thorough: four) components, each component present, missing, a file, a link to a directory or a dangling link, with other entries beside, in seven spellings", 1) {
  Box box;
  const int n = 1 + r.choose(r.thorough() ? 4 : 3, "components");
  const char* N[] = {"a", "b c", "d.e", "f"};
  std::vector<Str> parts;
  Str at = box.dir, w;
  bool possible = true, there = true;
  for (int i = 0; i < n; i++) {
    parts.push_back(N[i]);
    const Str p = at + "/" + N[i];
    if (there) {
      const int what = r.choose(5, "component");
      w += mc::cat(" ", N[i], "=", what == 0 ? "dir" : what == 1 ? "missing" : what == 2 ? "file" : what == 3 ? "link" : "dangling");
      if (what == 0) make_dir(p);
      if (what == 1) there = false;
      if (what == 2) {
        make_file(p);
        possible = there = false;
      }
      if (what == 3) {
        make_dir(at + "/target");
        if (symlink("target", p.c_str())) abort();
      }
      if (what == 4) {
        if (symlink("nowhere", p.c_str())) abort();
        possible = there = false;
      }
    }
    if (is_dir(at)) make_file(at + "/beside" + mc::str(i));
    at = p;
  }
  std::map<Str, Str> before, after;
  list(box.dir, "", before);
  const Str p = spell(r, box.dir, parts);
  w = p + " with" + w;
  const bool ok = create(p);
  list(box.dir, "", after);
  if (ok != possible) r.fail(mc::cat(w, ok ? ": returns normally" : ": fails"));
  if (ok && !is_dir(at)) r.fail(w + ": returns normally without a directory");
  for (auto& e : before)
    if (!after.count(e.first) || after[e.first] != e.second) r.fail(mc::cat(w, ": ", e.first, " is changed"));
  size_t extra = 0;
  for (auto& e : after)
    if (!before.count(e.first)) {
      extra++;
      if (e.second != "dir") r.fail(mc::cat(w, ": creates ", e.first, " as ", e.second));
    }
  if (extra > (size_t)n) r.fail(mc::cat(w, ": creates more than the path: ", show(after)));
  r.step();
  if (ok) {  // again: nothing to do
    if (!create(p)) r.fail(w + ": fails the second time");
    std::map<Str, Str> again;
    list(box.dir, "", again);
    if (again != after) r.fail(w + ": the second call changes something");
    r.step();
  }
  r.state(w);
}
MC_SCENARIO(failures, "missing paths of one to three components, every choice of the directory whose creation fails and of five errors", 1) {
  Box box;
  const int n = 1 + r.choose(3, "components"), have = r.choose(n, "already there");
  std::vector<Str> parts;
  Str at = box.dir;
  for (int i = 0; i < n; i++) {
    parts.push_back(mc::cat("d", i));
    at += "/" + parts.back();
    if (i < have) make_dir(at);
  }
  const int bad = r.choose(n - have, "which fails");
  const int E[] = {EACCES, ENOSPC, EROFS, EIO, EMLINK};
  const int e = E[r.choose(5, "error")];
  const Str p = spell(r, box.dir, parts), broken = parts[(size_t)(have + bad)];
  on_mkdir = [&](const char* path) {
    Str s = path;
    while (!s.empty() && s.back() == '/') s.pop_back();
    const size_t k = s.rfind('/');
    return s.substr(k == Str::npos ? 0 : k + 1) == broken ? e : 0;
  };
  const bool ok = create(p);
  on_mkdir = nullptr;
  if (ok) r.fail(mc::cat(p, ": returns normally although ", broken, " could not be created (error ", e, ")"));
  r.step();
  if (!create(p) || !is_dir(at)) r.fail(mc::cat(p, ": fails although nothing is in the way any more"));
  r.step();
  r.state(mc::cat(n, have, bad, e, p.substr(box.dir.size() < p.size() ? box.dir.size() : 0)));
}
MC_SCENARIO(others, "two levels missing; before every system call another process may create the first or both of them (up to two, thorough three, interferences), or put a file at the end", 1) {
  Box box;
  const Str top = box.dir + "/a", end = top + "/b";
  const Str p = r.flip("relative") ? "a/b" : end;
  const int bound = r.bound(2, 3);
  int calls = 0;
  bool file = false;
  Str w;
  on_call = [&] {
    calls++;
    if (calls > 40) return;
    const int what = r.deviate(4, bound, "another process");
    if (!what) return;
    w += mc::cat(" ", what, "@", calls);
    if (what >= 1) make_dir(top);
    if (what == 2) make_dir(end);
    if (what == 3 && !is_dir(end)) {
      make_file(end);
      file = true;
    }
    r.step();
  };
  const bool ok = create(p);
  on_call = nullptr;
  if (ok != !file) r.fail(mc::cat("interference", w, ok ? ": returns normally although a file is in the way" : ": fails although the directory can be there"));
  if (ok && !is_dir(end)) r.fail(mc::cat("interference", w, ": returns normally without a directory"));
  r.step();
  r.state(w + p.substr(0, 1));
}
