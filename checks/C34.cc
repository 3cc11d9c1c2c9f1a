#include "gen.h"
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <tensor/jobs.h>
#include <tensor/sdf.h>
#include <unistd.h>
const char *pbt::PROPERTY = "C34";
const char *pbt::RULE =
    "Random histories of up to 25 steps over twin directories with files, directories, links (dangling, to directories), sockets and named pipes: the library's helpers work in one, plain system calls do what was asked "
    "in the other, and after every step both answers and both trees (types, contents, permissions) must agree. Non-trivial: at least one deletion, renaming or creation by the helpers took place.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"run by a user who may read and write everything below the scratch directory", "renaming is refused when the source does not exist, or when the destination exists and may not be overwritten"};
struct Node { mode_t type, perm; std::string data; bool operator==(const Node &o) const { return type == o.type && perm == o.perm && data == o.data; } };
typedef std::map<std::string, Node> Tree;
static void scan(const std::string &dir, const std::string &rel, Tree &t) {
  DIR *d = opendir(dir.c_str());
  if (!d) return;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = dir + "/" + n;
    struct stat s;
    if (lstat(p.c_str(), &s)) continue;
    Node x = {(mode_t)(s.st_mode & S_IFMT), (mode_t)(s.st_mode & 07777), ""};
    char b[256];
    if (S_ISREG(s.st_mode)) { int f = open(p.c_str(), O_RDONLY); long k; while ((k = read(f, b, sizeof b)) > 0) x.data.append(b, k); close(f); }
    if (S_ISLNK(s.st_mode)) { long k = readlink(p.c_str(), b, sizeof b); x.data.assign(b, std::max(0L, k)); x.perm = 0; }
    t[rel + n] = x;
    if (S_ISDIR(s.st_mode)) scan(p, rel + n + "/", t);
  }
  closedir(d);
}
static std::string show_tree(const Tree &t) { std::ostringstream o; for (auto &x : t) o << x.first << ":" << std::oct << x.second.type << "," << x.second.perm << std::dec << " '" << x.second.data << "' "; return o.str(); }
static void wipe(const std::string &dir) {   // contents of a directory of ours
  Tree t;
  scan(dir, "", t);
  for (auto i = t.rbegin(); i != t.rend(); ++i) { std::string p = dir + "/" + i->first; if (i->second.type == S_IFDIR) rmdir(p.c_str()); else unlink(p.c_str()); }
}
static void put(const std::string &p, const std::string &s) { int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (f >= 0) { if (write(f, s.data(), s.size()) < 0) {} close(f); } }
static std::string name(Src &S) {
  static const std::vector<std::string> N = {"a", "b", "dir", "dir2", "dir/a", "dir/sub", "link", "sock", "pipe", "c.dat", "dir2/x", "none/x", "a/x", "link/a", "", ".", "dir/", "with space", "\xc3\xa9"};
  return N[S.coin(1, 8) ? S.draw(N.size()) : S.draw(11)];
}
static bool quiet_make(const std::string &n, int mode, bool def) {   // make_directory prints its argument
  std::ostringstream sink;
  std::streambuf *old = std::cout.rdbuf(sink.rdbuf());
  bool r = def ? sdf::make_directory(n) : sdf::make_directory(n, mode);
  std::cout.rdbuf(old);
  return r;
}
TEST(histories, 40000, 600000) {
  std::string base = scratch_dir(), A = base + "/A", B = base + "/B";
  mkdir(A.c_str(), 0755); mkdir(B.c_str(), 0755);
  wipe(A); wipe(B);
  int cwd = open(".", O_RDONLY);
  struct Back { int f; ~Back() { if (fchdir(f)) abort(); close(f); } } back = {cwd};
  auto in = [&](const std::string &d) { if (chdir(d.c_str())) abort(); };
  bool acted = false;
  for (long steps = S.range(1, 25), k = 0; k < steps; ++k) {
    int o = (int)S.weighted({3, 2, 1, 1, 1, 1, 4, 3, 4, 4, 5, 1});
    std::string n = name(S), m = name(S);
    NOTE("step " << o << " '" << n << "' '" << m << "'");
    auto both = [&](const std::function<void()> &f) { in(A); f(); in(B); f(); };
    auto agree = [&](const std::string &what, bool got, bool want) { if (got != want) FAIL(what << " says " << got << " instead of " << want); };
    switch (o) {
      case 0: { std::string s(S.draw(6), (char)('a' + k)); both([&] { struct stat st; if (lstat(n.c_str(), &st) || S_ISREG(st.st_mode)) put(n, s); }); break; }
      case 1: both([&] { mkdir(n.c_str(), 0755); }); break;
      case 2: both([&] { if (symlink(m.c_str(), n.c_str())) {} }); break;
      case 3: both([&] { if (n.size() && n.size() < 90) { int f = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un u = {}; u.sun_family = AF_UNIX; strcpy(u.sun_path, n.c_str()); if (f >= 0) { if (bind(f, (sockaddr *)&u, sizeof u)) {} close(f); } } }); break;
      case 4: both([&] { mkfifo(n.c_str(), 0644); }); break;
      case 5: both([&] { rmdir(n.c_str()); }); break;
      case 6: { in(A); bool g = sdf::isdir(n); in(B); struct stat s; agree("isdir", g, !stat(n.c_str(), &s) && S_ISDIR(s.st_mode)); label("isdir"); break; }
      case 7: { in(A); bool g = sdf::file_exists(n); in(B); agree("file_exists", g, !access(n.c_str(), R_OK | W_OK)); label("file_exists"); break; }
      case 8: { in(A); bool g = sdf::delete_file(n); in(B); bool w = !unlink(n.c_str()); agree("delete_file", g, w); label(w ? "deleted" : "nothing to delete"); acted |= w; break; }
      case 9: {
        bool def = S.coin();
        int mode = def ? 0777 : S.elem(std::vector<int>{0700, 0755, 0750, 0777, 0500, 0555, 01777, 0300, 0});
        in(A); bool g = quiet_make(n, mode, def); in(B); bool w = !mkdir(n.c_str(), mode);
        agree("make_directory", g, w); label(w ? "made" : "not made"); acted |= w;
        break;
      }
      default: {
        int ov = (int)S.draw(3);   // default, overwrite, do not overwrite
        in(B);
        bool src = !access(n.c_str(), R_OK | W_OK), dst = !access(m.c_str(), R_OK | W_OK);
        if (!src || (ov == 2 && dst)) {
          label("renaming refused");
          if (S.coin(1, 20)) { in(A); must_refuse("renaming '" + n + "' to '" + m + "'", [&] { sdf::rename_file(n, m, ov != 2); }); }
          break;
        }
        in(A);
        bool g = ov == 0 ? sdf::rename_file(n, m) : sdf::rename_file(n, m, ov == 1);
        in(B);
        bool w = !rename(n.c_str(), m.c_str());
        agree("rename_file('" + n + "','" + m + "')", g, w);
        label(w ? dst ? "renamed over another" : "renamed" : "not renamed");
        acted |= w;
      }
    }
    Tree ta, tb;
    scan(A, "", ta); scan(B, "", tb);
    if (!(ta == tb)) FAIL("after step " << k << " the directory is " << show_tree(ta) << " instead of " << show_tree(tb));
  }
  if (acted) nontrivial();
  in(base);
  wipe(A); wipe(B);
}
