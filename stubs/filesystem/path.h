// Stand-in for the wjakob/filesystem submodule, which is absent offline: same interface, same documented behaviour.
#pragma once
#include <dirent.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cctype>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace filesystem
{
class path
{
 public:
  path() {}
  path(const char *s) : m_str(s) {}
  path(const std::string &s) : m_str(s) {}
  bool exists() const
  {
    struct stat sb;
    return stat(m_str.c_str(), &sb) == 0;
  }
  bool is_directory() const
  {
    struct stat sb;
    if (stat(m_str.c_str(), &sb)) return false;
    return S_ISDIR(sb.st_mode);
  }
  bool is_file() const
  {
    struct stat sb;
    if (stat(m_str.c_str(), &sb)) return false;
    return S_ISREG(sb.st_mode);
  }
  bool remove_file() { return std::remove(m_str.c_str()) == 0; }
  const std::string &str() const { return m_str; }
  std::string native() const { return m_str; }
  bool empty() const { return m_str.empty(); }
  bool is_absolute() const { return !m_str.empty() && m_str[0] == '/'; }
  size_t file_size() const
  {
    struct stat sb;
    if (stat(m_str.c_str(), &sb)) throw std::runtime_error("path::file_size(): cannot stat file \"" + m_str + "\"!");
    return (size_t)sb.st_size;
  }
  path make_absolute() const
  {
    char b[PATH_MAX];
    if (!realpath(m_str.c_str(), b)) throw std::runtime_error("Internal error in realpath()");
    return path(b);
  }
  std::string filename() const
  {
    std::string t = strip();
    size_t p = t.rfind('/');
    return p == std::string::npos ? t : t.substr(p + 1);
  }
  std::string extension() const
  {
    std::string f = filename();
    size_t p = f.rfind('.');
    return p == std::string::npos ? "" : f.substr(p + 1);
  }
  path parent_path() const
  {
    std::string t = strip();
    size_t p = t.rfind('/');
    if (p == std::string::npos) return path("");
    return path(p == 0 ? "/" : t.substr(0, p));
  }
  path operator/(const path &o) const
  {
    if (o.is_absolute()) throw std::runtime_error("path::operator/(): expected a relative path!");
    if (m_str.empty()) return o;
    return path(strip() + "/" + o.m_str);
  }
  bool operator==(const path &o) const { return strip() == o.strip(); }
  bool operator!=(const path &o) const { return !(*this == o); }
  static path getcwd()
  {
    char b[PATH_MAX];
    if (!::getcwd(b, PATH_MAX)) throw std::runtime_error("Internal error in getcwd()");
    return path(b);
  }

 private:
  std::string strip() const
  {
    std::string t = m_str;
    while (t.size() > 1 && t[t.size() - 1] == '/') t.resize(t.size() - 1);
    return t;
  }
  std::string m_str;
};
// The calls below act only inside the current scratch directory or on what an unprivileged user owns (see mc::drop()).
inline bool create_directory(const path &p) { return mkdir(p.str().c_str(), S_IRWXU) == 0; }
inline bool create_directories(const path &p)
{
  const std::string &s = p.str();
  std::string cur;
  bool ok = false;
  size_t i = 0;
  if (!s.empty() && s[0] == '/') cur = "/", i = 1;
  while (i <= s.size()) {
    size_t j = s.find('/', i);
    if (j == std::string::npos) j = s.size();
    if (j > i) {
      cur += s.substr(i, j - i);
      path c(cur);
      ok = c.is_directory() || create_directory(c);
      if (!ok) return false;
      cur += "/";
    }
    i = j + 1;
  }
  return ok;
}
// Removes a directory tree (as in the fork used by the project); false if it is not there.
inline bool remove_directories(const path &p)
{
  DIR *d = opendir(p.str().c_str());
  if (!d) return false;
  std::vector<std::string> names;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") names.push_back(n);
  }
  closedir(d);
  bool ok = true;
  for (auto &n : names) {
    path c(p.str() + "/" + n);
    struct stat sb;
    if (lstat(c.str().c_str(), &sb)) {
      ok = false;
      continue;
    }
    ok = (S_ISDIR(sb.st_mode) ? remove_directories(c) : c.remove_file()) && ok;
  }
  return rmdir(p.str().c_str()) == 0 && ok;
}
}  // namespace filesystem
