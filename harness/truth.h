// What is the case for an operation on a path, as error codes.
#ifndef TRUTH_H
#define TRUTH_H
#include "common.h"
using Codes = std::set<int>;
inline std::string show(const Codes &s) { std::string o; for(int e : s) o += std::string(o.empty() ? "" : ", ") + ENAME(e); return o.empty() ? "no failure" : o; }
// What is the case for an operation on a path; empty when it has to succeed.
struct Truth {
  MemFs &m; explicit Truth(MemFs &r) : m(r) {}
  void named(const std::string &p, Codes &s) { if(!m.at(p)) { s.insert(EVFS_ERR_NO_FILE); s.insert(EVFS_ERR_NO_PATH); } }   // it does not exist
  void parent(const std::string &p, Codes &s) { if(p == "/") return; size_t k = p.rfind('/'); NodeP n = m.at(p.substr(0, k)); if(!n || !n->dir) { s.insert(EVFS_ERR_NO_PATH); s.insert(EVFS_ERR_NO_FILE); } }
  void root(const std::string &p, Codes &s) { if(p == "/") for(int e : {EVFS_ERR_BAD_NAME, EVFS_ERR_BAD_ARG, EVFS_ERR_AUTH, EVFS_ERR_NO_PATH}) s.insert(e); }
  bool dir(const std::string &p) { NodeP n = m.at(p); return n && n->dir; }
  bool file(const std::string &p) { NodeP n = m.at(p); return n && !n->dir; }
  Codes describe(const std::string &p) { Codes s; named(p, s); return s; }
  Codes open(const std::string &p, int flags) {
    Codes s; bool make = flags & (EVFS_NO_EXIST | EVFS_OPEN_OR_NEW); if(make) parent(p, s); else named(p, s);
    if(dir(p)) for(int e : {EVFS_ERR_IS_DIR, EVFS_ERR_NO_FILE, EVFS_ERR_AUTH}) s.insert(e);
    if((flags & EVFS_NO_EXIST) && m.at(p)) s.insert(EVFS_ERR_EXISTS);
    root(p, s); return s;
  }
  Codes remove(const std::string &p) { Codes s; named(p, s); if(dir(p) && !m.at(p)->kids.empty()) { s.insert(EVFS_ERR_NOT_EMPTY); s.insert(EVFS_ERR_AUTH); } root(p, s); return s; }
  Codes make_dir(const std::string &p) { Codes s; parent(p, s); if(m.at(p)) s.insert(EVFS_ERR_EXISTS); root(p, s); return s; }
  Codes enter(const std::string &p) { Codes s; named(p, s); if(file(p)) { s.insert(EVFS_ERR_NO_PATH); s.insert(EVFS_ERR_NO_FILE); } return s; }
  Codes rename(const std::string &p, const std::string &q) {
    Codes s; named(p, s); parent(q, s); root(p, s); root(q, s);
    if(m.at(q)) { s.insert(EVFS_ERR_EXISTS); if(dir(q)) { s.insert(EVFS_ERR_IS_DIR); if(!m.at(q)->kids.empty()) s.insert(EVFS_ERR_NOT_EMPTY); } else if(dir(p)) s.insert(EVFS_ERR_NO_PATH); }
    if(dir(p) && q.compare(0, p.size() + 1, p + "/") == 0) { s.insert(EVFS_ERR_BAD_ARG); s.insert(EVFS_ERR_NO_PATH); }
    return s;
  }
};
#endif
