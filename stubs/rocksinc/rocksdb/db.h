#pragma once
// In-memory stand-in for the parts of RocksDB the repository uses: column families are exact maps that survive reopening; transactions are overlays.
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace rocksdb {
class Slice { public: const char *d = ""; size_t n = 0; Slice() {} Slice(const char *p, size_t l) : d(p), n(l) {} Slice(const std::string &s) : d(s.data()), n(s.size()) {} Slice(const char *s) : d(s), n(strlen(s)) {}
  const char *data() const { return d; } size_t size() const { return n; } std::string ToString(bool = false) const { return std::string(d, n); } };
class Status { public: int c = 0; Status() {} Status(int x) : c(x) {} bool ok() const { return c == 0; } bool IsNotFound() const { return c == 1; } const char *getState() const { return "state"; } std::string ToString() const { return "status"; } };
struct ReadOptions {}; struct WriteOptions {}; enum CompressionType { kNoCompression };
struct ColumnFamilyOptions { ColumnFamilyOptions *OptimizeForPointLookup(uint64_t) { return this; } };
struct Options { bool create_if_missing = false; int max_open_files = 0; CompressionType compression = kNoCompression; Options *IncreaseParallelism() { return this; } };
struct ColumnFamilyDescriptor { std::string name = "default"; ColumnFamilyOptions options; ColumnFamilyDescriptor() {} ColumnFamilyDescriptor(const std::string &n, const ColumnFamilyOptions &o) : name(n), options(o) {} };
struct Table { std::string name; std::vector<std::pair<std::string, std::string>> rows; };
struct Store { std::string path; std::vector<std::shared_ptr<Table>> tables; };
inline std::vector<std::shared_ptr<Store>> &disk() { static std::vector<std::shared_ptr<Store>> d; return d; }
inline std::shared_ptr<Store> storeAt(const std::string &p) { for (auto &s : disk()) if (s->path == p) return s; return nullptr; }
inline int find(const Table &t, const Slice &k) { for (size_t i = 0; i < t.rows.size(); i++) if (t.rows[i].first.size() == k.n && memcmp(t.rows[i].first.data(), k.d, k.n) == 0) return (int)i; return -1; }
inline void put(Table &t, const Slice &k, const Slice &v) { int i = find(t, k); if (i >= 0) t.rows[i].second = v.ToString(); else t.rows.emplace_back(k.ToString(), v.ToString()); }
inline void del(Table &t, const Slice &k) { int i = find(t, k); if (i >= 0) t.rows.erase(t.rows.begin() + i); }
struct ColumnFamilyHandle { std::shared_ptr<Table> t; virtual ~ColumnFamilyHandle() {} };
class Iterator { public: std::vector<std::pair<std::string, std::string>> rows; size_t at = 0; virtual ~Iterator() {} void SeekToFirst() { at = 0; } bool Valid() const { return at < rows.size(); } void Next() { at++; } Slice key() const { return Slice(rows[at].first); } Slice value() const { return Slice(rows[at].second); } };
struct WriteBatch { std::vector<std::pair<std::string, std::pair<bool, std::string>>> ops; void Put(const Slice &k, const Slice &v) { ops.push_back({ k.ToString(), { true, v.ToString() } }); } void Delete(const Slice &k) { ops.push_back({ k.ToString(), { false, "" } }); } };
class DB { public: std::shared_ptr<Store> s; virtual ~DB() {}
  static Status Open(const Options &, const std::string &p, DB **out) { auto st = storeAt(p); if (!st) { st = std::make_shared<Store>(); st->path = p; st->tables.push_back(std::make_shared<Table>()); disk().push_back(st); } *out = new DB(); (*out)->s = st; return 0; }
  Status Get(const ReadOptions &, ColumnFamilyHandle *h, const Slice &k, std::string *v) { int i = find(*h->t, k); if (i < 0) return 1; *v = h->t->rows[i].second; return 0; }
  Status Get(const ReadOptions &, const Slice &k, std::string *v) { int i = find(*s->tables[0], k); if (i < 0) return 1; *v = s->tables[0]->rows[i].second; return 0; }
  Status Put(const WriteOptions &, ColumnFamilyHandle *h, const Slice &k, const Slice &v) { put(*h->t, k, v); return 0; }
  Status Delete(const WriteOptions &, ColumnFamilyHandle *h, const Slice &k) { del(*h->t, k); return 0; }
  Status Write(const WriteOptions &, WriteBatch *b) { for (auto &o : b->ops) if (o.second.first) put(*s->tables[0], o.first, o.second.second); else del(*s->tables[0], o.first); return 0; }
  Iterator *NewIterator(const ReadOptions &, ColumnFamilyHandle *h) { auto i = new Iterator(); i->rows = h->t->rows; return i; }
  Iterator *NewIterator(const ReadOptions &) { auto i = new Iterator(); i->rows = s->tables[0]->rows; return i; }
  Status CreateColumnFamily(const ColumnFamilyOptions &, const std::string &n, ColumnFamilyHandle **h) { auto t = std::make_shared<Table>(); t->name = n; s->tables.push_back(t); *h = new ColumnFamilyHandle(); (*h)->t = t; return 0; }
  Status Close() { return 0; } };
class Transaction { public: struct Op { std::shared_ptr<Table> t; std::string k; bool put; std::string v; }; std::vector<Op> ops; virtual ~Transaction() {}
  Status Get(const ReadOptions &, ColumnFamilyHandle *h, const Slice &k, std::string *v) { for (size_t i = ops.size(); i-- > 0;) if (ops[i].t == h->t && ops[i].k.size() == k.n && memcmp(ops[i].k.data(), k.d, k.n) == 0) { if (!ops[i].put) return 1; *v = ops[i].v; return 0; } int i = find(*h->t, k); if (i < 0) return 1; *v = h->t->rows[i].second; return 0; }
  Status Put(ColumnFamilyHandle *h, const Slice &k, const Slice &v) { ops.push_back({ h->t, k.ToString(), true, v.ToString() }); return 0; }
  Status Delete(ColumnFamilyHandle *h, const Slice &k) { ops.push_back({ h->t, k.ToString(), false, "" }); return 0; }
  Iterator *GetIterator(const ReadOptions &, ColumnFamilyHandle *h) { Table t = *h->t; for (auto &o : ops) if (o.t == h->t) { if (o.put) put(t, o.k, o.v); else del(t, o.k); } auto i = new Iterator(); i->rows = t.rows; return i; }
  Status Commit() { for (auto &o : ops) if (o.put) put(*o.t, o.k, o.v); else del(*o.t, o.k); ops.clear(); return 0; }
  Status Rollback() { ops.clear(); return 0; } };
class OptimisticTransactionDB : public DB { public:
  static Status ListColumnFamilies(const Options &, const std::string &p, std::vector<std::string> *n) { auto st = storeAt(p); if (!st) return 2; for (auto &t : st->tables) n->push_back(t->name); return 0; }
  static Status Open(const Options &, const std::string &p, const std::vector<ColumnFamilyDescriptor> &c, std::vector<ColumnFamilyHandle *> *h, OptimisticTransactionDB **out) {
    auto st = storeAt(p); if (!st) { st = std::make_shared<Store>(); st->path = p; auto t = std::make_shared<Table>(); t->name = "default"; st->tables.push_back(t); disk().push_back(st); }
    for (auto &d : c) { bool found = false; for (auto &t : st->tables) if (t->name == d.name) { auto x = new ColumnFamilyHandle(); x->t = t; h->push_back(x); found = true; } if (!found) return 2; } *out = new OptimisticTransactionDB(); (*out)->s = st; return 0; }
  Transaction *BeginTransaction(const WriteOptions &) { return new Transaction(); } DB *GetBaseDB() { return this; } };
}
