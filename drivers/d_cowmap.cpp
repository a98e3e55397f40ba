// Every public operation of CowMap, for the analysis. Compiled against the map in drivers/stub. Never run.
#include <new>
#include <cowmap.h>
typedef int K;
typedef long V;
typedef CowMap<V, K> T;
extern "C" {
void f_ctor(T* res) { new(res) T(); }
void f_copy(T* res, const T& m) { new(res) T(m); }
void f_data(T* res, const K* keys, const V* values, int size) { new(res) T(keys, values, size); }
void f_dtor(T& m) { m.~T(); }
T* f_assign(T& m, const T& o) { return &(m = o); }
V f_index(const T& m, const K& k) { return m[k]; }
bool f_contains(const T& m, const K& k) { return m.contains(k); }
const void* f_find(const T& m, const K& k) { return m.find(k).p; }
const void* f_begin(const T& m) { return m.begin().p; }
const void* f_end(const T& m) { return m.end().p; }
unsigned long f_size(const T& m) { return m.size(); }
void f_clear(T& m) { m.clear(); }
void f_insert(T& m, K k, V v) { m.insert(k, v); }
void f_remove(T& m, const K& k) { m.remove(k); }
K f_put(T& m, const K& k, V v) { return m.put(k, v); }
void f_keys(Array<K>* res, const T& m) { new(res) Array<K>(m.keys()); }
void f_values(Array<V>* res, const T& m) { new(res) Array<V>(m.values()); }
void f_each(const T& m, std::function<void(const K&, const V&)>& f) { m.each(f); }
bool f_all(const T& m, std::function<bool(const K&, const V&)>& f) { return m.all(f); }
bool f_any(const T& m, std::function<bool(const K&, const V&)>& f) { return m.any(f); }
bool f_one(const T& m, std::function<bool(const K&, const V&)>& f) { return m.one(f); }
void f_select(T* res, const T& m, std::function<bool(const K&, const V&)>& f) { new(res) T(m.select(f)); }
void f_map(T* res, const T& m, std::function<std::pair<K, V>(const K&, const V&)>& f) { new(res) T(m.map(f)); }
V f_inject(const T& m, const V& start, std::function<V(V&, const K&, const V&)>& f) { return m.inject(start, f); }
}
