T = "seq/internal/concurrent_hash_table.hpp"
HEAD = r"""
#include <seq/concurrent_map.hpp>
#include <thread>
#include <vector>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <new>
using namespace std::chrono;
static void ms(int n){ std::this_thread::sleep_for(milliseconds(n)); }
static bool wait_for(std::atomic<int>& a, int v, int n){ for(int i=0;i<n;++i){ if(a.load()>=v) return true; ms(1);} return a.load()>=v; }
static int fail(const char* w){ puts(w); fflush(stdout); std::_Exit(1); }
static int ok(){ fflush(stdout); std::_Exit(0); }
"""
HOOK = r"""
static thread_local std::atomic<int>* hk_in=nullptr; static thread_local std::atomic<int>* hk_go=nullptr;
struct Hash { using is_avalanching=int; size_t operator()(int k) const {
  if(hk_in){ auto* i=hk_in; auto* g=hk_go; hk_in=nullptr; ++*i; while(!g->load()) ms(1); }
  return (size_t)k*0x9E3779B97F4A7C15ull; } };
"""
SEEDS = [
 dict(id="c02-visit-shared", property="C02",
  needs="a shared_* concurrency level and two threads visiting the same key at once with a functor that modifies it",
  breaks="visit() with a modifying functor takes the bucket lock in shared mode: modifying functors on one key overlap",
  edits=[(T, """			SEQ_CONCURRENT_INLINE auto visit(const K& key, F&& fun) -> size_t
			{
				PrivateData* d = const_cast<PrivateData*>(cget_data());
""", """			SEQ_CONCURRENT_INLINE auto visit(const K& key, F&& fun) -> size_t
			{
				const PrivateData* d = cget_data();
""")],
  demo=HEAD + r"""
int main(){ seq::concurrent_map<int,int,seq::hasher<int>,std::equal_to<int>,std::allocator<std::pair<int,int>>,seq::low_concurrency_shared> m;
 for(int i=0;i<5000;++i) m.emplace(i,i);
 std::atomic<int> in{0}, both{0};
 auto f=[&]{ m.visit(7,[&](auto& p){ if(++in==2) both=1; for(int i=0;i<300&&!both;++i) ms(1); ++p.second; --in; }); };
 std::thread a(f), b(f); a.join(); b.join();
 if(both) return fail("two modifying visitors of one key at the same time"); return ok(); }
"""),
 dict(id="c02-oldmask", property="C02",
  needs="two rehashes in a row: the second one between a thread's re-reading of the mask and its locking of the new bucket",
  breaks="after waiting for a rehash the mask is sampled after the new bucket is locked: an operation runs in a bucket of a previous table (lost insertions, missed keys)",
  edits=[(T, """				hash_mask = d_hash_mask;
				if (((hash & hash_mask) != pos)) {
					pos = (hash & hash_mask);
					l->unlock();
					l = &locks->at(pos);
					this->lock(*l);
				}
""", """				if (((hash & d_hash_mask) != pos)) {
					pos = (hash & d_hash_mask);
					l->unlock();
					l = &locks->at(pos);
					this->lock(*l);
				}
				hash_mask = d_hash_mask;
""")], timeout=100, flags="-O2",
  demo=HEAD + r"""
int main(){ 
 seq::concurrent_map<int,int,seq::hasher<int>,std::equal_to<int>,std::allocator<std::pair<int,int>>,seq::low_concurrency> m;
 for(int i=0;i<60;++i) m.emplace(1000000+i,i);
 std::atomic<bool> stop{false}; std::atomic<int> bad{0};
 std::vector<std::thread> th;
 for(int t=0;t<2;++t) th.emplace_back([&,t]{ unsigned s=t+1; while(!stop){ s=s*1103515245u+12345u; m.rehash(64u<<((s>>16)%5)); } });
 for(int t=0;t<8;++t) th.emplace_back([&,t]{ unsigned n=0; while(!stop){ int k=t*1000+(++n%61);
   if(!m.emplace(k,t)) { bad=1; stop=true; } if(!m.contains(k)) { bad=2; stop=true; } if(m.erase(k)!=1){ bad=3; stop=true; } if(m.contains(k)){ bad=4; stop=true; } } });
 auto t0=steady_clock::now(); while(!stop && steady_clock::now()-t0<seconds(25)) ms(5);
 stop=true; 
 if(bad){ printf("%d\n",bad.load()); return fail("a thread does not find its own key"); }
 for(auto& t:th) t.join();
 return ok(); }
"""),
 dict(id="c02-visit-outside-lock", property="C02",
  needs="emplace_or_visit on an existing key while another operation uses the same key",
  breaks="the functor of emplace_or_visit / insert_or_assign runs after the bucket lock was released: it is not atomic with the lookup",
  edits=[(T, """				// Grad lock
				LockUnique<node_lock> lock(ll, true);

				auto p = FindInsertNode<extract_key, Policy, true>(
				  d_chain_count, chain_node_allocator{ get_allocator() } ,th, key_eq(), d_buckets + pos, d_values + pos, std::forward<K>(key), std::forward<Args>(args)...);
				if (!p.second) {
					// Key exist: call functor
					std::forward<F>(fun)(*p.first);
					return false;
				}

				++d_size;
				return true;
""", """				std::pair<Value*, bool> p;
				{
					// Grad lock
					LockUnique<node_lock> lock(ll, true);

					p = FindInsertNode<extract_key, Policy, true>(
					  d_chain_count, chain_node_allocator{ get_allocator() } ,th, key_eq(), d_buckets + pos, d_values + pos, std::forward<K>(key), std::forward<Args>(args)...);
					if (p.second)
						++d_size;
				}
				if (!p.second)
					// Key exist: call functor
					std::forward<F>(fun)(*p.first);
				return p.second;
""")],
  demo=HEAD + r"""
int main(){ seq::concurrent_map<int,int> m; for(int i=0;i<5000;++i) m.emplace(i,i);
 std::atomic<int> in{0}, both{0};
 auto f=[&]{ m.emplace_or_visit(7,0,[&](auto& p){ if(++in==2) both=1; for(int i=0;i<300&&!both;++i) ms(1); ++p.second; --in; }); };
 std::thread a(f), b(f); a.join(); b.join();
 if(both) return fail("two modifying visitors of one key at the same time"); return ok(); }
"""),
 dict(id="c03-stop-shard", property="C03",
  needs="several shards and a functor returning false on an element that is not in the last shard",
  breaks="visit_all() goes on with the next shards after the functor returned false",
  edits=[(T, """					if (!const_cast<PrivateData*>(d)->at(i).visit_all(std::forward<F>(fun)))
						return false;
				return true;
""", """					res = const_cast<PrivateData*>(d)->at(i).visit_all(std::forward<F>(fun)) && res;
				return res;
"""), (T, """			bool visit_all(F&& fun)
			{
				const PrivateData* d = cget_data();
""", """			bool visit_all(F&& fun)
			{
				bool res = true;
				const PrivateData* d = cget_data();
""")],
  demo=HEAD + r"""
int main(){ seq::concurrent_map<int,int,seq::hasher<int>,std::equal_to<int>,std::allocator<std::pair<int,int>>,seq::medium_concurrency> m; for(int i=0;i<5000;++i) m.emplace(i,i);
 int n=0; bool r=m.visit_all([&](auto& p){ p.second++; return ++n<10; });
 if(r||n!=10) return fail("visit_all went on after the functor returned false"); return ok(); }
"""),
 dict(id="c03-erase-order", property="C03",
  needs="erase_if over a bucket with overflow nodes, with a predicate true for some elements of the main bucket",
  breaks="erase_if visits the main bucket before its overflow nodes: elements moved from an overflow node into an erased slot are visited twice or never",
  edits=[(T, """					// Go to the most right node
					auto* d = n->full() ? vals->right : nullptr;
					while (d && d->right)
""", """					// Erase from main bucket
					for (int j = static_cast<int>(n->count() - 1); j >= 0; --j) {
						if (std::forward<F>(fun)(vals->values()[j])) {
							erase_from_bucket(n, vals, static_cast<unsigned>(j));
							--d_size;
							++res;
						}
					}

					// Go to the most right node
					auto* d = n->full() ? vals->right : nullptr;
					while (d && d->right)
"""), (T, """						d = prev;
					}

					// Erase from main bucket
					for (int j = static_cast<int>(n->count() - 1); j >= 0; --j) {
						if (std::forward<F>(fun)(vals->values()[j])) {
							erase_from_bucket(n, vals, static_cast<unsigned>(j));
							--d_size;
							++res;
						}
					}
""", """						d = prev;
					}
""")],
  demo=HEAD + r"""
struct H { using is_avalanching=int; size_t operator()(int k) const { return (size_t)(k%3)*0x9E3779B97F4A7C15ull; } };
int main(){ seq::concurrent_map<int,int,H> m; for(int i=0;i<300;++i) m.emplace(i,0);
 size_t calls=0; size_t r=m.erase_if([&](auto& p){ ++calls; return p.first%2==0; });
 size_t odd=0; m.visit_all([&](auto& p){ odd+=p.first%2; });
 if(calls!=300||r!=150||m.size()!=150||odd!=150) return fail("erase_if skipped elements or visited some twice"); return ok(); }
"""),
 dict(id="c03-clear-locks", property="C03",
  needs="clear() while a functor is running on an element of the first bucket of a shard",
  breaks="clear() does not wait for the holder of the first bucket: elements are destroyed under a running functor",
  edits=[(T, """					auto iter = typename lock_array::iterator(locks);
					for (size_t i = 0; i < count; ++i, ++iter)
						(*iter).lock();
""", """					auto iter = typename lock_array::iterator(locks, 1);
					for (size_t i = 1; i < count; ++i, ++iter)
						(*iter).lock();
"""), (T, """					auto iter = typename lock_array::iterator(locks);
					for (size_t i = 0; i < count; ++i, ++iter)
						(*iter).unlock();
""", """					auto iter = typename lock_array::iterator(locks, 1);
					for (size_t i = 1; i < count; ++i, ++iter)
						(*iter).unlock();
""")],
  demo=HEAD + r"""
struct H { using is_avalanching=int; size_t operator()(int k) const { return (size_t)k; } };
int main(){ seq::concurrent_map<int,int,H,std::equal_to<int>,std::allocator<std::pair<int,int>>,seq::low_concurrency> m; for(int i=0;i<20000;++i) m.emplace(i,i);
 for(int k=0;k<2048;++k){ if(k%64 && k>64) continue;
  std::atomic<int> in{0}, cleared{0}, bad{0};
  std::thread a([&]{ m.visit(k,[&](auto&){ ++in; for(int i=0;i<20;++i){ ms(1); if(cleared) bad=1; } }); });
  if(wait_for(in,1,5000)){ m.clear(); cleared=1; }
  a.join(); if(bad) return fail("clear() returned while a visitor was inside");
  for(int i=0;i<20000;++i) m.emplace(i,i);
 }
 return ok(); }
"""),
 dict(id="c04-lost-wakeup", property="C04",
  needs="an operation waiting for a bucket locked by a rehash that fails (allocation failure while elements are being moved)",
  breaks="threads waiting for a rehash sleep until they are notified, but a rehash that fails never notifies: they never return",
  edits=[(T, """						d_rehash_condition.wait_for(ll, std::chrono::milliseconds(1), [&lock]() { return !lock.is_locked(); });
					}
					else
						std::this_thread::yield();
				}
			}
			SEQ_ALWAYS_INLINE void lock_shared(""", """						d_rehash_condition.wait(ll, [&lock]() { return !lock.is_locked(); });
					}
					else
						std::this_thread::yield();
				}
			}
			SEQ_ALWAYS_INLINE void lock_shared(""")],
  demo=HEAD + r"""
struct H { using is_avalanching=int; size_t operator()(int k) const { return (size_t)(k%2 ? 5 : k)*0x9E3779B97F4A7C15ull; } };
static thread_local int arm=0; static std::atomic<int> in{0};
template<class T> struct Al { using value_type=T; Al()=default; template<class U> Al(const Al<U>&){}
 T* allocate(size_t n){ if(arm && --arm==0){ ++in; ms(700); throw std::bad_alloc(); } return std::allocator<T>().allocate(n); }
 void deallocate(T* p,size_t n){ std::allocator<T>().deallocate(p,n); } bool operator==(const Al&)const{return true;} bool operator!=(const Al&)const{return false;} };
int main(){ seq::concurrent_map<int,int,H,std::equal_to<int>,Al<std::pair<int,int>>,0u> m;
 for(int i=0;i<200;++i) m.emplace(i,i);
 std::atomic<int> done{0}, caught{0};
 std::thread r([&]{ arm=8; try { m.rehash(1<<14); } catch(const std::bad_alloc&){ ++caught; } arm=0; ++done; });
 if(!wait_for(in,1,2000)){ // the failure point depends on the number of allocations of a rehash
   r.join(); for(int a=3;a<8&&!in.load();++a) { } }
 std::vector<std::thread> th; for(int t=0;t<4;++t) th.emplace_back([&,t]{ for(int i=t;i<200;i+=4) m.erase(i); ++done; });
 if(!wait_for(done,5,20000)) return fail("operations waiting for a rehash that failed never returned");
 return ok(); }
"""),
 dict(id="c04-merge-order", property="C04",
  needs="a.merge(b) and b.merge(a) at the same time",
  breaks="merge() locks its two containers one after the other: merging in both directions at once deadlocks",
  edits=[(T, """				if constexpr (is_concurrent)
					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));

				LockUnique<data_lock_type> l1(const_cast<data_lock_type*>(&d_data_lock), true);
				LockUnique<data_lock_type> l2(const_cast<data_lock_type*>(&other.d_data_lock), true);

				PrivateData* d1 = get_data_no_lock();
				PrivateData* d2 = const_cast<PrivateData*>(other.cget_data());
				if (!d2)
					return 0;

				size_t res = 0;
""", """				LockUnique<data_lock_type> l1(d_data_lock);
				LockUnique<data_lock_type> l2(other.d_data_lock);

				PrivateData* d1 = get_data_no_lock();
				PrivateData* d2 = const_cast<PrivateData*>(other.cget_data());
				if (!d2)
					return 0;

				size_t res = 0;
""")],
  demo=HEAD + r"""
int main(){ using M=seq::concurrent_map<int,int,seq::hasher<int>,std::equal_to<int>,std::allocator<std::pair<int,int>>,seq::low_concurrency>;
 M a,b; for(int i=0;i<10;++i){ a.emplace(i,i); b.emplace(i+5,i); }
 std::atomic<int> done{0}; std::atomic<int> n0{0}, n1{0};
 auto stop=steady_clock::now()+seconds(15);
 std::vector<std::thread> ts;
 for(int k=0;k<3;++k){ ts.emplace_back([&]{ while(steady_clock::now()<stop){ for(int i=0;i<20;++i) a.merge(b); ++n0; } ++done; });
  ts.emplace_back([&]{ while(steady_clock::now()<stop){ for(int i=0;i<20;++i) b.merge(a); ++n1; } ++done; }); }
 int last=-1, idle=0; while(done<6){ ms(50); int n=n0+n1; idle = n==last ? idle+1 : 0; last=n; if(idle>100) return fail("merging in both directions at once: no progress for 5 s"); }
 for(auto& t:ts) t.join(); return ok(); }
"""),
 dict(id="c04-global-lock-leak", property="C04",
  needs="a lookup that starts while the table still has one bucket and no bucket lock, and finishes after another thread made it grow; a shared_* level; later a rehash",
  breaks="the shared rehash lock is not released on that path: the next rehash never finishes",
  edits=[(T, """				if ((locks = AtomicLoad(d_locks))) {
					l->unlock_shared();
""", """				if ((locks = AtomicLoad(d_locks))) {
""")],
  demo=HEAD + HOOK + r"""
int main(){ using M=seq::concurrent_map<int,int,Hash,std::equal_to<int>,std::allocator<std::pair<int,int>>,0u|seq::shared_concurrency>;
 M m; for(int i=0;i<10;++i) m.emplace(i,i);
 std::atomic<int> in{0}, go{0}, done{0};
 std::thread a([&]{ hk_go=&go; hk_in=&in; m.rehash(4096); ++done; });
 if(!wait_for(in,1,3000)) { go=1; }
 std::thread b([&]{ const M& c=m; c.contains(3); ++done; });
 ms(200); go=1; if(!wait_for(done,2,20000)) return fail("no end");
 std::thread c([&]{ m.rehash(1<<15); ++done; });
 if(!wait_for(done,3,10000)) return fail("rehash never returns");
 a.join(); b.join(); c.join(); return ok(); }
"""),
]
