
STRESS = r"""
#include <seq/lock.hpp>
#include <thread>
#include <vector>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <chrono>
static std::atomic<int> inw{0}, inr{0}; static std::atomic<bool> bad{false};
template<class L> bool stress(int ms){
  L* l = new L(); std::atomic<bool> stop{false}; std::atomic<int> fin{0};
  std::vector<std::thread> th;
  for(int t=0;t<6;++t) th.emplace_back([&,t]{
    unsigned s=t*77+1;
    while(!stop){ s=s*1103515245u+12345u; int k=(s>>16)%4;
      if(k==0){ if(l->try_lock()){ if(inw++||inr.load()) bad=true; --inw; l->unlock(); } }
      else { if(l->try_lock_shared()){ ++inr; if(inw.load()) bad=true; --inr; l->unlock_shared(); } }
    }
    ++fin; });
  std::this_thread::sleep_for(std::chrono::milliseconds(ms)); stop=true;
  for(auto&t:th) t.join();
  if(bad){ puts("a writer and another holder were inside at the same time"); return false; }
  if(l->is_locked()||!l->try_lock()){ puts("everybody released, still locked"); return false; }
  l->unlock();
  return true;
}
"""
SEEDS = [
 dict(id="c01-uint8-readers", property="C01",
  needs="64 simultaneous readers of shared_spinner<uint8_t>",
  breaks="the reader count overflows to zero and a writer gets in",
  edits=[("seq/lock.hpp", "return (!(content & (need_lock | write | max_read_mask)) && ", "return (!(content & (need_lock | write)) && ")],
  demo=r"""
#include <seq/lock.hpp>
#include <cstdio>
int main(){ seq::shared_spinner<uint8_t> l; int n=0; for(int i=0;i<64;++i) n+=l.try_lock_shared(); if(l.try_lock()){ printf("exclusive with %d readers\n",n); return 1; } return 0; }
"""),
 dict(id="c01-unlock-store", property="C01",
  needs="a reader between its increment and its decrement while the writer releases",
  breaks="the word is left with a negative number of readers: nobody can lock exclusively any more",
  edits=[("seq/lock.hpp", "d_lock.fetch_and(static_cast<lock_type>(~(write | need_lock)), std::memory_order_release);", "d_lock.store(0, std::memory_order_release);")],
  timeout=100,
  demo=STRESS+"""
int main(){ for(int i=0;i<20;++i) if(!stress<seq::shared_spinner<uint32_t>>(300)) return 1; return 0; }
"""),
 dict(id="c01-shared-window", property="C01",
  needs="a writer taking the lock between a reader's check and its increment",
  breaks="the reader enters although a writer is inside",
  edits=[("seq/lock.hpp", "if SEQ_LIKELY(!(d_lock.fetch_add(read, std::memory_order_acquire) & (need_lock | write)))", "if SEQ_LIKELY(!(d_lock.fetch_add(read, std::memory_order_acquire) & need_lock))")],
  timeout=100,
  demo=STRESS+"""
int main(){ for(int i=0;i<20;++i) if(!stress<seq::shared_spinner<uint32_t>>(300)) return 1; return 0; }
"""),
 dict(id="c01-until-free", property="C01",
  needs="a time-out of try_lock_until exactly when the holder releases, or a release seen by the last look",
  breaks="try_lock_until reports success without having taken the lock",
  edits=[("seq/lock.hpp", """					if (std::chrono::system_clock::now() > timePoint)
						return false;""", """					if (std::chrono::system_clock::now() > timePoint)
						return !d_lock.load(std::memory_order_acquire);""")],
  timeout=100,
  demo=r"""
#include <seq/lock.hpp>
#include <thread>
#include <vector>
#include <atomic>
#include <cstdio>
#include <chrono>
int main(){
  seq::spinlock l; std::atomic<int> in{0}; std::atomic<bool> stop{false}, bad{false};
  std::vector<std::thread> th;
  for(int t=0;t<6;++t) th.emplace_back([&]{ while(!stop) if(l.try_lock_for(std::chrono::nanoseconds(1))){ if(in++) bad=true; for(volatile int i=0;i<50;++i); --in; l.unlock(); } });
  for(int i=0;i<60&&!bad;++i) std::this_thread::sleep_for(std::chrono::milliseconds(100));
  stop=true; for(auto&t:th) t.join();
  if(bad){ puts("two holders"); return 1; }
  return 0;
}
"""),
]
