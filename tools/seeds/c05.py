SEEDS = [
 dict(id="c05-resize-front-exact", property="C05",
  needs="tiered_vector::resize_front() removing exactly as many elements as the front bucket holds",
  breaks="an empty front bucket stays in place, so front() and pop_front() work on a bucket without elements",
  edits=[("seq/tiered_vector.hpp", "					if (first_bucket_size > to_remove) {", "					if (first_bucket_size >= to_remove) {")],
  demo=r'''
#include <seq/tiered_vector.hpp>
#include <cstdio>
int main(){
  seq::tiered_vector<int, std::allocator<int>, 4, 4> v;
  for(int i=0;i<40;++i) v.push_back(i);
  v.resize_front(36);
  if(v.front()!=4){ printf("front is %d, expected 4\n", v.front()); return 1; }
  v.pop_front();
  for(size_t i=0;i<v.size();++i) if(v[i]!=(int)i+5){ printf("at %zu: %d, expected %d\n", i, v[i], (int)i+5); return 1; }
  return 0;
}'''),
 dict(id="c05-assign-empty-list", property="C05",
  needs="assigning an empty range given by non random access iterators to a non empty tiered_vector",
  breaks="assign() of an empty list keeps the previous elements",
  edits=[("seq/tiered_vector.hpp", "				++count;\n			}\n			resize(count);", "				++count;\n			}\n			if (count)\n				resize(count);")],
  demo=r'''
#include <seq/tiered_vector.hpp>
#include <list>
#include <cstdio>
int main(){
  seq::tiered_vector<int> v; for(int i=0;i<10;++i) v.push_back(i);
  std::list<int> l; v.assign(l.begin(), l.end());
  if(v.size()!=0){ printf("size %zu after assigning an empty list\n", (size_t)v.size()); return 1; }
  return 0;
}'''),
 dict(id="c05-insert-bidir-flip", property="C05",
  needs="inserting at least two elements from bidirectional iterators in the first half of a tiered_vector",
  breaks="the inserted elements come out in reverse order",
  edits=[("seq/tiered_vector.hpp", "				std::reverse(begin(), begin() + num); // flip new stuff in place\n				std::rotate(begin(), begin() + num, begin() + (num + pos));",
          "				if (pos == 0)\n					std::reverse(begin(), begin() + num); // flip new stuff in place\n				else\n					std::reverse(begin(), begin() + std::min<size_type>(num, 64)); // flip new stuff in place\n				std::rotate(begin(), begin() + num, begin() + (num + pos));")],
  demo=r'''
#include <seq/tiered_vector.hpp>
#include <list>
#include <vector>
#include <cstdio>
int main(){
  seq::tiered_vector<int> v; std::vector<int> w; for(int i=0;i<1000;++i){ v.push_back(i); w.push_back(i);}
  std::list<int> l; for(int i=0;i<80;++i) l.push_back(5000+i);
  v.insert(v.begin()+3, l.begin(), l.end()); w.insert(w.begin()+3, l.begin(), l.end());
  for(size_t i=0;i<w.size();++i) if(v[i]!=w[i]){ printf("at %zu: %d, expected %d\n", i, v[i], w[i]); return 1; }
  return 0;
}'''),
]
