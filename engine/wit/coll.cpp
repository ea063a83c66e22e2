// Operations of a collection on an object type whose destruction is visible; nothing here is ever executed.
#include "utils.hpp"
#include <new>
extern "C" void wit_gone(void *);
struct Kept {
    int payload[4];
    ~Kept() { wit_gone(this); }
};
using C = Collection<Kept>;
#define E extern "C"
E void wit_coll_make(void *p) { new (p) C(); }
E void wit_coll_add(C &c, Kept *k, Kept **left) {
    std::unique_ptr<Kept> u(k);
    c.add_object(u);
    *left = u.release();
}
E Kept *wit_coll_get(const C &c, int i) { return c.get_object(i); }
E int wit_coll_num(const C &c) { return c.num_objects(); }
E Kept *wit_coll_release(C &c, int i) { return c.release_object(i); }
E void wit_coll_free(C &c, int i) { c.free_object(i); }
E void wit_coll_clear(C &c) { c.clear(); }
E void wit_coll_end(C &c) { c.~C(); }
E unsigned long wit_coll_size() { return sizeof(C); }
E void wit_coll_move(void *p, C &c) { new (p) C(static_cast<C &&>(c)); }
E void wit_coll_assign(C &a, C &c) { a = static_cast<C &&>(c); }
