// C23: thread pool
#include "vx.h"
#include "emp-tool/emp-tool.h"
#include "emp-tool/utils/ThreadPool.h"
extern "C" void vx_task(int id);
static ThreadPool *pool;
static std::future<int> *fut[16];
static int body(int id) { vx_task(id); return 1000 + id; }
struct Fn { int id; Fn(int i) : id(i) {} void operator()(int x) const { vx_task(id); (void)x; } };
static std::future<void> *vfut[16];
extern "C" void *t_new(size_t n) { pool = new ThreadPool(n); return pool; }
extern "C" size_t t_size() { return sizeof(ThreadPool); }
extern "C" int t_count() { return pool->size(); }
// 1 accepted, 0 refused with an exception
extern "C" int t_enqueue(int id) {
	try {
		if (id % 2) fut[id] = new std::future<int>(pool->enqueue(body, id));
		else vfut[id] = new std::future<void>(pool->enqueue(Fn(id), 7));
		return 1;
	} catch (...) { return 0; }
}
static int bad(int id) { vx_task(id); throw std::runtime_error("task"); }
static std::future<int> *bfut[16];
extern "C" int t_enqueue_bad(int id) {
	try { bfut[id] = new std::future<int>(pool->enqueue(bad, id)); return 1; } catch (...) { return 0; }
}
// 1: the task's exception comes back
extern "C" int t_get_bad(int id) { try { bfut[id]->get(); return 0; } catch (std::runtime_error &) { return 1; } }
extern "C" int t_get(int id) { if (id % 2) return fut[id]->get(); vfut[id]->get(); return 1000 + id; }
extern "C" void t_delete() { delete pool; }
