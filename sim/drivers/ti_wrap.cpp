#include "ti_wrap.h"
#include <unordered_set>
#include <condition_variable>
#include "thread/shareable_cache.hpp"
#include "thread/stoppable_thread.hpp"

namespace wrap
{
struct msg { std::string key; long seq; std::string payload; };
struct feed { nnet::shareable_cache<std::string, msg> c; feed () : c([](const msg& m) -> std::string { return m.key; }) {} };
struct cursor { std::shared_ptr<nnet::cache_node<msg> > it; };
feed* feed_new () { return new feed(); }
void feed_delete (feed* f) { delete f; }
void feed_add (feed* f, const std::string& k, long s) { f->c.add_latest(msg{k, s, k + std::to_string(s)}); }
void feed_escape (feed* f) { f->c.escape_wait(); }
cursor* cursor_new () { return new cursor(); }
void cursor_delete (cursor* c) { delete c; }
bool feed_get (feed* f, cursor* c, std::string& key, long& seq)
{
	std::experimental::optional<msg> m = f->c.get_latest(c->it);
	if (!m) return false;
	key = m->key;
	seq = m->seq;
	if (m->payload != key + std::to_string(seq)) seq = -1;
	return true;
}

struct worker
{
	worker () {}
	worker (worker&& o) : t(std::move(o.t)) {}
	template <typename F, typename A> worker (F f, A a) : t(f, a) {}
	nnet::stoppable_thread t;
};
worker* worker_new_default () { return new worker(); }
worker* worker_new (void (*fn) (void*), void* arg) { return new worker(fn, arg); }
worker* worker_move_construct (worker* w) { return new worker(std::move(*w)); }
void worker_move_assign (worker* to, worker* from) { to->t = std::move(from->t); }
void worker_stop (worker* w) { w->t.stop(); }
void worker_join (worker* w) { w->t.join(); }
void worker_detach (worker* w) { w->t.detach(); }
bool worker_joinable (worker* w) { return w->t.joinable(); }
void worker_delete (worker* w) { delete w; }
void w_stop_wait () { nnet::stop_wait(); }
void w_stop_throw () { nnet::stop_throw(); }
}
