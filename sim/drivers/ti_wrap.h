// Instrumented entry points into header-only code under test.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <utility>
namespace wrap
{
// change feed of (key, sequence) messages
struct feed;
struct cursor;
feed* feed_new ();
void feed_delete (feed*);
void feed_add (feed*, const std::string& key, long seq);
void feed_escape (feed*);
cursor* cursor_new ();
void cursor_delete (cursor*);
bool feed_get (feed*, cursor*, std::string& key, long& seq);

// stoppable threads
struct worker;
worker* worker_new_default ();
worker* worker_new (void (*fn) (void*), void* arg);
worker* worker_move_construct (worker*);
void worker_move_assign (worker* to, worker* from);
void worker_stop (worker*);
void worker_join (worker*);
void worker_detach (worker*);
bool worker_joinable (worker*);
void worker_delete (worker*);
void w_stop_wait ();
void w_stop_throw ();
}
