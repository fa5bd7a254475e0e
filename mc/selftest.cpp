#include "mcrt.hpp"
#include <atomic>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
static int x; static std::mutex m, m2; static std::condition_variable cv; static bool flag; static std::atomic<bool> af{false};
static void race(){ x=0; std::thread t([]{x++;}); x++; t.join(); }
static void norace(){ x=0; std::thread t([]{std::lock_guard<std::mutex> g(m); x++;}); {std::lock_guard<std::mutex> g(m);x++;} t.join(); if(x!=2) mc_fail("x=%d",x); }
static void dead(){ std::thread t([]{std::lock_guard<std::mutex> g(m);std::lock_guard<std::mutex> h(m2);}); {std::lock_guard<std::mutex> h(m2);std::lock_guard<std::mutex> g(m);} t.join(); }
static void lost(){ std::thread t([]{std::unique_lock<std::mutex> l(m); cv.wait(l,[]{return af.load();});}); af=true; cv.notify_all(); t.join(); }
static void notlost(){ std::thread t([]{std::unique_lock<std::mutex> l(m); cv.wait(l,[]{return af.load();});}); {std::lock_guard<std::mutex> g(m);af=true;} cv.notify_all(); t.join(); }
static void fut(){ std::packaged_task<int()> p([]{return 7;}); auto f=p.get_future(); std::thread t([](std::packaged_task<int()> q){q();},std::move(p)); if(f.get()!=7) mc_fail("f"); t.join(); }
static void futx(){ std::packaged_task<int()> p([]()->int{throw 5;}); auto f=p.get_future(); std::thread t([](std::packaged_task<int()> q){q();},std::move(p)); bool ok=false; try{f.get();}catch(int e){ok=e==5;} if(!ok) mc_fail("f"); t.join(); }
static void uaf(){ int*p=new int(1); std::thread t([p]{ std::lock_guard<std::mutex> g(m); if(!af) *p=2;}); {std::lock_guard<std::mutex> g(m); delete p;} t.join(); }
static void atom(){ static std::atomic<int> a{0}; a=0; std::thread t([]{int v=a.load(); a.store(v+1);}); int v=a.load(); a.store(v+1); t.join(); if(a!=2) mc_fail("lost update"); }
static void atomn(){ static std::atomic<int> a{0}; std::thread t([]{int v=a.load(); a.store(v+1);}); std::thread u([]{int v=a.load(); a.store(v+1);}); int v=a.load(); a.store(v+1); t.join(); u.join(); mc_note(a); }
static void join_missing(){ new std::thread([]{x=1;}); }
static void spin(){ std::thread t([]{while(!af) std::this_thread::yield();}); af=true; t.join(); }
static void spin2(){ std::thread t([]{while(!af) ;}); af=true; t.join(); }
static std::thread* __attribute__((noinline)) mk(){volatile int loc[40]; loc[3]=1; volatile int*p=&loc[3]; return new std::thread([p]{ std::lock_guard<std::mutex> g(m); *p=2;});}
static void deadframe(){ std::thread*t=mk(); t->join(); }
static void relax(){ static std::atomic<int> a{0}; static int d=0; std::thread t([]{d=1;a.store(1,std::memory_order_relaxed);}); if(a.load(std::memory_order_relaxed)) x=d; t.join(); }
static void stat(){ auto f=[]{ static std::shared_ptr<int> s=std::make_shared<int>(4); auto c=s; return *c;}; std::thread t([&]{ f(); }); f(); t.join(); }
static void createfail(){ try { std::thread t([]{}); t.join(); mc_note(1);} catch(std::system_error&){ mc_note(2);} }
int main(int c,char**v){ McScenario s[]={
 {"race",race,2,0,0,true,20,true},{"norace",norace},{"dead",dead,2,0,0,true,20,true},{"lost",lost,2,0,0,true,20,true},{"notlost",notlost},{"notlost-spur",notlost,-1,2},
 {"fut",fut,-1},{"futx",futx,-1},{"uaf",uaf,2,0,0,true,20,true},{"atom",atom,2,0,0,true,20,true},{"atomn",atomn,-1},{"join_missing",join_missing,2,0,0,true,20,true},{"spin",spin},{"spin2",spin2},{"deadframe",deadframe,2,0,0,true,20,true},{"relax",relax,2,0,0,true,20,true},{"stat",stat},{"createfail",createfail,-1,0,1}};
 return mc_main(c,v,s,sizeof s/sizeof*s);}
