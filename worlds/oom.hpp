// P20: what the scenarios of running out of memory have in common.
#ifndef VERIF_OOM_HPP
#define VERIF_OOM_HPP
#include "../sim/core.hpp"
#include <functional>
#include <memory>
#include <string>
namespace oom {
typedef std::string S;
struct Scenario {                    // one drawn workload; built anew for every trial, from choices drawn once
  virtual ~Scenario() { }
  virtual void start() { }           // make the objects; memory available
  virtual void op() = 0;             // the operation; allocations may fail. May throw. Called under Sut.
  virtual S result() = 0;            // what the last op delivered (and got wrong: reported() then)
  virtual bool reported() { return false; }     // the operation reported an error other than by throwing
  virtual bool prefix_ok(const S&, const S&) { return true; }   // what a failed operation delivered, against all of it
  virtual void check(const S&) { }   // invariants of the objects after a failure
  virtual bool silent_ok() { return false; }
};
typedef std::function<std::unique_ptr<Scenario>()> Maker;
Maker sax(), tree(), writer(), taggle(), xpath(), xslt();
void mutate();
void warm_xpath(); void warm_xslt();
}
#endif
