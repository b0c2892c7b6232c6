// Reference definitions: the zone automaton (P08, P16, P27).
#include "ta2za.hh"
#include "zone_automaton.hh"
namespace spec {
using ZAStateP = std::shared_ptr<ZAState>;
// the least set that contains the given states and is closed under silent transitions
void epsilonClosure(std::unordered_set<ZAStateP> &closure) {
  std::deque<ZAStateP> todo(closure.begin(), closure.end());
  while (!todo.empty()) {
    for (const auto &successor : todo.front()->next[0]) {
      ZAStateP s = successor.lock();
      if (!s || closure.count(s)) continue;
      closure.insert(s);
      todo.push_back(s);
    }
    todo.pop_front();
  }
}
// a state of the zone automaton is initial (accepting) exactly if its state of the timed automaton is
void zaUpdateInitAccepting(ZoneAutomaton &self, const std::vector<std::shared_ptr<TAState>> taInitialStates) {
  self.initialStates.clear();
  for (const ZAStateP &s : self.states) {
    bool isInitial = false;
    for (const auto &q : taInitialStates)
      if (q.get() == s->taState) isInitial = true;
    if (isInitial) self.initialStates.push_back(s);
  }
  for (const ZAStateP &s : self.states) s->isMatch = s->taState->isMatch;
}
// is no accepting state reachable from an initial state?
bool zaEmpty(const ZoneAutomaton &self) {
  std::vector<ZAStateP> front = self.initialStates;
  std::unordered_set<ZAStateP> seen = {self.initialStates.begin(), self.initialStates.end()};
  while (!front.empty()) {
    std::vector<ZAStateP> fresh;
    for (const ZAStateP &s : front) {
      if (s->isMatch) return false;
      for (const auto &edges : s->next)
        for (const auto &edge : edges) {
          ZAStateP t = edge.lock();
          if (!t || seen.count(t)) continue;
          fresh.push_back(t);
          seen.insert(t);
        }
    }
    front = fresh;
  }
  return true;
}
// exactly the states from which an accepting state can be reached are kept
void removeDeadStates(ZoneAutomaton &self) {
  std::unordered_set<ZAStateP> live;
  bool grown = true;
  while (grown) {
    grown = false;
    for (const ZAStateP &s : self.states) {
      if (live.count(s)) continue;
      bool isLive = s->isMatch;
      for (const auto &edges : s->next)
        for (const auto &edge : edges)
          if (live.count(edge.lock())) isLive = true;
      if (isLive) {
        live.insert(s);
        grown = true;
      }
    }
  }
  self.states.erase(std::remove_if(self.states.begin(), self.states.end(), [&live](const ZAStateP &s) { return !live.count(s); }), self.states.end());
  self.initialStates.erase(std::remove_if(self.initialStates.begin(), self.initialStates.end(), [&live](const ZAStateP &s) { return !live.count(s); }), self.initialStates.end());
}
// the zone automaton: from each initial state with the given clock values, time passes, a transition whose guard
// can then hold is taken, its clocks are reset; each (state, zone) is added once and every step is recorded
void ta2za(const TimedAutomaton &TA, ZoneAutomaton &ZA, Zone initialZone) {
  if (initialZone.value.size() == 0) initialZone = Zone::zero(TA.clockSize() + 1);
  std::vector<std::shared_ptr<TAState>> fresh = TA.initialStates;
  fresh.erase(std::remove_if(fresh.begin(), fresh.end(), [&](const std::shared_ptr<TAState> &s) {
    return std::any_of(ZA.states.begin(), ZA.states.end(), [&](const ZAStateP &z) { return z->taState == s.get() && initialZone == z->zone; });
  }), fresh.end());
  if (fresh.empty()) return;
  initialZone.M = Bounds{TA.clockSize() > 0 ? *std::max_element(TA.maxConstraints.begin(), TA.maxConstraints.end()) : 0, true};
  std::vector<ZAStateP> todo;
  for (const auto &s : fresh) {
    ZA.states.push_back(std::make_shared<ZAState>(s.get(), initialZone));
    ZA.initialStates.push_back(ZA.states.back());
    todo.push_back(ZA.states.back());
  }
  while (!todo.empty()) {
    std::vector<ZAStateP> now = todo;
    todo.clear();
    for (const ZAStateP &conf : now) {
      Zone later = conf->zone;
      later.elapse();
      for (const auto &edges : conf->taState->next)
        for (const TATransition &e : edges.second) {
          if (!e.target) continue;
          Zone zone = later;
          for (const Constraint &g : e.guard) {
            const bool closed = g.odr == Constraint::Order::le || g.odr == Constraint::Order::ge;
            if (g.odr == Constraint::Order::lt || g.odr == Constraint::Order::le) zone.tighten(g.x, -1, {g.c, closed});
            else zone.tighten(-1, g.x, {-g.c, closed});
          }
          if (!zone.isSatisfiable()) continue;
          for (ClockVariables x : e.resetVars) zone.reset(x);
          zone.abstractize();
          zone.canonize();
          const auto known = std::find_if(ZA.states.begin(), ZA.states.end(), [&](const ZAStateP &z) { return z->taState == e.target && zone == z->zone; });
          if (known != ZA.states.end()) conf->next[edges.first].push_back(*known);
          else {
            ZA.states.push_back(std::make_shared<ZAState>(e.target, zone));
            conf->next[edges.first].push_back(ZA.states.back());
            todo.push_back(ZA.states.back());
          }
        }
    }
  }
}
} // namespace spec
