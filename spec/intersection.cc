// Reference definitions: the product automaton (P12, P16, P19).
#include "intersection.hh"
namespace spec {
using Pair = std::pair<TAState *, TAState *>;
using Pairs = boost::unordered_map<Pair, std::shared_ptr<TAState>>;
void assume(bool);

// one transition of the product: both guards, both reset sets, the right clocks behind the left ones
void join(const Pairs &states, unsigned int leftClocks, const Pair &from, const Pair &to, const TATransition &e1, const TATransition &e2, char c) {
  const auto target = states.find(to);
  if (target == states.end()) return;
  TATransition e;
  e.target = target->second.get();
  e.resetVars = e1.resetVars;
  for (ClockVariables x : e2.resetVars) e.resetVars.push_back(x + leftClocks);
  e.guard = e1.guard;
  for (Constraint g : e2.guard) {
    g.x += leftClocks;
    e.guard.push_back(g);
  }
  states.at(from)->next[c].push_back(e);
}
void productStates(const TimedAutomaton &in1, const TimedAutomaton &in2, TimedAutomaton &out, Pairs &toIState) {
  for (const auto &s1 : in1.states)
    for (const auto &s2 : in2.states) {
      if (s1->zeroDuration != s2->zeroDuration) continue;
      std::shared_ptr<TAState> s = std::make_shared<TAState>(s1->isMatch && s2->isMatch);
      s->zeroDuration = s1->zeroDuration;
      toIState[std::make_pair(s1.get(), s2.get())] = s;
      out.states.push_back(s);
    }
  out.initialStates.clear();
  for (const auto &s1 : in1.initialStates)
    for (const auto &s2 : in2.initialStates)
      if (s1->zeroDuration == s2->zeroDuration) out.initialStates.push_back(toIState[std::make_pair(s1.get(), s2.get())]);
  out.maxConstraints.insert(out.maxConstraints.end(), in1.maxConstraints.begin(), in1.maxConstraints.end());
  out.maxConstraints.insert(out.maxConstraints.end(), in2.maxConstraints.begin(), in2.maxConstraints.end());
}
void intersectionTA(const TimedAutomaton &in1, const TimedAutomaton &in2, TimedAutomaton &out, Pairs &toIState) {
  productStates(in1, in2, out, toIState);
  const TATransition stay = {};
  for (const auto &s1 : in1.states)
    for (const auto &s2 : in2.states) {
      if (s1->zeroDuration != s2->zeroDuration) continue;
      const Pair here(s1.get(), s2.get());
      const auto silent1 = s1->next.find(0), silent2 = s2->next.find(0);
      if (silent1 != s1->next.end())
        for (const TATransition &e1 : silent1->second)
          if (e1.target) join(toIState, in1.clockSize(), here, Pair(e1.target, s2.get()), e1, stay, 0);
      if (silent2 != s2->next.end())
        for (const TATransition &e2 : silent2->second)
          if (e2.target) join(toIState, in1.clockSize(), here, Pair(s1.get(), e2.target), stay, e2, 0);
      for (const auto &edges1 : s1->next) {
        const auto edges2 = s2->next.find(edges1.first);
        if (edges2 == s2->next.end()) continue;
        for (const TATransition &e1 : edges1.second)
          for (const TATransition &e2 : edges2->second)
            if (e1.target && e2.target) join(toIState, in1.clockSize(), here, Pair(e1.target, e2.target), e1, e2, edges1.first);
      }
    }
}
void updateInitAccepting(const TimedAutomaton &in1, const TimedAutomaton &in2, TimedAutomaton &out, Pairs toIState) {
  out.initialStates.clear();
  for (const auto &s1 : in1.initialStates)
    for (const auto &s2 : in2.initialStates)
      if (s1->zeroDuration == s2->zeroDuration) out.initialStates.push_back(toIState[std::make_pair(s1.get(), s2.get())]);
  for (const auto &entry : toIState)
    if (entry.first.first && entry.first.second && entry.second) entry.second->isMatch = entry.first.first->isMatch && entry.first.second->isMatch;
}
// the product for signals: while both can read the same letter, either side may also move alone, silently
void intersectionSignalTA(const TimedAutomaton &in1, const TimedAutomaton &in2, TimedAutomaton &out) {
  Pairs toIState;
  for (const auto &s1 : in1.states)
    for (const auto &s2 : in2.states) {
      if (s1->zeroDuration != s2->zeroDuration) continue;
      std::shared_ptr<TAState> s = std::make_shared<TAState>(s1->isMatch && s2->isMatch);
      toIState[std::make_pair(s1.get(), s2.get())] = s;
      out.states.push_back(s);
    }
  out.initialStates.clear();
  for (const auto &s1 : in1.initialStates)
    for (const auto &s2 : in2.initialStates)
      if (s1->zeroDuration == s2->zeroDuration) out.initialStates.push_back(toIState[std::make_pair(s1.get(), s2.get())]);
  out.maxConstraints.insert(out.maxConstraints.end(), in1.maxConstraints.begin(), in1.maxConstraints.end());
  out.maxConstraints.insert(out.maxConstraints.end(), in2.maxConstraints.begin(), in2.maxConstraints.end());
  const TATransition stay = {};
  for (const auto &s1 : in1.states)
    for (const auto &s2 : in2.states) {
      if (s1->zeroDuration != s2->zeroDuration) continue;
      const Pair here(s1.get(), s2.get());
      const auto silent1 = s1->next.find(0), silent2 = s2->next.find(0);
      if (silent1 != s1->next.end())
        for (const TATransition &e1 : silent1->second)
          if (e1.target) join(toIState, in1.clockSize(), here, Pair(e1.target, s2.get()), e1, stay, 0);
      if (silent2 != s2->next.end())
        for (const TATransition &e2 : silent2->second)
          if (e2.target) join(toIState, in1.clockSize(), here, Pair(s1.get(), e2.target), stay, e2, 0);
      for (const auto &edges1 : s1->next) {
        const auto edges2 = s2->next.find(edges1.first);
        if (edges2 == s2->next.end()) continue;
        for (const TATransition &e1 : edges1.second)
          for (const TATransition &e2 : edges2->second)
            if (e1.target && e2.target) join(toIState, in1.clockSize(), here, Pair(e1.target, e2.target), e1, e2, edges1.first);
        for (const TATransition &e1 : edges1.second)
          if (e1.target) join(toIState, in1.clockSize(), here, Pair(e1.target, s2.get()), e1, stay, 0);
        for (const TATransition &e2 : edges2->second)
          if (e2.target) join(toIState, in1.clockSize(), here, Pair(s1.get(), e2.target), stay, e2, 0);
      }
    }
}
} // namespace spec
