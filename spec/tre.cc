#include "tre.hh"
#include "intermediate_tre.hh"
#include <cmath>
#include <numeric>
#include <algorithm>
void concat2(TimedAutomaton &left, const TimedAutomaton &right);
void removeStuckStates(TimedAutomaton &out);
void reduceStates(TimedAutomaton &out);
void renameToEpsilonTransitions(TimedAutomaton &out);
namespace spec {
void assume(bool);
using StateP = std::shared_ptr<TAState>;
// every expression is written so that reading it again gives the same expression
std::ostream &printTre(std::ostream &out, const TRE &e) {
  if (e.tag == TRE::op::atom) out << e.c;
  if (e.tag == TRE::op::epsilon) out << '@';
  if (e.tag == TRE::op::plus) out << "(" << *e.regExpr << "+)";
  if (e.tag == TRE::op::concat) out << "(" << *e.regExprPair.first << *e.regExprPair.second << ")";
  if (e.tag == TRE::op::disjunction) out << "(" << *e.regExprPair.first << "|" << *e.regExprPair.second << ")";
  if (e.tag == TRE::op::conjunction) out << "(" << *e.regExprPair.first << "&" << *e.regExprPair.second << ")";
  if (e.tag == TRE::op::within) out << "(" << *e.regExprWithin.first << "%" << *e.regExprWithin.second << ")";
  return out;
}
// the maximal constants of two automata that use the same clocks
void shareClocks(TimedAutomaton &left, const TimedAutomaton &right) {
  std::vector<int> other = right.maxConstraints;
  const std::size_t n = std::max(left.maxConstraints.size(), other.size());
  left.maxConstraints.resize(n);
  other.resize(n);
  for (std::size_t i = 0; i < n; ++i) left.maxConstraints[i] = std::max(left.maxConstraints[i], other[i]);
}
// what left accepts is followed by what right accepts: whenever left could accept, right starts with all its clocks at zero
void concatTA(TimedAutomaton &left, const TimedAutomaton &right) {
  std::vector<ClockVariables> clocks(right.clockSize());
  std::iota(clocks.begin(), clocks.end(), 0);
  for (StateP &s : left.states)
    for (auto &edges : s->next) {
      std::vector<TATransition> more;
      for (TATransition &e : edges.second) {
        if (!e.target || !e.target->isMatch) continue;
        for (const StateP &q : right.initialStates) {
          TATransition t = e;
          t.target = q.get();
          t.resetVars = clocks;
          more.push_back(t);
          t.target->zeroDuration = false;
        }
      }
      edges.second.insert(edges.second.end(), more.begin(), more.end());
    }
  const bool acceptsEpsilon = std::any_of(left.initialStates.begin(), left.initialStates.end(), [](const StateP &q) { return q->isMatch; });
  if (acceptsEpsilon) left.initialStates.insert(left.initialStates.end(), right.initialStates.begin(), right.initialStates.end());
  for (StateP &s : left.states) s->isMatch = false;
  left.states.insert(left.states.end(), right.states.begin(), right.states.end());
  shareClocks(left, right);
}
// states that neither accept nor go anywhere are removed with all the transitions to them
void dropStuckStates(TimedAutomaton &out) {
  std::vector<TAState *> stuck;
  for (StateP &s : out.states)
    if (!s->isMatch && s->next.empty()) stuck.push_back(s.get());
  std::sort(stuck.begin(), stuck.end());
  for (StateP &s : out.states) {
    for (auto &edges : s->next)
      edges.second.erase(std::remove_if(edges.second.begin(), edges.second.end(),
                                        [&](const TATransition &e) { return std::binary_search(stuck.begin(), stuck.end(), e.target); }), edges.second.end());
    for (auto it = s->next.begin(); it != s->next.end();)
      if (it->second.empty()) it = s->next.erase(it);
      else ++it;
  }
  out.states.erase(std::remove_if(out.states.begin(), out.states.end(), [&](const StateP &s) { return std::binary_search(stuck.begin(), stuck.end(), s.get()); }), out.states.end());
  out.initialStates.erase(std::remove_if(out.initialStates.begin(), out.initialStates.end(), [&](const StateP &s) { return std::binary_search(stuck.begin(), stuck.end(), s.get()); }), out.initialStates.end());
}
// ... until there are none left
void dropAllStuckStates(TimedAutomaton &out) {
  while (true) {
    const std::size_t before = out.states.size();
    removeStuckStates(out);
    if (out.states.size() == before) return;
  }
}

// the guard that the new clock x is in the interval; an infinite bound is no bound
void addBounds(std::vector<Constraint> &guard, const TimedAutomaton &out, const Interval &interval) {
  const ClockVariables x = out.clockSize();
  if (!std::isinf(interval.upperBound.first)) {
    if (interval.upperBound.second) guard.push_back(TimedAutomaton::X(x) <= interval.upperBound.first);
    else guard.push_back(TimedAutomaton::X(x) < interval.upperBound.first);
  }
  if (interval.lowerBound.second) guard.push_back(TimedAutomaton::X(x) >= interval.lowerBound.first);
  else guard.push_back(TimedAutomaton::X(x) > interval.lowerBound.first);
}
// the states that accept and have no transitions become one, except those that stand for the empty word
void mergeTerminals(TimedAutomaton &out) {
  std::vector<StateP> terminals;
  for (StateP &s : out.states)
    if (s->isMatch && s->next.empty() && !s->zeroDuration) terminals.push_back(s);
  std::sort(terminals.begin(), terminals.end());
  for (StateP &s : out.states)
    for (auto &edges : s->next)
      for (TATransition &e : edges.second) {
        const bool isTerminal = std::find_if(terminals.begin(), terminals.end(), [&](const StateP &t) { return t.get() == e.target; }) != terminals.end();
        if (isTerminal) e.target = terminals.front().get();
      }
  if (terminals.size() <= 1) return;
  const auto dropped = [&](const StateP &s) { return std::binary_search(std::next(terminals.begin()), terminals.end(), s); };
  out.states.erase(std::remove_if(out.states.begin(), out.states.end(), dropped), out.states.end());
  std::sort(out.initialStates.begin(), out.initialStates.end());
  if (!std::binary_search(out.initialStates.begin(), out.initialStates.end(), terminals.front()) &&
      std::find_if(out.initialStates.begin(), out.initialStates.end(), dropped) != out.initialStates.end())
    out.initialStates.push_back(terminals.front());
  out.initialStates.erase(std::remove_if(out.initialStates.begin(), out.initialStates.end(), dropped), out.initialStates.end());
}
// the automaton of an expression over events
void eventTA(const TRE &self, TimedAutomaton &out) {
  switch (self.tag) {
  case TRE::op::atom:
    out.states.resize(2);
    for (StateP &s : out.states) s = std::make_shared<TAState>();
    out.initialStates = {out.states[0]};
    out.states[0]->isMatch = false;
    out.states[1]->isMatch = true;
    out.states[0]->next[self.c].push_back({out.states[1].get(), {}, {}});
    out.maxConstraints.clear();
    break;
  case TRE::op::epsilon:
    out.states.resize(1);
    out.states[0] = std::make_shared<TAState>();
    out.initialStates = {out.states[0]};
    out.states[0]->isMatch = true;
    out.states[0]->zeroDuration = true;
    out.maxConstraints.clear();
    break;
  case TRE::op::plus:
    // a transition to acceptance may also start the next round, with all clocks at zero
    self.regExpr->toEventTA(out);
    for (const StateP &s : out.states)
      for (auto &edges : s->next) {
        std::vector<TATransition> again;
        for (TATransition e : edges.second) {
          if (!e.target || !e.target->isMatch || e.target->zeroDuration) continue;
          for (const StateP &q : out.initialStates) {
            if (q->zeroDuration) continue;
            TATransition t = e;
            t.target = q.get();
            for (std::size_t x = 0; x < out.clockSize(); x++) t.resetVars.push_back(x);
            again.push_back(t);
          }
        }
        edges.second.insert(edges.second.end(), again.begin(), again.end());
      }
    break;
  case TRE::op::concat: {
    self.regExprPair.first->toEventTA(out);
    TimedAutomaton right;
    self.regExprPair.second->toEventTA(right);
    concat2(out, right);
    break;
  }
  case TRE::op::disjunction: {
    self.regExprPair.first->toEventTA(out);
    TimedAutomaton other;
    self.regExprPair.second->toEventTA(other);
    out.states.insert(out.states.end(), other.states.begin(), other.states.end());
    out.initialStates.insert(out.initialStates.end(), other.initialStates.begin(), other.initialStates.end());
    shareClocks(out, other);
    break;
  }
  case TRE::op::conjunction: {
    TimedAutomaton left, right;
    self.regExprPair.first->toEventTA(left);
    self.regExprPair.second->toEventTA(right);
    boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> toProduct;
    intersectionTA(left, right, out, toProduct);
    break;
  }
  case TRE::op::within: {
    // a transition to acceptance also asks for the new clock to be in the interval
    self.regExprWithin.first->toEventTA(out);
    const Interval &I = *self.regExprWithin.second;
    bool needed = false;
    StateP accepting = std::make_shared<TAState>(true);
    // the empty word lasts no time: it is kept when the interval contains zero
    if (I.lowerBound != Bounds{0, true} || I.upperBound < Bounds{0, true}) {
      out.initialStates.erase(std::remove_if(out.initialStates.begin(), out.initialStates.end(), [](const StateP &s) { return s->zeroDuration; }), out.initialStates.end());
      for (const StateP &s : out.states) s->zeroDuration = false;
    }
    for (const StateP &s : out.states)
      for (auto &edges : s->next) {
        std::vector<TATransition> more;
        for (TATransition &e : edges.second) {
          if (!e.target || !e.target->isMatch) continue;
          if (e.target->next.empty()) addBounds(e.guard, out, I);
          else {
            needed = true;
            TATransition t = e;
            t.target = accepting.get();
            addBounds(t.guard, out, I);
            more.push_back(t);
          }
        }
        edges.second.insert(edges.second.end(), more.begin(), more.end());
      }
    for (const StateP &s : out.states)
      if (!s->next.empty()) s->isMatch = false;
    if (needed) out.states.push_back(accepting);
    out.maxConstraints.push_back(std::max(I.lowerBound.first, std::isinf(I.upperBound.first) ? 0.0 : I.upperBound.first));
    break;
  }
  }
  mergeTerminals(out);
  reduceStates(out);
}
// a node has the kind and the parts it is made with; repeating a repetition is the same repetition
TRE::op &kindOf(const TRE &e) { return const_cast<TRE::op &>(e.tag); }
void treEpsilon(TRE &self, TRE::op kind) {
  assume(kind == TRE::op::epsilon);
  kindOf(self) = kind;
}
void treLetter(TRE &self, TRE::op kind, char c) {
  assume(kind == TRE::op::atom);
  kindOf(self) = kind;
  const_cast<char &>(self.c) = c;
}
void trePlus(TRE &self, TRE::op kind, const std::shared_ptr<TRE> e) {
  assume(kind == TRE::op::plus);
  kindOf(self) = kind;
  const_cast<std::shared_ptr<TRE> &>(self.regExpr) = e->tag == TRE::op::plus ? e->regExpr : e;
}
void trePair(TRE &self, TRE::op kind, const std::shared_ptr<TRE> x, const std::shared_ptr<TRE> y) {
  assume(kind == TRE::op::disjunction || kind == TRE::op::conjunction || kind == TRE::op::concat);
  kindOf(self) = kind;
  const_cast<std::pair<std::shared_ptr<TRE>, std::shared_ptr<TRE>> &>(self.regExprPair) = std::make_pair(x, y);
}
void treWithin(TRE &self, TRE::op kind, const std::shared_ptr<TRE> x, const std::shared_ptr<Interval> i) {
  assume(kind == TRE::op::within);
  kindOf(self) = kind;
  const_cast<std::pair<std::shared_ptr<TRE>, std::shared_ptr<Interval>> &>(self.regExprWithin) = std::make_pair(x, i);
}
} // namespace spec
