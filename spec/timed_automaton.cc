// Reference definitions: timed automata (P01, P05, P16, P19, P24).
#include "timed_automaton.hh"
#include <iostream>
namespace spec {
using Old2New = std::unordered_map<TAState *, std::shared_ptr<TAState>>;
// every state is copied once, the initial states are the copies of the initial states, and
// every transition of a copy leads to the copy of its target
void deepCopy(const TimedAutomaton &self, TimedAutomaton &dest, Old2New &old2new) {
  for (const auto &s : self.states) {
    std::shared_ptr<TAState> copy = std::make_shared<TAState>(*s);
    dest.states.push_back(copy);
    old2new[s.get()] = copy;
  }
  for (const auto &s : self.initialStates) dest.initialStates.push_back(old2new[s.get()]);
  for (auto &s : dest.states)
    for (auto &edges : s->next)
      for (TATransition &e : edges.second) e.target = old2new[e.target].get();
  dest.maxConstraints = self.maxConstraints;
}
std::size_t clockSize(const TimedAutomaton &self) { return self.maxConstraints.size(); }
using Config = std::pair<TAState *, std::valarray<double>>;
bool isMember(const TimedAutomaton &self, const std::vector<std::pair<Alphabet, double>> &w) {
  std::vector<Config> configs;
  for (const auto &s : self.initialStates) configs.emplace_back(s.get(), std::valarray<double>(0.0, self.maxConstraints.size()));
  for (std::size_t i = 0; i < w.size(); ++i) {
    std::vector<Config> successors;
    for (Config &c : configs) {
      c.second += i == 0 ? w[i].second : w[i].second - w[i - 1].second;
      const auto edges = c.first->next.find(w[i].first);
      if (edges == c.first->next.end()) continue;
      for (const TATransition &e : edges->second) {
        bool enabled = true;
        for (const Constraint &g : e.guard)
          if (!g.satisfy(c.second[g.x])) enabled = false;
        if (!enabled || !e.target) continue;
        Config s = c;
        s.first = e.target;
        for (ClockVariables x : e.resetVars) s.second[x] = 0;
        successors.push_back(s);
      }
    }
    configs = successors;
  }
  for (const Config &c : configs)
    if (c.first->isMatch) return true;
  return false;
}
// the text is in the language that the DOT reader accepts: every state with its attributes, then every transition
// with its label and, if there are any, its guard and its resets
std::ostream &printTA(std::ostream &os, const TimedAutomaton &TA) {
  std::unordered_map<TAState *, bool> isInit;
  std::unordered_map<TAState *, unsigned int> number;
  for (unsigned int i = 0; i < TA.states.size(); ++i) {
    TAState *s = TA.states[i].get();
    isInit[s] = std::find(TA.initialStates.begin(), TA.initialStates.end(), TA.states[i]) != TA.initialStates.end();
    number[s] = i + 1;
  }
  os << "digraph G {\n";
  for (const auto &s : TA.states) {
    os << "        loc" << number.at(s.get()) << " [init=" << isInit.at(s.get()) << ", match=" << s->isMatch;
    if (s->zeroDuration) os << ", zero_duration=" << s->zeroDuration;
    os << "]\n";
  }
  for (const auto &s : TA.states)
    for (const auto &edges : s->next)
      for (const TATransition &e : edges.second) {
        os << "        loc" << number.at(s.get()) << "->loc" << number.at(e.target) << " [label=\"" << edges.first << "\"";
        if (!e.guard.empty()) {
          os << ", guard=\"{";
          bool isFirst = true;
          for (const Constraint &g : e.guard) {
            if (!isFirst) os << ", ";
            os << g;
            isFirst = false;
          }
          os << "}\"";
        }
        if (!e.resetVars.empty()) {
          os << ", reset=\"{";
          bool isFirst = true;
          for (const ClockVariables x : e.resetVars) {
            if (!isFirst) os << ", ";
            os << static_cast<int>(x);
            isFirst = false;
          }
          os << "}\"";
        }
        os << "]\n";
      }
  os << "}\n";
  return os;
}
} // namespace spec
